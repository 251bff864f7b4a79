package main

import (
	"go/ast"
	"sort"
)

// Loops whose body is looked at one way at a time: nothing is merged before the end of the body, and what is known on one
// way is not carried along on the others.

func (x *Exec) byPaths(n *ast.ForStmt, ord int) bool {
	if x.fr.spec == nil || !x.fr.top {
		return false
	}
	if !x.poolMode {
		ls := x.fr.spec.loops[ord]
		return ls != nil && ls.paths
	}
	for _, ls := range x.fr.spec.loops {
		if ls.paths {
			for _, st := range n.Body.List {
				if _, ok := st.(*ast.SelectStmt); ok {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) iteratePaths(s *State, L *loopDef, tg *target) {
	outer := x.fr.targets
	saved := x.pathFacts
	x.pathFacts = nil
	end := func(e *State) {
		if e == nil || e.pc == tFalse {
			return
		}
		if L.post != nil {
			if e = L.post(e.clone()); e == nil {
				return
			}
		}
		x.nameHeap(e)
		L.atEnd(e)
	}
	brk := L.atBrk
	tg.atBrk, tg.atEnd = func(b *State) { x.nameHeap(b); brk(b) }, end
	x.pathBlock(s, L.stmts, end)
	x.fr.targets = outer[:len(outer)-1]
	x.facts = append(x.facts, x.pathFacts...)
	x.pathFacts = saved
}

// nameHeap gives names to the parts of the state that are written out as updates, for the triggers.
func (x *Exec) nameHeap(s *State) {
	var keys []string
	for k, t := range s.heap {
		if t.op == "store" || t.op == "ite" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		c := fresh(k, s.heap[k].sort)
		x.fact(s, eq(c, s.heap[k]))
		s.heap[k] = c
	}
}

// alone runs one of several ways on from here.
func (x *Exec) alone(f func()) {
	base := len(x.facts)
	f()
	x.pathFacts = append(x.pathFacts, x.facts[base:]...)
	x.facts = x.facts[:base:base]
}

func (x *Exec) pathBlock(s *State, list []ast.Stmt, k func(*State)) {
	for i, st := range list {
		if s == nil || s.pc == tFalse {
			return
		}
		rest := list[i+1:]
		on := func(e *State) { x.pathBlock(e, rest, k) }
		switch n := st.(type) {
		case *ast.IfStmt:
			if n.Init != nil {
				if s = x.stmt(s, n.Init); s == nil {
					return
				}
			}
			a, b := x.split(s, x.expr(s, n.Cond).C[0])
			x.alone(func() { x.pathBlock(a, n.Body.List, on) })
			x.alone(func() {
				if n.Else != nil {
					x.pathBlock(b, []ast.Stmt{n.Else}, on)
				} else {
					on(b)
				}
			})
			return
		case *ast.BlockStmt:
			x.pathBlock(s, n.List, on)
			return
		case *ast.SelectStmt:
			x.pathSelect(s, n, on)
			return
		}
		s = x.block(s, []ast.Stmt{st})
	}
	if s != nil && s.pc != tFalse {
		k(s)
	}
}

func (x *Exec) pathSelect(s *State, n *ast.SelectStmt, on func(*State)) {
	outer := x.fr.targets
	leave := func(e *State) {
		in := x.fr.targets
		x.fr.targets = append([]*target{}, outer...)
		on(e)
		x.fr.targets = in
	}
	tg := &target{}
	x.fr.targets = append(append([]*target{}, outer...), tg)
	cur := s
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			unsup("select with default")
		}
		if cur == nil {
			break
		}
		var a *State
		if i == len(n.Body.List)-1 {
			a, cur = cur, nil
		} else {
			a, cur = x.split(cur, fresh("case", SBool))
		}
		x.alone(func() {
			a = x.comm(a, cc)
			x.pathBlock(a, cc.Body, leave)
			for len(tg.brk) > 0 {
				b := tg.brk[0]
				tg.brk = tg.brk[1:]
				leave(b)
			}
		})
	}
	x.fr.targets = outer
}

// comm is the communication of a case.
func (x *Exec) comm(a *State, cc *ast.CommClause) *State {
	sel := x.inSelect
	x.inSelect = true
	pre := a.clone()
	a = x.stmt(a, cc.Comm)
	x.inSelect = sel
	x.guarantee(pre, a, cc.Comm)
	return a
}

// findPathsLoop: when a function has one loop around a select, that is the loop a paths clause is about, wherever it stands.
func (x *Exec) findPathsLoop(con *Contract, t *ordTree) {
	want := 0
	for o, ls := range con.loops {
		if ls.paths {
			if want != 0 {
				return
			}
			want = o
		}
	}
	if want == 0 {
		return
	}
	var sel, old map[ast.Node]int
	var selNode, oldNode ast.Node
	many := false
	var walk func(t *ordTree)
	walk = func(t *ordTree) {
		for n, o := range t.ords {
			if o == want {
				old, oldNode = t.ords, n
			}
			if f, ok := n.(*ast.ForStmt); ok {
				for _, st := range f.Body.List {
					if _, ok := st.(*ast.SelectStmt); ok {
						many = many || sel != nil
						sel, selNode = t.ords, n
					}
				}
			}
		}
		for _, c := range t.calls {
			walk(c)
		}
	}
	walk(t)
	if sel == nil || many || selNode == oldNode {
		return
	}
	was := sel[selNode]
	sel[selNode] = want
	if old != nil {
		old[oldNode] = was
	}
}
