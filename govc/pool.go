package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// When a function has other locals or loops than when its contract was written, and its proof fails as it stands,
// the proof is tried once more with the loop clauses of the contract as candidates: under every type-compatible
// reading of the names of locals, those readings that hold are kept. What is to be proved about the function
// (requires, ensures, frame) is never touched by this.

const maxReadings = 16

type reading struct {
	label string
	get   map[string]func(st *State) (Val, bool)
}

type poolClause struct {
	name  string
	plain bool // no renaming
	cand  string
	f     func(st *State) *Term
}

func (x *Exec) countLoops(fr *frame) int {
	n := 0
	x.P.numberLoops(fr.owner().body, &n, 0)
	return n
}

// poolLoops gives the loops of the contract that a loop of the code may be.
func (x *Exec) poolLoops(ord int) []int {
	var r []int
	if x.fr.spec == nil {
		return nil
	}
	base := x.P.baseline[x.fr.owner().key]
	if base == nil || len(base.Loops) == x.countLoops(x.fr) {
		return []int{ord}
	}
	for o := range x.fr.spec.loops {
		r = append(r, o)
	}
	sort.Ints(r)
	return r
}

// visible lists the variables that can be named at a position, innermost first.
func (x *Exec) visible(pos token.Pos, fr *frame, st *State, L *loopDef) []types.Object {
	var r []types.Object
	at := pos
	for f := x.frameAt(pos, fr); f != nil; f = f.adopted {
		in := x.P.pkg.Scope().Innermost(at)
		for sc := in; sc != nil && sc != x.P.pkg.Scope(); sc = sc.Parent() {
			ns := append([]string(nil), sc.Names()...)
			sort.Strings(ns)
			for _, n := range ns {
				o := sc.Lookup(n)
				if _, q := in.LookupParent(n, at); q != o {
					continue
				}
				_, ok := st.vars[o]
				if !ok && L != nil {
					_, ok = L.alias[o]
				}
				if ok {
					r = append(r, o)
				}
			}
		}
		at = f.callPos
	}
	return r
}

func freeNames(e SE, bound map[string]bool, out map[string]bool) {
	with := func(ns []string, f func()) {
		var set []string
		for _, n := range ns {
			if !bound[n] {
				bound[n] = true
				set = append(set, n)
			}
		}
		f()
		for _, n := range set {
			delete(bound, n)
		}
	}
	switch n := e.(type) {
	case sId:
		if !bound[n.name] {
			out[n.name] = true
		}
	case sBin:
		freeNames(n.l, bound, out)
		freeNames(n.r, bound, out)
	case sUn:
		freeNames(n.x, bound, out)
	case sIf:
		freeNames(n.c, bound, out)
		freeNames(n.a, bound, out)
		freeNames(n.b, bound, out)
	case sLet:
		freeNames(n.v, bound, out)
		with([]string{n.name}, func() { freeNames(n.b, bound, out) })
	case sIdx:
		freeNames(n.x, bound, out)
		freeNames(n.i, bound, out)
	case sSel:
		freeNames(n.x, bound, out)
	case sCall:
		for _, a := range n.args {
			freeNames(a, bound, out)
		}
	case sQuant:
		var vs []string
		for _, v := range n.vars {
			vs = append(vs, v.name)
		}
		with(vs, func() { freeNames(n.body, bound, out) })
	}
}

// readings gives the ways to read the names of locals in a clause of loop o of the contract (0: of no loop).
func (x *Exec) readings(e SE, o int, L *loopDef, id string, pos token.Pos, st *State) []reading {
	fr := x.fr
	own := fr.owner()
	names := map[string]bool{}
	freeNames(e, map[string]bool{}, names)
	fixed := map[string]bool{}
	if fr.spec != nil {
		for _, p := range append(append([]string(nil), fr.spec.params...), fr.spec.results...) {
			fixed[p] = true
		}
		for _, g := range fr.spec.ghosts {
			fixed[g.name] = true
		}
	}
	base := x.P.baseline[own.key]
	var was map[string]bool // assigned in the loop when the contract was written
	var is map[types.Object]bool
	if L != nil && base != nil && o > 0 && o <= len(base.Loops) {
		was = map[string]bool{}
		for _, n := range base.Loops[o-1] {
			was[n] = true
		}
		is = x.P.assigned(L.node)
	}
	vis := x.visible(pos, fr, st, L)
	isParam := map[types.Object]bool{}
	for _, p := range paramObjs(own.sig) {
		isParam[p] = true
	}
	type option struct {
		label string
		get   func(st *State) (Val, bool)
	}
	value := func(v types.Object) func(st *State) (Val, bool) {
		return func(st *State) (Val, bool) {
			if L != nil {
				if f, ok := L.alias[v]; ok {
					return f(st)
				}
			}
			return x.valueOf(st, v)
		}
	}
	rs := []reading{{get: map[string]func(st *State) (Val, bool){}}}
	used := []map[string]bool{{}}
	for _, n := range sortedSet(names) {
		if fixed[n] {
			continue
		}
		var opts []option
		if strings.HasPrefix(n, "$i") && len(n) > 2 {
			for _, g := range keys(stGhosts(st)) {
				if strings.HasPrefix(g, "$i:"+fr.path) && g != "$i:"+id {
					g := g
					opts = append(opts, option{g, func(st *State) (Val, bool) { v, ok := st.ghost[g]; return v, ok }})
				}
			}
		} else if base != nil {
			ts := map[string]bool{}
			for _, v := range base.Locals {
				if v.Name == n {
					ts[v.Type] = true
				}
			}
			if len(ts) == 0 {
				continue
			}
			for _, same := range []bool{true, false} {
				for _, v := range vis {
					if (v.Name() == n) != same || !ts[x.P.typeText(v.Type())] {
						continue
					}
					if was != nil && was[n] != is[v] {
						continue
					}
					if !same && isParam[v] {
						continue
					}
					lb := v.Name()
					if same {
						lb = ""
					}
					opts = append(opts, option{lb, value(v)})
				}
				if same && len(opts) > 0 {
					break
				}
			}
			if r, ok := nodeOf(L).(*ast.RangeStmt); ok && ts["int"] && was[n] && (r.Key == nil || isBlank(r.Key)) && !(len(opts) == 1 && opts[0].label == "") {
				g := "$i:" + id
				opts = append([]option{{"$i", func(st *State) (Val, bool) { v, ok := st.ghost[g]; return v, ok }}}, opts...)
			}
			if ts["int"] && was != nil && !was[n] && !(len(opts) == 1 && opts[0].label == "") {
				for _, a := range x.active {
					r, ok := a.L.node.(*ast.RangeStmt)
					if ok && a.id != id && (r.Key == nil || isBlank(r.Key)) {
						g := "$i:" + a.id
						opts = append([]option{{g, func(st *State) (Val, bool) { v, ok := st.ghost[g]; return v, ok }}}, opts...)
					}
				}
			}
			counter := func(st *State) (Val, bool) { v, ok := st.ghost["$i:"+id]; return v, ok }
			for l := 1; l <= len(base.Loops); l++ {
				d := parseSE(base.Starts[fmt.Sprintf("%d %s", l, n)])
				if d == nil || L == nil || fr.adopted == nil || (l == o) != was[n] {
					continue
				}
				// the loop counts from elsewhere now
				for i := len(x.active) - 1; i >= 0; i-- {
					a := x.active[i].id
					if (a == id) != (l == o) {
						continue
					}
					opts = append(opts, option{"start+$i:" + a, func(st *State) (v Val, ok bool) {
						defer func() {
							if recover() != nil {
								ok = false
							}
						}()
						e := x.invEnv(st, L, id, own.entry)
						e.look = x.lookAt(fr, L, id, pos)
						c, ok := st.ghost["$i:"+a]
						if !ok {
							return v, false
						}
						return one(tyInt, add(e.eval(d).C[0], c.C[0])), true
					}})
				}
			}
			if ts["int"] && was[n] && L != nil && len(opts) == 0 {
				opts = append(opts, option{"$i", counter})
			}
			if d := parseSE(base.Defs[n]); d != nil && !(len(opts) > 0 && opts[0].label == "") {
				look := x.lookAt(fr, L, id, pos)
				opts = append(opts, option{"def", func(st *State) (v Val, ok bool) {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					e := x.invEnv(st, L, id, own.entry)
					e.look = look
					return e.eval(d), true
				}})
			}
			if len(opts) == 0 {
				// a name of another role
				for _, v := range vis {
					if v.Name() == n {
						opts = append(opts, option{"", value(v)})
						break
					}
				}
			}
		} else {
			continue
		}
		var rs2 []reading
		var used2 []map[string]bool
		for i, r := range rs {
			for _, op := range opts {
				if op.label != "" && used[i][op.label] {
					continue
				}
				q := reading{label: r.label, get: map[string]func(st *State) (Val, bool){}}
				for k, v := range r.get {
					q.get[k] = v
				}
				q.get[n] = op.get
				u := map[string]bool{}
				for k := range used[i] {
					u[k] = true
				}
				if op.label != "" {
					u[op.label] = op.label != "def"
					q.label += " " + n + "=" + op.label
				}
				rs2 = append(rs2, q)
				used2 = append(used2, u)
			}
		}
		rs, used = rs2, used2
		if len(rs) > maxReadings {
			rs, used = rs[:maxReadings], used[:maxReadings]
		}
	}
	return rs
}

func stGhosts(st *State) map[string]bool {
	m := map[string]bool{}
	for g := range st.ghost {
		m[g] = true
	}
	return m
}

func nodeOf(L *loopDef) ast.Node {
	if L == nil {
		return nil
	}
	return L.node
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// pool gives the readings of a clause that can be evaluated in st.
func (x *Exec) pool(kind string, i int, c Clause, o int, L *loopDef, id string, pos, look token.Pos, st *State, env func(st *State) *Env) []poolClause {
	nm := c.name
	if nm == "" {
		nm = fmt.Sprintf("%d", i+1)
	}
	var r []poolClause
	fr := x.fr
	for _, rd := range x.readings(c.e, o, L, id, pos, st) {
		rd := rd
		p := poolClause{plain: rd.label == "", name: fmt.Sprintf("%s %s%s", kind, nm, rd.label), f: func(st *State) *Term {
			e := env(st)
			base := x.lookAt(fr, L, id, look)
			e.look = func(name string, st *State) (Val, bool) {
				if g, ok := rd.get[name]; ok {
					return g(st)
				}
				return base(name, st)
			}
			return e.boolT(c.e)
		}}
		p.cand = fmt.Sprintf("pool %s@%d %s #%d", id, pos, p.name, i)
		if x.evaluates(p.f, st) {
			r = append(r, p)
		}
	}
	return r
}

func (x *Exec) evaluates(f func(st *State) *Term, st *State) (ok bool) {
	nf := len(x.facts)
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case unresolved, specErr, unsupported:
				x.facts = x.facts[:nf]
				ok = false
			default:
				x.facts = x.facts[:nf]
				ok = false
			}
		}
	}()
	f(st)
	return true
}

func headPos(L *loopDef) token.Pos {
	switch n := L.node.(type) {
	case *ast.ForStmt:
		return n.Body.Lbrace
	case *ast.RangeStmt:
		return n.Body.Lbrace
	}
	return L.node.End() - 1
}

func bodyEnd(L *loopDef) token.Pos {
	switch n := L.node.(type) {
	case *ast.ForStmt:
		return n.Body.Rbrace
	case *ast.RangeStmt:
		return n.Body.Rbrace
	}
	return L.node.End() - 1
}

// poolInvariants: the invariants of the contract under type-compatible renamings, as candidates.
func (x *Exec) poolInvariants(id string, ord int, L *loopDef, pre, head *State) []invariant {
	var r []invariant
	for _, o := range x.poolLoops(ord) {
		ls := x.fr.spec.loops[o]
		if ls == nil {
			continue
		}
		for i, c := range ls.inv {
			for _, p := range x.pool(fmt.Sprintf("loop %d invariant", o), i, c, o, L, id, headPos(L), token.NoPos, head, func(st *State) *Env { return x.invEnv(st, L, id, pre) }) {
				r = append(r, invariant{name: p.name, cand: p.cand, f: p.f, pool: true, plain: p.plain})
			}
		}
	}
	return r
}

// tryClauses proves the clauses that hold in st, and assumes them.
func (x *Exec) tryClauses(st *State, ps []poolClause, n ast.Node) {
	for _, p := range ps {
		if x.dropped[p.cand] {
			continue
		}
		g := p.f(st)
		if ob := x.oblige(st, p.name, g, n); ob != nil {
			ob.cand = &candidate{key: p.cand, pool: true, plain: p.plain}
		}
		x.fact(st, g)
	}
}

// poolSpec gathers the loop clauses of one kind.
func (x *Exec) poolTry(kind string, get func(ls *LoopSpec) []Clause, ord int, L *loopDef, id string, pos token.Pos, st, pre *State, n ast.Node) {
	for _, o := range x.poolLoops(ord) {
		ls := x.fr.spec.loops[o]
		if ls == nil {
			continue
		}
		for i, c := range get(ls) {
			x.tryClauses(st, x.pool(fmt.Sprintf("loop %d %s", o, kind), i, c, o, L, id, pos, pos, st, func(st *State) *Env { return x.invEnv(st, L, id, pre) }), n)
		}
	}
}

func tailIfs(list []ast.Stmt, m map[*ast.IfStmt]bool) {
	if len(list) == 0 {
		return
	}
	var st ast.Stmt = list[len(list)-1]
	for {
		n, ok := st.(*ast.IfStmt)
		if !ok {
			return
		}
		m[n] = true
		tailIfs(n.Body.List, m)
		switch e := n.Else.(type) {
		case *ast.BlockStmt:
			tailIfs(e.List, m)
			return
		case *ast.IfStmt:
			st = e
		default:
			return
		}
	}
}
