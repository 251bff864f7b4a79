package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type loopDef struct {
	stmts  []ast.Stmt   // the body, where each way through it is looked at on its own
	atEnd  func(*State) // what holds at the end of such a way
	atBrk  func(*State)
	node   ast.Node
	label  string
	nondet bool
	ghosts map[string]Val // initial values
	facts  func(st *State) *Term
	guard  func(st *State) *Term
	body   func(st *State) *State
	post   func(st *State) *State
	alias  map[types.Object]func(st *State) (Val, bool) // range variables at the loop head
	bounds func(st *State) []*Term                      // candidate facts
}

func (x *Exec) loopID(n ast.Node) (string, int) {
	o := x.fr.ords[n]
	return fmt.Sprintf("%sloop%d", x.fr.path, o), o
}

func (x *Exec) forStmt(s *State, n *ast.ForStmt, label string) *State {
	if n.Init != nil {
		s = x.stmt(s, n.Init)
		if s == nil {
			return nil
		}
	}
	L := &loopDef{node: n, label: label}
	if n.Cond != nil {
		L.guard = func(st *State) *Term { return x.expr(st, n.Cond).C[0] }
		L.bounds = func(st *State) []*Term { return x.guardBounds(st, n.Cond) }
	}
	L.body = func(st *State) *State { return x.block(st, n.Body.List) }
	if _, ord := x.loopID(n); x.byPaths(n, ord) {
		L.stmts = n.Body.List
	}
	if n.Post != nil {
		L.post = func(st *State) *State { return x.stmt(st, n.Post) }
	}
	if id, ord := x.loopID(n); x.countsIterations(ord) {
		// $i: the number of iterations done
		gi := "$i:" + id
		L.ghosts = map[string]Val{gi: one(tyInt, mkInt(0))}
		L.facts = func(st *State) *Term { return le(mkInt(0), st.ghost[gi].C[0]) }
		post := L.post
		L.post = func(st *State) *State {
			st.ghost[gi] = one(tyInt, add(st.ghost[gi].C[0], mkInt(1)))
			if post != nil {
				return post(st)
			}
			return st
		}
	}
	return x.runLoop(s, L)
}

// countsIterations reports whether the contract mentions the iteration counter of the loop.
func (x *Exec) countsIterations(ord int) bool {
	if x.fr.spec == nil {
		return false
	}
	if x.poolMode {
		return len(x.fr.spec.loops) > 0
	}
	name := fmt.Sprintf("$i%d", ord)
	for o, ls := range x.fr.spec.loops {
		cs := append(append(append(append([]Clause(nil), ls.inv...), ls.step...), ls.brk...), ls.after...)
		for _, h := range ls.hooks {
			cs = append(cs, h.Clause)
		}
		for _, c := range cs {
			if o == ord && mentions(c.e, "$i") || mentions(c.e, name) {
				return true
			}
		}
	}
	return false
}

// guardBounds gives candidate facts derived from a loop condition such as i < n.
func (x *Exec) guardBounds(st *State, c ast.Expr) []*Term {
	var r []*Term
	b, ok := ast.Unparen(c).(*ast.BinaryExpr)
	if !ok {
		return nil
	}
	if b.Op == token.LAND {
		return append(x.guardBounds(st, b.X), x.guardBounds(st, b.Y)...)
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
		}
	}()
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		x.rec++
		cl := st.clone()
		nf := len(x.facts)
		p := x.expr(cl, b.X)
		q := x.expr(cl, b.Y)
		x.facts = append([]*Term{}, x.facts[:nf]...)
		x.rec--
		if len(p.C) != 1 || len(q.C) != 1 || p.C[0].sort != SInt || q.C[0].sort != SInt || layout(p.T)[0].kind != 'v' {
			return nil
		}
		switch b.Op {
		case token.LSS, token.NEQ:
			r = append(r, le(p.C[0], q.C[0]))
		case token.LEQ:
			r = append(r, le(p.C[0], add(q.C[0], mkInt(1))))
		case token.GTR:
			r = append(r, ge(p.C[0], q.C[0]))
		case token.GEQ:
			r = append(r, ge(p.C[0], sub(q.C[0], mkInt(1))))
		}
	}
	return r
}

func (x *Exec) rangeStmt(s *State, n *ast.RangeStmt, label string) *State {
	id, _ := x.loopID(n)
	gi := "$i:" + id
	xt := x.typeOf(n.X)
	L := &loopDef{node: n, label: label, ghosts: map[string]Val{}, alias: map[types.Object]func(st *State) (Val, bool){}}
	bind := func(st *State, e ast.Expr, v Val) {
		if e == nil {
			return
		}
		x.assign(st, e, v, n.Tok == token.DEFINE)
	}
	keyAlias := func(e ast.Expr, f func(st *State) (Val, bool)) {
		if idn, ok := e.(*ast.Ident); ok && idn.Name != "_" && n.Tok == token.DEFINE {
			L.alias[x.P.info.Defs[idn]] = f
		}
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice, *types.Basic:
		v := x.expr(s, n.X)
		var ln *Term
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			ln = v.C[2]
			et = sl.Elem()
		} else if v.C[0].sort == SInt {
			ln = v.C[0]
			ln = ite(le(mkInt(0), ln), ln, mkInt(0))
		} else {
			unsup("range over %s", xt)
		}
		L.ghosts[gi] = one(tyInt, mkInt(0))
		L.facts = func(st *State) *Term {
			i := st.ghost[gi].C[0]
			return and(le(mkInt(0), i), le(i, ln))
		}
		L.guard = func(st *State) *Term { return lt(st.ghost[gi].C[0], ln) }
		keyAlias(n.Key, func(st *State) (Val, bool) { g, ok := st.ghost[gi]; return g, ok })
		L.body = func(st *State) *State {
			i := st.ghost[gi].C[0]
			if n.Key != nil {
				bind(st, n.Key, one(tyInt, i))
			}
			if n.Value != nil && et != nil {
				e := loadElem(st, et, v.C[0], ixT(v.C[1], i), 0, len(layout(et)), et)
				x.typeFacts(st, e)
				bind(st, n.Value, e)
			}
			return x.block(st, n.Body.List)
		}
		L.post = func(st *State) *State {
			st.ghost[gi] = one(tyInt, add(st.ghost[gi].C[0], mkInt(1)))
			return st
		}
	case *types.Map:
		v := x.expr(s, n.X)
		gv := "$visited:" + id
		ks := layout(u.Key())
		es := layout(u.Elem())
		if len(ks) != 1 || len(es) != 1 {
			unsup("range over %s", xt)
		}
		asort := "(Array " + ks[0].sort + " Bool)"
		L.ghosts[gv] = Val{&SeqT{tyBool}, []*Term{constArr(asort, tFalse)}}
		_, d0, _, _ := mapHeaps(s, u)
		dom := sel(d0, v.C[0])
		k0 := freshVar("k", ks[0].sort)
		L.facts = func(st *State) *Term {
			vis := st.ghost[gv].C[0]
			return forall([]*Term{k0}, [][]*Term{{sel(vis, k0)}}, implies(sel(vis, k0), sel(dom, k0)))
		}
		w := fresh("unvisited", SBool)
		L.guard = func(st *State) *Term {
			vis := st.ghost[gv].C[0]
			w = fresh("unvisited", SBool)
			k := freshVar("k", ks[0].sort)
			x.factU(implies(not(w), forall([]*Term{k}, [][]*Term{{sel(dom, k)}, {sel(vis, k)}}, eq(sel(vis, k), sel(dom, k)))))
			return w
		}
		L.body = func(st *State) *State {
			vis := st.ghost[gv].C[0]
			k := fresh("key", ks[0].sort)
			x.fact(st, and(sel(dom, k), not(sel(vis, k))))
			st.ghost[gv] = Val{st.ghost[gv].T, []*Term{store(vis, k, tTrue)}}
			if n.Key != nil {
				bind(st, n.Key, one(u.Key(), k))
			}
			if n.Value != nil {
				_, _, _, m := mapHeaps(st, u)
				e := one(u.Elem(), sel(sel(m, v.C[0]), k))
				x.typeFacts(st, e)
				bind(st, n.Value, e)
			}
			x.notes["a map is not changed in its key set while it is ranged over"] = true
			return x.block(st, n.Body.List)
		}
	case *types.Chan:
		if ch := x.expr(s, n.X); x.roleOf(ch.C[0]) != nil {
			unsup("range over a channel of goroutines")
		} else {
			x.stray(ch.C[0])
		}
		L.nondet = true
		L.body = func(st *State) *State {
			v := x.recvMsg(st, n.X, u.Elem(), n)
			if n.Key != nil {
				bind(st, n.Key, v)
			}
			return x.block(st, n.Body.List)
		}
	default:
		unsup("range over %s", xt)
	}
	return x.runLoop(s, L)
}

type compRef struct {
	o types.Object
	i int
}

type loopMod struct {
	vars   map[compRef]bool
	heaps  map[string]bool
	alloc  bool
	ghosts map[string]bool
}

func (m *loopMod) size() int {
	n := len(m.vars) + len(m.heaps) + len(m.ghosts)
	if m.alloc {
		n++
	}
	return n
}

func (m *loopMod) objs() []types.Object {
	seen := map[types.Object]bool{}
	var r []types.Object
	for c := range m.vars {
		if !seen[c.o] {
			seen[c.o] = true
			r = append(r, c.o)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Pos() != r[j].Pos() {
			return r[i].Pos() < r[j].Pos()
		}
		return r[i].Name() < r[j].Name()
	})
	return r
}

// havocLoop gives the state at an arbitrary iteration.
func (x *Exec) havocLoop(s *State, m *loopMod) *State {
	h := s.clone()
	if m.alloc {
		a := fresh("alloc", SInt)
		x.factU(le(s.alloc, a))
		h.alloc = a
	}
	for _, o := range m.objs() {
		v := s.vars[o]
		nv := Val{v.T, append([]*Term{}, v.C...)}
		for i := range nv.C {
			if m.vars[compRef{o, i}] {
				nv.C[i] = fresh(o.Name(), v.C[i].sort)
			}
		}
		h.vars[o] = nv
		x.typeFacts(h, nv)
	}
	for _, n := range sortedSet(m.heaps) {
		s.hget(n, heapSorts[n], heapKinds[n])
		x.havocHeap(h, n)
	}
	for _, n := range sortedSet(m.ghosts) {
		v := s.ghost[n]
		nv := Val{T: v.T}
		for _, c := range v.C {
			nv.C = append(nv.C, fresh(n, c.sort))
		}
		h.ghost[n] = nv
		if strings.HasPrefix(n, "relayA:") {
			x.fact(h, le(nv.C[0], h.alloc))
		}
		if strings.HasPrefix(n, "relay:") {
			marks := map[string]*State{}
			for k, v := range h.marks {
				if k != n[6:] {
					marks[k] = v
				}
			}
			h.marks = marks
		}
	}
	return h
}

func sortedSet(m map[string]bool) []string { return keys(m) }

// diff extends m by what differs between head and end; reports whether something was added.
func (m *loopMod) diff(head, end *State) bool {
	ch := false
	for o, v := range head.vars {
		w, ok := end.vars[o]
		if !ok {
			continue
		}
		for i := range v.C {
			c := compRef{o, i}
			if v.C[i] != w.C[i] && !m.vars[c] {
				m.vars[c] = true
				ch = true
			}
		}
	}
	for n := range end.heap {
		a := head.hget(n, heapSorts[n], heapKinds[n])
		if a != end.heap[n] && !m.heaps[n] {
			m.heaps[n] = true
			ch = true
		}
	}
	if head.alloc != end.alloc && !m.alloc {
		m.alloc = true
		ch = true
	}
	for n, v := range head.ghost {
		w, ok := end.ghost[n]
		if !ok {
			continue
		}
		for i := range v.C {
			if v.C[i] != w.C[i] && !m.ghosts[n] {
				m.ghosts[n] = true
				ch = true
			}
		}
	}
	return ch
}

type snapshot struct {
	facts int
	rets  []int
	brks  []int
	conts []int
	defs  []int
}

func (x *Exec) snap() snapshot {
	sn := snapshot{facts: len(x.facts)}
	for _, f := range x.frames {
		sn.rets = append(sn.rets, len(f.rets))
		sn.defs = append(sn.defs, len(f.defers))
		for _, t := range f.targets {
			sn.brks = append(sn.brks, len(t.brk))
			sn.conts = append(sn.conts, len(t.cont))
		}
	}
	return sn
}
func (x *Exec) restore(sn snapshot) {
	x.facts = append([]*Term{}, x.facts[:sn.facts]...)
	k := 0
	for i, f := range x.frames {
		f.rets = f.rets[:sn.rets[i]]
		f.defers = f.defers[:sn.defs[i]]
		for _, t := range f.targets {
			t.brk = t.brk[:sn.brks[k]]
			t.cont = t.cont[:sn.conts[k]]
			k++
		}
	}
}

// escapes reports whether control left the region other than through its end.
func (x *Exec) escaped(sn snapshot) bool {
	k := 0
	for i, f := range x.frames {
		if len(f.rets) != sn.rets[i] {
			return true
		}
		for _, t := range f.targets {
			if len(t.brk) != sn.brks[k] || len(t.cont) != sn.conts[k] {
				return true
			}
			k++
		}
	}
	return false
}

// iterate runs one iteration from head; it returns the exit state of the guard, the state at the end of the body and the breaks.
func (x *Exec) iterate(head *State, L *loopDef) (exit, end *State, brk []*State, nGuard int) {
	h := head.clone()
	var body *State
	switch {
	case L.nondet:
		c := fresh("more", SBool)
		body, exit = x.split(h, c)
	case L.guard == nil:
		body = h
	default:
		c := L.guard(h)
		body, exit = x.split(h, c)
	}
	nGuard = len(x.facts)
	if body != nil {
		tg := &target{label: L.label, loop: true}
		x.fr.targets = append(x.fr.targets, tg)
		if L.stmts != nil && x.rec == 0 {
			x.iteratePaths(body, L, tg)
			return exit, nil, tg.brk, nGuard
		}
		out := L.body(body)
		x.fr.targets = x.fr.targets[:len(x.fr.targets)-1]
		end = x.merge(append([]*State{out}, tg.cont...)...)
		if end != nil && L.post != nil {
			end = L.post(end.clone())
		}
		brk = tg.brk
	}
	return
}

type invariant struct {
	name  string
	f     func(st *State) *Term
	cand  string // non-empty: candidate key
	pool  bool   // a reading of a clause of the contract
	plain bool
}

func (x *Exec) runLoop(s *State, L *loopDef) *State {
	id, ord := x.loopID(L.node)
	s = s.clone()
	if x.outerLoop == 0 {
		x.outerLoopSeq = freshSeq
	}
	x.outerLoop++
	x.active = append(x.active, activeLoop{id, L})
	defer func() {
		x.outerLoop--
		x.active = x.active[:len(x.active)-1]
	}()
	for g, v := range L.ghosts {
		s.ghost[g] = v
	}
	pre := s.clone()
	// find out what one iteration changes
	mod := &loopMod{vars: map[compRef]bool{}, heaps: map[string]bool{}, ghosts: map[string]bool{}}
	outerStores, outerAny := x.stores, x.storeAny
	var stores map[string][]*Term
	var any map[string]bool
	var headSeq int
	var recHead *State
	for {
		sn := x.snap()
		x.rec++
		x.stores, x.storeAny = map[string][]*Term{}, map[string]bool{}
		headSeq = freshSeq
		head := x.havocLoop(s, mod)
		recHead = head
		if L.facts != nil {
			x.fact(head, L.facts(head))
		}
		_, end, _, _ := x.iterate(head, L)
		x.rec--
		stores, any = x.stores, x.storeAny
		x.restore(sn)
		if end == nil || !mod.diff(head, end) {
			break
		}
	}
	x.stores, x.storeAny = outerStores, outerAny
	if x.rec > 0 && x.stores != nil {
		for h, rs := range stores {
			for _, r := range rs {
				x.noteStore(h, r)
			}
		}
		for h := range any {
			x.storeAny[h] = true
		}
	}
	for h := range mod.heaps {
		// make sure the heap is known before the loop
		pre.hget(h, heapSorts[h], heapKinds[h])
	}
	head := x.havocLoop(s, mod)
	if L.facts != nil {
		x.fact(head, L.facts(head))
	}
	lists := false
	for _, n := range sortedSet(mod.heaps) {
		if isListHeap(n) {
			lists = true
		}
		if heapKinds[n] != 'v' {
			x.wellFormed(head, n)
		}
	}
	if lists {
		x.listWF(head)
	}
	for _, in := range x.ownKeys() {
		head.mark(ownKey(in))
	}
	if x.rec > 0 {
		exit, _, brk, _ := x.iterate(head, L)
		return x.merge(append([]*State{exit}, brk...)...)
	}
	frames := x.frameFacts(pre, head, recHead, mod, stores, any, headSeq)
	invs := x.loopInvariants(id, ord, L, pre, head, mod)
	invs = append(frames, invs...)
	for _, v := range invs {
		if v.cand != "" && x.dropped[v.cand] {
			continue
		}
		g := v.f(pre)
		o := x.oblige(s, v.name+" on entry", g, L.node)
		x.markCand(o, v)
	}
	for _, v := range invs {
		if v.cand != "" && x.dropped[v.cand] {
			continue
		}
		x.fact(head, v.f(head))
	}
	for _, in := range x.ownKeys() {
		x.ownFrame(pre, in, L.node)
		head.mark(ownKey(in))
	}
	sn := x.snap()
	var ls *LoopSpec
	if x.fr.spec != nil && !x.poolMode {
		ls = x.fr.spec.loops[ord]
	}
	outerHook := x.fr.hook
	x.fr.hook = nil
	if ls != nil && len(ls.hooks) > 0 {
		x.fr.hook = &activeHook{hooks: ls.hooks, where: fmt.Sprintf("loop %d ", ord), env: func(st *State, pos token.Pos) *Env {
			e := x.invEnv(st, L, id, pre)
			e.look = x.lookAt(x.fr, L, id, pos)
			return e
		}}
	}
	if x.poolMode && x.fr.spec != nil {
		var hs []Hook
		var os []int
		for _, o := range x.poolLoops(ord) {
			if p := x.fr.spec.loops[o]; p != nil {
				for _, h := range p.hooks {
					hs = append(hs, h)
					os = append(os, o)
				}
			}
		}
		if len(hs) > 0 {
			x.fr.hook = &activeHook{hooks: hs, ords: os, L: L, id: id, where: fmt.Sprintf("loop %d ", ord), env: func(st *State, pos token.Pos) *Env {
				return x.invEnv(st, L, id, pre)
			}}
		}
	}
	clauseName := func(kind string, i int, c Clause) string {
		nm := c.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		if x.fr.path != "" {
			nm = nm + " (in " + x.fr.key + ")"
		}
		return fmt.Sprintf("loop %d %s %s", ord, kind, nm)
	}
	atEnd := func(end *State) {
		x.ownAll(end, L.node)
		if x.poolMode {
			x.poolTry("step", func(ls *LoopSpec) []Clause { return ls.step }, ord, L, id, bodyEnd(L), end, pre, L.node)
		}
		if ls != nil {
			for i, c := range ls.step {
				g := x.inBody(x.invEnv(end, L, id, pre), L).boolT(c.e)
				x.oblige(end, clauseName("step", i, c), g, L.node)
				x.fact(end, g)
			}
		}
		for _, v := range invs {
			if v.cand != "" && x.dropped[v.cand] {
				continue
			}
			g := v.f(end)
			o := x.oblige(end, v.name+" preserved", g, L.node)
			x.markCand(o, v)
			x.fact(end, g)
		}
	}
	atBrk := func(b *State) {
		if ls != nil {
			for i, c := range ls.brk {
				g := x.inBody(x.invEnv(b, L, id, pre), L).boolT(c.e)
				x.oblige(b, clauseName("break", i, c), g, L.node)
				x.fact(b, g)
			}
		}
		if x.poolMode {
			x.poolTry("break", func(ls *LoopSpec) []Clause { return ls.brk }, ord, L, id, bodyEnd(L), b, pre, L.node)
		}
	}
	L.atEnd, L.atBrk = atEnd, atBrk
	exit, end, brk, nGuard := x.iterate(head, L)
	x.fr.hook = outerHook
	if end != nil {
		atEnd(end)
	}
	if L.stmts == nil {
		for _, b := range brk {
			atBrk(b)
		}
	}
	if len(brk) == 0 && !x.escaped(sn) && exit != nil {
		// nothing learned in the body is needed after the loop
		x.facts = append([]*Term{}, x.facts[:nGuard]...)
	}
	r := x.merge(append([]*State{exit}, brk...)...)
	if x.poolMode && r != nil {
		x.poolTry("after", func(ls *LoopSpec) []Clause { return ls.after }, ord, L, id, headPos(L), r, pre, L.node)
	}
	if ls != nil && r != nil {
		for i, c := range ls.after {
			g := x.invEnv(r, L, id, pre).boolT(c.e)
			x.oblige(r, clauseName("after", i, c), g, L.node)
			x.fact(r, g)
		}
	}
	return r
}

// inBody lets e see the variables declared in the body of L.
func (x *Exec) inBody(e *Env, L *loopDef) *Env {
	var pos token.Pos
	switch n := L.node.(type) {
	case *ast.ForStmt:
		pos = n.Body.Rbrace
	case *ast.RangeStmt:
		pos = n.Body.Rbrace
	}
	e.look = x.lookAt(x.fr, L, e.lookID, pos)
	return e
}

// activeHook is what is to be proved behind calls in the body that is being executed.
type activeHook struct {
	hooks []Hook
	ords  []int // pool mode: the loops of the contract that the hooks belong to
	L     *loopDef
	id    string
	where string
	env   func(st *State, pos token.Pos) *Env
}

// calls reports whether st itself (not a statement in it) calls a function with this name.
func calls(st ast.Stmt, name string) bool {
	switch st.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.DeclStmt, *ast.IncDecStmt:
	default:
		return false
	}
	found := false
	ast.Inspect(st, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.Ident:
				found = found || f.Name == name
			case *ast.SelectorExpr:
				found = found || f.Sel.Name == name
			}
		}
		return !found
	})
	return found
}

func (x *Exec) runHooks(s *State, st ast.Stmt) {
	h := x.fr.hook
	if h == nil || s == nil || x.rec > 0 {
		return
	}
	for i, k := range h.hooks {
		if !calls(st, k.callee) {
			continue
		}
		if x.poolMode {
			o := 0
			if h.ords != nil {
				o = h.ords[i]
			}
			mk := func(q *State) *Env {
				e := h.env(q, st.End())
				e.snaps = x.snaps
				return e
			}
			if k.use {
				for _, rd := range x.readings(k.e, o, h.L, h.id, st.End(), s) {
					rd := rd
					x.evaluates(func(q *State) *Term {
						e := mk(q)
						base := x.lookAt(x.fr, h.L, h.id, st.End())
						e.look = func(name string, st *State) (Val, bool) {
							if g, ok := rd.get[name]; ok {
								return g(st)
							}
							return base(name, st)
						}
						x.fact(s, x.P.useInstance(k.e, e))
						return nil
					}, s)
				}
				continue
			}
			x.tryClauses(s, x.pool(h.where+"behind "+k.callee, i, k.Clause, o, h.L, h.id, st.End(), st.End(), s, mk), st)
			continue
		}
		env := h.env(s, st.End())
		env.snaps = x.snaps
		if k.use {
			x.fact(s, x.P.useInstance(k.e, env))
			continue
		}
		nm := k.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		x.safety(s, h.where+"behind "+k.callee+" "+nm, env.boolT(k.e), st)
	}
}

func (x *Exec) markCand(o *Obligation, v invariant) {
	if o != nil && v.cand != "" {
		o.cand = &candidate{key: v.cand, pool: v.pool, plain: v.plain}
	}
}

func maxSeq(t *Term, memo map[int]int) int {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t.seq
	for _, a := range t.args {
		if m := maxSeq(a, memo); m > r {
			r = m
		}
	}
	memo[t.id] = r
	return r
}

// frameFacts describes what a loop leaves unchanged in the heaps it changes. Facts that hold by construction are
// assumed directly; others become candidate invariants.
func (x *Exec) frameFacts(pre, head, recHead *State, mod *loopMod, stores map[string][]*Term, any map[string]bool, headSeq int) []invariant {
	var invs []invariant
	memo := map[int]int{}
	// substitution of the recorded head constants by the values before the loop
	back := map[int]*Term{}
	for c := range mod.vars {
		back[recHead.vars[c.o].C[c.i].id] = pre.vars[c.o].C[c.i]
	}
	for n := range mod.heaps {
		back[recHead.heap[n].id] = pre.hget(n, heapSorts[n], heapKinds[n])
	}
	for _, n := range sortedSet(mod.heaps) {
		n := n
		if any[n] || n == "E.own" || n == "E.pos" {
			if n == "E.own" || n == "E.pos" {
				x.listFrames(&invs, pre, n, stores["L.len"], headSeq, memo)
			}
			x.modifiesFrame(&invs, n)
			continue
		}
		var inv []*Term     // loop-invariant references
		newOnly := true     // all other stores go to references allocated in the loop
		unknown := false    // some store goes elsewhere
		var guesses []*Term // pre-loop values of references that change
		seen := map[int]bool{}
		var add1 func(r *Term)
		add1 = func(r *Term) {
			if r.op == "ite" {
				add1(r.args[1])
				add1(r.args[2])
				return
			}
			if seen[r.id] {
				return
			}
			seen[r.id] = true
			if maxSeq(r, memo) <= headSeq {
				inv = append(inv, r)
				return
			}
			if isNewRef(r, recHead.alloc) {
				newOnly = newOnly && true
				unknown = unknown || false
				guesses = append(guesses, nil)
				return
			}
			g := subst(r, back)
			if maxSeq(g, memo) <= headSeq {
				guesses = append(guesses, g)
				unknown = true
				return
			}
			unknown = true
		}
		for _, r := range stores[n] {
			add1(r)
		}
		preH := pre.hget(n, heapSorts[n], heapKinds[n])
		if !unknown {
			if len(guesses) == 0 {
				h := preH
				for _, r := range inv {
					h = store(h, r, fresh(n, elemSort(heapSorts[n])))
				}
				x.fact(head, eq(head.heap[n], h))
				continue
			}
			r := freshVar("r", SInt)
			var c []*Term
			for _, v := range inv {
				c = append(c, ne(r, v))
			}
			a := sel(head.heap[n], r)
			x.fact(head, forall([]*Term{r}, [][]*Term{{a}}, implies(and(append(c, lt(r, pre.alloc))...), eq(a, sel(preH, r)))))
			continue
		}
		mkFrame := func(ex []*Term, lim *Term) func(st *State) *Term {
			return func(st *State) *Term {
				h := st.hget(n, heapSorts[n], heapKinds[n])
				if h == preH {
					return tTrue
				}
				r := freshVar("r", SInt)
				var c []*Term
				for _, v := range ex {
					c = append(c, ne(r, v))
				}
				a := sel(h, r)
				return forall([]*Term{r}, [][]*Term{{a}}, implies(and(append(c, lt(mkInt(0), r), lt(r, lim))...), eq(a, sel(preH, r))))
			}
		}
		var ex []*Term
		ex = append(ex, inv...)
		for _, g := range guesses {
			if g != nil {
				ex = append(ex, g)
			}
		}
		base := x.loopKey(n)
		invs = append(invs, invariant{name: "frame of " + n, cand: base + "/new", f: mkFrame(inv, pre.alloc)})
		if len(ex) > len(inv) {
			invs = append(invs, invariant{name: "frame of " + n, cand: base + "/guess", f: mkFrame(ex, pre.alloc)})
		}
		if x.alloc0 != pre.alloc {
			invs = append(invs, invariant{name: "frame of " + n, cand: base + "/entry", f: mkFrame(nil, x.alloc0)})
		}
		x.modifiesFrame(&invs, n)
	}
	return invs
}

// modifiesFrame adds the candidate that the heap differs from its state on entry only where the contract allows it.
func (x *Exec) modifiesFrame(invs *[]invariant, n string) {
	if x.con == nil || x.con.modAny || x.entry == nil {
		return
	}
	var allowed []modTarget
	pre := x.paramEnv(x.entry)
	for _, m := range x.con.modifies {
		for _, t := range x.modTargets(m, pre) {
			if t.heap == n {
				allowed = append(allowed, t)
			}
		}
	}
	if len(allowed) == 0 {
		return
	}
	old := x.entry.hget(n, heapSorts[n], heapKinds[n])
	*invs = append(*invs, invariant{name: "frame of " + n, cand: x.loopKey(n) + "/modifies", f: func(st *State) *Term {
		h := st.hget(n, heapSorts[n], heapKinds[n])
		if h == old {
			return tTrue
		}
		r := freshVar("r", SInt)
		c := []*Term{lt(mkInt(0), r), lt(r, x.alloc0)}
		for _, t := range allowed {
			if t.ref != nil {
				c = append(c, ne(r, t.ref))
			} else {
				c = append(c, not(t.set(r)))
			}
		}
		a := sel(h, r)
		return forall([]*Term{r}, [][]*Term{{a}}, implies(and(c...), eq(a, sel(old, r))))
	}})
}

func (x *Exec) loopKey(what string) string {
	x.loopSeq++
	return fmt.Sprintf("%s#%d/%s", x.fr.path, x.loopSeq, what)
}

func (x *Exec) listFrames(invs *[]invariant, pre *State, n string, lens []*Term, headSeq int, memo map[int]int) {
	var ls []*Term
	for _, l := range lens {
		if maxSeq(l, memo) > headSeq {
			return
		}
		ls = append(ls, l)
	}
	preH := pre.hget(n, heapSorts[n], heapKinds[n])
	own := pre.eown()
	*invs = append(*invs, invariant{name: "frame of " + n, cand: x.loopKey(n), f: func(st *State) *Term {
		h := st.hget(n, heapSorts[n], heapKinds[n])
		if h == preH {
			return tTrue
		}
		e := freshVar("e", SInt)
		var c []*Term
		for _, l := range ls {
			c = append(c, ne(sel(own, e), l))
		}
		a := sel(h, e)
		return forall([]*Term{e}, [][]*Term{{a}}, implies(and(append(c, lt(mkInt(0), e), lt(e, pre.alloc))...), eq(a, sel(preH, e))))
	}})
}

// isNewRef: the term is alloc+k for the allocation counter at the loop head (or later).
func isNewRef(r, alloc *Term) bool {
	if r == alloc {
		return true
	}
	if strings.HasPrefix(r.op, "alloc!") {
		return true // a later allocation counter
	}
	if r.op == "+" {
		for _, a := range r.args {
			if a == alloc || strings.HasPrefix(a.op, "alloc!") {
				ok := true
				for _, b := range r.args {
					if b == a {
						continue
					}
					if v, lit := intVal(b); !lit || v.Sign() < 0 {
						ok = false
					}
				}
				return ok
			}
		}
	}
	return false
}

// lookFn resolves program names for loop invariants.
func (x *Exec) lookFn(fr *frame, L *loopDef, id string) func(name string, st *State) (Val, bool) {
	return x.lookAt(fr, L, id, token.NoPos)
}

func (x *Exec) lookAt(fr *frame, L *loopDef, id string, at token.Pos) func(name string, st *State) (Val, bool) {
	params := map[string]types.Object{}
	if fr.spec != nil {
		own := fr.owner()
		ps := paramObjs(own.sig)
		for i, p := range fr.spec.params {
			if i < len(ps) {
				params[p] = ps[i]
			}
		}
		for i, p := range fr.spec.results {
			if i < own.sig.Results().Len() {
				if o := own.sig.Results().At(i); o.Name() != "" {
					params[p] = o
				}
			}
		}
	}
	var pos token.Pos
	if L != nil {
		pos = L.node.End() - 1
		switch n := L.node.(type) {
		case *ast.ForStmt:
			pos = n.Body.Lbrace
		case *ast.RangeStmt:
			pos = n.Body.Lbrace
		}
	}
	if at != token.NoPos {
		pos = at
	}
	return func(name string, st *State) (Val, bool) {
		if strings.HasPrefix(name, "$") {
			if name == "$i" || name == "$visited" {
				v, ok := st.ghost[name+":"+id]
				return v, ok
			}
			if strings.HasPrefix(name, "$i") {
				v, ok := st.ghost["$i:"+fr.path+"loop"+name[2:]]
				return v, ok
			}
		}
		var o types.Object
		if p, ok := params[name]; ok {
			o = p
		} else if pos != token.NoPos {
			o = x.resolve(name, pos, fr, st)
			if o == nil {
				for _, alt := range x.renamed(fr.owner().key, name) {
					if o = x.resolve(alt, pos, fr, st); o != nil {
						break
					}
				}
			}
		}
		if o == nil {
			if fr.owner().top && fr.spec != nil {
				for _, g := range fr.spec.ghosts {
					if g.name == name {
						return x.entryEnv.vars[name], true
					}
				}
			}
			return Val{}, false
		}
		if L != nil {
			if f, ok := L.alias[o]; ok {
				return f(st)
			}
		}
		return x.valueOf(st, o)
	}
}

func (x *Exec) valueOf(st *State, o types.Object) (Val, bool) {
	v, ok := st.vars[o]
	if !ok {
		return Val{}, false
	}
	if x.boxed[o] && !isOpaque(o.Type()) {
		if _, isP := isPtr(v.T); isP && !types.Identical(v.T, o.Type()) {
			return loadField(st, o.Type(), 0, len(layout(o.Type())), o.Type(), v.C[0]), true
		}
	}
	return v, ok
}

func (x *Exec) invEnv(st *State, L *loopDef, id string, pre *State) *Env {
	fr := x.fr
	return &Env{P: x.P, vars: map[string]Val{}, st: st, old: fr.entry, pre: pre, allocOld: fr.alloc0, look: x.lookFn(fr, L, id), lookID: id}
}

func (x *Exec) loopInvariants(id string, ord int, L *loopDef, pre, head *State, mod *loopMod) []invariant {
	var invs []invariant
	key := id
	// candidates
	cand := func(name string, f func(st *State) *Term) {
		k := key + "/" + name
		invs = append(invs, invariant{name: "candidate " + name, cand: k, f: f})
	}
	type iv struct {
		name string
		get  func(st *State) *Term
	}
	var ints []iv
	for _, g := range sortedSet(mod.ghosts) {
		if relayGhost(g) {
			g := g
			cand(g+" idle", func(st *State) *Term { return not(st.ghost[g].C[0]) })
		}
		if strings.HasPrefix(g, "relay#") {
			g := g
			cand(g+" idle", func(st *State) *Term { return eq(st.ghost[g].C[0], mkInt(0)) })
		}
		if strings.HasPrefix(g, "$i:") {
			g := g
			ints = append(ints, iv{g, func(st *State) *Term { return st.ghost[g].C[0] }})
		}
	}
	for _, o := range mod.objs() {
		o := o
		l := layout(pre.vars[o].T)
		for i := range l {
			i := i
			if !mod.vars[compRef{o, i}] {
				continue
			}
			get := func(st *State) *Term { return st.vars[o].C[i] }
			nm := o.Name() + l[i].suf
			switch {
			case l[i].kind == 'v' && l[i].sort == SInt || l[i].kind == 'l':
				cand(nm+" >= pre", func(st *State) *Term { return ge(get(st), get(pre)) })
				if l[i].kind == 'v' {
					cand(nm+" <= pre", func(st *State) *Term { return le(get(st), get(pre)) })
				}
				ints = append(ints, iv{nm, get})
			case l[i].kind == 'r' && i+1 < len(l) && l[i+1].kind == 'o':
				cand(nm+" new", func(st *State) *Term { return or(eq(get(st), get(pre)), ge(get(st), pre.alloc)) })
				cand(nm+" fresh", func(st *State) *Term { return or(eq(get(st), mkInt(0)), ge(get(st), x.alloc0)) })
				if i+3 < len(l) {
					cand(nm+" nonfull", func(st *State) *Term { return or(ne(get(st), get(pre)), eq(st.vars[o].C[i+3], pre.vars[o].C[i+3])) })
				}
			case l[i].kind == 'r':
				cand(nm+" nonnil", func(st *State) *Term { return ne(get(st), mkInt(0)) })
			case l[i].kind == 'o':
				cand(nm+" zero", func(st *State) *Term { return eq(get(st), mkInt(0)) })
			}
		}
	}
	// linear relations between pairs of counters
	if len(ints) <= 6 {
		for a := 0; a < len(ints); a++ {
			for b := a + 1; b < len(ints); b++ {
				p, q := ints[a], ints[b]
				cand(p.name+" ~ "+q.name, func(st *State) *Term { return eq(sub(p.get(st), p.get(pre)), sub(q.get(st), q.get(pre))) })
				cand(p.name+" >~ "+q.name, func(st *State) *Term { return ge(sub(p.get(st), p.get(pre)), sub(q.get(st), q.get(pre))) })
				cand(p.name+" <~ "+q.name, func(st *State) *Term { return le(sub(p.get(st), p.get(pre)), sub(q.get(st), q.get(pre))) })
			}
		}
	}
	if L.bounds != nil {
		nb := len(L.bounds(head))
		for i := 0; i < nb; i++ {
			i := i
			cand(fmt.Sprintf("bound%d", i), func(st *State) *Term {
				bs := L.bounds(st)
				if i >= len(bs) {
					return tTrue
				}
				return bs[i]
			})
		}
	}
	// the specified invariants
	if x.fr.spec != nil && !x.poolMode {
		if ls := x.fr.spec.loops[ord]; ls != nil {
			for i, c := range ls.inv {
				c := c
				nm := c.name
				if nm == "" {
					nm = fmt.Sprintf("%d", i+1)
				}
				if x.fr.path != "" {
					nm = nm + " (in " + x.fr.key + ")"
				}
				invs = append(invs, invariant{name: fmt.Sprintf("loop %d invariant %s", ord, nm), f: func(st *State) *Term {
					return x.invEnv(st, L, id, pre).boolT(c.e)
				}})
			}
		}
	}
	if x.poolMode {
		invs = append(invs, x.poolInvariants(id, ord, L, pre, head)...)
	}
	return invs
}
