package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// activeLoop is a loop whose body is being executed.
type activeLoop struct {
	id string
	L  *loopDef
}

type candidate struct {
	key   string
	pool  bool
	plain bool
	f     func(st, pre *State) *Term
}

type retRec struct {
	st   *State
	vals []Val
}
type target struct {
	label string
	loop  bool
	brk   []*State
	cont  []*State
	atBrk func(*State)
	atEnd func(*State)
}
type deferRec struct {
	call *ast.CallExpr
}
type frame struct {
	key     string
	sig     *types.Signature
	decl    *ast.FuncDecl
	body    *ast.BlockStmt
	results []types.Object // named results
	rets    []retRec
	targets []*target
	defers  []*ast.CallExpr
	top     bool
	path    string
	ords    map[ast.Node]int
	tree    *ordTree
	adopted *frame
	callPos token.Pos
	spec    *Contract
	entry   *State
	alloc0  *Term
	hook    *activeHook
}

type pcInfo struct{ parent, cond *Term }

type Exec struct {
	P               *Prog
	key             string
	con             *Contract
	facts           []*Term
	obs             []*Obligation
	rec             int
	snaps           map[string]*Term // the matrix a view of each type was last passed as
	fr              *frame
	frames          []*frame
	alloc0          *Term
	entry           *State
	entryEnv        *Env
	boxed           map[types.Object]bool
	dropped         map[string]bool
	pcs             map[int]pcInfo
	counts          map[string]int
	stores          map[string][]*Term // recording: stored references per heap
	storeAny        map[string]bool
	lits            map[int]*ast.FuncLit
	funcs           map[int]*types.Func
	rowCall         int
	rowBack         []func()
	used            map[string]bool // contracts and externs used
	inlined         map[string]bool
	notes           map[string]bool
	curLabel        string
	retCount        int
	nonzeroOffStore bool
	loopSeq         int
	poolMode        bool
	axiomFacts      map[string]bool
	renames         map[string]map[string][]string
	active          []activeLoop
	tails           map[*ast.IfStmt]bool // branches that end the function, which are kept apart
	curCall         *ast.CallExpr
	roles           map[int]*role
	madeChans       map[int]bool
	strayChans      map[int]bool
	outerLoop       int
	outerLoopSeq    int
	guards          []guard
	lastInline      *ast.BlockStmt // body of the function that was inlined last
	forwards        map[int]*role
	inSelect        bool
	pathFacts       []*Term
}

func newExec(P *Prog, key string, con *Contract) *Exec {
	return &Exec{P: P, key: key, con: con, boxed: map[types.Object]bool{}, dropped: map[string]bool{}, pcs: map[int]pcInfo{},
		counts: map[string]int{}, lits: map[int]*ast.FuncLit{}, funcs: map[int]*types.Func{}, used: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}}
}

func (x *Exec) pos(n ast.Node) string {
	p := x.P.fset.Position(n.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) fact(s *State, t *Term) {
	if t == tTrue {
		return
	}
	x.facts = append(x.facts, implies(s.pc, t))
}
func (x *Exec) factU(t *Term) {
	if t != tTrue {
		x.facts = append(x.facts, t)
	}
}

func (x *Exec) oblige(s *State, kind string, goal *Term, n ast.Node) *Obligation {
	if x.rec > 0 || s.pc == tFalse {
		return nil
	}
	if goal == tTrue {
		x.counts["trivial"]++
		return nil
	}
	x.counts[kind]++
	id := fmt.Sprintf("%s/%s", x.key, kind)
	if !strings.Contains(kind, "#") {
		id = fmt.Sprintf("%s/%s#%d", x.key, kind, x.counts[kind])
	}
	o := &Obligation{id: id, fn: x.key, kind: kind, q: &Query{facts: append(append([]*Term{}, x.facts...), s.pc), goal: goal, maxLem: -1}}
	if x.con != nil {
		o.q.exclude = x.con.hide
	}
	if n != nil {
		o.pos = x.pos(n)
	}
	x.obs = append(x.obs, o)
	return o
}

// safety is an obligation that is assumed afterwards.
func (x *Exec) safety(s *State, kind string, goal *Term, n ast.Node) {
	x.oblige(s, kind, goal, n)
	x.fact(s, goal)
}

func (x *Exec) split(s *State, c *Term) (*State, *State) {
	if c == tTrue {
		return s, nil
	}
	if c == tFalse {
		return nil, s
	}
	a, b := s.clone(), s.clone()
	a.pc = x.named(s.pc, c)
	b.pc = x.named(s.pc, not(c))
	return a, b
}
func (x *Exec) named(pc, c *Term) *Term {
	n := fresh("pc", SBool)
	x.facts = append(x.facts, eq(n, and(pc, c)))
	x.pcs[n.id] = pcInfo{pc, c}
	return n
}

func mergeVals(x *Exec, pcs []*Term, vs []Val, name string) Val {
	r := Val{T: vs[0].T}
	for i := range vs[0].C {
		same := true
		for _, v := range vs[1:] {
			if v.C[i] != vs[0].C[i] {
				same = false
			}
		}
		if same {
			r.C = append(r.C, vs[0].C[i])
			continue
		}
		f := fresh(name, vs[0].C[i].sort)
		for k, v := range vs {
			x.factU(implies(pcs[k], eq(f, v.C[i])))
		}
		r.C = append(r.C, f)
	}
	return r
}

func (x *Exec) merge(sts ...*State) *State {
	var ss []*State
	for _, s := range sts {
		if s != nil && s.pc != tFalse {
			ss = append(ss, s)
		}
	}
	if len(ss) == 0 {
		return nil
	}
	if len(ss) == 1 {
		return ss[0]
	}
	owns := x.ownMerge(ss)
	var pcs []*Term
	for _, s := range ss {
		pcs = append(pcs, s.pc)
	}
	n := &State{vars: map[types.Object]Val{}, heap: map[string]*Term{}, ghost: map[string]Val{}}
	if len(ss) == 2 {
		a, ok1 := x.pcs[pcs[0].id]
		b, ok2 := x.pcs[pcs[1].id]
		if ok1 && ok2 && a.parent == b.parent && a.cond == not(b.cond) {
			n.pc = a.parent
		}
	}
	if n.pc == nil {
		n.pc = fresh("pc", SBool)
		x.facts = append(x.facts, eq(n.pc, or(pcs...)))
	}
	for k, m := range ss[0].marks {
		same := true
		for _, s := range ss[1:] {
			same = same && s.marks[k] == m
		}
		if same {
			if n.marks == nil {
				n.marks = map[string]*State{}
			}
			n.marks[k] = m
		}
	}
	var objs []types.Object
	for o := range ss[0].vars {
		all := true
		for _, s := range ss[1:] {
			if _, ok := s.vars[o]; !ok {
				all = false
			}
		}
		if all {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, s.vars[o])
		}
		n.vars[o] = mergeVals(x, pcs, vs, o.Name())
	}
	hs := map[string]bool{}
	for _, s := range ss {
		for h := range s.heap {
			hs[h] = true
		}
	}
	var hn []string
	for h := range hs {
		hn = append(hn, h)
	}
	sort.Strings(hn)
	for _, h := range hn {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, Val{C: []*Term{s.hget(h, heapSorts[h], heapKinds[h])}})
		}
		n.heap[h] = mergeVals(x, pcs, vs, h).C[0]
	}
	for g := range ss[0].ghost {
		var vs []Val
		for _, s := range ss {
			if v, ok := s.ghost[g]; ok {
				vs = append(vs, v)
			}
		}
		if len(vs) == len(ss) {
			n.ghost[g] = mergeVals(x, pcs, vs, g)
		}
	}
	var as []Val
	for _, s := range ss {
		as = append(as, Val{C: []*Term{s.alloc}})
	}
	n.alloc = mergeVals(x, pcs, as, "alloc").C[0]
	if owns {
		for _, in := range x.ownKeys() {
			n.mark(ownKey(in))
		}
	}
	return n
}

// ---- facts about values ----

func (x *Exec) typeFacts(s *State, v Val) {
	l := layout(v.T)
	for i := 0; i < len(l); i++ {
		switch l[i].kind {
		case 'r':
			if v.C[i].lit {
				continue
			}
			x.fact(s, and(le(mkInt(0), v.C[i]), lt(v.C[i], s.alloc)))
		case 'o':
			if !v.C[i].lit {
				x.fact(s, le(mkInt(0), v.C[i]))
			}
		case 'l':
			x.fact(s, le(mkInt(0), v.C[i]))
		case 'c':
			x.fact(s, le(v.C[i-1], v.C[i]))
			x.fact(s, implies(eq(v.C[i-3], mkInt(0)), eq(v.C[i], mkInt(0))))
		}
	}
}

// wellFormed assumes the representation invariants of a (fresh or initial) heap term.
func (x *Exec) wellFormed(s *State, name string) {
	h := s.hget(name, heapSorts[name], heapKinds[name])
	a := s.alloc
	r := freshVar("r", SInt)
	in := and(lt(mkInt(0), r), lt(r, a))
	switch heapKinds[name] {
	case 'r':
		if strings.HasPrefix(name, "A.") {
			k := freshVar("k", SInt)
			t := sel(sel(h, r), k)
			x.factU(forall([]*Term{r, k}, [][]*Term{{t}}, implies(in, and(le(mkInt(0), t), lt(t, a)))))
		} else {
			t := sel(h, r)
			x.factU(forall([]*Term{r}, [][]*Term{{t}}, implies(in, and(le(mkInt(0), t), lt(t, a)))))
		}
	case 'l':
		// a nil slice is empty
		var nilRef func(t *Term) *Term
		if rn := strings.TrimSuffix(name, "len") + "ref"; strings.HasSuffix(name, ".len") {
			if srt, ok := heapSorts[rn]; ok {
				rh := s.hget(rn, srt, heapKinds[rn])
				nilRef = func(k *Term) *Term {
					if k == nil {
						return eq(sel(rh, r), mkInt(0))
					}
					return eq(sel(sel(rh, r), k), mkInt(0))
				}
			}
		}
		size := func(t, k *Term) *Term {
			if nilRef == nil {
				return le(mkInt(0), t)
			}
			return and(le(mkInt(0), t), implies(nilRef(k), eq(t, mkInt(0))))
		}
		if strings.HasPrefix(name, "A.") {
			k := freshVar("k", SInt)
			t := sel(sel(h, r), k)
			x.factU(forall([]*Term{r, k}, [][]*Term{{t}}, implies(in, size(t, k))))
		} else {
			t := sel(h, r)
			x.factU(forall([]*Term{r}, [][]*Term{{t}}, implies(in, size(t, nil))))
		}
	}
}

// listWF assumes the representation invariant of container/list for the current list heaps.
func (x *Exec) listWF(s *State) {
	ln, sq, own, pos := s.llen(), s.lseq(), s.eown(), s.epos()
	a := s.alloc
	l, k, e := freshVar("l", SInt), freshVar("k", SInt), freshVar("e", SInt)
	t := sel(sel(sq, l), k)
	x.factU(forall([]*Term{l, k}, [][]*Term{{t}}, implies(and(lt(mkInt(0), l), lt(l, a), le(mkInt(0), k), lt(k, sel(ln, l))),
		and(eq(sel(own, t), l), eq(sel(pos, t), k), lt(mkInt(0), t), lt(t, a)))))
	o, p := sel(own, e), sel(pos, e)
	x.factU(forall([]*Term{e}, [][]*Term{{o}}, implies(and(lt(mkInt(0), e), lt(e, a), ne(o, mkInt(0))),
		and(lt(mkInt(0), o), lt(o, a), le(mkInt(0), p), lt(p, sel(ln, o)), eq(sel(sel(sq, o), p), e)))))
}

func isListHeap(n string) bool {
	return n == "L.len" || n == "L.seq" || n == "E.own" || n == "E.pos"
}

// havocHeap replaces a heap by a fresh one.
func (x *Exec) havocHeap(s *State, name string) {
	s.heap[name] = fresh(name, heapSorts[name])
}

func (x *Exec) newRef(s *State) *Term {
	r := s.alloc
	s.alloc = add(s.alloc, mkInt(1))
	return r
}

func zeroTerm(P *Prog, srt string) *Term {
	switch srt {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SReal:
		return mkRat(new(big.Rat))
	case SStr:
		return P.strLit("")
	case SBV8:
		return mkLit("#x00", SBV8)
	}
	panic("zero of " + srt)
}

func (x *Exec) zeroVal(s *State, t types.Type) Val {
	v := Val{T: t}
	if isOpaque(t) {
		return one(t, x.newOpaque(s, t))
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			v.C = append(v.C, x.zeroVal(s, st.Field(i).Type()).C...)
		}
		return v
	}
	for _, c := range layout(t) {
		v.C = append(v.C, zeroTerm(x.P, c.sort))
	}
	return v
}

func (x *Exec) newOpaque(s *State, t types.Type) *Term {
	r := x.newRef(s)
	switch typeName(t) {
	case "mat.Dense", "mat.VecDense":
		x.fact(s, and(eq(sel(s.mrows(), r), mkInt(0)), eq(sel(s.mcols(), r), mkInt(0))))
	case "list.List":
		x.fact(s, eq(sel(s.llen(), r), mkInt(0)))
	case "sync.RWMutex", "sync.Mutex":
		x.fact(s, eq(sel(s.hget("LK.state", sII, 'v'), r), mkInt(0)))
	}
	return r
}

// allocStruct creates a heap object with the given field values.
func (x *Exec) allocStruct(s *State, t types.Type, v Val) *Term {
	r := x.newRef(s)
	l := layout(t)
	for i, c := range l {
		if c.kind == 'o' {
			x.needOff0(s, v.C[i], nil)
			continue
		}
		n, srt := fieldHeap(t, c)
		x.fact(s, eq(sel(s.hget(n, srt, c.kind), r), v.C[i]))
	}
	return r
}

func (x *Exec) needOff0(s *State, off *Term, n ast.Node) {
	if v, ok := intVal(off); ok && v.Sign() == 0 {
		return
	}
	x.safety(s, "stored-slice-offset", eq(off, mkInt(0)), n)
}

func (x *Exec) makeSlice(s *State, et types.Type, n, c *Term) Val {
	r := x.newRef(s)
	for _, k := range layout(et) {
		if k.kind == 'o' {
			continue
		}
		nm, srt := elemHeap(et, k)
		if isOpaque(et) {
			unsup("slice of opaque values")
		}
		x.fact(s, eq(sel(s.hget(nm, srt, k.kind), r), constArr(arrSort(k.sort), zeroTerm(x.P, k.sort))))
	}
	return Val{types.NewSlice(et), []*Term{r, mkInt(0), n, c}}
}

// ---- lvalues ----

type LV struct {
	kind   byte // 'v' variable, 'h' heap field, 'a' slice element, 'm' map element, '_' blank
	obj    types.Object
	base   types.Type // struct type, element type or map type
	ref    *Term
	idx    *Term
	lo, hi int
	T      types.Type
	node   ast.Node
}

func (x *Exec) typeOf(e ast.Expr) types.Type {
	if t := x.P.info.TypeOf(e); t != nil {
		return t
	}
	unsup("no type for expression")
	return nil
}

func (x *Exec) lv(s *State, e ast.Expr) LV {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.lv(s, n.X)
	case *ast.Ident:
		if n.Name == "_" {
			return LV{kind: '_'}
		}
		o := x.P.info.ObjectOf(n)
		t := o.Type()
		if x.boxed[o] {
			v, ok := s.vars[o]
			if !ok {
				unsup("variable %s", n.Name)
			}
			return LV{kind: 'h', base: t, ref: v.C[0], lo: 0, hi: len(layout(t)), T: t, node: e}
		}
		return LV{kind: 'v', obj: o, lo: 0, hi: len(layout(t)), T: t, node: e}
	case *ast.SelectorExpr:
		sl, ok := x.P.info.Selections[n]
		if !ok {
			unsup("selector %s", n.Sel.Name)
		}
		if sl.Kind() != types.FieldVal || len(sl.Index()) != 1 {
			unsup("embedded or method selector %s", n.Sel.Name)
		}
		bt := x.typeOf(n.X)
		if p, ok := isPtr(bt); ok {
			b := x.expr(s, n.X)
			x.safety(s, "nil", ne(b.C[0], mkInt(0)), e)
			if isListElement(p.Elem()) {
				return LV{kind: 'h', base: p.Elem(), ref: b.C[0], lo: 0, hi: 1, T: sl.Type(), node: e}
			}
			lo, hi, ft, ok := fieldRange(p.Elem(), n.Sel.Name)
			if !ok {
				unsup("field %s of %s", n.Sel.Name, bt)
			}
			x.checkGuard(s, p.Elem(), n.Sel.Name, b.C[0], e, false)
			return LV{kind: 'h', base: p.Elem(), ref: b.C[0], lo: lo, hi: hi, T: ft, node: e}
		}
		b := x.lvOrTemp(s, n.X)
		lo, hi, ft, ok := fieldRange(bt, n.Sel.Name)
		if !ok {
			unsup("field %s of %s", n.Sel.Name, bt)
		}
		b.hi = b.lo + hi
		b.lo = b.lo + lo
		b.T = ft
		return b
	case *ast.IndexExpr:
		bt := x.typeOf(n.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			b := x.expr(s, n.X)
			i := x.expr(s, n.Index)
			x.safety(s, "index", and(le(mkInt(0), i.C[0]), lt(i.C[0], b.C[2])), e)
			return LV{kind: 'a', base: u.Elem(), ref: b.C[0], idx: ixT(b.C[1], i.C[0]), lo: 0, hi: len(layout(u.Elem())), T: u.Elem(), node: e}
		case *types.Map:
			b := x.expr(s, n.X)
			i := x.expr(s, n.Index)
			return LV{kind: 'm', base: bt, ref: b.C[0], idx: i.C[0], T: u.Elem(), node: e}
		}
		unsup("index of %s", bt)
	case *ast.StarExpr:
		b := x.expr(s, n.X)
		p, _ := isPtr(b.T)
		x.safety(s, "nil", ne(b.C[0], mkInt(0)), e)
		if isOpaque(p.Elem()) {
			unsup("dereference of %s", b.T)
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			unsup("pointer to %s", p.Elem())
		}
		return LV{kind: 'h', base: p.Elem(), ref: b.C[0], lo: 0, hi: len(layout(p.Elem())), T: p.Elem(), node: e}
	}
	unsup("lvalue %T", e)
	return LV{}
}

type tempVar struct{ types.Object }

func (x *Exec) lvOrTemp(s *State, e ast.Expr) LV {
	switch n := e.(type) {
	case *ast.CallExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
		v := x.expr(s, e)
		o := types.NewVar(token.NoPos, nil, "tmp", v.T)
		s.vars[o] = v
		return LV{kind: 'v', obj: o, lo: 0, hi: len(v.C), T: v.T, node: n}
	}
	return x.lv(s, e)
}

func (x *Exec) checkGuard(s *State, st types.Type, field string, ref *Term, n ast.Node, write bool) {
	lk, ok := x.P.S.guards[typeName(st)+"."+field]
	if !ok || x.boxedRefFresh(ref) {
		return
	}
	lo, hi, ft, ok := fieldRange(st, lk)
	if !ok {
		x.oblige(s, "lock-held", tFalse, n)
		return
	}
	l := loadField(s, st, lo, hi, ft, ref)
	state := sel(s.hget("LK.state", sII, 'v'), l.C[0])
	if write {
		x.safety(s, "lock-held-for-writing", eq(state, mkInt(2)), n)
	} else {
		x.safety(s, "lock-held", le(mkInt(1), state), n)
	}
}

func (x *Exec) boxedRefFresh(ref *Term) bool { return false }

func (x *Exec) load(s *State, l LV) Val {
	switch l.kind {
	case 'v':
		v, ok := s.vars[l.obj]
		if !ok {
			unsup("variable %s has no value", l.obj.Name())
		}
		return Val{l.T, v.C[l.lo:l.hi]}
	case 'h':
		v := loadField(s, l.base, l.lo, l.hi, l.T, l.ref)
		x.typeFacts(s, v)
		return v
	case 'a':
		v := loadElem(s, l.base, l.ref, l.idx, l.lo, l.hi, l.T)
		x.typeFacts(s, v)
		return v
	case 'm':
		mt := l.base.Underlying().(*types.Map)
		_, d, _, m := mapHeaps(s, mt)
		in := sel(sel(d, l.ref), l.idx)
		e := layout(mt.Elem())[0]
		return one(mt.Elem(), ite(and(ne(l.ref, mkInt(0)), in), sel(sel(m, l.ref), l.idx), zeroTerm(x.P, e.sort)))
	}
	unsup("load")
	return Val{}
}

func (x *Exec) noteStore(name string, ref *Term) {
	if x.rec > 0 && x.stores != nil {
		for _, r := range x.stores[name] {
			if r == ref {
				return
			}
		}
		x.stores[name] = append(x.stores[name], ref)
	}
}

func (x *Exec) store(s *State, l LV, v Val) {
	onOff := func(o *Term) { x.needOff0(s, o, l.node) }
	switch l.kind {
	case '_':
	case 'v':
		if _, ok := s.vars[l.obj]; !ok && (l.lo != 0 || l.hi != len(layout(l.obj.Type()))) {
			unsup("partial store to undeclared variable")
		}
		if l.lo == 0 && l.hi == len(layout(l.obj.Type())) {
			s.vars[l.obj] = Val{l.obj.Type(), v.C}
			return
		}
		old := s.vars[l.obj]
		nv := Val{old.T, append([]*Term{}, old.C...)}
		copy(nv.C[l.lo:l.hi], v.C)
		s.vars[l.obj] = nv
	case 'h':
		if sel, ok := l.node.(*ast.SelectorExpr); ok && !isListElement(l.base) {
			x.checkGuard(s, l.base, sel.Sel.Name, l.ref, l.node, true)
		}
		if isListElement(l.base) {
			x.noteStore("E.val", l.ref)
			s.hset("E.val", store(s.eval(), l.ref, v.C[0]))
			return
		}
		for i := l.lo; i < l.hi; i++ {
			n, _ := fieldHeap(l.base, layout(l.base)[i])
			x.noteStore(n, l.ref)
		}
		storeField(s, l.base, l.lo, l.ref, v, onOff)
	case 'a':
		for i := l.lo; i < l.hi; i++ {
			n, _ := elemHeap(l.base, layout(l.base)[i])
			x.noteStore(n, l.ref)
		}
		storeElem(s, l.base, l.ref, l.idx, l.lo, v, onOff)
	case 'm':
		mt := l.base.Underlying().(*types.Map)
		x.safety(s, "nil-map", ne(l.ref, mkInt(0)), l.node)
		dn, d, vn, m := mapHeaps(s, mt)
		x.noteStore(dn, l.ref)
		x.noteStore(vn, l.ref)
		s.hset(dn, store(d, l.ref, store(sel(d, l.ref), l.idx, tTrue)))
		s.hset(vn, store(m, l.ref, store(sel(m, l.ref), l.idx, v.C[0])))
	}
}

// ---- expressions ----

func (x *Exec) constVal(t types.Type, v constant.Value) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return one(t, mkBool(constant.BoolVal(v)))
		case u.Info()&types.IsString != 0:
			return one(t, x.P.strLit(constant.StringVal(v)))
		case u.Kind() == types.Uint8:
			n, _ := constant.Int64Val(constant.ToInt(v))
			return one(t, mkLit(fmt.Sprintf("#x%02x", n), SBV8))
		case u.Info()&types.IsInteger != 0:
			b, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			return one(t, mkBigInt(b))
		case u.Info()&types.IsFloat != 0:
			fv := constant.ToFloat(v)
			if fv.Kind() != constant.Float && fv.Kind() != constant.Int {
				unsup("constant %s", v)
			}
			r, ok := new(big.Rat).SetString(fv.ExactString())
			if !ok {
				f, _ := constant.Float64Val(fv)
				r = new(big.Rat)
				r.SetFloat64(f)
			}
			if u.Kind() != types.UntypedFloat || true {
				// the nearest float64 unless the decimal constant is meant exactly (ideal arithmetic)
			}
			return one(t, mkRat(r))
		}
	case *types.Interface:
		return one(t, fresh("boxed", SInt))
	}
	unsup("constant of type %s", t)
	return Val{}
}

func (x *Exec) expr(s *State, e ast.Expr) Val {
	if tv, ok := x.P.info.Types[e]; ok && tv.Value != nil {
		return x.constVal(tv.Type, tv.Value)
	}
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.expr(s, n.X)
	case *ast.Ident:
		if n.Name == "nil" {
			if _, ok := x.P.info.ObjectOf(n).(*types.Nil); ok {
				return one(tyNil, mkInt(0))
			}
		}
		o := x.P.info.ObjectOf(n)
		if f, ok := o.(*types.Func); ok {
			return one(f.Type(), x.funcRef(f))
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == x.P.pkg.Scope() {
			unsup("package variable %s", n.Name)
		}
		return x.load(s, x.lv(s, n))
	case *ast.SelectorExpr:
		if sl, ok := x.P.info.Selections[n]; ok {
			if sl.Kind() == types.FieldVal {
				if p, isp := isPtr(x.typeOf(n.X)); isp || true {
					_ = p
					l := x.selLV(s, n)
					return x.load(s, l)
				}
			}
			unsup("method value %s", n.Sel.Name)
		}
		o := x.P.info.ObjectOf(n.Sel)
		if f, ok := o.(*types.Func); ok {
			return one(f.Type(), x.funcRef(f))
		}
		if v, ok := o.(*types.Var); ok {
			g := global("var."+v.Pkg().Name()+"."+v.Name(), SInt)
			x.factU(and(lt(mkInt(0), g), lt(g, x.alloc0)))
			return one(v.Type(), g)
		}
		unsup("selector %s", n.Sel.Name)
	case *ast.IndexExpr:
		if b, ok := x.typeOf(n.X).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsup("string index")
		}
		return x.load(s, x.lv(s, n))
	case *ast.StarExpr:
		return x.load(s, x.lv(s, n))
	case *ast.SliceExpr:
		return x.sliceExpr(s, n)
	case *ast.UnaryExpr:
		return x.unary(s, n)
	case *ast.BinaryExpr:
		return x.binary(s, n)
	case *ast.CallExpr:
		vs := x.call(s, n)
		if len(vs) == 1 {
			return vs[0]
		}
		r := Val{T: x.typeOf(n)}
		for _, v := range vs {
			r.C = append(r.C, v.C...)
		}
		return r
	case *ast.CompositeLit:
		return x.composite(s, n)
	case *ast.FuncLit:
		r := x.newRef(s)
		x.lits[r.id] = n
		return one(x.typeOf(n), r)
	case *ast.TypeAssertExpr:
		v := x.expr(s, n.X)
		t := x.typeOf(n)
		if _, ok := t.(*types.Tuple); ok {
			unsup("comma-ok type assertion")
		}
		x.safety(s, "nil-assert", ne(v.C[0], mkInt(0)), n)
		x.notes["type assertions are assumed to succeed on non-nil values (dynamic types are not modelled)"] = true
		if len(layout(t)) != 1 || layout(t)[0].kind != 'r' {
			unsup("type assertion to %s", t)
		}
		return Val{t, v.C}
	}
	unsup("expression %T", e)
	return Val{}
}

func (x *Exec) selLV(s *State, n *ast.SelectorExpr) LV {
	return x.lv(s, n)
}

func (x *Exec) funcRef(f *types.Func) *Term {
	g := global("func."+funcKey(f), SInt)
	x.funcs[g.id] = f
	x.factU(and(lt(mkInt(0), g), lt(g, x.alloc0)))
	return g
}

func (x *Exec) sliceExpr(s *State, n *ast.SliceExpr) Val {
	v := x.expr(s, n.X)
	sl, ok := isSlice(v.T)
	if !ok {
		unsup("slicing %s", v.T)
	}
	lo, hi := mkInt(0), v.C[2]
	if n.Low != nil {
		lo = x.expr(s, n.Low).C[0]
	}
	if n.High != nil {
		hi = x.expr(s, n.High).C[0]
	}
	cp := v.C[3]
	if n.Max != nil {
		cp = x.expr(s, n.Max).C[0]
		x.safety(s, "slice-bounds", and(le(hi, cp), le(cp, v.C[3])), n)
	}
	x.safety(s, "slice-bounds", and(le(mkInt(0), lo), le(lo, hi), le(hi, v.C[3])), n)
	_ = sl
	return Val{v.T, []*Term{v.C[0], ixT(v.C[1], lo), sub(hi, lo), sub(cp, lo)}}
}

func (x *Exec) unary(s *State, n *ast.UnaryExpr) Val {
	switch n.Op {
	case token.NOT:
		return one(x.typeOf(n), not(x.expr(s, n.X).C[0]))
	case token.SUB:
		v := x.expr(s, n.X)
		return one(v.T, neg(v.C[0]))
	case token.ADD:
		return x.expr(s, n.X)
	case token.AND:
		if cl, ok := n.X.(*ast.CompositeLit); ok {
			v := x.composite(s, cl)
			return one(x.typeOf(n), x.allocStruct(s, v.T, v))
		}
		l := x.lv(s, n.X)
		if l.kind == 'h' && l.lo == 0 && l.hi == len(layout(l.base)) && types.Identical(l.T, l.base) {
			return one(x.typeOf(n), l.ref)
		}
		if isOpaque(l.T) {
			r := x.load(s, l).C[0]
			x.fact(s, lt(mkInt(0), r))
			return one(x.typeOf(n), r)
		}
		unsup("address of %T", n.X)
	case token.ARROW:
		return x.recv(s, n)
	case token.XOR:
		v := x.expr(s, n.X)
		if v.C[0].sort == SBV8 {
			return one(v.T, mk("bvnot", SBV8, v.C[0]))
		}
	}
	unsup("unary %s", n.Op)
	return Val{}
}

func (x *Exec) binary(s *State, n *ast.BinaryExpr) Val {
	t := x.typeOf(n)
	if n.Op == token.LAND || n.Op == token.LOR {
		a := x.expr(s, n.X).C[0]
		var c *Term
		if n.Op == token.LAND {
			c = a
		} else {
			c = not(a)
		}
		if c == tFalse {
			return one(t, a)
		}
		// evaluate the right operand only when needed
		ys, ns := x.split(s, c)
		nf := len(x.facts)
		before := ys.clone()
		b := x.expr(ys, n.Y).C[0]
		_ = nf
		if !sameState(ys, before) && ns != nil {
			// the right operand changed the state: join
			var r *Term
			if n.Op == token.LAND {
				r = and(a, b)
			} else {
				r = or(a, b)
			}
			m := x.merge(ys, ns)
			*s = *m
			return one(t, r)
		}
		if ns == nil {
			*s = *ys
		}
		if n.Op == token.LAND {
			return one(t, and(a, b))
		}
		return one(t, or(a, b))
	}
	a := x.expr(s, n.X)
	b := x.expr(s, n.Y)
	return x.binop(s, n.Op, a, b, t, n)
}

func sameState(a, b *State) bool {
	if a.alloc != b.alloc || len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range b.vars {
		w, ok := a.vars[k]
		if !ok || len(w.C) != len(v.C) {
			return false
		}
		for i := range v.C {
			if v.C[i] != w.C[i] {
				return false
			}
		}
	}
	return true
}

func (x *Exec) coerceNum(a Val, t types.Type) Val {
	if isFloat(t) && len(a.C) == 1 && a.C[0].sort == SInt {
		return one(t, toReal(a.C[0]))
	}
	return a
}

func (x *Exec) binop(s *State, op token.Token, a, b Val, t types.Type, n ast.Node) Val {
	switch op {
	case token.EQL:
		return one(t, x.goEq(a, b))
	case token.NEQ:
		return one(t, not(x.goEq(a, b)))
	}
	p, q := a.C[0], b.C[0]
	if p.sort == SBV8 || q.sort == SBV8 {
		switch op {
		case token.AND:
			return one(t, mk("bvand", SBV8, p, q))
		case token.OR:
			return one(t, mk("bvor", SBV8, p, q))
		case token.XOR:
			return one(t, mk("bvxor", SBV8, p, q))
		case token.AND_NOT:
			return one(t, mk("bvand", SBV8, p, mk("bvnot", SBV8, q)))
		case token.ADD:
			return one(t, mk("bvadd", SBV8, p, q))
		case token.SUB:
			return one(t, mk("bvsub", SBV8, p, q))
		case token.SHL:
			return one(t, bvShift("bvshl", p, q))
		case token.SHR:
			return one(t, bvShift("bvlshr", p, q))
		case token.LSS:
			return one(t, mk("bvult", SBool, p, q))
		case token.LEQ:
			return one(t, mk("bvule", SBool, p, q))
		case token.GTR:
			return one(t, mk("bvult", SBool, q, p))
		case token.GEQ:
			return one(t, mk("bvule", SBool, q, p))
		}
		unsup("byte operator %s", op)
	}
	if p.sort == SStr {
		switch op {
		case token.ADD:
			return one(t, app("strcat", SStr, p, q))
		case token.LSS:
			return one(t, app("strless", SBool, p, q))
		case token.GTR:
			return one(t, app("strless", SBool, q, p))
		}
		unsup("string operator %s", op)
	}
	switch op {
	case token.ADD:
		return one(t, add(p, q))
	case token.SUB:
		return one(t, sub(p, q))
	case token.MUL:
		return one(t, mul(p, q))
	case token.QUO:
		if p.sort == SReal || q.sort == SReal {
			return one(t, rdiv(p, q))
		}
		x.safety(s, "division", ne(q, mkInt(0)), n)
		return one(t, idiv(p, q))
	case token.REM:
		x.safety(s, "division", ne(q, mkInt(0)), n)
		return one(t, imod(p, q))
	case token.LSS:
		return one(t, lt(p, q))
	case token.LEQ:
		return one(t, le(p, q))
	case token.GTR:
		return one(t, lt(q, p))
	case token.GEQ:
		return one(t, le(q, p))
	case token.SHL:
		return one(t, mul(p, app("f.pow2", SInt, q)))
	case token.SHR:
		if k, ok := intVal(q); ok && k.IsInt64() && k.Int64() < 60 {
			// arithmetic shift: floor division
			return one(t, mk("div", SInt, p, mkInt(1<<uint(k.Int64()))))
		}
	case token.AND:
		if k, ok := intVal(q); ok && k.IsInt64() {
			m := k.Int64() + 1
			if m > 0 && m&(m-1) == 0 {
				return one(t, mk("mod", SInt, p, mkInt(m)))
			}
		}
	}
	unsup("operator %s on %s", op, a.T)
	return Val{}
}

func bvShift(op string, b, k *Term) *Term {
	if n, ok := intVal(k); ok && n.IsInt64() {
		if n.Int64() > 7 {
			return mkLit("#x00", SBV8)
		}
		return mk(op, SBV8, b, mkLit(fmt.Sprintf("#x%02x", n.Int64()), SBV8))
	}
	if k.sort == SBV8 {
		return mk(op, SBV8, b, k)
	}
	r := mkLit("#x00", SBV8)
	for i := 7; i >= 0; i-- {
		r = ite(eq(k, mkInt(int64(i))), mk(op, SBV8, b, mkLit(fmt.Sprintf("#x%02x", i), SBV8)), r)
	}
	return r
}

func (x *Exec) goEq(a, b Val) *Term {
	if len(a.C) == 4 && len(b.C) == 1 || len(a.C) == 1 && len(b.C) == 4 {
		return eq(a.C[0], b.C[0])
	}
	if len(a.C) != len(b.C) {
		unsup("comparison of %s and %s", a.T, b.T)
	}
	var r []*Term
	for i := range a.C {
		r = append(r, eq(a.C[i], b.C[i]))
	}
	return and(r...)
}

func (x *Exec) composite(s *State, n *ast.CompositeLit) Val {
	t := x.typeOf(n)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if typeName(t) == "mat.Transpose" {
			var arg ast.Expr
			if len(n.Elts) == 1 {
				arg = n.Elts[0]
				if kv, ok := arg.(*ast.KeyValueExpr); ok {
					arg = kv.Value
				}
			}
			m := x.convert(s, x.expr(s, arg), u.Field(0).Type())
			return one(t, m.C[0])
		}
		v := x.zeroVal(s, t)
		for i, el := range n.Elts {
			f := u.Field(i)
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				val = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						f = u.Field(j)
					}
				}
			}
			lo, hi, ft, _ := fieldRange(t, f.Name())
			w := x.convert(s, x.exprOrLit(s, val, ft), ft)
			copy(v.C[lo:hi], w.C)
		}
		return v
	case *types.Slice:
		var vs []Val
		for _, el := range n.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				unsup("keyed slice literal")
			}
			vs = append(vs, x.convert(s, x.exprOrLit(s, el, u.Elem()), u.Elem()))
		}
		k := mkInt(int64(len(vs)))
		r := x.newRef(s)
		for i, v := range vs {
			for j, c := range layout(u.Elem()) {
				if c.kind == 'o' {
					x.needOff0(s, v.C[j], n)
					continue
				}
				nm, srt := elemHeap(u.Elem(), c)
				x.fact(s, eq(sel(sel(s.hget(nm, srt, c.kind), r), mkInt(int64(i))), v.C[j]))
			}
		}
		return Val{t, []*Term{r, mkInt(0), k, k}}
	case *types.Map:
		v := x.makeMap(s, t)
		for _, el := range n.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := x.expr(s, kv.Key)
			w := x.convert(s, x.expr(s, kv.Value), u.Elem())
			x.store(s, LV{kind: 'm', base: t, ref: v.C[0], idx: k.C[0], T: u.Elem(), node: n}, w)
		}
		return v
	}
	unsup("composite literal of %s", t)
	return Val{}
}

func (x *Exec) exprOrLit(s *State, e ast.Expr, t types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, isP := isPtr(t); isP {
			v := x.composite(s, cl)
			_ = p
			return one(t, x.allocStruct(s, v.T, v))
		}
	}
	return x.expr(s, e)
}

func (x *Exec) makeMap(s *State, t types.Type) Val {
	mt := t.Underlying().(*types.Map)
	r := x.newRef(s)
	_, d, _, _ := mapHeaps(s, mt)
	ks := layout(mt.Key())[0].sort
	x.fact(s, eq(sel(d, r), constArr("(Array "+ks+" Bool)", tFalse)))
	return one(t, r)
}

// convert adapts a value to a target type at assignments, calls and conversions.
func (x *Exec) convert(s *State, v Val, t types.Type) Val {
	if types.Identical(v.T, t) {
		return Val{t, v.C}
	}
	if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		if _, ok := isSlice(t); ok {
			z := mkInt(0)
			return Val{t, []*Term{z, z, z, z}}
		}
		return Val{t, v.C}
	}
	if isInterface(t) {
		return x.toInterface(s, v, t)
	}
	tb, ok1 := t.Underlying().(*types.Basic)
	vb, ok2 := v.T.Underlying().(*types.Basic)
	if ok1 && ok2 {
		c := v.C[0]
		switch {
		case tb.Info()&types.IsFloat != 0:
			return one(t, toReal(c))
		case tb.Kind() == types.Uint8:
			if c.sort == SBV8 {
				return one(t, c)
			}
			if n, ok := intVal(c); ok {
				return one(t, mkLit(fmt.Sprintf("#x%02x", new(big.Int).And(n, big.NewInt(255)).Int64()), SBV8))
			}
			unsup("conversion to byte")
		case tb.Info()&types.IsInteger != 0:
			if c.sort == SReal {
				return one(t, truncT(c))
			}
			if c.sort == SBV8 {
				return one(t, mk("bv2nat", SInt, c))
			}
			return one(t, c)
		case tb.Info()&types.IsString != 0 && vb.Info()&types.IsString != 0:
			return one(t, c)
		case tb.Info()&types.IsBoolean != 0:
			return one(t, c)
		}
		unsup("conversion %s to %s", v.T, t)
	}
	if len(layout(t)) == len(v.C) {
		return Val{t, v.C}
	}
	unsup("conversion %s to %s", v.T, t)
	return Val{}
}

func (x *Exec) toInterface(s *State, v Val, t types.Type) Val {
	if isInterface(v.T) {
		return Val{t, v.C}
	}
	if typeName(v.T) == "mat.Transpose" {
		src := v.C[0]
		r := x.newRef(s)
		i, j := freshVar("i", SInt), freshVar("j", SInt)
		m := s.mat()
		x.fact(s, and(eq(sel(s.mrows(), r), sel(s.mcols(), src)), eq(sel(s.mcols(), r), sel(s.mrows(), src))))
		tt := sel(sel(sel(m, r), i), j)
		x.fact(s, forall([]*Term{i, j}, [][]*Term{{tt}}, eq(tt, sel(sel(sel(m, src), j), i))))
		return one(t, r)
	}
	if p, ok := isPtr(v.T); ok {
		if vw, ok := x.P.S.views[typeName(p.Elem())]; ok {
			return one(t, x.snapshotView(s, vw, v))
		}
		return Val{t, v.C}
	}
	if len(v.C) == 1 && layout(v.T)[0].kind == 'r' {
		return Val{t, v.C}
	}
	// boxed non-pointer value: an opaque interface value
	return one(t, x.newRef(s))
}

func (x *Exec) snapshotView(s *State, vw *ViewDecl, v Val) *Term {
	x.notes["a view (column view, slice vector) passed as a matrix interface is taken as a snapshot of the data it shows at that moment"] = true
	r := x.newRef(s)
	env := x.env(s)
	env = env.with(vw.v, v)
	x.fact(s, and(eq(sel(s.mrows(), r), env.term(vw.rows)), eq(sel(s.mcols(), r), env.term(vw.cols))))
	i, j := freshVar("i", SInt), freshVar("j", SInt)
	e2 := env.with(vw.i, one(tyInt, i)).with(vw.j, one(tyInt, j))
	tt := sel(sel(sel(s.mat(), r), i), j)
	in := and(le(mkInt(0), i), lt(i, env.term(vw.rows)), le(mkInt(0), j), lt(j, env.term(vw.cols)))
	x.fact(s, forall([]*Term{i, j}, [][]*Term{{tt}}, implies(in, eq(tt, e2.term(vw.at)))))
	x.fact(s, and(le(mkInt(0), sel(s.mrows(), r)), le(mkInt(0), sel(s.mcols(), r))))
	if x.snaps == nil {
		x.snaps = map[string]*Term{}
	}
	x.snaps[vw.typ] = r
	return r
}

func (x *Exec) env(s *State) *Env {
	return &Env{P: x.P, vars: map[string]Val{}, st: s, old: x.entry, allocOld: x.alloc0}
}

func (x *Exec) recv(s *State, n *ast.UnaryExpr) Val {
	ct := x.typeOf(n.X).Underlying().(*types.Chan)
	c := x.expr(s, n.X)
	if v, ok := x.spawnRecv(s, c.C[0], ct.Elem(), n); ok {
		return v
	}
	return x.recvMsg(s, n.X, ct.Elem(), n)
}

func (x *Exec) chanName(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

// chanSpec finds the channel invariant; channels are identified by parameter position.
func (x *Exec) chanSpec(e ast.Expr) (Clause, bool) {
	if x.con == nil {
		return Clause{}, false
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return Clause{}, false
	}
	o := x.P.info.ObjectOf(id)
	n := x.specParamName(o)
	if n == "" {
		n = id.Name
	}
	c, ok := x.con.chans[n]
	return c, ok
}

func (x *Exec) specParamName(o types.Object) string {
	if x.con == nil || len(x.frames) == 0 {
		return ""
	}
	for i, p := range paramObjs(x.frames[0].sig) {
		if p == o && i < len(x.con.params) {
			return x.con.params[i]
		}
	}
	return ""
}

func (x *Exec) chanAssume(s *State, ch ast.Expr, v Val) {
	c, ok := x.chanSpec(ch)
	if !ok {
		return
	}
	env := x.paramEnv(s).with("msg", v)
	x.fact(s, env.boolT(c.e))
}

func (x *Exec) freshVal(s *State, t types.Type, name string) Val {
	v := Val{T: t}
	for _, c := range layout(t) {
		if c.kind == 'o' {
			v.C = append(v.C, mkInt(0))
			continue
		}
		v.C = append(v.C, fresh(name+c.suf, c.sort))
	}
	x.typeFacts(s, v)
	return v
}

// ---- statements ----

func (x *Exec) block(s *State, list []ast.Stmt) *State {
	for _, st := range list {
		if s == nil {
			return nil
		}
		var pre *State
		if len(x.guards) > 0 && simpleStmt(st) {
			pre = s.clone()
		}
		x.lastInline = nil
		s = x.stmt(s, st)
		if pre != nil && !(x.lastInline != nil && oneCall(st) && eachStep(x.lastInline)) {
			x.guarantee(pre, s, st)
		}
		x.runHooks(s, st)
	}
	return s
}

func (x *Exec) assign(s *State, lhs ast.Expr, v Val, define bool) {
	if id, ok := lhs.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if define {
			if o := x.P.info.Defs[id]; o != nil {
				x.declare(s, o, x.convert(s, v, o.Type()))
				return
			}
		}
	}
	l := x.lv(s, lhs)
	if l.kind == 'h' {
		if id, ok := lhs.(*ast.Ident); ok && x.boxed[x.P.info.ObjectOf(id)] {
			// assignment to a boxed variable
			x.store(s, l, x.convert(s, v, l.T))
			return
		}
	}
	x.store(s, l, x.convert(s, v, l.T))
}

func (x *Exec) declare(s *State, o types.Object, v Val) {
	if x.boxed[o] && !isOpaque(o.Type()) {
		if _, ok := o.Type().Underlying().(*types.Struct); !ok {
			unsup("address taken of non-struct variable %s", o.Name())
		}
		r := x.allocStruct(s, o.Type(), v)
		s.vars[o] = one(types.NewPointer(o.Type()), r)
		return
	}
	s.vars[o] = v
}

func (x *Exec) stmt(s *State, st ast.Stmt) *State {
	switch n := st.(type) {
	case *ast.EmptyStmt:
		return s
	case *ast.BlockStmt:
		return x.block(s, n.List)
	case *ast.ExprStmt:
		if c, ok := n.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				if _, ok := x.P.info.ObjectOf(id).(*types.Builtin); ok {
					for _, a := range c.Args {
						x.evalIgnored(s, a)
					}
					x.panicAt(s, n)
					return nil
				}
			}
			x.call(s, c)
			return s
		}
		x.expr(s, n.X)
		return s
	case *ast.AssignStmt:
		return x.assignStmt(s, n)
	case *ast.IncDecStmt:
		l := x.lv(s, n.X)
		v := x.load(s, l)
		d := mkInt(1)
		op := token.ADD
		if n.Tok == token.DEC {
			op = token.SUB
		}
		one_ := one(v.T, d)
		if isFloat(v.T) {
			one_ = one(v.T, toReal(d))
		}
		if v.C[0].sort == SBV8 {
			one_ = one(v.T, mkLit("#x01", SBV8))
		}
		x.store(s, l, x.binop(s, op, v, one_, v.T, n))
		return s
	case *ast.DeclStmt:
		gd := n.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return s
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				unsup("multi-value var declaration")
			}
			for i, id := range vs.Names {
				o := x.P.info.Defs[id]
				if o == nil {
					continue
				}
				if len(vs.Values) > 0 {
					x.declare(s, o, x.convert(s, x.expr(s, vs.Values[i]), o.Type()))
				} else {
					x.declare(s, o, x.zeroVal(s, o.Type()))
				}
			}
		}
		return s
	case *ast.IfStmt:
		if n.Init != nil {
			s = x.stmt(s, n.Init)
			if s == nil {
				return nil
			}
		}
		c := x.expr(s, n.Cond).C[0]
		a, b := x.split(s, c)
		if a != nil {
			a = x.block(a, n.Body.List)
		}
		if b != nil && n.Else != nil {
			b = x.stmt(b, n.Else)
		}
		if x.tails[n] && x.fr.top {
			for _, e := range []*State{a, b} {
				if e != nil && e.pc != tFalse {
					x.doReturn(e, nil, x.fr.body)
				}
			}
			return nil
		}
		return x.merge(a, b)
	case *ast.ForStmt:
		return x.forStmt(s, n, "")
	case *ast.RangeStmt:
		return x.rangeStmt(s, n, "")
	case *ast.LabeledStmt:
		switch l := n.Stmt.(type) {
		case *ast.ForStmt:
			return x.forStmt(s, l, n.Label.Name)
		case *ast.RangeStmt:
			return x.rangeStmt(s, l, n.Label.Name)
		}
		return x.stmt(s, n.Stmt)
	case *ast.BranchStmt:
		lab := ""
		if n.Label != nil {
			lab = n.Label.Name
		}
		for i := len(x.fr.targets) - 1; i >= 0; i-- {
			t := x.fr.targets[i]
			if lab != "" && t.label != lab {
				continue
			}
			if n.Tok == token.CONTINUE && !t.loop {
				continue
			}
			if n.Tok == token.BREAK {
				if t.atBrk != nil {
					t.atBrk(s)
				}
				t.brk = append(t.brk, s)
			} else if n.Tok == token.CONTINUE && t.atEnd != nil {
				t.atEnd(s)
			} else if n.Tok == token.CONTINUE {
				t.cont = append(t.cont, s)
			} else {
				unsup("branch %s", n.Tok)
			}
			return nil
		}
		unsup("branch target")
	case *ast.ReturnStmt:
		return x.returnStmt(s, n)
	case *ast.SwitchStmt:
		return x.switchStmt(s, n)
	case *ast.DeferStmt:
		x.fr.defers = append(x.fr.defers, n.Call)
		return s
	case *ast.SendStmt:
		ch := x.expr(s, n.Chan)
		ct := x.typeOf(n.Chan).Underlying().(*types.Chan)
		v := x.convert(s, x.expr(s, n.Value), ct.Elem())
		if c, ok := x.chanSpec(n.Chan); ok {
			env := x.paramEnv(s).with("msg", v)
			x.oblige(s, "send "+x.chanName(n.Chan), env.boolT(c.e), n)
		}
		x.sent(s, n.Chan, v, n)
		x.spawnSend(s, ch.C[0], v, n)
		return s
	case *ast.GoStmt:
		x.goStmt(s, n)
		return s
	case *ast.SelectStmt:
		return x.selectStmt(s, n)
	}
	unsup("statement %T", st)
	return nil
}

func (x *Exec) evalIgnored(s *State, e ast.Expr) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				return
			}
			panic(r)
		}
	}()
	x.expr(s, e)
}

func (x *Exec) panicAt(s *State, n ast.Node) {
	if x.con != nil && x.con.flags["panicsAny"] {
		return
	}
	x.oblige(s, "panic", x.panicCond(), n)
}

// panicCond is the condition (over the entry state) under which the function may panic.
func (x *Exec) panicCond() *Term {
	if x.con == nil {
		return tFalse
	}
	var cs []*Term
	for _, p := range x.con.panics {
		cs = append(cs, x.entryEnv.boolT(p))
	}
	return or(cs...)
}

func (x *Exec) assignStmt(s *State, n *ast.AssignStmt) *State {
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op, ok := ops[n.Tok]
		if !ok {
			unsup("assignment %s", n.Tok)
		}
		l := x.lv(s, n.Lhs[0])
		v := x.load(s, l)
		w := x.expr(s, n.Rhs[0])
		if op != token.SHL && op != token.SHR {
			w = x.convert(s, w, l.T)
		}
		x.store(s, l, x.binop(s, op, v, w, l.T, n))
		return s
	}
	def := n.Tok == token.DEFINE
	if len(n.Lhs) == len(n.Rhs) {
		if len(n.Lhs) == 1 {
			// evaluate the location first only for its index expressions: Go evaluates operands, then assigns
			v := x.exprOrLit(s, n.Rhs[0], x.lhsType(n.Lhs[0]))
			x.assign(s, n.Lhs[0], v, def)
			return s
		}
		var vs []Val
		var ls []LV
		if !def {
			for _, l := range n.Lhs {
				ls = append(ls, x.lv(s, l))
			}
		}
		for _, r := range n.Rhs {
			vs = append(vs, x.expr(s, r))
		}
		for i := range n.Lhs {
			if def {
				x.assign(s, n.Lhs[i], vs[i], def)
			} else if ls[i].kind != '_' {
				x.store(s, ls[i], x.convert(s, vs[i], ls[i].T))
			}
		}
		return s
	}
	// tuple assignment
	var vs []Val
	switch r := n.Rhs[0].(type) {
	case *ast.CallExpr:
		vs = x.call(s, r)
	case *ast.IndexExpr:
		// v, ok := m[k]
		b := x.expr(s, r.X)
		mt, ok := b.T.Underlying().(*types.Map)
		if !ok {
			unsup("comma-ok index")
		}
		k := x.expr(s, r.Index)
		_, d, _, m := mapHeaps(s, mt)
		in := and(ne(b.C[0], mkInt(0)), sel(sel(d, b.C[0]), k.C[0]))
		e := layout(mt.Elem())[0]
		vs = []Val{one(mt.Elem(), ite(in, sel(sel(m, b.C[0]), k.C[0]), zeroTerm(x.P, e.sort))), one(tyBool, in)}
	default:
		unsup("tuple assignment from %T", r)
	}
	if len(vs) != len(n.Lhs) {
		unsup("tuple size")
	}
	for i := range n.Lhs {
		x.assign(s, n.Lhs[i], vs[i], def)
	}
	return s
}

func (x *Exec) lhsType(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return tyNil
	}
	if t := x.P.info.TypeOf(e); t != nil {
		return t
	}
	return tyNil
}

func (x *Exec) switchStmt(s *State, n *ast.SwitchStmt) *State {
	if n.Init != nil {
		s = x.stmt(s, n.Init)
	}
	var tag *Val
	if n.Tag != nil {
		v := x.expr(s, n.Tag)
		tag = &v
	}
	tg := &target{}
	x.fr.targets = append(x.fr.targets, tg)
	var outs []*State
	cur := s
	var def *ast.CaseClause
	for _, c := range n.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if cur == nil {
			break
		}
		var conds []*Term
		for _, e := range cc.List {
			v := x.expr(cur, e)
			if tag != nil {
				conds = append(conds, x.goEq(*tag, v))
			} else {
				conds = append(conds, v.C[0])
			}
		}
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				unsup("fallthrough")
			}
		}
		a, b := x.split(cur, or(conds...))
		if a != nil {
			outs = append(outs, x.block(a, cc.Body))
		}
		cur = b
	}
	if cur != nil && def != nil {
		cur = x.block(cur, def.Body)
	}
	outs = append(outs, cur)
	x.fr.targets = x.fr.targets[:len(x.fr.targets)-1]
	outs = append(outs, tg.brk...)
	return x.merge(outs...)
}

func (x *Exec) returnStmt(s *State, n *ast.ReturnStmt) *State {
	res := x.fr.sig.Results()
	var vs []Val
	if len(n.Results) == 0 && res.Len() > 0 {
		for _, o := range x.fr.results {
			vs = append(vs, x.load(s, x.lvObj(s, o)))
		}
	} else if len(n.Results) == 1 && res.Len() > 1 {
		vs = x.call(s, n.Results[0].(*ast.CallExpr))
	} else {
		for i, r := range n.Results {
			vs = append(vs, x.convert(s, x.exprOrLit(s, r, res.At(i).Type()), res.At(i).Type()))
		}
	}
	for i := range vs {
		vs[i] = x.convert(s, vs[i], res.At(i).Type())
	}
	x.doReturn(s, vs, n)
	return nil
}

func (x *Exec) lvObj(s *State, o types.Object) LV {
	if x.boxed[o] && !isOpaque(o.Type()) {
		return LV{kind: 'h', base: o.Type(), ref: s.vars[o].C[0], lo: 0, hi: len(layout(o.Type())), T: o.Type()}
	}
	return LV{kind: 'v', obj: o, lo: 0, hi: len(layout(o.Type())), T: o.Type()}
}

func (x *Exec) doReturn(s *State, vs []Val, n ast.Node) {
	for i := len(x.fr.defers) - 1; i >= 0; i-- {
		x.call(s, x.fr.defers[i])
	}
	if x.fr.top {
		if x.rec == 0 {
			x.checkPost(s, vs, n)
		}
		return
	}
	x.fr.rets = append(x.fr.rets, retRec{s, vs})
}

func (x *Exec) debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
