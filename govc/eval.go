package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SeqT is the specification-only type of mathematical arrays indexed by integers.
type SeqT struct{ elem types.Type }

func (s *SeqT) Underlying() types.Type { return s }
func (s *SeqT) String() string         { return "seq " + s.elem.String() }

var (
	tyInt  types.Type = types.Typ[types.Int]
	tyBool types.Type = types.Typ[types.Bool]
	tyReal types.Type = types.Typ[types.Float64]
	tyStr  types.Type = types.Typ[types.String]
	tyRef  types.Type = types.Typ[types.UnsafePointer]
	tyNil  types.Type = types.Typ[types.UntypedNil]
)

// Val is a value flattened into scalar components.
type Val struct {
	T types.Type
	C []*Term
}

func one(t types.Type, c *Term) Val { return Val{t, []*Term{c}} }

type Comp struct {
	suf  string
	sort string
	kind byte // 'r' reference, 'o' offset, 'l' length, 'c' capacity, 'v' plain
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if isTargetPkg(p) {
		return false
	}
	switch p.Name() + "." + n.Obj().Name() {
	case "plotter.XY", "mat.Transpose", "blas64.Vector":
		return false
	}
	return true
}

var layoutMemo = map[types.Type][]Comp{}

func layout(t types.Type) []Comp {
	t = types.Unalias(t)
	if l, ok := layoutMemo[t]; ok {
		return l
	}
	l := layout1(t)
	layoutMemo[t] = l
	return l
}

func layout1(t types.Type) []Comp {
	if isOpaque(t) {
		return []Comp{{"", SInt, 'r'}}
	}
	switch u := t.Underlying().(type) {
	case *SeqT:
		var r []Comp
		for _, c := range layout(u.elem) {
			r = append(r, Comp{c.suf, arrSort(c.sort), 'v'})
		}
		return r
	case *types.Basic:
		switch {
		case u.Kind() == types.Uint8:
			return []Comp{{"", SBV8, 'v'}}
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", SBool, 'v'}}
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", SInt, 'v'}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{"", SReal, 'v'}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", SStr, 'v'}}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return []Comp{{"", SInt, 'r'}}
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return []Comp{{"", SInt, 'r'}}
	case *types.Slice:
		return []Comp{{".ref", SInt, 'r'}, {".off", SInt, 'o'}, {".len", SInt, 'l'}, {".cap", SInt, 'c'}}
	case *types.Struct:
		var r []Comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range layout(u.Field(i).Type()) {
				r = append(r, Comp{"." + u.Field(i).Name() + c.suf, c.sort, c.kind})
			}
		}
		return r
	case *types.Tuple:
		var r []Comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range layout(u.At(i).Type()) {
				r = append(r, Comp{fmt.Sprintf(".%d", i) + c.suf, c.sort, c.kind})
			}
		}
		return r
	}
	unsup("type %s", t)
	return nil
}

func isSlice(t types.Type) (*types.Slice, bool) {
	s, ok := t.Underlying().(*types.Slice)
	return s, ok
}
func isPtr(t types.Type) (*types.Pointer, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	return p, ok
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if isTargetPkg(p) {
			return ""
		}
		return p.Name()
	})
}

// fieldRange finds a field in a struct type: component range and type.
func fieldRange(t types.Type, name string) (lo, hi int, ft types.Type, ok bool) {
	st, isS := t.Underlying().(*types.Struct)
	if !isS || isOpaque(t) {
		return
	}
	o := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := len(layout(f.Type()))
		if f.Name() == name {
			return o, o + n, f.Type(), true
		}
		o += n
	}
	return
}

// ---- state ----

type State struct {
	pc    *Term
	vars  map[types.Object]Val
	heap  map[string]*Term
	alloc *Term
	ghost map[string]Val    // loop indices etc.
	marks map[string]*State // the state when the last message came; never written, only replaced
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, marks: s.marks, vars: map[types.Object]Val{}, heap: map[string]*Term{}, ghost: map[string]Val{}}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

var heapSorts = map[string]string{}
var heapKinds = map[string]byte{}

// hget returns the current term of a heap.
func (s *State) hget(name, srt string, kind byte) *Term {
	if o, ok := heapSorts[name]; ok && o != srt {
		panic("heap " + name + " sort " + o + " vs " + srt)
	}
	heapSorts[name] = srt
	heapKinds[name] = kind
	if t, ok := s.heap[name]; ok {
		return t
	}
	return global(name+"@0", srt)
}
func (s *State) hset(name string, t *Term) { s.heap[name] = t }

// field heap of a struct type component
func fieldHeap(t types.Type, c Comp) (string, string) {
	return "H." + typeName(t) + c.suf, arrSort(c.sort)
}

// element heap of a slice element type component
func elemHeap(t types.Type, c Comp) (string, string) {
	return "A." + typeName(t) + c.suf, arrSort(arrSort(c.sort))
}

func ixT(off, i *Term) *Term {
	if n, ok := intVal(off); ok && n.Sign() == 0 {
		return i
	}
	return add(off, i)
}

// loadField reads comps [lo,hi) of the struct behind pointer ref.
func loadField(s *State, st types.Type, lo, hi int, ft types.Type, ref *Term) Val {
	if isListElement(st) {
		return one(ft, sel(s.hget("E.val", arrSort(SInt), 'r'), ref))
	}
	l := layout(st)
	v := Val{T: ft}
	for i := lo; i < hi; i++ {
		if l[i].kind == 'o' {
			v.C = append(v.C, mkInt(0))
			continue
		}
		n, srt := fieldHeap(st, l[i])
		v.C = append(v.C, sel(s.hget(n, srt, l[i].kind), ref))
	}
	return v
}

func isListElement(t types.Type) bool { return typeName(t) == "list.Element" }

func storeField(s *State, st types.Type, lo int, ref *Term, v Val, onOff func(*Term)) {
	l := layout(st)
	for i := range v.C {
		c := l[lo+i]
		if c.kind == 'o' {
			if onOff != nil {
				onOff(v.C[i])
			}
			continue
		}
		n, srt := fieldHeap(st, c)
		h := s.hget(n, srt, c.kind)
		s.hset(n, store(h, ref, v.C[i]))
	}
}

func loadElem(s *State, et types.Type, ref, idx *Term, lo, hi int, ft types.Type) Val {
	l := layout(et)
	v := Val{T: ft}
	for i := lo; i < hi; i++ {
		if l[i].kind == 'o' {
			v.C = append(v.C, mkInt(0))
			continue
		}
		n, srt := elemHeap(et, l[i])
		v.C = append(v.C, sel(sel(s.hget(n, srt, l[i].kind), ref), idx))
	}
	return v
}

func storeElem(s *State, et types.Type, ref, idx *Term, lo int, v Val, onOff func(*Term)) {
	l := layout(et)
	for i := range v.C {
		c := l[lo+i]
		if c.kind == 'o' {
			if onOff != nil {
				onOff(v.C[i])
			}
			continue
		}
		n, srt := elemHeap(et, c)
		h := s.hget(n, srt, c.kind)
		s.hset(n, store(h, ref, store(sel(h, ref), idx, v.C[i])))
	}
}

const (
	sII  = "(Array Int Int)"
	sIII = "(Array Int (Array Int Int))"
)

func matSort() string { return arrSort(arrSort(arrSort(SReal))) }

func (s *State) mrows() *Term { return s.hget("M.rows", sII, 'l') }
func (s *State) mcols() *Term { return s.hget("M.cols", sII, 'l') }
func (s *State) mat() *Term   { return s.hget("M.at", matSort(), 'v') }
func (s *State) llen() *Term  { return s.hget("L.len", sII, 'l') }
func (s *State) lseq() *Term  { return s.hget("L.seq", sIII, 'v') }
func (s *State) eval() *Term  { return s.hget("E.val", sII, 'r') }
func (s *State) eown() *Term  { return s.hget("E.own", sII, 'v') }
func (s *State) epos() *Term  { return s.hget("E.pos", sII, 'v') }

func mapHeaps(s *State, mt *types.Map) (dn string, d *Term, vn string, v *Term) {
	k := layout(mt.Key())
	e := layout(mt.Elem())
	if len(k) != 1 || len(e) != 1 {
		unsup("map type %s", mt)
	}
	base := typeName(mt)
	dn, vn = "MD."+base, "MV."+base
	d = s.hget(dn, arrSort("(Array "+k[0].sort+" Bool)"), 'v')
	v = s.hget(vn, arrSort("(Array "+k[0].sort+" "+e[0].sort+")"), 'v')
	return
}

func ref(v Val) *Term { return v.C[0] }
func slLen(v Val) *Term {
	return v.C[2]
}

// ---- specification environment ----

type Env struct {
	lookID   string
	P        *Prog
	vars     map[string]Val
	st       *State
	old      *State
	pre      *State
	allocOld *Term
	look     func(name string, st *State) (Val, bool) // program variables
	depth    int
	snaps    map[string]*Term // in hooks: the matrices views were last passed as
}

func (e *Env) with(name string, v Val) *Env {
	n := *e
	n.vars = map[string]Val{}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}
func (e *Env) inState(s *State) *Env {
	n := *e
	n.st = s
	return &n
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type unresolved struct{ name string }

func (e *Env) boolT(x SE) *Term {
	v := e.eval(x)
	if len(v.C) != 1 || v.C[0].sort != SBool {
		serr("boolean expected: %v", x)
	}
	return v.C[0]
}
func (e *Env) term(x SE) *Term {
	v := e.eval(x)
	if len(v.C) != 1 {
		serr("scalar expected: %v", x)
	}
	return v.C[0]
}

func bigRat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		serr("bad number %s", s)
	}
	return r
}

func arith(op string, a, b Val) Val {
	x, y := a.C[0], b.C[0]
	real := x.sort == SReal || y.sort == SReal
	t := tyInt
	if real {
		t = tyReal
	}
	switch op {
	case "+":
		return one(t, add(x, y))
	case "-":
		return one(t, sub(x, y))
	case "*":
		return one(t, mul(x, y))
	case "/":
		if real {
			return one(t, rdiv(x, y))
		}
		return one(t, idiv(x, y))
	case "%":
		return one(t, imod(x, y))
	}
	panic(op)
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func valEq(a, b Val) *Term {
	if len(a.C) == 4 && len(b.C) == 1 || len(b.C) == 4 && len(a.C) == 1 {
		return eq(a.C[0], b.C[0])
	}
	if len(a.C) != len(b.C) {
		serr("comparison of %s and %s", a.T, b.T)
	}
	var r []*Term
	for i := range a.C {
		if len(a.C) == 4 && i == 3 {
			continue // capacities are not compared
		}
		r = append(r, eq(a.C[i], b.C[i]))
	}
	return and(r...)
}

func (e *Env) eval(x SE) Val {
	switch n := x.(type) {
	case sNum:
		if strings.ContainsAny(n.text, ".e") {
			// real literals denote float64 constants, as in the code
			f, _ := bigRat(n.text).Float64()
			return one(tyReal, mkRat(new(big.Rat).SetFloat64(f)))
		}
		b, _ := new(big.Int).SetString(n.text, 10)
		return one(tyInt, mkBigInt(b))
	case sStr:
		return one(tyStr, e.P.strLit(n.text))
	case sId:
		return e.ident(n.name)
	case sUn:
		v := e.eval(n.x)
		if n.op == "!" {
			return one(tyBool, not(v.C[0]))
		}
		return one(v.T, neg(v.C[0]))
	case sBin:
		switch n.op {
		case "&&":
			return one(tyBool, and(e.boolT(n.l), e.boolT(n.r)))
		case "||":
			return one(tyBool, or(e.boolT(n.l), e.boolT(n.r)))
		case "==>":
			return one(tyBool, implies(e.boolT(n.l), e.boolT(n.r)))
		case "<==>":
			return one(tyBool, eq(e.boolT(n.l), e.boolT(n.r)))
		case "==":
			return one(tyBool, valEq(e.eval(n.l), e.eval(n.r)))
		case "!=":
			return one(tyBool, not(valEq(e.eval(n.l), e.eval(n.r))))
		case "<":
			return one(tyBool, lt(e.term(n.l), e.term(n.r)))
		case "<=":
			return one(tyBool, le(e.term(n.l), e.term(n.r)))
		case ">":
			return one(tyBool, gt(e.term(n.l), e.term(n.r)))
		case ">=":
			return one(tyBool, ge(e.term(n.l), e.term(n.r)))
		}
		return arith(n.op, e.eval(n.l), e.eval(n.r))
	case sIf:
		c := e.boolT(n.c)
		a, b := e.eval(n.a), e.eval(n.b)
		if len(a.C) != len(b.C) {
			serr("if branches differ")
		}
		r := Val{T: a.T}
		for i := range a.C {
			r.C = append(r.C, ite(c, a.C[i], b.C[i]))
		}
		if len(r.C) == 1 && r.C[0].sort == SReal {
			r.T = tyReal
		}
		return r
	case sLet:
		return e.with(n.name, e.eval(n.v)).eval(n.b)
	case sQuant:
		ne := e
		var vars []*Term
		for _, v := range n.vars {
			t := e.P.resolveType(v.typ)
			val := Val{T: t}
			for _, c := range layout(t) {
				if c.kind == 'o' {
					val.C = append(val.C, mkInt(0))
					continue
				}
				bv := freshVar(v.name, c.sort)
				vars = append(vars, bv)
				val.C = append(val.C, bv)
			}
			ne = ne.with(v.name, val)
		}
		var pats [][]*Term
		for _, p := range n.pats {
			var vs []Val
			for _, y := range p {
				vs = append(vs, ne.eval(y))
			}
			pats = append(pats, patterns(vs)...)
		}
		return one(tyBool, quant(n.kind, vars, pats, ne.boolT(n.body)))
	case sIdx:
		v := e.eval(n.x)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			i := e.term(n.i)
			return loadElem(e.st, u.Elem(), v.C[0], ixT(v.C[1], i), 0, len(layout(u.Elem())), u.Elem())
		case *SeqT:
			i := e.term(n.i)
			r := Val{T: u.elem}
			for _, c := range v.C {
				r.C = append(r.C, sel(c, i))
			}
			return r
		}
		serr("index of %s", v.T)
	case sSel:
		v := e.eval(n.x)
		t := v.T
		if p, ok := isPtr(t); ok {
			st := p.Elem()
			if isListElement(st) && n.f == "Value" {
				return one(tyRef, sel(e.st.eval(), v.C[0]))
			}
			lo, hi, ft, ok := fieldRange(st, n.f)
			if !ok {
				serr("no field %s in %s", n.f, t)
			}
			return loadField(e.st, st, lo, hi, ft, v.C[0])
		}
		lo, hi, ft, ok := fieldRange(t, n.f)
		if !ok {
			serr("no field %s in %s", n.f, t)
		}
		return Val{ft, v.C[lo:hi]}
	case sCall:
		return e.call(n)
	}
	serr("cannot evaluate %T", x)
	return Val{}
}

func (e *Env) ident(name string) Val {
	if v, ok := e.vars[name]; ok {
		return v
	}
	switch name {
	case "true":
		return one(tyBool, tTrue)
	case "false":
		return one(tyBool, tFalse)
	case "nil":
		return one(tyNil, mkInt(0))
	case "MaxFloat64":
		return one(tyReal, mkRat(maxFloat()))
	}
	if e.look != nil {
		if v, ok := e.look(name, e.st); ok {
			return v
		}
	}
	if d, ok := e.P.S.defs[name]; ok && len(d.params) == 0 {
		return e.eval(d.body)
	}
	if f, ok := e.P.S.funs[name]; ok && len(f.params) == 0 {
		return e.P.applySpec(f, nil)
	}
	panic(unresolved{name})
}

func maxFloat() *big.Rat {
	// (2^53-1) * 2^971
	a := new(big.Int).Lsh(big.NewInt(1), 53)
	a.Sub(a, big.NewInt(1))
	a.Lsh(a, 971)
	return new(big.Rat).SetInt(a)
}

func (e *Env) call(n sCall) Val {
	s := e.st
	arg := func(i int) Val {
		if i >= len(n.args) {
			serr("%s: missing argument", n.fn)
		}
		return e.eval(n.args[i])
	}
	switch n.fn {
	case "old":
		if e.old == nil {
			serr("old without state")
		}
		return e.inState(e.old).eval(n.args[0])
	case "pre":
		if e.pre == nil {
			serr("pre without state")
		}
		return e.inState(e.pre).eval(n.args[0])
	case "owed":
		id, ok := n.args[0].(sId)
		if !ok {
			serr("owed: the name of a channel is expected")
		}
		v, ok := s.ghost["relay#"+id.name]
		if !ok {
			serr("owed: %s is not the channel of a fork", id.name)
		}
		return v
	case "outstanding", "answered", "pending", "workers":
		id, ok := n.args[0].(sId)
		if !ok {
			serr("%s: the name of a function is expected", n.fn)
		}
		v, ok := s.ghost[n.fn[:3]+":"+id.name]
		if !ok {
			serr("%s: %s is not spawned", n.fn, id.name)
		}
		return v
	case "len":
		v := arg(0)
		if _, ok := isSlice(v.T); ok {
			return one(tyInt, v.C[2])
		}
		serr("len of %s", v.T)
	case "cap":
		return one(tyInt, arg(0).C[3])
	case "off":
		return one(tyInt, arg(0).C[1])
	case "ref":
		return one(tyRef, arg(0).C[0])
	case "arr":
		v := arg(0)
		sl, ok := isSlice(v.T)
		if !ok {
			serr("arr of %s", v.T)
		}
		r := Val{T: &SeqT{sl.Elem()}}
		for _, c := range layout(sl.Elem()) {
			if c.kind == 'o' {
				r.C = append(r.C, constArr(arrSort(SInt), mkInt(0)))
				continue
			}
			nm, srt := elemHeap(sl.Elem(), c)
			r.C = append(r.C, sel(s.hget(nm, srt, c.kind), v.C[0]))
		}
		return r
	case "fresh":
		v := arg(0)
		return one(tyBool, and(le(e.allocOld, v.C[0]), lt(v.C[0], s.alloc), lt(mkInt(0), v.C[0])))
	case "newfrom":
		// newfrom(x): x is nil or allocated since entry
		v := arg(0)
		return one(tyBool, and(or(le(e.allocOld, v.C[0]), eq(v.C[0], mkInt(0))), lt(v.C[0], s.alloc)))
	case "older":
		// older(a, b): a was allocated before b
		return one(tyBool, lt(arg(0).C[0], arg(1).C[0]))
	case "allocated":
		v := arg(0)
		return one(tyBool, and(lt(mkInt(0), v.C[0]), lt(v.C[0], s.alloc)))
	case "rows":
		return one(tyInt, sel(s.mrows(), arg(0).C[0]))
	case "cols":
		return one(tyInt, sel(s.mcols(), arg(0).C[0]))
	case "cont":
		if len(e.snaps) > 0 {
			// in a hook: a view is the matrix it was last passed as
			vt := arg(0).T
			if p, ok := isPtr(vt); ok {
				vt = p.Elem()
			}
			if r, ok := e.snaps[typeName(vt)]; ok {
				return one(&SeqT{&SeqT{tyReal}}, sel(s.mat(), r))
			}
		}
		return one(&SeqT{&SeqT{tyReal}}, sel(s.mat(), arg(0).C[0]))
	case "at":
		return one(tyReal, sel(sel(sel(s.mat(), arg(0).C[0]), arg(1).C[0]), arg(2).C[0]))
	case "llen":
		return one(tyInt, sel(s.llen(), arg(0).C[0]))
	case "lseq":
		return one(&SeqT{tyRef}, sel(s.lseq(), arg(0).C[0]))
	case "eval":
		return one(tyRef, sel(s.eval(), arg(0).C[0]))
	case "eown":
		return one(tyRef, sel(s.eown(), arg(0).C[0]))
	case "epos":
		return one(tyInt, sel(s.epos(), arg(0).C[0]))
	case "elem":
		return one(tyRef, sel(s.eval(), sel(sel(s.lseq(), arg(0).C[0]), arg(1).C[0])))
	case "as":
		t := e.P.resolveType(n.args[0].(sStr).text)
		v := e.eval(n.args[1])
		return Val{t, v.C}
	case "heap":
		t := e.P.resolveType(n.args[0].(sStr).text)
		r := Val{T: &SeqT{&SeqT{t}}}
		for _, c := range layout(t) {
			if c.kind == 'o' {
				serr("heap of %s", t)
			}
			nm, srt := elemHeap(t, c)
			r.C = append(r.C, s.hget(nm, srt, c.kind))
		}
		return r
	case "evals":
		return one(&SeqT{tyInt}, s.eval())
	case "fieldheap":
		t := e.P.resolveType(n.args[0].(sStr).text)
		f := "." + n.args[1].(sStr).text
		for _, c := range layout(t) {
			if c.suf == f {
				nm, srt := fieldHeap(t, c)
				et := tyInt
				switch c.sort {
				case SReal:
					et = tyReal
				case SBool:
					et = tyBool
				case SStr:
					et = tyStr
				}
				return one(&SeqT{et}, s.hget(nm, srt, c.kind))
			}
		}
		serr("fieldheap: no component %s", f)
	case "set":
		a, i, v := arg(0), arg(1), arg(2)
		r := Val{T: a.T}
		for k := range a.C {
			r.C = append(r.C, store(a.C[k], i.C[0], v.C[k]))
		}
		return r
	case "constseq":
		v := arg(0)
		r := Val{T: &SeqT{v.T}}
		for _, c := range v.C {
			r.C = append(r.C, constArr(arrSort(c.sort), c))
		}
		return r
	case "real":
		return one(tyReal, toReal(arg(0).C[0]))
	case "trunc":
		return one(tyInt, truncT(arg(0).C[0]))
	case "mapdom":
		v := arg(0)
		mt := v.T.Underlying().(*types.Map)
		_, d, _, _ := mapHeaps(s, mt)
		if len(n.args) == 1 {
			k := layout(mt.Key())[0]
			if k.sort == SInt {
				return one(&SeqT{tyBool}, sel(d, v.C[0]))
			}
		}
		return one(tyBool, sel(sel(d, v.C[0]), arg(1).C[0]))
	case "mapval":
		v := arg(0)
		mt := v.T.Underlying().(*types.Map)
		_, _, _, m := mapHeaps(s, mt)
		if len(n.args) == 1 {
			return one(&SeqT{mt.Elem()}, sel(m, v.C[0]))
		}
		return one(mt.Elem(), sel(sel(m, v.C[0]), arg(1).C[0]))
	case "lockstate":
		return one(tyInt, sel(s.hget("LK.state", sII, 'v'), arg(0).C[0]))
	case "ghost":
		// named ghost heap: ghost("name", ref): Int valued
		nm := n.args[0].(sStr).text
		return one(tyInt, sel(s.hget("G."+nm, sII, 'v'), arg(1).C[0]))
	case "ghostseq":
		nm := n.args[0].(sStr).text
		return one(&SeqT{tyReal}, sel(s.hget("GR."+nm, arrSort(arrSort(SReal)), 'v'), arg(1).C[0]))
	case "ghostreal":
		nm := n.args[0].(sStr).text
		return one(tyReal, sel(s.hget("GX."+nm, arrSort(SReal), 'v'), arg(1).C[0]))
	case "apply":
		// apply(f, args...): the value a function value returns for scalar arguments
		var ts []*Term
		anm := "apply"
		ts = append(ts, arg(0).C[0])
		rt := types.Type(tyReal)
		if sg, ok := arg(0).T.Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
			rt = sg.Results().At(0).Type()
			for i := 1; i < len(n.args); i++ {
				v := arg(i)
				if isFloat(sg.Params().At(i - 1).Type()) {
					v.C[0] = toReal(v.C[0])
				}
				anm += "." + sanitize(v.C[0].sort)
				ts = append(ts, v.C[0])
			}
		}
		srt := layout(rt)[0].sort
		return one(rt, app(fmt.Sprintf("%s.0.%s", anm, sanitize(srt)), srt, ts...))
	case "bvbit":
		// bvbit(byte, k): bit k of a byte
		b, k := arg(0).C[0], arg(1).C[0]
		return one(tyBool, bitOf(b, k))
	}
	if d, ok := e.P.S.defs[n.fn]; ok {
		if len(d.params) != len(n.args) {
			serr("%s: wrong number of arguments", n.fn)
		}
		if e.depth > 40 {
			serr("macro recursion in %s", n.fn)
		}
		ne := *e
		ne.depth++
		ne.vars = map[string]Val{}
		for k, v := range e.vars {
			if strings.HasPrefix(k, "$") {
				ne.vars[k] = v
			}
		}
		ne.look = nil
		for i, p := range d.params {
			v := arg(i)
			t := e.P.resolveType(p.typ)
			if len(layout(t)) != len(v.C) {
				serr("%s: argument %d has type %s, want %s", n.fn, i, v.T, t)
			}
			if isFloat(t) {
				v = one(t, toReal(v.C[0]))
			}
			v.T = t
			ne.vars[p.name] = v
		}
		return ne.eval(d.body)
	}
	if f, ok := e.P.S.funs[n.fn]; ok {
		var as []Val
		for i := range n.args {
			as = append(as, arg(i))
		}
		return e.P.applySpec(f, as)
	}
	serr("unknown specification function %s", n.fn)
	return Val{}
}

func bitOf(b, k *Term) *Term {
	var r []*Term
	for i := 0; i < 8; i++ {
		bit := eq(mk(fmt.Sprintf("(_ extract %d %d)", i, i), "(_ BitVec 1)", b), mkLit("#b1", "(_ BitVec 1)"))
		r = append(r, and(eq(k, mkInt(int64(i))), bit))
	}
	return or(r...)
}

func truncT(x *Term) *Term {
	return ite(le(mkRat(new(big.Rat)), x), mk("to_int", SInt, x), neg(mk("to_int", SInt, neg(x))))
}

// ---- program-level specification data ----

type Prog struct {
	*Package
	S     *Specs
	strs  map[string]*Term
	tmemo map[string]types.Type
	// the locals of each function when the contracts were written
	baseline map[string]*outline
}

func (P *Prog) strLit(s string) *Term {
	if P.strs == nil {
		P.strs = map[string]*Term{}
	}
	if t, ok := P.strs[s]; ok {
		return t
	}
	// string literals are constants mapped to distinct codes
	n := int64(len(P.strs))
	t := app("strlit", SStr, mkInt(n))
	if len(P.strs) == 0 {
		k := freshVar("k", SInt)
		inv := app("strcode", SInt, app("strlit", SStr, k))
		addAxiom("axiom", "string literals are distinct", forall([]*Term{k}, [][]*Term{{app("strlit", SStr, k)}}, eq(inv, k)))
	}
	P.strs[s] = t
	return t
}

func (P *Prog) resolveType(s string) types.Type {
	if t, ok := P.tmemo[s]; ok {
		return t
	}
	t := P.resolveType1(s)
	if P.tmemo == nil {
		P.tmemo = map[string]types.Type{}
	}
	P.tmemo[s] = t
	return t
}
func (P *Prog) resolveType1(s string) types.Type {
	switch s {
	case "int":
		return tyInt
	case "bool":
		return tyBool
	case "real":
		return tyReal
	case "string":
		return tyStr
	case "ref":
		return tyRef
	case "byte":
		return types.Typ[types.Uint8]
	}
	if strings.HasPrefix(s, "seq ") {
		return &SeqT{P.resolveType(s[4:])}
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(P.resolveType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(P.resolveType(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return types.NewMap(P.resolveType(s[4:i]), P.resolveType(s[i+1:]))
	}
	if i := strings.Index(s, "."); i >= 0 {
		for _, p := range P.deps {
			if p.Name() == s[:i] {
				if o := p.Scope().Lookup(s[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
		serr("unknown type %s", s)
	}
	if o := P.pkg.Scope().Lookup(s); o != nil {
		return o.Type()
	}
	serr("unknown type %s", s)
	return nil
}

func (P *Prog) applySpec(f *SpecFun, args []Val) Val {
	if len(args) != len(f.params) {
		serr("%s: %d arguments, want %d", f.name, len(args), len(f.params))
	}
	var ts []*Term
	for i, p := range f.params {
		l := layout(P.resolveType(p.typ))
		if len(l) != len(args[i].C) {
			serr("%s: argument %d has type %s, want %s", f.name, i, args[i].T, p.typ)
		}
		for j, c := range args[i].C {
			if c.sort != l[j].sort {
				if c.sort == SInt && l[j].sort == SReal {
					c = toReal(c)
				} else {
					serr("%s: argument %d has sort %s, want %s", f.name, i, c.sort, l[j].sort)
				}
			}
			ts = append(ts, c)
		}
	}
	rt := P.resolveType(f.res)
	return one(rt, app("f."+f.name, layout(rt)[0].sort, ts...))
}

func mentions(x SE, name string) bool {
	switch n := x.(type) {
	case sId:
		return n.name == name
	case sBin:
		return mentions(n.l, name) || mentions(n.r, name)
	case sUn:
		return mentions(n.x, name)
	case sIf:
		return mentions(n.c, name) || mentions(n.a, name) || mentions(n.b, name)
	case sLet:
		return mentions(n.v, name) || mentions(n.b, name)
	case sIdx:
		return mentions(n.x, name) || mentions(n.i, name)
	case sSel:
		return mentions(n.x, name)
	case sQuant:
		return mentions(n.body, name)
	case sCall:
		if n.fn == name {
			return true
		}
		for _, a := range n.args {
			if mentions(a, name) {
				return true
			}
		}
	}
	return false
}

func (P *Prog) bindParams(ps []sVar, mkc func(n, s string) *Term) (*Env, []*Term) {
	e := &Env{P: P, vars: map[string]Val{}, st: &State{heap: map[string]*Term{}, alloc: global("alloc@0", SInt)}}
	var vars []*Term
	for _, p := range ps {
		t := P.resolveType(p.typ)
		v := Val{T: t}
		for _, c := range layout(t) {
			bv := mkc(p.name, c.sort)
			vars = append(vars, bv)
			v.C = append(v.C, bv)
		}
		e.vars[p.name] = v
	}
	return e, vars
}

// setup turns specification functions, axioms and lemmas into SMT axioms.
func (P *Prog) setup() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				err = fmt.Errorf("specification: %s", x.msg)
			case unresolved:
				err = fmt.Errorf("specification: unresolved name %s", x.name)
			default:
				panic(r)
			}
		}
	}()
	for _, n := range P.S.funOrder {
		f := P.S.funs[n]
		if f.uninterp {
			continue
		}
		cur := n
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case specErr:
						panic(specErr{cur + ": " + x.msg})
					case unresolved:
						panic(specErr{cur + ": unresolved " + x.name})
					default:
						panic(r)
					}
				}
			}()
			env, vars := P.bindParams(f.params, freshVar)
			var as []Val
			for _, p := range f.params {
				as = append(as, env.vars[p.name])
			}
			head := P.applySpec(f, as)
			rec := mentions(f.body, f.name)
			body := env.eval(f.body).C[0]
			if head.C[0].sort == SReal {
				body = toReal(body)
			}
			if len(vars) == 0 {
				addAxiom("def", f.name, eq(head.C[0], body))
				return
			}
			if rec {
				// fuel: recursive occurrences use a second symbol that equals the first but does not unfold
				sym0 := "f." + f.name + "$0"
				body = renameSym(body, sanitize("f."+f.name), sym0)
				h0 := app(sym0, head.C[0].sort, vars...)
				addAxiom("def", f.name+" (unfold)", forall(vars, [][]*Term{{head.C[0]}}, and(eq(head.C[0], body), eq(head.C[0], h0))))
			} else {
				addAxiom("def", f.name, forall(vars, [][]*Term{{head.C[0]}}, eq(head.C[0], body)))
			}
		}()
	}
	for _, o := range P.S.order {
		switch d := o.(type) {
		case *AxiomDecl:
			e := &Env{P: P, vars: map[string]Val{}, st: &State{heap: map[string]*Term{}}}
			addAxiom("axiom", d.name, e.boolT(d.e))
		case *Lemma:
			lemmaIndex[d.name] = d.idx
			if d.noauto {
				continue
			}
			addAxiom("lemma", d.name, P.lemmaFormula(d))
		}
	}
	return nil
}

func renameSym(t *Term, from, to string) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
		}
		if len(t.bound) > 0 {
			r = quant(t.op, t.bound, t.pats, as[0])
		} else if t.op == from {
			r = app(to, t.sort, as...)
		} else {
			r = mk(t.op, t.sort, as...)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func (P *Prog) lemmaFormula(d *Lemma) *Term {
	env, vars := P.bindParams(d.params, freshVar)
	return P.lemmaBody(d, env, vars)
}
func (P *Prog) lemmaBody(d *Lemma, env *Env, vars []*Term) *Term {
	var rq, en []*Term
	for _, r := range d.requires {
		rq = append(rq, env.boolT(r))
	}
	for _, r := range d.ensures {
		en = append(en, env.boolT(r))
	}
	var pats [][]*Term
	for _, p := range d.trigger {
		var vs []Val
		for _, x := range p {
			vs = append(vs, env.eval(x))
		}
		pats = append(pats, patterns(vs)...)
	}
	return forall(vars, pats, implies(and(rq...), and(en...)))
}

// patterns are the trigger patterns for a list of values: a slice element stands for its reference or its length.
func patterns(vs []Val) [][]*Term {
	var byRef, byLen []*Term
	sl := false
	for _, v := range vs {
		if _, ok := v.T.Underlying().(*types.Slice); ok && len(v.C) == 4 && v.C[0].op == "select" && v.C[2].op == "select" {
			byRef = append(byRef, v.C[0])
			byLen = append(byLen, v.C[2])
			sl = true
			continue
		}
		byRef = append(byRef, v.C...)
		byLen = append(byLen, v.C...)
	}
	if sl {
		return [][]*Term{byRef, byLen}
	}
	return [][]*Term{byRef}
}

// lemmaInstance instantiates a lemma for explicit arguments.
func (P *Prog) lemmaInstance(d *Lemma, args []Val) *Term {
	if len(args) != len(d.params) {
		serr("lemma %s: wrong number of arguments", d.name)
	}
	env := &Env{P: P, vars: map[string]Val{}, st: &State{heap: map[string]*Term{}}}
	for i, p := range d.params {
		t := P.resolveType(p.typ)
		v := args[i]
		if isFloat(t) {
			v = one(t, toReal(v.C[0]))
		}
		v.T = t
		env.vars[p.name] = v
	}
	var rq, en []*Term
	for _, r := range d.requires {
		rq = append(rq, env.boolT(r))
	}
	for _, r := range d.ensures {
		en = append(en, env.boolT(r))
	}
	return implies(and(rq...), and(en...))
}

func (P *Prog) lemmaByName(n string) *Lemma {
	for _, l := range P.S.lemmas {
		if l.name == n {
			return l
		}
	}
	return nil
}

// lemmaObligations generates the proof obligations of a lemma.
func (P *Prog) lemmaObligations(d *Lemma) (obs []*Obligation, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				err = fmt.Errorf("lemma %s: %s", d.name, x.msg)
			case unresolved:
				err = fmt.Errorf("lemma %s: unresolved %s", d.name, x.name)
			default:
				panic(r)
			}
		}
	}()
	env, _ := P.bindParams(d.params, fresh)
	var facts []*Term
	if d.induct != "" {
		n := env.vars[d.induct].C[0]
		// induction hypothesis at n-1, for all values of the other parameters
		e2, vars := P.bindParams(d.params, freshVar)
		nv := e2.vars[d.induct].C[0]
		e2.vars[d.induct] = one(tyInt, sub(n, mkInt(1)))
		var rest []*Term
		for _, v := range vars {
			if v != nv {
				rest = append(rest, v)
			}
		}
		ih := P.lemmaBodyInst(d, e2, rest)
		facts = append(facts, implies(lt(mkInt(0), n), ih))
		// and the same with the other parameters unchanged
		var same []Val
		for _, p := range d.params {
			v := env.vars[p.name]
			if p.name == d.induct {
				v = one(tyInt, sub(n, mkInt(1)))
			}
			same = append(same, v)
		}
		facts = append(facts, implies(lt(mkInt(0), n), P.lemmaInstance(d, same)))
	}
	for _, r := range d.requires {
		facts = append(facts, env.boolT(r))
	}
	for _, u := range d.uses {
		if l := P.lemmaByName(useName(u)); l != nil && l == d && d.induct != "" {
			// an instance of the induction hypothesis: the induction variable is smaller
			c, ok := u.(sCall)
			if !ok || len(c.args) != len(d.params) {
				serr("lemma %s: bad use of its own induction hypothesis", d.name)
			}
			for i, p := range d.params {
				if p.name == d.induct {
					n, m := env.vars[d.induct].C[0], env.eval(c.args[i]).C[0]
					facts = append(facts, implies(and(lt(mkInt(0), n), lt(m, n)), P.useInstance(u, env)))
				}
			}
			continue
		} else if l != nil && l.idx >= d.idx {
			serr("lemma %s uses %s, which is not stated before it", d.name, l.name)
		}
		facts = append(facts, P.useInstance(u, env))
	}
	for i, r := range d.ensures {
		g := env.boolT(r)
		obs = append(obs, &Obligation{id: fmt.Sprintf("lemma %s#%d", d.name, i+1), fn: "lemma " + d.name, kind: "lemma",
			q: &Query{facts: append([]*Term{}, facts...), goal: g, maxLem: d.idx}})
		facts = append(facts, g)
	}
	return
}

func (P *Prog) lemmaBodyInst(d *Lemma, env *Env, vars []*Term) *Term {
	f := P.lemmaBody(d, env, vars)
	return f
}

func useName(u SE) string {
	switch c := u.(type) {
	case sCall:
		return c.fn
	case sQuant:
		return useName(c.body)
	}
	return ""
}

// useInstance evaluates "use lemma(args)" or a quantified "forall x :: lemma(args)".
func (P *Prog) useInstance(u SE, env *Env) *Term {
	switch c := u.(type) {
	case sCall:
		l := P.lemmaByName(c.fn)
		if l == nil {
			serr("use: unknown lemma %s", c.fn)
		}
		var as []Val
		for _, a := range c.args {
			as = append(as, env.eval(a))
		}
		return P.lemmaInstance(l, as)
	case sQuant:
		ne := env
		var vars []*Term
		for _, v := range c.vars {
			t := P.resolveType(v.typ)
			val := Val{T: t}
			for _, k := range layout(t) {
				bv := freshVar(v.name, k.sort)
				vars = append(vars, bv)
				val.C = append(val.C, bv)
			}
			ne = ne.with(v.name, val)
		}
		var pats [][]*Term
		for _, p := range c.pats {
			var pt []*Term
			for _, y := range p {
				pt = append(pt, ne.eval(y).C...)
			}
			pats = append(pats, pt)
		}
		return forall(vars, pats, P.useInstance(c.body, ne))
	}
	serr("use: lemma application expected")
	return nil
}

// Obligation is one named proof obligation.
type Obligation struct {
	id, fn, kind string
	pos          string
	q            *Query
	res          ResultInfo
	cand         *candidate // obligation belongs to a candidate invariant
	vac          bool       // must NOT be provable
}
