package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func paramObjs(sig *types.Signature) []types.Object {
	var r []types.Object
	if sig.Recv() != nil {
		r = append(r, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		r = append(r, sig.Params().At(i))
	}
	return r
}

func (x *Exec) call(s *State, c *ast.CallExpr) []Val {
	fun := ast.Unparen(c.Fun)
	if tv, ok := x.P.info.Types[fun]; ok && tv.IsType() {
		v := x.expr(s, c.Args[0])
		return []Val{x.conversion(s, v, tv.Type)}
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := x.P.info.ObjectOf(f).(type) {
		case *types.Builtin:
			return x.builtin(s, c, o.Name())
		case *types.Func:
			return x.callFunc(s, c, o, nil)
		case *types.Var:
			return x.callValue(s, c, f)
		}
	case *ast.SelectorExpr:
		if sl, ok := x.P.info.Selections[f]; ok {
			if sl.Kind() == types.MethodVal {
				m := sl.Obj().(*types.Func)
				recv := x.receiver(s, f, m, sl)
				return x.callFunc(s, c, m, &recv)
			}
			return x.callValue(s, c, f)
		}
		if o, ok := x.P.info.ObjectOf(f.Sel).(*types.Func); ok {
			return x.callFunc(s, c, o, nil)
		}
	case *ast.FuncLit:
		r := x.inlineLit(s, f, x.args(s, c, f.Type.Params.NumFields(), x.typeOf(f).(*types.Signature)))
		return r
	}
	unsup("call of %T", fun)
	return nil
}

func (x *Exec) conversion(s *State, v Val, t types.Type) Val {
	// []byte(string) and friends are opaque
	if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if _, ok := isSlice(t); ok {
			return x.freshVal(s, t, "bytes")
		}
	}
	return x.convert(s, v, t)
}

// receiver evaluates the receiver of a method call and adapts it to the method's receiver type.
func (x *Exec) receiver(s *State, f *ast.SelectorExpr, m *types.Func, sl *types.Selection) Val {
	if len(sl.Index()) != 1 {
		if _, ok := sl.Recv().Underlying().(*types.Interface); !ok {
			unsup("promoted method %s", f.Sel.Name)
		}
	}
	rt := m.Type().(*types.Signature).Recv().Type()
	xt := x.typeOf(f.X)
	if isInterface(xt) {
		return x.expr(s, f.X)
	}
	_, wantPtr := isPtr(rt)
	_, havePtr := isPtr(xt)
	if wantPtr && !havePtr {
		if isOpaque(xt) {
			return Val{rt, x.expr(s, f.X).C}
		}
		l := x.lv(s, f.X)
		if l.kind != 'h' || l.lo != 0 || l.hi != len(layout(l.base)) || !types.Identical(l.T, l.base) {
			unsup("method call on non-addressable struct")
		}
		return one(rt, l.ref)
	}
	v := x.expr(s, f.X)
	if !wantPtr && havePtr {
		p, _ := isPtr(xt)
		if isOpaque(p.Elem()) {
			return Val{rt, v.C}
		}
		x.safety(s, "nil", ne(v.C[0], mkInt(0)), f)
		return loadField(s, p.Elem(), 0, len(layout(p.Elem())), p.Elem(), v.C[0])
	}
	return v
}

func (x *Exec) args(s *State, c *ast.CallExpr, n int, sig *types.Signature) []Val {
	var vs []Val
	np := sig.Params().Len()
	if len(c.Args) == 1 && np > 1 {
		if cc, ok := c.Args[0].(*ast.CallExpr); ok {
			r := x.call(s, cc)
			for i, v := range r {
				vs = append(vs, x.convert(s, v, sig.Params().At(i).Type()))
			}
			return vs
		}
	}
	if sig.Variadic() && c.Ellipsis == token.NoPos {
		for i := 0; i < np-1; i++ {
			vs = append(vs, x.convert(s, x.exprOrLit(s, c.Args[i], sig.Params().At(i).Type()), sig.Params().At(i).Type()))
		}
		vt := sig.Params().At(np - 1).Type()
		et := vt.(*types.Slice).Elem()
		var es []Val
		for i := np - 1; i < len(c.Args); i++ {
			es = append(es, x.convert(s, x.exprOrLit(s, c.Args[i], et), et))
		}
		vs = append(vs, x.sliceOf(s, vt, et, es, c))
		return vs
	}
	for i, a := range c.Args {
		t := sig.Params().At(i).Type()
		vs = append(vs, x.convert(s, x.exprOrLit(s, a, t), t))
	}
	return vs
}

// sliceOf builds a fresh slice holding the given elements.
func (x *Exec) sliceOf(s *State, t, et types.Type, es []Val, n ast.Node) Val {
	if len(es) == 0 {
		z := mkInt(0)
		return Val{t, []*Term{z, z, z, z}}
	}
	r := x.newRef(s)
	for i, v := range es {
		for j, k := range layout(et) {
			if k.kind == 'o' {
				x.needOff0(s, v.C[j], n)
				continue
			}
			nm, srt := elemHeap(et, k)
			x.fact(s, eq(sel(sel(s.hget(nm, srt, k.kind), r), mkInt(int64(i))), v.C[j]))
		}
	}
	k := mkInt(int64(len(es)))
	return Val{t, []*Term{r, mkInt(0), k, k}}
}

func (x *Exec) builtin(s *State, c *ast.CallExpr, name string) []Val {
	t := x.typeOf(c)
	switch name {
	case "len", "cap":
		v := x.expr(s, c.Args[0])
		if _, ok := isSlice(v.T); ok {
			if name == "len" {
				return []Val{one(t, v.C[2])}
			}
			return []Val{one(t, v.C[3])}
		}
		if v.C[0].sort == SStr {
			l := app("strlen", SInt, v.C[0])
			x.fact(s, le(mkInt(0), l))
			return []Val{one(t, l)}
		}
		unsup("len of %s", v.T)
	case "append":
		return []Val{x.appendCall(s, c)}
	case "copy":
		d := x.expr(s, c.Args[0])
		v := x.expr(s, c.Args[1])
		return []Val{one(t, x.copySlice(s, d, v))}
	case "make":
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := x.expr(s, c.Args[1]).C[0]
			cp := n
			if len(c.Args) > 2 {
				cp = x.expr(s, c.Args[2]).C[0]
				x.safety(s, "makeslice", le(n, cp), c)
			}
			x.safety(s, "makeslice", le(mkInt(0), n), c)
			v := x.makeSlice(s, u.Elem(), n, cp)
			v.T = t
			return []Val{v}
		case *types.Map:
			return []Val{x.makeMap(s, t)}
		case *types.Chan:
			r := x.newRef(s)
			if x.outerLoop == 0 {
				if x.madeChans == nil {
					x.madeChans = map[int]bool{}
				}
				x.madeChans[r.id] = true
			}
			return []Val{one(t, r)}
		}
	case "new":
		p, _ := isPtr(t)
		if isOpaque(p.Elem()) {
			return []Val{one(t, x.newOpaque(s, p.Elem()))}
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return []Val{one(t, x.allocStruct(s, p.Elem(), x.zeroVal(s, p.Elem())))}
		}
	case "delete":
		m := x.expr(s, c.Args[0])
		k := x.expr(s, c.Args[1])
		mt := m.T.Underlying().(*types.Map)
		dn, d, _, _ := mapHeaps(s, mt)
		x.noteStore(dn, m.C[0])
		s.hset(dn, store(d, m.C[0], store(sel(d, m.C[0]), k.C[0], tFalse)))
		return nil
	case "close":
		x.expr(s, c.Args[0])
		return nil
	case "panic":
		for _, a := range c.Args {
			x.evalIgnored(s, a)
		}
		x.panicAt(s, c)
		s.pc = tFalse
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		v := x.convert(s, x.expr(s, c.Args[0]), t)
		for _, a := range c.Args[1:] {
			w := x.convert(s, x.expr(s, a), t)
			cnd := le(v.C[0], w.C[0])
			if name == "max" {
				cnd = le(w.C[0], v.C[0])
			}
			v = one(t, ite(cnd, v.C[0], w.C[0]))
		}
		return []Val{v}
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) copySlice(s *State, d, v Val) *Term {
	sl, ok := isSlice(d.T)
	if !ok || len(v.C) != 4 {
		unsup("copy")
	}
	n := ite(le(d.C[2], v.C[2]), d.C[2], v.C[2])
	for _, k := range layout(sl.Elem()) {
		if k.kind == 'o' {
			continue
		}
		nm, srt := elemHeap(sl.Elem(), k)
		h := s.hget(nm, srt, k.kind)
		a := fresh("copied", arrSort(k.sort))
		i := freshVar("i", SInt)
		ai := sel(a, i)
		oldD := sel(sel(h, d.C[0]), i)
		src := sel(sel(h, v.C[0]), add(v.C[1], sub(i, d.C[1])))
		in := and(le(d.C[1], i), lt(i, add(d.C[1], n)))
		x.fact(s, forall([]*Term{i}, [][]*Term{{ai}}, eq(ai, ite(in, src, oldD))))
		x.noteStore(nm, d.C[0])
		s.hset(nm, store(h, d.C[0], a))
	}
	return n
}

func (x *Exec) appendCall(s *State, c *ast.CallExpr) Val {
	t := x.typeOf(c)
	sl, _ := isSlice(t)
	et := sl.Elem()
	b := x.convert(s, x.expr(s, c.Args[0]), t)
	if len(c.Args) == 1 {
		return b
	}
	if c.Ellipsis != token.NoPos {
		v := x.expr(s, c.Args[1])
		if len(v.C) != 4 {
			unsup("append of %s", v.T)
		}
		n := v.C[2]
		return x.appendVal(s, t, et, b, n, func(i *Term) []*Term {
			w := loadElem(s, et, v.C[0], ixT(v.C[1], i), 0, len(layout(et)), et)
			return w.C
		}, nil, v)
	}
	var es []Val
	for _, a := range c.Args[1:] {
		es = append(es, x.convert(s, x.exprOrLit(s, a, et), et))
	}
	for _, e := range es {
		for j, k := range layout(et) {
			if k.kind == 'o' {
				x.needOff0(s, e.C[j], c)
			}
		}
	}
	return x.appendVal(s, t, et, b, mkInt(int64(len(es))), nil, es, Val{})
}

func (x *Exec) appendVal(s *State, t, et types.Type, b Val, n *Term, at func(*Term) []*Term, es []Val, src Val) Val {
	ln := b.C[2]
	nl := add(ln, n)
	inplace := le(nl, b.C[3])
	nr := x.newRef(s)
	r := ite(inplace, b.C[0], nr)
	off := ite(inplace, b.C[1], mkInt(0))
	cp := fresh("cap", SInt)
	x.fact(s, le(nl, cp))
	x.fact(s, implies(inplace, eq(cp, b.C[3])))
	zero := eq(nl, mkInt(0))
	// appending nothing to nil gives nil
	if zero != tFalse {
		x.fact(s, implies(eq(n, mkInt(0)), inplace))
	}
	var newRefT = r
	if r.op == "ite" {
		newRefT = fresh("appended", SInt)
		x.fact(s, eq(newRefT, r))
	}
	for j, k := range layout(et) {
		if k.kind == 'o' {
			continue
		}
		nm, srt := elemHeap(et, k)
		h := s.hget(nm, srt, k.kind)
		old := sel(h, b.C[0])
		a := fresh("appended", arrSort(k.sort))
		i := freshVar("i", SInt)
		ai := sel(a, i)
		if es != nil {
			st := old
			for m, e := range es {
				st = store(st, ixT(b.C[1], add(ln, mkInt(int64(m)))), e.C[j])
			}
			x.fact(s, implies(inplace, eq(a, st)))
			for m, e := range es {
				x.fact(s, eq(sel(a, ixT(off, add(ln, mkInt(int64(m))))), e.C[j]))
			}
		} else {
			// append(b, src...): elements of src after the old ones
			x.fact(s, implies(inplace, forall([]*Term{i}, [][]*Term{{ai}}, implies(or(lt(i, ixT(b.C[1], ln)), le(ixT(b.C[1], nl), i)), eq(ai, sel(old, i))))))
			q := freshVar("q", SInt)
			sv := at(q)[j]
			tgt := sel(a, ixT(off, add(ln, q)))
			in := and(le(mkInt(0), q), lt(q, n))
			pat := sel(sel(h, src.C[0]), ixT(src.C[1], q))
			x.fact(s, forall([]*Term{q}, [][]*Term{{pat}}, implies(in, eq(tgt, sv))))
			p := freshVar("p", SInt)
			x.fact(s, forall([]*Term{p}, [][]*Term{{sel(a, p)}}, implies(and(le(ixT(off, ln), p), lt(p, ixT(off, nl))), eq(sel(a, p), at(sub(p, ixT(off, ln)))[j]))))
		}
		in := and(le(off, i), lt(i, add(off, ln)))
		x.fact(s, forall([]*Term{i}, [][]*Term{{ai}}, implies(in, eq(ai, sel(old, ixT(b.C[1], sub(i, off)))))))
		x.noteStore(nm, r)
		s.hset(nm, store(h, newRefT, a))
	}
	return Val{t, []*Term{newRefT, off, nl, cp}}
}

// ---- calls of functions ----

func (x *Exec) contractFor(key string) *Contract {
	if c := x.P.S.contracts[key]; c != nil {
		return c
	}
	return x.P.S.ifaces[key]
}

func (x *Exec) callFunc(s *State, c *ast.CallExpr, f *types.Func, recv *Val) []Val {
	key := funcKey(f)
	sig := f.Type().(*types.Signature)
	if v, ok := x.special(s, c, key, recv, sig); ok {
		return v
	}
	nb := len(x.rowBack)
	x.rowCall++
	as := x.args(s, c, 0, sig)
	x.rowCall--
	if recv != nil {
		as = append([]Val{*recv}, as...)
	}
	if len(x.rowBack) > nb {
		defer func() {
			for _, f := range x.rowBack[nb:] {
				f()
			}
			x.rowBack = x.rowBack[:nb]
		}()
	}
	con := x.contractFor(key)
	if con != nil && !con.flags["inline"] {
		var back func()
		as, back = x.normOffsets(s, as, con, c)
		rs := x.applyContract(s, key, con, sig, as, c)
		if back != nil {
			back()
		}
		return rs
	}
	decl := x.P.funcs[key]
	if decl == nil || decl.Body == nil {
		unsup("call of %s, which has no contract", key)
	}
	for _, fr := range x.frames {
		if fr.decl == decl {
			unsup("recursive call of %s", key)
		}
	}
	if len(x.frames) > 8 {
		unsup("inlining too deep")
	}
	x.inlined[key] = true
	x.curCall = c
	return x.inline(s, key, sig, decl.Body, decl, as, con)
}

// normOffsets replaces arguments that are slices with a nonzero offset by a copy of their window; writes by the callee
// to such a window are copied back.
func (x *Exec) normOffsets(s *State, as []Val, con *Contract, n ast.Node) ([]Val, func()) {
	var backs []func()
	out := append([]Val{}, as...)
	for ai, v := range as {
		sl, ok := isSlice(v.T)
		if !ok {
			continue
		}
		if k, ok := intVal(v.C[1]); ok && k.Sign() == 0 {
			continue
		}
		for bi, w := range as {
			if bi != ai && len(w.C) == 4 && w.C[0] == v.C[0] {
				unsup("aliased slice windows as arguments")
			}
		}
		x.notes["a slice window passed to a contract is passed as a copy that is written back (windows that alias each other are rejected syntactically)"] = true
		r := x.newRef(s)
		v := v
		for _, k := range layout(sl.Elem()) {
			if k.kind == 'o' {
				continue
			}
			nm, srt := elemHeap(sl.Elem(), k)
			h := s.hget(nm, srt, k.kind)
			i := freshVar("i", SInt)
			ti := sel(sel(h, r), i)
			x.fact(s, forall([]*Term{i}, [][]*Term{{ti}}, implies(and(le(mkInt(0), i), lt(i, v.C[3])), eq(ti, sel(sel(h, v.C[0]), add(v.C[1], i))))))
		}
		nr := ite(eq(v.C[0], mkInt(0)), mkInt(0), r)
		out[ai] = Val{v.T, []*Term{nr, mkInt(0), v.C[2], v.C[3]}}
		backs = append(backs, func() {
			for _, k := range layout(sl.Elem()) {
				if k.kind == 'o' {
					continue
				}
				nm, srt := elemHeap(sl.Elem(), k)
				h := s.hget(nm, srt, k.kind)
				a := fresh("window", arrSort(k.sort))
				i := freshVar("i", SInt)
				ai := sel(a, i)
				in := and(le(v.C[1], i), lt(i, add(v.C[1], v.C[3])))
				x.fact(s, forall([]*Term{i}, [][]*Term{{ai}}, eq(ai, ite(in, sel(sel(h, r), sub(i, v.C[1])), sel(sel(h, v.C[0]), i)))))
				x.noteStore(nm, v.C[0])
				s.hset(nm, store(h, v.C[0], a))
			}
		})
	}
	writes := con.modAny
	for _, m := range con.modifies {
		switch n := m.(type) {
		case sSel:
		case sCall:
			writes = writes || n.fn == "elems"
		default:
			writes = true
		}
	}
	if backs == nil || !writes {
		return out, nil
	}
	return out, func() {
		for _, b := range backs {
			b()
		}
	}
}

func (x *Exec) inline(s *State, key string, sig *types.Signature, body *ast.BlockStmt, decl *ast.FuncDecl, as []Val, con *Contract) []Val {
	x.scanBoxed(body)
	defer func() { x.lastInline = body }()
	fr := &frame{key: key, sig: sig, decl: decl, body: body, path: x.path() + key + "/", spec: con}
	nLoops := 0
	fr.tree = x.P.numberLoops(body, &nLoops, 0)
	fr.ords = fr.tree.ords
	x.adopt(fr, x.fr, x.curCall)
	x.curCall = nil
	ps := paramObjs(sig)
	if decl == nil {
		// closure: no receiver
		ps = nil
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
	}
	for i, o := range ps {
		if o.Name() == "" || o.Name() == "_" {
			continue
		}
		x.declare(s, o, Val{o.Type(), as[i].C})
	}
	x.declareResults(s, fr, sig)
	fr.entry = s.clone()
	fr.alloc0 = s.alloc
	if fr.adopted != nil {
		fr.entry = fr.owner().entry
		fr.alloc0 = fr.owner().alloc0
	}
	saved := x.fr
	x.frames = append(x.frames, fr)
	x.fr = fr
	out := x.block(s.clone(), body.List)
	if out != nil && out.pc != tFalse {
		if sig.Results().Len() == 0 {
			x.doReturn(out, nil, body)
		} else {
			x.P.assumeUnreachable(x, out)
		}
	}
	x.frames = x.frames[:len(x.frames)-1]
	x.fr = saved
	if len(fr.rets) == 0 {
		s.pc = tFalse
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, x.freshVal(s, sig.Results().At(i).Type(), "dead"))
		}
		return vs
	}
	var sts []*State
	tmp := make([]*types.Var, sig.Results().Len())
	for i := range tmp {
		tmp[i] = types.NewVar(token.Pos(1+i), nil, "res", sig.Results().At(i).Type())
	}
	for _, r := range fr.rets {
		for i := range tmp {
			r.st.vars[tmp[i]] = r.vals[i]
		}
		sts = append(sts, r.st)
	}
	m := x.merge(sts...)
	var vs []Val
	if m == nil {
		s.pc = tFalse
		for i := range tmp {
			vs = append(vs, fr.rets[0].vals[i])
		}
		return vs
	}
	for i := range tmp {
		vs = append(vs, m.vars[tmp[i]])
		delete(m.vars, tmp[i])
	}
	*s = *m
	return vs
}

func (P *Prog) assumeUnreachable(x *Exec, s *State) {
	// end of a function with results without return: only after a panic, which never gets here
	x.fact(s, tFalse)
}

func (x *Exec) declareResults(s *State, fr *frame, sig *types.Signature) {
	for i := 0; i < sig.Results().Len(); i++ {
		o := sig.Results().At(i)
		if o.Name() != "" && o.Name() != "_" {
			x.declare(s, o, x.zeroVal(s, o.Type()))
			fr.results = append(fr.results, o)
		}
	}
}

func (x *Exec) path() string {
	if x.fr == nil {
		return ""
	}
	return x.fr.path
}

// scanBoxed finds local struct variables whose address is taken.
func (x *Exec) scanBoxed(body ast.Node) {
	box := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o, ok := x.P.info.ObjectOf(id).(*types.Var); ok && !isOpaque(o.Type()) {
				if _, ok := o.Type().Underlying().(*types.Struct); ok {
					x.boxed[o] = true
				}
			}
		}
	}
	ast.Inspect(body, func(a ast.Node) bool {
		switch n := a.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				box(n.X)
			}
		case *ast.SelectorExpr:
			if sl, ok := x.P.info.Selections[n]; ok && sl.Kind() == types.MethodVal {
				rt := sl.Obj().Type().(*types.Signature).Recv().Type()
				_, wp := isPtr(rt)
				_, hp := isPtr(x.P.info.TypeOf(n.X))
				if wp && !hp {
					box(n.X)
				}
			}
		}
		return true
	})
}

func (x *Exec) inlineLit(s *State, f *ast.FuncLit, as []Val) []Val {
	sig := x.typeOf(f).(*types.Signature)
	return x.inline(s, "func", sig, f.Body, nil, as, nil)
}

// callValue calls a function value.
func (x *Exec) callValue(s *State, c *ast.CallExpr, f ast.Expr) []Val {
	v := x.expr(s, f)
	sig, ok := v.T.Underlying().(*types.Signature)
	if !ok {
		unsup("call of %s", v.T)
	}
	as := x.args(s, c, 0, sig)
	if l, ok := x.lits[v.C[0].id]; ok {
		return x.inlineLit(s, l, as)
	}
	if fn, ok := x.funcs[v.C[0].id]; ok {
		return x.callFunc(s, c, fn, nil)
	}
	name := x.valueContract(v.T, f)
	if con := x.P.S.ifaces[name]; con != nil {
		return x.applyContract(s, name, con, sig, append([]Val{v}, as...), c)
	}
	// a pure deterministic function of scalars
	var ts []*Term
	ts = append(ts, v.C[0])
	nm := "apply"
	for _, a := range as {
		for _, k := range a.C {
			nm += "." + sanitize(k.sort)
			ts = append(ts, k)
		}
		if len(a.C) != 1 || layout(a.T)[0].kind != 'v' {
			unsup("call of function value %s", name)
		}
	}
	x.notes["calls of function values of type "+name+" are taken as pure deterministic functions of their arguments"] = true
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		l := layout(rt)
		if len(l) != 1 || l[0].kind != 'v' {
			unsup("result of function value %s", name)
		}
		rs = append(rs, one(rt, app(fmt.Sprintf("%s.%d.%s", nm, i, sanitize(l[0].sort)), l[0].sort, ts...)))
	}
	return rs
}

func (x *Exec) valueContract(t types.Type, f ast.Expr) string {
	if a, ok := t.(*types.Alias); ok {
		return a.Obj().Name()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	// an alias may have been resolved: use the declared type text
	for _, nm := range x.P.pkg.Scope().Names() {
		if tn, ok := x.P.pkg.Scope().Lookup(nm).(*types.TypeName); ok && tn.IsAlias() && types.Identical(tn.Type(), t) {
			return nm
		}
	}
	return types.TypeString(t, nil)
}

// ---- contracts at call sites ----

func (x *Exec) bindArgs(con *Contract, as []Val) map[string]Val {
	m := map[string]Val{}
	if len(con.params) != len(as) {
		unsup("contract of %s has %d parameters, the call has %d arguments", con.key, len(con.params), len(as))
	}
	for i, p := range con.params {
		m[p] = as[i]
	}
	return m
}

func (x *Exec) applyContract(s *State, key string, con *Contract, sig *types.Signature, as []Val, n ast.Node) []Val {
	for _, a := range as {
		if chanElem(a.T) != nil {
			unsup("a channel is handed to %s", key)
		}
	}
	x.used[con.kind+" "+key] = true
	if x.shared(as) {
		x.relyOn(s)
		x.sharedCall(s, s, con, n)
	}
	pre := s.clone()
	env := &Env{P: x.P, vars: x.bindArgs(con, as), st: pre, allocOld: s.alloc, old: pre}
	for i, r := range con.requires {
		nm := r.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		x.safety(s, "call "+key+" requires "+nm, env.boolT(r.e), n)
	}
	if con.flags["panicsAny"] {
		x.panicAt(s, n)
	}
	for _, p := range con.panics {
		c := env.boolT(p)
		if x.con == nil || !x.con.flags["panicsAny"] {
			x.oblige(s, "panic in "+key, implies(c, x.panicCond()), n)
		}
		x.fact(s, not(c))
	}
	lists := x.applyModifies(s, con, env, pre)
	refRes := false
	for i := 0; i < sig.Results().Len(); i++ {
		for _, k := range layout(sig.Results().At(i).Type()) {
			if k.kind == 'r' {
				refRes = true
			}
		}
	}
	if refRes || len(con.modifies) > 0 || con.modAny {
		a := fresh("alloc", SInt)
		x.fact(s, le(pre.alloc, a))
		s.alloc = a
	}
	if lists {
		x.listWF(s)
	}
	var rs []Val
	post := &Env{P: x.P, vars: map[string]Val{}, st: s, old: pre, allocOld: pre.alloc}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := x.freshVal(s, rt, "ret")
		rs = append(rs, v)
		if i < len(con.results) {
			post.vars[con.results[i]] = v
		}
	}
	for name := range s.heap {
		if s.heap[name] != pre.heap[name] {
			x.wellFormed(s, name)
		}
	}
	for _, e := range con.ensures {
		x.fact(s, post.boolT(e.e))
	}
	x.unchangedShared(s, pre, con, n)
	for _, e := range con.assumed {
		x.notes["assumed of "+key+", not proved: "+e.name] = true
		x.fact(s, post.boolT(e.e))
	}
	return rs
}

// applyModifies havocs what a contract may modify; env is the state before the call.
// It reports whether list heaps changed: their representation invariant is assumed by the caller, once the
// allocation bound covers what the call allocated.
func (x *Exec) applyModifies(s *State, con *Contract, env *Env, pre *State) bool {
	if con.modAny {
		for _, h := range sortedKeys(heapSorts) {
			if strings.HasPrefix(h, "LK.") {
				continue
			}
			x.havocHeap(s, h)
			if x.rec > 0 && x.storeAny != nil {
				x.storeAny[h] = true
			}
		}
		return true
	}
	lists := false
	for _, m := range con.modifies {
		if x.modifyOne(s, m, env) {
			lists = true
		}
	}
	return lists
}

func (x *Exec) havocAt(s *State, h string, r *Term) {
	srt := heapSorts[h]
	t := s.hget(h, srt, heapKinds[h])
	x.noteStore(h, r)
	s.hset(h, store(t, r, fresh(h, elemSort(srt))))
}

type modTarget struct {
	heap string
	ref  *Term
	set  func(r *Term) *Term // alternatively: all r with set(r)
	list bool
}

// modTargets evaluates a modifies clause.
func (x *Exec) modTargets(m SE, env *Env) []modTarget {
	var r []modTarget
	elems := func(v Val) {
		sl, ok := isSlice(v.T)
		if !ok {
			serr("modifies: %s is not a slice", v.T)
		}
		for _, k := range layout(sl.Elem()) {
			if k.kind == 'o' {
				continue
			}
			nm, srt := elemHeap(sl.Elem(), k)
			env.st.hget(nm, srt, k.kind)
			r = append(r, modTarget{heap: nm, ref: v.C[0]})
		}
	}
	fields := func(t types.Type, ref *Term, lo, hi int) {
		l := layout(t)
		for i := lo; i < hi; i++ {
			if l[i].kind == 'o' {
				continue
			}
			nm, srt := fieldHeap(t, l[i])
			env.st.hget(nm, srt, l[i].kind)
			r = append(r, modTarget{heap: nm, ref: ref})
		}
	}
	switch n := m.(type) {
	case sCall:
		switch n.fn {
		case "elems":
			elems(env.eval(n.args[0]))
			return r
		case "list":
			l := env.eval(n.args[0]).C[0]
			env.st.llen()
			env.st.lseq()
			env.st.eown()
			env.st.epos()
			env.st.eval()
			own := env.st.eown()
			mine := func(e *Term) *Term { return eq(sel(own, e), l) }
			r = append(r, modTarget{heap: "L.len", ref: l, list: true}, modTarget{heap: "L.seq", ref: l, list: true},
				modTarget{heap: "E.own", set: mine, list: true}, modTarget{heap: "E.pos", set: mine, list: true})
			return r
		case "mat":
			t := env.eval(n.args[0]).C[0]
			env.st.mrows()
			env.st.mcols()
			env.st.mat()
			return []modTarget{{heap: "M.rows", ref: t}, {heap: "M.cols", ref: t}, {heap: "M.at", ref: t}}
		case "matc":
			t := env.eval(n.args[0]).C[0]
			env.st.mat()
			return []modTarget{{heap: "M.at", ref: t}}
		case "lock":
			t := env.eval(n.args[0]).C[0]
			env.st.hget("LK.state", sII, 'v')
			return []modTarget{{heap: "LK.state", ref: t}}
		case "mapof":
			v := env.eval(n.args[0])
			dn, _, vn, _ := mapHeaps(env.st, v.T.Underlying().(*types.Map))
			return []modTarget{{heap: dn, ref: v.C[0]}, {heap: vn, ref: v.C[0]}}
		case "ghost", "ghostseq", "ghostreal":
			env.eval(n)
			p := map[string]string{"ghost": "G.", "ghostseq": "GR.", "ghostreal": "GX."}[n.fn]
			return []modTarget{{heap: p + n.args[0].(sStr).text, ref: env.eval(n.args[1]).C[0]}}
		case "elemval":
			env.st.eval()
			return []modTarget{{heap: "E.val", ref: env.eval(n.args[0]).C[0]}}
		}
	case sSel:
		b := env.eval(n.x)
		if p, ok := isPtr(b.T); ok {
			lo, hi, _, ok := fieldRange(p.Elem(), n.f)
			if !ok {
				serr("modifies: no field %s", n.f)
			}
			fields(p.Elem(), b.C[0], lo, hi)
			return r
		}
	case sQuant:
		// forall i: int :: cond ==> target
		ne := env
		var vars []*Term
		for _, v := range n.vars {
			t := env.P.resolveType(v.typ)
			val := Val{T: t}
			for _, c := range layout(t) {
				bv := freshVar(v.name, c.sort)
				vars = append(vars, bv)
				val.C = append(val.C, bv)
			}
			ne = ne.with(v.name, val)
		}
		b, ok := n.body.(sBin)
		if !ok || b.op != "==>" {
			serr("modifies: forall with implication expected")
		}
		cond := ne.boolT(b.l)
		for _, t := range x.modTargets(b.r, ne) {
			t := t
			if t.set != nil || t.list {
				serr("modifies: nested set")
			}
			ref := t.ref
			r = append(r, modTarget{heap: t.heap, set: func(q *Term) *Term { return exists(vars, nil, and(cond, eq(q, ref))) }})
		}
		return r
	}
	v := env.eval(m)
	if _, ok := isSlice(v.T); ok {
		elems(v)
		return r
	}
	if p, ok := isPtr(v.T); ok && !isOpaque(p.Elem()) {
		fields(p.Elem(), v.C[0], 0, len(layout(p.Elem())))
		return r
	}
	serr("modifies: cannot interpret clause of type %s", v.T)
	return nil
}

func (x *Exec) modifyOne(s *State, m SE, env *Env) bool {
	list := false
	for _, t := range x.modTargets(m, env) {
		if t.list {
			list = true
		}
		if t.ref != nil {
			x.havocAt(s, t.heap, t.ref)
			continue
		}
		old := s.hget(t.heap, heapSorts[t.heap], heapKinds[t.heap])
		x.havocHeap(s, t.heap)
		nw := s.heap[t.heap]
		r := freshVar("r", SInt)
		a := sel(nw, r)
		x.fact(s, forall([]*Term{r}, [][]*Term{{a}}, implies(and(lt(mkInt(0), r), lt(r, env.st.alloc), not(t.set(r))), eq(a, sel(old, r)))))
		if x.rec > 0 && x.storeAny != nil {
			x.storeAny[t.heap] = true
		}
	}
	return list
}

// ---- functions with built-in meaning ----

func (x *Exec) special(s *State, c *ast.CallExpr, key string, recv *Val, sig *types.Signature) ([]Val, bool) {
	switch key {
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln":
		for _, a := range c.Args {
			x.evalIgnored(s, a)
		}
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			vs = append(vs, x.freshVal(s, sig.Results().At(i).Type(), "fmt"))
		}
		return vs, true
	case "fmt.Errorf", "errors.New":
		for _, a := range c.Args {
			x.evalIgnored(s, a)
		}
		r := x.newRef(s)
		return []Val{one(sig.Results().At(0).Type(), r)}, true
	case "fmt.Sprintf":
		var ts []*Term
		nm := "sprintf"
		for _, a := range c.Args {
			v := x.expr(s, a)
			for _, k := range v.C {
				nm += "." + sanitize(k.sort)
				ts = append(ts, k)
			}
		}
		return []Val{one(tyStr, app(nm, SStr, ts...))}, true
	case "rand.Shuffle":
		n := x.expr(s, c.Args[0]).C[0]
		lit, ok := ast.Unparen(c.Args[1]).(*ast.FuncLit)
		if !ok {
			unsup("rand.Shuffle with a function value")
		}
		x.notes["rand.Shuffle is taken as any number of calls of its swap function with indices in range"] = true
		L := &loopDef{node: c, nondet: true, body: func(st *State) *State {
			i, j := fresh("i", SInt), fresh("j", SInt)
			x.fact(st, and(le(mkInt(0), i), lt(i, n), le(mkInt(0), j), lt(j, n)))
			x.inlineLit(st, lit, []Val{one(tyInt, i), one(tyInt, j)})
			return st
		}}
		out := x.runLoop(s, L)
		*s = *out
		return nil, true
	case "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock", "sync.Mutex.Lock", "sync.Mutex.Unlock":
		x.lockCall(s, c, key, recv)
		return nil, true
	case "sort.Sort":
		if cc, ok := x.sortContract(c); ok {
			v := x.expr(s, c.Args[0])
			sg := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "data", v.T)), types.NewTuple(), false)
			return x.applyContract(s, cc.key, cc, sg, []Val{v}, c), true
		}
	case "mat.VecDense.RawVector":
		// a snapshot of the elements; the code must not write through it (noted as an assumption)
		x.notes["the data slice of VecDense.RawVector is taken as a copy of the elements (contiguous vector, never written through)"] = true
		rt := sig.Results().At(0).Type()
		n := sel(s.mrows(), recv.C[0])
		v := x.makeSlice(s, types.Typ[types.Float64], n, n)
		nm, srt := elemHeap(types.Typ[types.Float64], layout(types.Typ[types.Float64])[0])
		i := freshVar("i", SInt)
		a := fresh("raw", arrSort(SReal))
		x.fact(s, forall([]*Term{i}, [][]*Term{{sel(a, i)}, {sel(sel(s.mat(), recv.C[0]), i)}}, implies(and(le(mkInt(0), i), lt(i, n)), eq(sel(a, i), sel(sel(sel(s.mat(), recv.C[0]), i), mkInt(0))))))
		x.noteStore(nm, v.C[0])
		s.hset(nm, store(s.hget(nm, srt, 'v'), v.C[0], a))
		out := x.freshVal(s, rt, "raw")
		for j, k := range layout(rt) {
			switch k.suf {
			case ".N":
				out.C[j] = n
			case ".Inc":
				out.C[j] = mkInt(1)
			case ".Data.ref", ".Data.off", ".Data.len", ".Data.cap":
				out.C[j] = v.C[map[string]int{".Data.ref": 0, ".Data.off": 1, ".Data.len": 2, ".Data.cap": 3}[k.suf]]
			}
		}
		return []Val{out}, true
	case "mat.Dense.RawRowView":
		if x.rowCall == 0 {
			unsup("RawRowView outside a call argument")
		}
		x.notes["the slice of Dense.RawRowView passed to a call is taken as a copy of the row that is written back after the call"] = true
		i := x.expr(s, c.Args[0]).C[0]
		m := recv.C[0]
		x.safety(s, "row index", and(le(mkInt(0), i), lt(i, sel(s.mrows(), m))), c)
		n := sel(s.mcols(), m)
		v := x.makeSlice(s, types.Typ[types.Float64], n, n)
		nm, srt := elemHeap(types.Typ[types.Float64], layout(types.Typ[types.Float64])[0])
		x.noteStore(nm, v.C[0])
		s.hset(nm, store(s.hget(nm, srt, 'v'), v.C[0], sel(sel(s.mat(), m), i)))
		x.rowBack = append(x.rowBack, func() {
			h := s.hget(nm, srt, 'v')
			a := s.mat()
			x.noteStore("M.at", m)
			s.hset("M.at", store(a, m, store(sel(a, m), i, sel(h, v.C[0]))))
		})
		return []Val{v}, true
	}
	return nil, false
}

// lockCall acquires or releases a lock. Acquiring forgets the guarded fields (another holder may have written them) and
// assumes the monitor invariant; releasing a write lock proves it.
func (x *Exec) lockCall(s *State, c *ast.CallExpr, key string, recv *Val) {
	x.notes["sync locks: a lock is 0 free, 1 held for reading, 2 held for writing by this goroutine; guarded fields change only under the lock"] = true
	lk := s.hget("LK.state", sII, 'v')
	cur := sel(lk, recv.C[0])
	setTo := func(k int64) {
		x.noteStore("LK.state", recv.C[0])
		s.hset("LK.state", store(lk, recv.C[0], mkInt(k)))
	}
	var mon *MonitorDecl
	var owner Val
	if f, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if l, ok := ast.Unparen(f.X).(*ast.SelectorExpr); ok {
			t := x.typeOf(l.X)
			if p, ok := isPtr(t); ok {
				mon = x.P.S.monitors[typeName(p.Elem())+"."+l.Sel.Name]
				if mon != nil {
					owner = x.expr(s, l.X)
				}
			}
		}
	}
	inv := func() *Term {
		e := &Env{P: x.P, vars: map[string]Val{mon.v: owner}, st: s, old: s, allocOld: s.alloc}
		return e.boolT(mon.inv)
	}
	switch key {
	case "sync.RWMutex.Lock", "sync.Mutex.Lock", "sync.RWMutex.RLock":
		x.safety(s, "lock free", eq(cur, mkInt(0)), c)
		x.relyOn(s)
		setTo(map[bool]int64{true: 1, false: 2}[key == "sync.RWMutex.RLock"])
		if mon != nil {
			p, _ := isPtr(owner.T)
			for _, f := range mon.fields {
				lo, hi, ft, ok := fieldRange(p.Elem(), f)
				if !ok {
					unsup("monitor of %s names the unknown field %s", mon.typ, f)
				}
				_ = hi
				v := x.freshVal(s, ft, "shared")
				for _, k := range layout(p.Elem())[lo:hi] {
					nm, _ := fieldHeap(p.Elem(), k)
					x.noteStore(nm, owner.C[0])
				}
				storeField(s, p.Elem(), lo, owner.C[0], v, nil)
			}
			x.fact(s, inv())
		}
	case "sync.RWMutex.Unlock", "sync.Mutex.Unlock":
		x.safety(s, "unlock of a held lock", eq(cur, mkInt(2)), c)
		if mon != nil {
			x.safety(s, "monitor invariant on release", inv(), c)
		}
		setTo(0)
	case "sync.RWMutex.RUnlock":
		x.safety(s, "unlock of a held lock", eq(cur, mkInt(1)), c)
		setTo(0)
	}
}

func (x *Exec) sortContract(c *ast.CallExpr) (*Contract, bool) {
	k := "sort.Sort@" + typeName(x.typeOf(c.Args[0]))
	cc := x.P.S.contracts[k]
	return cc, cc != nil
}

func sortedKeys(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return keys(b)
}
