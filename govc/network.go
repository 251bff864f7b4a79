package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Goroutines that share a structure under a lock, and networks of them: a goroutine with a fork contract answers one
// message by several, on one of several channels, and may feed a goroutine with a relay contract.

func call1(fn string, a SE) SE { return sCall{fn: fn, args: []SE{a}} }

func (r *Rely) lockE() SE { return call1("lockstate", sSel{sId{r.param}, r.lock}) }
func (r *Rely) listE() SE { return sSel{sId{r.param}, r.field} }

// relyOn: other goroutines may have run since the last step, unless the lock is held.
func (x *Exec) relyOn(s *State) {
	if x.con == nil || x.con.rely == nil {
		return
	}
	r := x.con.rely
	if k, ok := intVal(x.paramEnv(s).term(r.lockE())); ok && k.Sign() != 0 {
		return
	}
	pre := s.clone()
	a := fresh("alloc", SInt)
	x.fact(s, le(pre.alloc, a))
	s.alloc = a
	x.modifyOne(s, call1("list", r.listE()), x.paramEnv(pre))
	for name := range s.heap {
		if s.heap[name] != pre.heap[name] {
			x.wellFormed(s, name)
		}
	}
	x.listWF(s)
	env := x.paramEnv(s)
	env.old, env.allocOld = pre, pre.alloc
	x.fact(s, env.boolT(r.e))
	x.notes["other goroutines change what is under the lock only as the rely clause says, and each call on it is one step"] = true
}

// shared: one of the values is the structure of the rely clause.
func (x *Exec) shared(as []Val) bool {
	if x.con == nil || x.con.rely == nil {
		return false
	}
	t := x.entryEnv.vars[x.con.rely.param].T
	for _, a := range as {
		if types.Identical(a.T, t) {
			return true
		}
	}
	return false
}

// sharedCall: a call on the structure happens under its lock and does not change it (unless it relies itself).
func (x *Exec) sharedCall(s, pre *State, con *Contract, n ast.Node) {
	if con.rely != nil {
		return
	}
	r := x.con.rely
	x.oblige(pre, "the lock of "+r.param+" is held", ne(x.paramEnv(pre).term(r.lockE()), mkInt(0)), n)
}

func (x *Exec) unchangedShared(s, pre *State, con *Contract, n ast.Node) {
	if x.con == nil || x.con.rely == nil || con.rely != nil {
		return
	}
	if s.llen() == pre.llen() && s.lseq() == pre.lseq() && s.eval() == pre.eval() {
		return
	}
	l := x.paramEnv(s).term(x.con.rely.listE())
	x.oblige(s, "only the owner changes "+x.con.rely.param, and(eq(sel(s.llen(), l), sel(pre.llen(), l)), eq(sel(s.lseq(), l), sel(pre.lseq(), l))), n)
}

type guard struct {
	key  string
	rely *Rely
	vars map[string]Val
}

// guarantee: what the goroutines rely on holds of each step of the function that started them.
func (x *Exec) guarantee(pre, s *State, n ast.Node) {
	if len(x.guards) == 0 || x.rec > 0 || s == nil || s.pc == tFalse {
		return
	}
	lists, any := false, false
	for h := range s.heap {
		if s.heap[h] == pre.heap[h] || strings.HasPrefix(h, "LK.") || strings.HasPrefix(h, "G") {
			continue
		}
		any = true
		if isListHeap(h) {
			lists = true
		}
	}
	if !any {
		return
	}
	for _, g := range x.guards {
		env := &Env{P: x.P, vars: g.vars, st: s, old: pre, allocOld: pre.alloc}
		x.oblige(s, "what "+g.key+" relies on", env.boolT(g.rely.e), n)
		if lists {
			l := env.term(g.rely.listE())
			x.oblige(s, "changed under the lock", or(eq(env.term(g.rely.lockE()), mkInt(2)),
				and(eq(sel(s.llen(), l), sel(pre.llen(), l)), eq(sel(s.lseq(), l), sel(pre.lseq(), l)))), n)
		}
	}
}

// ---- the side of the goroutine ----

func (x *Exec) relayOf(in string) *Relay {
	if x.con != nil {
		for i := range x.con.relays {
			if x.con.relays[i].in == in {
				return &x.con.relays[i]
			}
		}
	}
	return nil
}

// recvMsg receives from a channel of the contract.
func (x *Exec) recvMsg(s *State, ch ast.Expr, t types.Type, n ast.Node) Val {
	x.relyOn(s)
	r := x.relayOf(x.chanParam(ch))
	var v Val
	if r != nil && len(r.owned) > 0 {
		pre := s.alloc
		a := fresh("alloc", SInt)
		x.fact(s, le(pre, a))
		s.alloc = a
		v = x.freshVal(s, t, "recv")
		x.fact(s, or(eq(v.C[0], mkInt(0)), le(pre, v.C[0])))
		x.structWF(s, t)
	} else {
		v = x.freshVal(s, t, "recv")
	}
	x.chanAssume(s, ch, v)
	x.received(s, ch, v, n)
	return v
}

// structWF: the fields of structs of this kind are well formed up to the present bound.
func (x *Exec) structWF(s *State, t types.Type) {
	p, ok := isPtr(t)
	if !ok || isOpaque(p.Elem()) {
		return
	}
	for _, k := range layout(p.Elem()) {
		if k.kind != 'v' && k.kind != 'o' {
			nm, srt := fieldHeap(p.Elem(), k)
			s.hget(nm, srt, k.kind)
			x.wellFormed(s, nm)
		}
	}
}

// ownedHeaps are the heaps of the fields of a message that its receiver writes.
func ownedHeaps(t types.Type, fields []string) map[string]bool {
	p, ok := isPtr(t)
	if !ok {
		unsup("owned fields of %s", t)
	}
	r := map[string]bool{}
	for _, f := range fields {
		lo, hi, _, ok := fieldRange(p.Elem(), f)
		if !ok {
			serr("owned: no field %s", f)
		}
		for _, k := range layout(p.Elem())[lo:hi] {
			if k.kind != 'o' {
				nm, srt := fieldHeap(p.Elem(), k)
				heapSorts[nm], heapKinds[nm] = srt, k.kind
				r[nm] = true
			}
		}
	}
	return r
}

// havocOwned forgets the owned fields of a message.
func (x *Exec) havocOwned(s *State, t types.Type, fields []string, msg *Term) {
	for _, h := range sortedSet(ownedHeaps(t, fields)) {
		x.havocAt(s, h, msg)
		x.wellFormed(s, h)
	}
}

// The mark own:IN is the last state at which what was written before has been accounted for.
func ownKey(in string) string { return "own:" + in }

// ownKeys are the channels for whose messages writes are accounted for.
func (x *Exec) ownKeys() []string {
	if x.con == nil {
		return nil
	}
	var r []string
	for i := range x.con.relays {
		if len(x.con.relays[i].owned) > 0 {
			r = append(r, x.con.relays[i].in)
		}
	}
	if x.con.fork != nil {
		r = append(r, x.con.fork.in)
	}
	return r
}

// ownAll accounts for what was written up to here.
func (x *Exec) ownAll(s *State, n ast.Node) {
	for _, in := range x.ownKeys() {
		x.ownFrame(s, in, n)
		s.mark(ownKey(in))
	}
}

// ownMerge does so before states with different marks come together.
func (x *Exec) ownMerge(ss []*State) bool {
	diff := false
	for _, in := range x.ownKeys() {
		for _, s := range ss[1:] {
			diff = diff || s.marks[ownKey(in)] != ss[0].marks[ownKey(in)]
		}
	}
	if diff {
		for _, s := range ss {
			for _, in := range x.ownKeys() {
				x.ownFrame(s, in, nil)
			}
		}
	}
	return diff
}

// ownFrame: since the mark, only the fields of the message that belong to the goroutine and new storage were written.
func (x *Exec) ownFrame(s *State, in string, n ast.Node) {
	m := s.marks[ownKey(in)]
	if x.rec > 0 || x.poolMode && m == nil {
		return
	}
	if m == nil {
		unsup("writes to messages cannot be followed")
	}
	r := x.relayOf(in)
	msg := s.ghost["relay:"+in]
	owned := map[string]bool{}
	if r != nil && len(r.owned) > 0 {
		owned = ownedHeaps(msg.T, r.owned)
	}
	allowed := map[string][]modTarget{}
	pre := x.paramEnv(m)
	for _, c := range x.con.modifies {
		for _, t := range x.modTargets(c, pre) {
			allowed[t.heap] = append(allowed[t.heap], t)
		}
	}
	for _, h := range sortedKeys(heapSorts) {
		cur, ok := s.heap[h]
		old := m.hget(h, heapSorts[h], heapKinds[h])
		if !ok || cur == old {
			continue
		}
		q := fresh("frame", SInt)
		c := []*Term{lt(mkInt(0), q), lt(q, m.alloc)}
		if owned[h] {
			c = append(c, or(not(s.ghost["relay?"+in].C[0]), ne(q, msg.C[0])))
		}
		for _, t := range allowed[h] {
			if t.ref != nil {
				c = append(c, ne(q, t.ref))
			} else {
				c = append(c, not(t.set(q)))
			}
		}
		x.oblige(s, "a message is only written where it is owned: "+h, implies(and(c...), eq(sel(cur, q), sel(old, q))), n)
	}
}

// forkReceived and forkSent keep count of the answers that are owed.
func (x *Exec) forkReceived(s *State, name string, v Val, n ast.Node) {
	f := x.con.fork
	if f == nil || f.in != name {
		return
	}
	owed := s.ghost["relay#"+name].C[0]
	x.oblige(s, "the previous message on "+name+" is answered", eq(owed, mkInt(0)), n)
	w := x.paramEnv(s).with("in", v).boolT(f.when)
	s.ghost["relay#"+name] = one(tyInt, ite(w, mkInt(int64(f.n)), mkInt(0)))
	s.ghost["relay:"+name] = v
	s.ghost["relayA:"+name] = one(tyInt, s.alloc)
	s.mark(name)
	x.ownAll(s, n)
}

func (s *State) mark(name string) {
	m := map[string]*State{}
	for k, v := range s.marks {
		m[k] = v
	}
	m[name] = s.clone()
	s.marks = m
}

func (x *Exec) forkSent(s *State, name string, v Val, n ast.Node) {
	f := x.con.fork
	if f == nil {
		return
	}
	x.ownAll(s, n)
	c, ok := f.gives[name]
	if !ok {
		return
	}
	x.relyOn(s)
	owed := s.ghost["relay#"+f.in].C[0]
	x.oblige(s, "send "+name+" answers a message", lt(mkInt(0), owed), n)
	if s.marks[f.in] == nil {
		unsup("an answer to a message of an earlier iteration")
	}
	env := x.paramEnv(s).with("in", s.ghost["relay:"+f.in]).with("out", v).with("k", one(tyInt, sub(mkInt(int64(f.n)), owed)))
	env.old, env.allocOld = s.marks[f.in], s.ghost["relayA:"+f.in].C[0]
	x.oblige(s, "send "+name+" gives "+c.name, env.boolT(c.e), n)
	s.ghost["relay#"+f.in] = one(tyInt, sub(owed, mkInt(1)))
	s.ghost["relayA:"+f.in] = one(tyInt, s.alloc)
}

// ---- the side of the function that starts the goroutines ----

func (x *Exec) setRole(t *Term, nr *role) {
	if !x.madeChans[t.id] {
		unsup("go statement: a channel of %s is not made in this function, outside of loops", nr.key)
	}
	if o := x.roles[t.id]; o != nil && !o.rec && x.rec == 0 {
		if o.key != nr.key || o.in != nr.in || o.give != nr.give || o.signal != nr.signal || o.fork != nr.fork {
			unsup("go statement: a channel has two uses")
		}
		sameVars(o.vars, nr.vars, nr.key)
	}
	if x.strayChans[t.id] && x.roles[t.id] == nil {
		unsup("go statement: %s is started after its channels were used", nr.key)
	}
	x.roles[t.id] = nr
}

func sameVars(o, vars map[string]Val, key string) {
	for p, w := range vars {
		for j := range w.C {
			if o[p].C[j] != w.C[j] {
				unsup("go statement: %s is started with different arguments", key)
			}
		}
	}
}

// startFork gives the channels of a goroutine with a fork contract their roles.
func (x *Exec) startFork(s *State, key string, con *Contract, vars map[string]Val, sp *Spawn, n ast.Node) {
	f := con.fork
	if x.forwards == nil {
		x.forwards = map[int]*role{}
	}
	mk := func() *role { return &role{key: key, con: con, vars: vars, rec: x.rec > 0, spawn: sp, fork: f} }
	var names []string
	for p := range vars {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		v := vars[p]
		if chanElem(v.T) == nil {
			continue
		}
		r := mk()
		r.elem = chanElem(v.T)
		t := v.C[0]
		if p == f.in {
			r.in, r.peer = true, t
			x.setRole(t, r)
			continue
		}
		r.peer = vars[f.in].C[0]
		if _, ok := f.gives[p]; ok {
			r.give = p
			o := x.roles[t.id]
			if o == nil || o.rl == nil {
				x.setRole(t, r)
				continue
			}
			if !o.in || len(o.rl.owned) == 0 {
				unsup("go statement: a channel has two uses")
			}
			if w := x.forwards[t.id]; w != nil && !w.rec && x.rec == 0 {
				sameVars(w.vars, vars, key)
			}
			x.forwards[t.id] = r
			x.feeds(s, r, o, n)
			continue
		}
		r.signal = true
		x.setRole(t, r)
	}
	if con.rely != nil {
		g := guard{key, con.rely, vars}
		for _, o := range x.guards {
			if o.key == key {
				g.rely = nil
			}
		}
		if g.rely != nil {
			x.guards = append(x.guards, g)
		}
		env := &Env{P: x.P, vars: vars, st: s, old: s, allocOld: s.alloc}
		x.oblige(s, "go "+key+": what it relies on", env.boolT(con.rely.e), n)
		x.stable(s, con, vars, n)
	}
}

// stable: an answer that was right when it was sent is right whatever happened meanwhile.
func (x *Exec) stable(s *State, con *Contract, vars map[string]Val, n ast.Node) {
	if x.rec > 0 {
		return
	}
	for _, ch := range sortedGives(con.fork) {
		c := con.fork.gives[ch]
		t := s.clone()
		hav := func() {
			pre := t.clone()
			a := fresh("alloc", SInt)
			x.fact(t, le(pre.alloc, a))
			t.alloc = a
			x.modifyOne(t, call1("list", con.rely.listE()), &Env{P: x.P, vars: vars, st: pre, old: pre, allocOld: pre.alloc})
			x.listWF(t)
			env := &Env{P: x.P, vars: vars, st: t, old: pre, allocOld: pre.alloc}
			x.fact(t, env.boolT(con.rely.e))
		}
		hav()
		in := x.freshVal(t, chanElem(vars[con.fork.in].T), "message")
		out := x.freshVal(t, chanElem(vars[ch].T), "answer")
		k := fresh("k", SInt)
		say := func() *Term {
			env := &Env{P: x.P, vars: vars, st: t, old: t, allocOld: s.alloc}
			return env.with("in", in).with("out", out).with("k", one(tyInt, k)).boolT(c.e)
		}
		x.fact(t, say())
		hav()
		x.oblige(t, "answers on "+ch+" stay right", say(), n)
	}
}

func sortedGives(f *Fork) []string {
	m := map[string]bool{}
	for k := range f.gives {
		m[k] = true
	}
	return sortedSet(m)
}

// feeds: the answers on a channel are messages that the goroutines at its other end accept, and new.
func (x *Exec) feeds(s *State, from, to *role, n ast.Node) {
	if x.rec > 0 {
		return
	}
	t := s.clone()
	a := fresh("alloc", SInt)
	x.fact(t, le(s.alloc, a))
	t.alloc = a
	out := x.freshVal(t, from.elem, "answer")
	in := x.freshVal(t, x.roles[from.peer.id].elem, "message")
	k := fresh("k", SInt)
	x.answered(t, from, in, k, out, s.alloc, t)
	x.oblige(t, from.key+" hands over what is new", le(s.alloc, out.C[0]), n)
	if c, ok := to.con.chans[to.rl.in]; ok {
		env := &Env{P: x.P, vars: to.vars, st: t, allocOld: s.alloc}
		x.oblige(t, from.key+" feeds "+to.key+" "+c.name, env.with("msg", out).boolT(c.e), n)
	}
}

// answered assumes what is known of answer k to the message in.
func (x *Exec) answered(s *State, ro *role, in Val, k *Term, out Val, from *Term, old *State) {
	env := &Env{P: x.P, vars: ro.vars, st: s, old: old, allocOld: from}
	if c, ok := ro.con.chans[ro.give]; ok {
		x.fact(s, env.with("msg", out).boolT(c.e))
	}
	if c, ok := ro.con.chans[ro.fork.in]; ok {
		x.fact(s, env.with("msg", in).boolT(c.e))
	}
	x.fact(s, and(le(mkInt(0), k), lt(k, mkInt(int64(ro.fork.n)))))
	x.fact(s, env.with("in", in).with("out", out).with("k", one(tyInt, k)).boolT(ro.fork.gives[ro.give].e))
}

func (x *Exec) forkMeta(s *State, key string, n int) {
	p := s.ghost["pen:"+key].C[0]
	o := s.ghost["out:"+key].C[0]
	i, j := freshVar("i", SInt), freshVar("j", SInt)
	t := sel(sel(o, i), j)
	x.fact(s, le(mkInt(0), p))
	x.fact(s, forall([]*Term{i, j}, [][]*Term{{t}}, implies(t, and(le(mkInt(0), j), lt(j, mkInt(int64(n))), lt(mkInt(0), p)))))
}

// nowOut gives which answers are outstanding after an operation, by element: the array has a name, for the triggers.
func (x *Exec) nowOut(s *State, key string, now func(i, j, was *Term) *Term) {
	o := s.ghost["out:"+key]
	a := fresh("out", o.C[0].sort)
	i, j := freshVar("i", SInt), freshVar("j", SInt)
	t, was := sel(sel(a, i), j), sel(sel(o.C[0], i), j)
	x.fact(s, forall([]*Term{i, j}, [][]*Term{{t}, {was}}, eq(t, now(i, j, was))))
	s.ghost["out:"+key] = Val{o.T, []*Term{a}}
}

func (x *Exec) forkSend(s *State, ro *role, v Val, n ast.Node) {
	if !ro.in {
		unsup("send on a channel of the answers of %s", ro.key)
	}
	if c, ok := ro.con.chans[ro.fork.in]; ok {
		env := &Env{P: x.P, vars: ro.vars, st: s, allocOld: x.alloc0}
		x.oblige(s, "send to "+ro.key+" "+c.name, env.with("msg", v).boolT(c.e), n)
	}
	for _, c := range ro.spawn.sends {
		x.oblige(s, "send to "+ro.key+" "+c.name, x.paramEnv(x.entry).with("msg", v).boolT(c.e), n)
	}
	env := &Env{P: x.P, vars: ro.vars, st: s, old: s, allocOld: x.alloc0}
	w := env.with("in", v).boolT(ro.fork.when)
	p, row := s.ghost["pen:"+ro.key], sel(s.ghost["out:"+ro.key].C[0], v.C[0])
	var free []*Term
	for j := 0; j < ro.fork.n; j++ {
		free = append(free, not(sel(row, mkInt(int64(j)))))
	}
	x.oblige(s, "send to "+ro.key+": no answer to this message is outstanding", implies(w, and(free...)), n)
	s.ghost["pen:"+ro.key] = one(tyInt, ite(w, add(p.C[0], mkInt(int64(ro.fork.n))), p.C[0]))
	x.nowOut(s, ro.key, func(i, j, was *Term) *Term {
		return or(was, and(w, eq(i, v.C[0]), le(mkInt(0), j), lt(j, mkInt(int64(ro.fork.n)))))
	})
	for j := 0; j < ro.fork.n; j++ {
		x.fact(s, implies(w, sel(sel(s.ghost["out:"+ro.key].C[0], v.C[0]), mkInt(int64(j)))))
	}
	x.forkMeta(s, ro.key, ro.fork.n)
}

// take takes one of the answers that are to come.
func (x *Exec) take(s *State, ro *role, n ast.Node) (Val, *Term) {
	p, o := s.ghost["pen:"+ro.key], s.ghost["out:"+ro.key]
	x.comes(s, ro.key, p.C[0], n)
	x.forkMeta(s, ro.key, ro.fork.n)
	in := x.freshVal(s, x.roles[ro.peer.id].elem, "message")
	k := fresh("k", SInt)
	row := sel(o.C[0], in.C[0])
	x.fact(s, sel(row, k))
	s.ghost["pen:"+ro.key] = one(tyInt, sub(p.C[0], mkInt(1)))
	x.nowOut(s, ro.key, func(i, j, was *Term) *Term { return and(was, not(and(eq(i, in.C[0]), eq(j, k)))) })
	x.forkMeta(s, ro.key, ro.fork.n)
	return in, k
}

func (x *Exec) comes(s *State, key string, p *Term, n ast.Node) {
	if x.inSelect {
		x.fact(s, lt(mkInt(0), p))
	} else {
		x.oblige(s, "an answer of "+key+" is to come", lt(mkInt(0), p), n)
	}
}

func (x *Exec) forkRecv(s *State, ro *role, t types.Type, n ast.Node) Val {
	if ro.in {
		unsup("receive on the channel of the messages for %s", ro.key)
	}
	if ro.signal {
		return x.freshVal(s, t, "signal")
	}
	in, k := x.take(s, ro, n)
	from := s.alloc
	a := fresh("alloc", SInt)
	x.fact(s, le(from, a))
	s.alloc = a
	v := x.freshVal(s, t, "answer")
	x.structWF(s, t)
	x.answered(s, ro, in, k, v, from, s)
	return v
}

// chainRecv receives an answer of a relay that owns its messages, from this function or from other goroutines.
func (x *Exec) chainRecv(s *State, ro *role, t types.Type, n ast.Node) Val {
	fw := x.forwards[ro.peer.id]
	direct, via := s.ghost["pen:"+ro.key].C[0], (*Term)(nil)
	if fw != nil {
		via = s.ghost["pen:"+fw.key].C[0]
	}
	none := func(p *Term) bool {
		k, ok := intVal(p)
		return p == nil || ok && k.Sign() == 0
	}
	owned := func(s *State, v Val) {
		m := s.clone()
		x.havocOwned(s, t, ro.rl.owned, v.C[0])
		env := &Env{P: x.P, vars: ro.vars, st: s, old: m, allocOld: m.alloc}
		x.fact(s, env.with("in", v).with("out", v).boolT(ro.rl.e))
	}
	if none(via) {
		x.comes(s, ro.key, direct, n)
		v := x.freshVal(s, t, "answer")
		s.ghost["pen:"+ro.key] = one(tyInt, sub(direct, mkInt(1)))
		o, d := s.ghost["out:"+ro.key], s.ghost["ans:"+ro.key]
		x.fact(s, sel(o.C[0], v.C[0]))
		s.ghost["out:"+ro.key] = Val{o.T, []*Term{store(o.C[0], v.C[0], tFalse)}}
		s.ghost["ans:"+ro.key] = Val{d.T, []*Term{store(d.C[0], v.C[0], tTrue)}}
		for _, c := range ro.spawn.sends {
			x.fact(s, x.paramEnv(x.entry).with("msg", v).boolT(c.e))
		}
		a := fresh("alloc", SInt)
		x.fact(s, le(s.alloc, a))
		s.alloc = a
		owned(s, v)
		return v
	}
	if !none(direct) {
		// messages of both kinds are under way
		x.oblige(s, "no message of this function is under way to "+ro.key, eq(direct, mkInt(0)), n)
	}
	in, k := x.take(s, fw, n)
	from := s.alloc
	a := fresh("alloc", SInt)
	x.fact(s, le(from, a))
	s.alloc = a
	v := x.freshVal(s, t, "answer")
	x.structWF(s, t)
	x.answered(s, fw, in, k, v, from, s)
	b := fresh("alloc", SInt)
	x.fact(s, le(s.alloc, b))
	s.alloc = b
	owned(s, v)
	return v
}

// selectStmt: any of the cases.
func (x *Exec) selectStmt(s *State, n *ast.SelectStmt) *State {
	tg := &target{}
	x.fr.targets = append(x.fr.targets, tg)
	var outs []*State
	cur := s
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			unsup("select with default")
		}
		if cur == nil {
			break
		}
		var a *State
		if i == len(n.Body.List)-1 {
			a, cur = cur, nil
		} else {
			a, cur = x.split(cur, fresh("case", SBool))
		}
		a = x.comm(a, cc)
		outs = append(outs, x.block(a, cc.Body))
	}
	x.fr.targets = x.fr.targets[:len(x.fr.targets)-1]
	outs = append(outs, tg.brk...)
	return x.merge(outs...)
}

// simpleStmt: a statement that is one step.
// oneCall: a single call is all that the statement does besides assigning.
func oneCall(st ast.Stmt) bool {
	switch st.(type) {
	case *ast.ExprStmt, *ast.AssignStmt:
	default:
		return false
	}
	calls, other := 0, false
	ast.Inspect(st, func(a ast.Node) bool {
		switch a.(type) {
		case *ast.CallExpr:
			calls++
		case *ast.FuncLit:
			other = true
		}
		return true
	})
	return calls == 1 && !other
}

// eachStep: all that the function does is done by statements that the guarantee is checked of.
func eachStep(body *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(body, func(a ast.Node) bool {
		switch n := a.(type) {
		case *ast.ReturnStmt:
			ast.Inspect(n, func(b ast.Node) bool {
				if _, c := b.(*ast.CallExpr); c {
					ok = false
				}
				return true
			})
		case *ast.DeferStmt:
			sl, is := n.Call.Fun.(*ast.SelectorExpr)
			if !is || sl.Sel.Name != "Unlock" && sl.Sel.Name != "RUnlock" {
				ok = false
			}
		case *ast.IfStmt:
			ok = ok && n.Init == nil
			ast.Inspect(n.Cond, func(b ast.Node) bool {
				if c, is := b.(*ast.CallExpr); is {
					if _, plain := c.Fun.(*ast.Ident); !plain {
						ok = false
					}
				}
				return true
			})
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt:
			ok = false
		}
		return ok
	})
	return ok
}

func simpleStmt(st ast.Stmt) bool {
	switch st := st.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.DeclStmt, *ast.SendStmt, *ast.GoStmt:
		return true
	case *ast.BranchStmt:
		return st.Tok == token.GOTO
	}
	return false
}
