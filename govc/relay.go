package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Goroutines are verified against the contract of the function they run. What another function may assume about
// them is the relay clause of that contract: a message received on one channel is answered by one message on the
// other. The function that starts them keeps the set of keys that it sent and that were not answered yet.

// role is what a channel made by the function under verification is used for by the goroutines it starts.
type role struct {
	key   string
	con   *Contract
	rl    *Relay
	in    bool
	vars  map[string]Val // the arguments of the go statement and the logical parameters
	args  []Val
	rec   bool
	spawn *Spawn
	peer  *Term
	elem  types.Type

	fork   *Fork
	give   string // the channel of the answers, as the contract calls it
	signal bool   // nothing is said about what comes
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

// relayEntry binds the logical parameters and starts the relays of the function under verification.
func (x *Exec) relayEntry(s *State) {
	for _, g := range x.con.ghosts {
		x.entryEnv.vars[g.name] = x.freshVal(s, x.P.resolveType(g.typ), g.name)
	}
	for i := range x.con.relays {
		r := &x.con.relays[i]
		iv, ok1 := x.entryEnv.vars[r.in]
		ov, ok2 := x.entryEnv.vars[r.out]
		if !ok1 || !ok2 || chanElem(iv.T) == nil || chanElem(ov.T) == nil {
			serr("relay: %s and %s are not channel parameters", r.in, r.out)
		}
		s.ghost["relay?"+r.in] = one(tyBool, tFalse)
		s.ghost["relay:"+r.in] = x.freshVal(s, chanElem(iv.T), "none")
	}
	if f := x.con.fork; f != nil {
		iv, ok := x.entryEnv.vars[f.in]
		if !ok || chanElem(iv.T) == nil {
			serr("fork: %s is not a channel parameter", f.in)
		}
		s.ghost["relay#"+f.in] = one(tyInt, mkInt(0))
		s.ghost["relay:"+f.in] = x.freshVal(s, chanElem(iv.T), "none")
		s.ghost["relayA:"+f.in] = one(tyInt, s.alloc)
	}
	for _, in := range x.ownKeys() {
		s.mark(ownKey(in))
	}
	for c := range x.con.spawns {
		s.ghost["out:"+c] = Val{&SeqT{tyBool}, []*Term{constArr(arrSort(SBool), tFalse)}}
		if cc := x.P.S.contracts[c]; cc != nil && cc.fork != nil {
			s.ghost["out:"+c] = Val{&SeqT{&SeqT{tyBool}}, []*Term{constArr(arrSort(arrSort(SBool)), constArr(arrSort(SBool), tFalse))}}
		}
		s.ghost["ans:"+c] = Val{&SeqT{tyBool}, []*Term{constArr(arrSort(SBool), tFalse)}}
		s.ghost["pen:"+c] = one(tyInt, mkInt(0))
		s.ghost["wor:"+c] = one(tyInt, mkInt(0))
	}
}

// relayExit: a goroutine ends with all messages answered; a function ends with all answers received.
func (x *Exec) relayExit(s *State, n ast.Node) {
	x.ownAll(s, n)
	for _, r := range x.con.relays {
		x.oblige(s, "every message on "+r.in+" is answered", not(s.ghost["relay?"+r.in].C[0]), n)
	}
	if f := x.con.fork; f != nil {
		x.oblige(s, "every message on "+f.in+" is answered", eq(s.ghost["relay#"+f.in].C[0], mkInt(0)), n)
	}
	for _, c := range sortedSpawns(x.con) {
		k := fresh("key", SInt)
		if cc := x.P.S.contracts[c]; cc != nil && cc.fork != nil {
			x.oblige(s, "every answer of "+c+" is received", not(sel(sel(s.ghost["out:"+c].C[0], k), fresh("k", SInt))), n)
			continue
		}
		x.oblige(s, "every answer of "+c+" is received", not(sel(s.ghost["out:"+c].C[0], k)), n)
	}
}

func sortedSpawns(c *Contract) []string {
	m := map[string]bool{}
	for k := range c.spawns {
		m[k] = true
	}
	return sortedSet(m)
}

func (x *Exec) keyOf(r *Relay, v Val) *Term {
	if r.key == "msg" {
		return v.C[0]
	}
	e := &Env{P: x.P, vars: map[string]Val{"msg": v}, st: x.entry}
	return e.term(sSel{sId{"msg"}, r.key})
}

// received is called for each message that comes out of ch.
func (x *Exec) received(s *State, ch ast.Expr, v Val, n ast.Node) {
	if x.con == nil {
		return
	}
	name := x.chanParam(ch)
	for i := range x.con.relays {
		r := &x.con.relays[i]
		if r.in == name {
			x.oblige(s, "the previous message on "+name+" is answered", not(s.ghost["relay?"+name].C[0]), n)
			s.ghost["relay?"+name] = one(tyBool, tTrue)
			s.ghost["relay:"+name] = v
			s.mark(name)
			if len(r.owned) > 0 {
				x.ownAll(s, n)
			}
		}
	}
	x.forkReceived(s, name, v, n)
}

func (x *Exec) sent(s *State, ch ast.Expr, v Val, n ast.Node) {
	if x.con == nil {
		return
	}
	for j, k := range layout(v.T) {
		if k.kind == 'o' {
			x.needOff0(s, v.C[j], n)
		}
	}
	name := x.chanParam(ch)
	for i := range x.con.relays {
		r := &x.con.relays[i]
		if r.out != name {
			continue
		}
		open := s.ghost["relay?"+r.in]
		in := s.ghost["relay:"+r.in]
		x.oblige(s, "send "+name+" answers a message", open.C[0], n)
		if r.key != "" {
			x.oblige(s, "send "+name+" answers under the key of the message", eq(x.keyOf(r, in), x.keyOf(r, v)), n)
		}
		env := x.paramEnv(s).with("in", in).with("out", v)
		if len(r.owned) > 0 {
			if s.marks[r.in] == nil {
				unsup("an answer to a message of an earlier iteration")
			}
			env.old, env.allocOld = s.marks[r.in], s.marks[r.in].alloc
			x.ownAll(s, n)
		}
		x.oblige(s, "send "+name+" relay "+r.name, env.boolT(r.e), n)
		s.ghost["relay?"+r.in] = one(tyBool, tFalse)
	}
	x.forkSent(s, name, v, n)
}

func (x *Exec) chanParam(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		o := x.P.info.ObjectOf(id)
		if n := x.specParamName(o); n != "" {
			return n
		}
	}
	return ""
}

// goStmt starts a goroutine: its requirements hold, and what it may modify is unknown from here on.
func (x *Exec) goStmt(s *State, n *ast.GoStmt) {
	id, ok := n.Call.Fun.(*ast.Ident)
	if !ok {
		unsup("go statement")
	}
	f, ok := x.P.info.ObjectOf(id).(*types.Func)
	if !ok {
		unsup("go statement")
	}
	key := funcKey(f)
	con := x.P.S.contracts[key]
	if con == nil || len(con.relays) == 0 && con.fork == nil {
		unsup("go statement: %s has no relay contract", key)
	}
	if x.con == nil || x.con.spawns[key] == nil {
		unsup("go statement: the contract does not say what is sent to %s", key)
	}
	sp := x.con.spawns[key]
	sig := f.Type().(*types.Signature)
	as := x.args(s, n.Call, 0, sig)
	x.used[con.kind+" "+key] = true
	vars := x.bindArgs(con, as)
	for i, a := range as {
		if chanElem(a.T) == nil {
			for _, c := range a.C {
				if x.outerLoop > 0 && maxSeq(c, map[int]int{}) > x.outerLoopSeq {
					unsup("go statement: argument %d of %s changes from one goroutine to the next", i+1, key)
				}
			}
		}
	}
	genv := x.paramEnv(s)
	for _, g := range con.ghosts {
		e, ok := sp.ghosts[g.name]
		if !ok {
			serr("spawn %s: no value for %s", key, g.name)
		}
		vars[g.name] = genv.eval(e)
	}
	env := &Env{P: x.P, vars: vars, st: s.clone(), old: s, allocOld: x.alloc0}
	for i, r := range con.requires {
		nm := r.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		x.safety(s, "go "+key+" requires "+nm, env.boolT(r.e), n)
	}
	if x.roles == nil {
		x.roles = map[int]*role{}
	}
	for i := range con.relays {
		r := &con.relays[i]
		in, out := vars[r.in], vars[r.out]
		reg := func(v Val, isIn bool, peer *Term) {
			t := v.C[0]
			if !x.madeChans[t.id] {
				unsup("go statement: a channel of %s is not made in this function, outside of loops", key)
			}
			for id, o := range x.roles {
				if o.key == key && o.in == isIn && o.rl == r && id != t.id && x.rec == 0 && !o.rec {
					unsup("go statement: several channels for %s", key)
				}
			}
			nr := &role{key: key, con: con, rl: r, in: isIn, vars: vars, rec: x.rec > 0, spawn: sp, peer: peer, elem: chanElem(v.T)}
			if o := x.roles[t.id]; o != nil && o.fork != nil {
				unsup("go statement: %s is started after the goroutines that feed it", key)
			}
			if o := x.roles[t.id]; o != nil && !o.rec && x.rec == 0 {
				if o.key != key || o.in != isIn || o.rl != r || o.peer != peer {
					unsup("go statement: a channel has two uses")
				}
				for p, w := range vars {
					for j := range w.C {
						if o.vars[p].C[j] != w.C[j] {
							unsup("go statement: %s is started with different arguments", key)
						}
					}
				}
			}
			if x.strayChans[t.id] && x.roles[t.id] == nil {
				unsup("go statement: %s is started after its channels were used", key)
			}
			x.roles[t.id] = nr
		}
		reg(in, true, out.C[0])
		reg(out, false, in.C[0])
	}
	if con.fork != nil {
		x.startFork(s, key, con, vars, sp, n)
	}
	s.ghost["wor:"+key] = one(tyInt, add(s.ghost["wor:"+key].C[0], mkInt(1)))
	if con.fork == nil {
		x.interfere(s, con, vars)
	} else {
		x.onlyShared(con)
	}
	x.notes["goroutines running "+key+" are taken to answer each message as its contract says, in any order; messages are not written to after they were sent, and the goroutines do not disturb each other"] = true
}

// interfere forgets what the goroutines may change.
func (x *Exec) interfere(s *State, con *Contract, vars map[string]Val) {
	pre := s.clone()
	env := &Env{P: x.P, vars: vars, st: pre, old: pre, allocOld: x.alloc0}
	if x.applyModifies(s, con, env, pre) {
		unsup("goroutines that change lists")
	}
	for name := range s.heap {
		if s.heap[name] != pre.heap[name] {
			x.wellFormed(s, name)
		}
	}
}

func (x *Exec) roleOf(t *Term) *role { return x.roles[t.id] }

func (x *Exec) stray(t *Term) {
	if x.strayChans == nil {
		x.strayChans = map[int]bool{}
	}
	x.strayChans[t.id] = true
}

// spawnSend: a message goes to the goroutines.
func (x *Exec) spawnSend(s *State, ch *Term, v Val, n ast.Node) {
	ro := x.roleOf(ch)
	if ro == nil {
		if len(x.roles) > 0 {
			unsup("send on a channel that is not one of the goroutines'")
		}
		x.stray(ch)
		return
	}
	if ro.fork != nil {
		x.forkSend(s, ro, v, n)
		return
	}
	if !ro.in {
		unsup("send on the channel of the answers of %s", ro.key)
	}
	if c, ok := ro.con.chans[ro.rl.in]; ok {
		env := &Env{P: x.P, vars: ro.vars, st: s, allocOld: x.alloc0}
		x.oblige(s, "send to "+ro.key+" "+c.name, env.with("msg", v).boolT(c.e), n)
	}
	for _, c := range ro.spawn.sends {
		x.oblige(s, "send to "+ro.key+" "+c.name, x.paramEnv(x.entry).with("msg", v).boolT(c.e), n)
	}
	pn := s.ghost["pen:"+ro.key].C[0]
	if x.forwards[ch.id] == nil {
		x.oblige(s, "a goroutine running "+ro.key+" is free", lt(pn, s.ghost["wor:"+ro.key].C[0]), n)
	}
	s.ghost["pen:"+ro.key] = one(tyInt, add(pn, mkInt(1)))
	if ro.rl.key != "" {
		k := x.keyOf(ro.rl, v)
		g := "out:" + ro.key
		o := s.ghost[g]
		x.oblige(s, "send to "+ro.key+" under a new key", and(not(sel(o.C[0], k)), not(sel(s.ghost["ans:"+ro.key].C[0], k))), n)
		s.ghost[g] = Val{o.T, []*Term{store(o.C[0], k, tTrue)}}
	}
	x.interfere(s, ro.con, ro.vars)
	if len(ro.rl.owned) > 0 {
		x.havocOwned(s, v.T, ro.rl.owned, v.C[0])
	}
}

// spawnRecv: v is an answer to some message that was sent.
func (x *Exec) spawnRecv(s *State, ch *Term, t types.Type, n ast.Node) (Val, bool) {
	ro := x.roleOf(ch)
	if ro == nil {
		if len(x.roles) > 0 {
			unsup("receive on a channel that is not one of the goroutines'")
		}
		x.stray(ch)
		return Val{}, false
	}
	if ro.fork != nil {
		return x.forkRecv(s, ro, t, n), true
	}
	if ro.in {
		unsup("receive on the channel of the messages for %s", ro.key)
	}
	if len(ro.rl.owned) > 0 {
		x.interfere(s, ro.con, ro.vars)
		return x.chainRecv(s, ro, t, n), true
	}
	pn := s.ghost["pen:"+ro.key].C[0]
	x.comes(s, ro.key, pn, n)
	s.ghost["pen:"+ro.key] = one(tyInt, sub(pn, mkInt(1)))
	x.interfere(s, ro.con, ro.vars)
	a := fresh("alloc", SInt)
	x.fact(s, le(s.alloc, a))
	s.alloc = a
	v := x.freshVal(s, t, "answer")
	in := x.freshVal(s, x.roleOf(ro.peer).elem, "message")
	env := &Env{P: x.P, vars: ro.vars, st: s, allocOld: x.alloc0}
	for _, c := range ro.spawn.sends {
		x.fact(s, x.paramEnv(x.entry).with("msg", in).boolT(c.e))
	}
	x.fact(s, env.with("in", in).with("out", v).boolT(ro.rl.e))
	if ro.rl.key != "" {
		k := x.keyOf(ro.rl, v)
		x.fact(s, eq(k, x.keyOf(ro.rl, in)))
		o, d := s.ghost["out:"+ro.key], s.ghost["ans:"+ro.key]
		x.fact(s, sel(o.C[0], k))
		s.ghost["out:"+ro.key] = Val{o.T, []*Term{store(o.C[0], k, tFalse)}}
		s.ghost["ans:"+ro.key] = Val{d.T, []*Term{store(d.C[0], k, tTrue)}}
	}
	return v, true
}

func relayGhost(g string) bool { return strings.HasPrefix(g, "relay?") }

// onlyShared: goroutines with a fork contract change nothing but locks and what they rely on (which they do not change
// themselves either).
func (x *Exec) onlyShared(con *Contract) {
	for _, m := range con.modifies {
		if c, ok := m.(sCall); ok && (c.fn == "lock" || c.fn == "list" && con.rely != nil) {
			continue
		}
		unsup("goroutines that answer several times and change what is not theirs")
	}
	if con.modAny {
		unsup("goroutines that change anything")
	}
}
