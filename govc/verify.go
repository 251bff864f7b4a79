package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// paramEnv: contract parameter names denote the parameters' values on entry.
func (x *Exec) paramEnv(s *State) *Env {
	e := &Env{P: x.P, vars: map[string]Val{}, st: s, old: x.entry, allocOld: x.alloc0}
	for k, v := range x.entryEnv.vars {
		e.vars[k] = v
	}
	return e
}

// returnWindow: a window of a new array is returned as a copy (the caller has no other way to the array).
func (x *Exec) returnWindow(s *State, v Val, n ast.Node) Val {
	sl, ok := isSlice(v.T)
	if !ok || len(v.C) != 4 {
		return v
	}
	if k, ok := intVal(v.C[1]); ok && k.Sign() == 0 {
		return v
	}
	x.oblige(s, "returned window of a new array", or(eq(v.C[1], mkInt(0)), le(x.alloc0, v.C[0])), n)
	x.notes["a window of an array made by the function is returned as a copy of the window"] = true
	r := x.newRef(s)
	for _, k := range layout(sl.Elem()) {
		if k.kind == 'o' {
			continue
		}
		nm, srt := elemHeap(sl.Elem(), k)
		h := s.hget(nm, srt, k.kind)
		i := freshVar("i", SInt)
		ti := sel(sel(h, r), i)
		x.fact(s, forall([]*Term{i}, [][]*Term{{ti}}, implies(and(le(mkInt(0), i), lt(i, v.C[3])), eq(ti, sel(sel(h, v.C[0]), add(v.C[1], i))))))
	}
	return Val{v.T, []*Term{ite(eq(v.C[0], mkInt(0)), mkInt(0), r), mkInt(0), v.C[2], v.C[3]}}
}

func (x *Exec) checkPost(s *State, vs []Val, n ast.Node) {
	x.retCount++
	x.relyOn(s)
	env := x.paramEnv(s)
	for i, v := range vs {
		v = x.returnWindow(s, v, n)
		if i < len(x.con.results) {
			env.vars[x.con.results[i]] = v
		}
		for j, k := range layout(v.T) {
			if k.kind == 'o' {
				x.needOff0(s, v.C[j], n)
			}
		}
	}
	if x.con.hasPanic && !x.con.flags["panicsAny"] {
		x.oblige(s, "no return when a panic is specified", not(x.panicCond()), n)
	}
	for _, u := range x.con.uses {
		x.fact(s, x.P.useInstance(u.e, env))
	}
	for i, a := range x.con.asserts {
		nm := a.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		x.safety(s, "assertion "+nm, env.boolT(a.e), n)
	}
	x.relayExit(s, n)
	for i, e := range x.con.ensures {
		nm := e.name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		x.safety(s, "ensures "+nm, env.boolT(e.e), n)
	}
	if x.con.modAny {
		return
	}
	allowed := map[string][]modTarget{}
	pre := x.paramEnv(x.entry)
	for _, m := range x.con.modifies {
		for _, t := range x.modTargets(m, pre) {
			allowed[t.heap] = append(allowed[t.heap], t)
		}
	}
	for _, h := range sortedKeys(heapSorts) {
		cur, ok := s.heap[h]
		old := x.entry.hget(h, heapSorts[h], heapKinds[h])
		if !ok || cur == old {
			continue
		}
		r := fresh("frame", SInt)
		c := []*Term{lt(mkInt(0), r), lt(r, x.alloc0)}
		for _, t := range allowed[h] {
			if t.ref != nil {
				c = append(c, ne(r, t.ref))
			} else {
				c = append(c, not(t.set(r)))
			}
		}
		x.oblige(s, "modifies only what is listed: "+h, implies(and(c...), eq(sel(cur, r), sel(old, r))), n)
	}
	// is this return reachable at all?
	if x.rec == 0 {
		o := &Obligation{id: fmt.Sprintf("%s/reachable return#%d", x.key, x.retCount), fn: x.key, kind: "reachable", pos: x.pos(n), vac: true,
			q: &Query{facts: append(append([]*Term{}, x.facts...), s.pc), goal: tFalse, maxLem: -1}}
		x.obs = append(x.obs, o)
	}
}

type funcResult struct {
	key       string
	obs       []*Obligation
	failed    []*Obligation
	err       string // not verifiable: outside the language, unresolved name, ...
	used      []string
	inlined   []string
	notes     []string
	rounds    int
	cands     int
	trivial   int
	vacuous   bool
	returns   int
	reachable int
}

// generate produces the obligations of a function under contract.
func (P *Prog) generate(key string, con *Contract, dropped map[string]bool, pool bool) (x *Exec, err error) {
	decl := P.funcs[key]
	if decl == nil || decl.Body == nil {
		return nil, fmt.Errorf("function %s does not exist", key)
	}
	termMu.Lock()
	defer termMu.Unlock()
	x = newExec(P, key, con)
	x.dropped = dropped
	x.poolMode = pool
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = fmt.Errorf("outside the verified subset: %s", e.msg)
			case specErr:
				err = fmt.Errorf("contract does not fit the code: %s", e.msg)
			case unresolved:
				err = fmt.Errorf("contract names %s, which the code does not have", e.name)
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("engine: %v", r)
			}
		}
	}()
	obj := P.info.Defs[decl.Name].(*types.Func)
	sig := obj.Type().(*types.Signature)
	s := &State{pc: tTrue, vars: map[types.Object]Val{}, heap: map[string]*Term{}, ghost: map[string]Val{}, alloc: global("alloc@0", SInt)}
	x.alloc0 = s.alloc
	x.facts = append(x.facts, le(mkInt(1), s.alloc))
	x.scanBoxed(decl.Body)
	x.entry = s.clone()
	ps := paramObjs(sig)
	if len(con.params) != len(ps) {
		return x, fmt.Errorf("contract has %d parameters, the function has %d", len(con.params), len(ps))
	}
	if len(con.results) > sig.Results().Len() {
		return x, fmt.Errorf("contract names %d results, the function has %d", len(con.results), sig.Results().Len())
	}
	x.entryEnv = &Env{P: P, vars: map[string]Val{}, st: x.entry, old: x.entry, allocOld: s.alloc}
	for i, o := range ps {
		v := x.freshVal(s, o.Type(), con.params[i])
		x.entryEnv.vars[con.params[i]] = v
	}
	if sig.Recv() != nil {
		if _, ok := isPtr(sig.Recv().Type()); ok {
			x.factU(ne(x.entryEnv.vars[con.params[0]].C[0], mkInt(0)))
		}
	}
	// well-formedness of the heaps on entry is assumed for every heap that is mentioned in the end
	fr := &frame{key: key, sig: sig, decl: decl, body: decl.Body, top: true, path: "", spec: con}
	nLoops := 0
	fr.tree = P.numberLoops(decl.Body, &nLoops, 0)
	fr.ords = fr.tree.ords
	x.findPathsLoop(con, fr.tree)
	x.frames = []*frame{fr}
	x.fr = fr
	x.relayEntry(s)
	for _, r := range con.requires {
		x.factU(x.entryEnv.boolT(r.e))
	}
	preFacts := len(x.facts)
	for i, o := range ps {
		if o.Name() == "" || o.Name() == "_" {
			continue
		}
		x.declare(s, o, Val{o.Type(), x.entryEnv.vars[con.params[i]].C})
	}
	fr.entry = s.clone()
	fr.alloc0 = s.alloc
	x.declareResults(s, fr, sig)
	// parameter boxes are allocated after entry: the contract's alloc counter stays the entry one
	vac := &Obligation{id: key + "/requires satisfiable", fn: key, kind: "reachable", vac: true, q: &Query{facts: append([]*Term{}, x.facts[:preFacts]...), goal: tFalse, maxLem: -1}}
	if len(con.hooks) > 0 {
		fr.hook = &activeHook{hooks: con.hooks, env: func(st *State, pos token.Pos) *Env {
			e := x.invEnv(st, nil, "", fr.entry)
			e.look = x.lookAt(fr, nil, "", pos)
			return e
		}}
	}
	if pool && sig.Results().Len() == 0 {
		x.tails = map[*ast.IfStmt]bool{}
		tailIfs(decl.Body.List, x.tails)
	}
	if pool {
		// a statement may have left its loop
		hs, ords := append([]Hook(nil), con.hooks...), make([]int, len(con.hooks))
		for o := 1; o < 100; o++ {
			if ls := con.loops[o]; ls != nil {
				for _, h := range ls.hooks {
					hs = append(hs, h)
					ords = append(ords, o)
				}
			}
		}
		if len(hs) > 0 {
			fr.hook = &activeHook{hooks: hs, ords: ords, where: "", env: func(st *State, pos token.Pos) *Env { return x.invEnv(st, nil, "", fr.entry) }}
		}
	}
	out := x.block(s, decl.Body.List)
	if out != nil && out.pc != tFalse {
		if sig.Results().Len() == 0 {
			x.doReturn(out, nil, decl.Body)
		}
	}
	// entry well-formedness facts
	n := len(x.facts)
	es := &State{pc: tTrue, heap: map[string]*Term{}, alloc: x.alloc0}
	for _, h := range sortedKeys(heapSorts) {
		if heapKinds[h] != 'v' {
			x.wellFormed(es, h)
		}
	}
	if _, ok := heapSorts["L.len"]; ok {
		x.listWF(es)
	}
	wf := append([]*Term{}, x.facts[n:]...)
	x.facts = x.facts[:n]
	x.obs = append(x.obs, vac)
	for _, o := range x.obs {
		consts := map[int]*Term{}
		seen := map[int]bool{}
		for _, f := range o.q.facts {
			collectConsts(f, consts, nil, seen)
		}
		collectConsts(o.q.goal, consts, nil, seen)
		for _, f := range wf {
			fc := map[int]*Term{}
			collectConsts(f, fc, nil, map[int]bool{})
			rel := false
			for id, c := range fc {
				if strings.HasSuffix(c.op, "@0") && c.op != "alloc@0" && consts[id] != nil {
					rel = true
				}
			}
			if rel {
				o.q.facts = append(o.q.facts, f)
			}
		}
	}
	return x, nil
}

func solveAll(obs []*Obligation, effort int) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 16)
	for _, o := range obs {
		if o.res.status != "" {
			continue
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			e := effort
			if o.cand != nil || o.vac {
				e = 0
			}
			if o.cand != nil && o.cand.pool {
				e = -1
				if o.cand.plain {
					e = 1
				}
			}
			o.res = o.q.solve(e)
		}(o)
	}
	wg.Wait()
}

func (P *Prog) verifyFunc(key string) *funcResult {
	con := P.S.contracts[key]
	if con == nil {
		return &funcResult{key: key, err: "no contract"}
	}
	r := P.verifyWith(key, con, false)
	if !poolStop.IsZero() && time.Now().After(poolStop) {
		return r
	}
	if (strings.HasPrefix(r.err, "contract names ") || r.err == "" && len(r.failed) > 0) && P.reshaped(key) {
		r2 := P.verifyWith(key, con, true)
		ok := r2.err == "" && len(r2.failed) == 0 && !r2.vacuous
		if ok || r.err != "" && r2.err == "" {
			return r2
		}
	}
	return r
}

// settle generates the obligations with the candidate invariants that can be proved.
func (P *Prog) settle(key string, con *Contract, pool bool, res *funcResult) (*Exec, error) {
	dropped := map[string]bool{}
	var x *Exec
	for {
		var err error
		x, err = P.generate(key, con, dropped, pool)
		res.rounds++
		if err != nil {
			return x, err
		}
		var cands []*Obligation
		for _, o := range x.obs {
			if o.cand != nil {
				cands = append(cands, o)
			}
		}
		solveAll(cands, 0)
		changed := false
		for _, o := range cands {
			if o.res.status != "unsat" && !dropped[o.cand.key] {
				dropped[o.cand.key] = true
				changed = true
				if pool && o.cand.pool && os.Getenv("GOVC_POOL") != "" {
					fmt.Fprintf(os.Stderr, "round %d: %s (%s)\n", res.rounds, o.id, o.res.status)
				}
			}
		}
		res.cands = len(cands)
		if !changed {
			return x, nil
		}
	}
}

func (P *Prog) verifyWith(key string, con *Contract, pool bool) *funcResult {
	res := &funcResult{key: key}
	x, err := P.settle(key, con, pool, res)
	if err != nil {
		res.err = err.Error()
		if x != nil {
			res.obs = x.obs
		}
		return res
	}
	solveAll(x.obs, 1)
	res.obs = x.obs
	res.trivial = x.counts["trivial"]
	for _, o := range x.obs {
		if o.vac {
			if o.kind == "reachable" && strings.HasSuffix(o.id, "requires satisfiable") {
				if o.res.status == "unsat" {
					res.vacuous = true
				}
			} else {
				res.returns++
				if o.res.status != "unsat" {
					res.reachable++
				}
			}
			continue
		}
		if o.res.status != "unsat" {
			res.failed = append(res.failed, o)
		}
	}
	if res.returns > 0 && res.reachable == 0 && !con.flags["diverges"] {
		res.vacuous = true
	}
	for u := range x.used {
		res.used = append(res.used, u)
	}
	for u := range x.inlined {
		res.inlined = append(res.inlined, u)
	}
	for u := range x.notes {
		res.notes = append(res.notes, u)
	}
	sort.Strings(res.used)
	sort.Strings(res.inlined)
	sort.Strings(res.notes)
	return res
}
