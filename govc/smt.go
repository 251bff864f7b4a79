package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Axiom is a globally assumed (or separately proved) formula; it is included in a query only when the
// symbols of one of its patterns occur there.
type Axiom struct {
	name string
	f    *Term
	trig [][]string // alternatives: all symbols of one alternative must be present
	kind string     // "def" (definition of a spec function), "axiom" (assumed), "lemma" (proved separately)
}

var axioms []*Axiom

func addAxiom(kind, name string, f *Term) *Axiom {
	a := &Axiom{name: name, f: f, kind: kind}
	pats := f.pats
	if len(f.bound) == 0 {
		a.trig = [][]string{symbolList(f)}
	} else if len(pats) == 0 {
		a.trig = [][]string{symbolList(f)}
	} else {
		for _, p := range pats {
			m := map[string]bool{}
			for _, t := range p {
				collectSyms(t, m, map[int]bool{})
			}
			a.trig = append(a.trig, keys(m))
		}
	}
	axioms = append(axioms, a)
	return a
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func symbolList(t *Term) []string {
	m := map[string]bool{}
	collectSyms(t, m, map[int]bool{})
	return keys(m)
}

// collectSyms collects uninterpreted function symbols.
func collectSyms(t *Term, m map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if _, ok := funSigs[t.op]; ok && len(t.args) > 0 && len(t.bound) == 0 {
		m[t.op] = true
	}
	for _, a := range t.args {
		collectSyms(a, m, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectSyms(x, m, seen)
		}
	}
}

func collectConsts(t *Term, m map[int]*Term, bound map[int]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if len(t.args) == 0 && !t.lit && !t.isVar && len(t.bound) == 0 {
		m[t.id] = t
	}
	for _, a := range t.args {
		collectConsts(a, m, bound, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectConsts(x, m, bound, seen)
		}
	}
}

type Query struct {
	facts   []*Term
	goal    *Term
	exclude map[string]bool // axioms not to be used
	maxLem  int             // only lemmas with index < maxLem may be used (-1: all)
}

// termMu protects the term tables: terms are built by one goroutine at a time.
var termMu sync.Mutex

// usedAxioms records which axioms, definitions and lemmas went into a query.
var usedAxioms = map[string]*Axiom{}

var lemmaIndex = map[string]int{}

// nativeNL selects whether products of two unknowns are interpreted.
func (q *Query) text(nativeNL bool) string {
	termMu.Lock()
	defer termMu.Unlock()
	roots := append([]*Term{}, q.facts...)
	roots = append(roots, not(q.goal))
	syms := map[string]bool{}
	seen := map[int]bool{}
	for _, r := range roots {
		collectSyms(r, syms, seen)
	}
	used := map[*Axiom]bool{}
	var used2 []*Axiom
	for changed := true; changed; {
		changed = false
		for _, a := range axioms {
			if used[a] || q.exclude[a.name] {
				continue
			}
			if a.kind == "lemma" && q.maxLem >= 0 && lemmaIndex[a.name] >= q.maxLem {
				continue
			}
			ok := false
			for _, alt := range a.trig {
				all := true
				for _, s := range alt {
					if !syms[s] {
						all = false
						break
					}
				}
				if all {
					ok = true
					break
				}
			}
			if ok {
				used[a] = true
				used2 = append(used2, a)
				collectSyms(a.f, syms, seen)
				changed = true
			}
		}
	}
	var axs []*Term
	for _, a := range used2 {
		axs = append(axs, a.f)
		usedAxioms[a.kind+" "+a.name] = a
	}
	all := append(axs, roots...)
	consts := map[int]*Term{}
	cs := map[int]bool{}
	for _, r := range all {
		collectConsts(r, consts, nil, cs)
	}
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n")
	for _, s := range keys(syms) {
		sg := funSigs[s]
		if nativeNL {
			switch s {
			case "rmul":
				b.WriteString("(define-fun rmul ((x Real) (y Real)) Real (* x y))\n")
				continue
			case "rdiv":
				b.WriteString("(define-fun rdiv ((x Real) (y Real)) Real (/ x y))\n")
				continue
			case "imul":
				b.WriteString("(define-fun imul ((x Int) (y Int)) Int (* x y))\n")
				continue
			}
		}
		b.WriteString("(declare-fun " + s + " (" + strings.Join(sg.args, " ") + ") " + sg.res + ")\n")
	}
	var cl []*Term
	for _, c := range consts {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		b.WriteString("(declare-const " + c.op + " " + c.sort + ")\n")
	}
	if !nativeNL {
		if syms["rmul"] {
			b.WriteString("(assert (forall ((x Real) (y Real)) (! (= (rmul x y) (rmul y x)) :pattern ((rmul x y)))))\n")
			b.WriteString("(assert (forall ((x Real) (y Real)) (! (=> (= x 0.0) (= (rmul x y) 0.0)) :pattern ((rmul x y)))))\n")
			b.WriteString("(assert (forall ((x Real) (y Real)) (! (=> (= x 1.0) (= (rmul x y) y)) :pattern ((rmul x y)))))\n")
		}
		if syms["imul"] {
			b.WriteString("(assert (forall ((x Int) (y Int)) (! (= (imul x y) (imul y x)) :pattern ((imul x y)))))\n")
			b.WriteString("(assert (forall ((x Int) (y Int)) (! (=> (= x 0) (= (imul x y) 0)) :pattern ((imul x y)))))\n")
			b.WriteString("(assert (forall ((x Int) (y Int)) (! (=> (= x 1) (= (imul x y) y)) :pattern ((imul x y)))))\n")
		}
		if syms["rdiv"] {
			b.WriteString("(assert (forall ((x Real) (y Real)) (! (=> (= x 0.0) (=> (not (= y 0.0)) (= (rdiv x y) 0.0))) :pattern ((rdiv x y)))))\n")
			b.WriteString("(assert (forall ((x Real)) (! (= (rdiv x 1.0) x) :pattern ((rdiv x 1.0)))))\n")
		}
	}
	// share ground subterms
	refs := map[int]int{}
	var order []*Term
	var count func(t *Term)
	count = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				count(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range all {
		count(r)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	p := &printer{names: map[int]string{}}
	for _, t := range order {
		if refs[t.id] > 1 && t.op != "constarr" && len(t.args) > 0 && len(t.fv) == 0 && len(t.bound) == 0 {
			n := fmt.Sprintf("t~%d", t.id)
			b.WriteString("(define-fun " + n + " () " + t.sort + " ")
			p.writeBody(&b, t)
			b.WriteString(")\n")
			p.names[t.id] = n
		}
	}
	for _, r := range all {
		b.WriteString("(assert ")
		p.write(&b, r)
		b.WriteString(")\n")
	}
	return b.String()
}

type solverCfg struct {
	name string
	nl   bool
	run  func(ctx context.Context, file string, secs int) *exec.Cmd
	pre  string
	chk  string
}

func z3cfg(bin, name string, nl bool, opts ...string) solverCfg {
	chk := "(check-sat)"
	if bin == "z3" {
		chk = "(check-sat-using smt)"
	} else {
		opts = append(opts, "smt.solve_eqs=false", "smt.elim_unconstrained=false")
	}
	return solverCfg{name: name, nl: nl, pre: "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", chk: chk,
		run: func(ctx context.Context, f string, secs int) *exec.Cmd {
			a := append([]string{fmt.Sprintf("-T:%d", secs), "-memory:4000"}, opts...)
			return exec.CommandContext(ctx, bin, append(a, f)...)
		}}
}
func cvc5cfg(name string, nl bool, opts ...string) solverCfg {
	return solverCfg{name: name, nl: nl, pre: "(set-logic ALL)\n", chk: "(check-sat)",
		run: func(ctx context.Context, f string, secs int) *exec.Cmd {
			a := append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, opts...)
			return exec.CommandContext(ctx, "cvc5", append(a, f)...)
		}}
}

var solverMain = []solverCfg{
	z3cfg("z3-new", "z3-5", true),
}
var solverRest = []solverCfg{
	z3cfg("z3-new", "z3-5/uninterpreted-products", false),
	z3cfg("z3", "z3-4.8", true),
	cvc5cfg("cvc5", true, "--simplification=none"),
	z3cfg("z3", "z3-4.8/uninterpreted-products", false),
	z3cfg("z3-new", "z3-5/seed", true, "smt.random_seed=7", "sat.random_seed=7", "smt.arith.solver=2"),
	cvc5cfg("cvc5/saturate", true, "--full-saturate-quant"),
	cvc5cfg("cvc5/uninterpreted-products", false, "--simplification=none"),
}

// ResultInfo of one obligation.
type ResultInfo struct {
	status  string // unsat, sat, unknown, timeout
	solver  string
	secs    float64
	output  string
	queries int
}

var (
	workDir    string
	cacheDir   = os.Getenv("GOVC_CACHE")
	solverTime float64
	solverRuns int
	solverMu   sync.Mutex
	sem        = make(chan struct{}, 8)
)

func runSolver(parent context.Context, c solverCfg, body string, secs int) ResultInfo {
	text := c.pre + body + c.chk + "\n"
	var key string
	if cacheDir != "" {
		h := sha256.Sum256([]byte(c.name + "\n" + text))
		key = filepath.Join(cacheDir, fmt.Sprintf("%x", h[:16]))
		if d, err := os.ReadFile(key); err == nil {
			var r ResultInfo
			var cs int
			f := strings.Fields(string(d))
			fmt.Sscan(f[1], &r.secs)
			fmt.Sscan(f[2], &cs)
			r.status = f[0]
			r.solver = c.name
			if r.status == "unsat" || cs >= secs {
				return r
			}
		}
	}
	f, err := os.CreateTemp(workDir, "q*.smt2")
	if err != nil {
		panic(err)
	}
	f.WriteString(text)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(parent, time.Duration(secs+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := c.run(ctx, f.Name(), secs)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Seconds()
	solverMu.Lock()
	solverTime += el
	solverRuns++
	solverMu.Unlock()
	s := strings.TrimSpace(out.String())
	r := ResultInfo{solver: c.name, secs: el, output: s}
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch {
	case first == "unsat":
		r.status = "unsat"
	case first == "sat":
		r.status = "sat"
	case first == "unknown":
		r.status = "unknown"
	case strings.Contains(s, "error"):
		r.status = "error"
		if os.Getenv("GOVC_DEBUG") != "" {
			os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0644)
			fmt.Fprintln(os.Stderr, "solver error:", c.name, s)
		}
	default:
		r.status = "timeout"
	}
	if parent.Err() == nil && key != "" && r.status != "error" {
		os.WriteFile(key, []byte(fmt.Sprintf("%s %f %d\n", r.status, r.secs, secs)), 0644)
	}
	return r
}

// hardStop: no solver run starts after this time; poolStop: no second attempt starts after it.
var hardStop, poolStop time.Time

// solve tries the portfolio. effort 0: one quick attempt; 1: everything.
func (q *Query) solve(effort int) ResultInfo {
	if q.goal == tTrue {
		return ResultInfo{status: "unsat", solver: "simplifier"}
	}
	for _, f := range q.facts {
		if f == tFalse {
			return ResultInfo{status: "unsat", solver: "simplifier"}
		}
	}
	if !hardStop.IsZero() && time.Now().After(hardStop) {
		return ResultInfo{status: "timeout", output: "not attempted: the time of this check is used up"}
	}
	bg := context.Background()
	body := q.text(true)
	sem <- struct{}{}
	t1 := 3
	if effort == 0 {
		t1 = 2
	}
	if effort < 0 {
		t1 = 5
	}
	r := runSolver(bg, solverMain[0], body, t1)
	<-sem
	r.queries = 1
	if r.status == "unsat" || effort <= 0 {
		return r
	}
	first := r
	// the remaining back ends in parallel
	body2 := q.text(false)
	hasNL := body2 != body
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch := make(chan ResultInfo, len(solverRest)+1)
	n := 0
	cfgs := append([]solverCfg{}, solverRest...)
	cfgs = append(cfgs, solverMain[0])
	for i, c := range cfgs {
		if !c.nl && !hasNL {
			continue
		}
		n++
		b := body
		if !c.nl {
			b = body2
		}
		secs := 20
		if i == len(cfgs)-1 {
			secs = 40
			if first.status != "timeout" {
				secs = 5
			}
		}
		if effort > 1 {
			secs *= 3
		}
		go func(c solverCfg, b string, secs int) {
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- ResultInfo{status: "cancelled", solver: c.name}
				return
			}
			ch <- runSolver(ctx, c, b, secs)
		}(c, b, secs)
	}
	tot := r.secs
	outs := []string{first.solver + ": " + first.status}
	for i := 0; i < n; i++ {
		x := <-ch
		tot += x.secs
		if x.status == "unsat" {
			x.secs = tot
			x.queries = i + 2
			return x
		}
		outs = append(outs, x.solver+": "+x.status)
	}
	first.secs = tot
	first.queries = n + 1
	first.output = strings.Join(outs, "; ")
	if first.status == "error" {
		first.status = "unknown"
	}
	return first
}
