package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: govc check|func|lemmas ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework directory")
	prop := fs.String("prop", "", "property")
	verbose := fs.Bool("v", false, "verbose")
	only := fs.String("only", "", "only obligations whose id contains this")
	dump := fs.String("dump", "", "write the query of matching obligations to this file")
	fs.Parse(os.Args[2:])
	var err error
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fatal("%v", err)
	}
	code := run(cmd, *repo, *verif, *prop, *verbose, *only, *dump, fs.Args())
	os.RemoveAll(workDir)
	os.Exit(code)
}

func setupProg(repo, verif string) (*Prog, error) {
	pk, err := loadPackage(repo, "featselect")
	if err != nil {
		return nil, err
	}
	S, err := loadSpecs(filepath.Join(verif, "contracts"))
	if err != nil {
		return nil, err
	}
	P := &Prog{Package: pk, S: S}
	P.readBaseline(verif)
	if err := P.setup(); err != nil {
		return nil, err
	}
	return P, nil
}

func run(cmd, repo, verif, prop string, verbose bool, only, dump string, args []string) int {
	t0 := time.Now()
	if cmd == "check" {
		return runCheck(repo, verif, prop, verbose, t0)
	}
	P, err := setupProg(repo, verif)
	if err != nil {
		fatal("%v", err)
	}
	switch cmd {
	case "baseline":
		if err := P.writeBaseline(verif); err != nil {
			fatal("%v", err)
		}
		return 0
	case "func":
		if len(args) == 1 && args[0] == "all" {
			args = nil
			for k, c := range P.S.contracts {
				if c.kind == "func" {
					args = append(args, k)
				}
			}
			sort.Strings(args)
		}
		bad := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		lim := make(chan struct{}, 4)
		for _, k := range args {
			wg.Add(1)
			go func(k string) {
				defer wg.Done()
				lim <- struct{}{}
				defer func() { <-lim }()
				if dump != "" || only != "" {
					dumpFunc(P, k, only, dump)
					return
				}
				t := time.Now()
				r := P.verifyFunc(k)
				mu.Lock()
				defer mu.Unlock()
				if report(r, verbose, time.Since(t)) {
					bad++
				}
			}(k)
		}
		wg.Wait()
		fmt.Printf("%d of %d functions not verified; solver %.1fs in %d runs, wall %.1fs\n", bad, len(args), solverTime, solverRuns, time.Since(t0).Seconds())
		if bad > 0 {
			return 1
		}
	case "lemmas":
		bad := 0
		for _, l := range P.S.lemmas {
			if len(args) > 0 && !strings.HasPrefix(l.name, args[0]) {
				continue
			}
			r := P.verifyLemma(l)
			if dump != "" {
				for _, o := range r.obs {
					os.WriteFile(dump, []byte(solverMain[0].pre+o.q.text(true)+"(check-sat)\n"), 0644)
				}
			}
			if report(r, verbose, 0) {
				bad++
			}
		}
		if bad > 0 {
			return 1
		}
	case "keys":
		var ks []string
		for k := range P.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := "-"
			if P.S.contracts[k] != nil {
				c = "contract"
			}
			fmt.Printf("%-40s %s\n", k, c)
		}
	}
	return 0
}

func (P *Prog) verifyLemma(l *Lemma) *funcResult {
	r := &funcResult{key: "lemma " + l.name}
	termMu.Lock()
	obs, err := P.lemmaObligations(l)
	termMu.Unlock()
	if err != nil {
		r.err = err.Error()
		return r
	}
	r.obs = obs
	solveAll(obs, 1)
	for _, o := range obs {
		if o.res.status != "unsat" {
			r.failed = append(r.failed, o)
		}
	}
	return r
}

func dumpFunc(P *Prog, k, only, dump string) {
	x, err := P.settle(k, P.S.contracts[k], false, &funcResult{})
	if err != nil {
		fmt.Println(err)
	}
	for _, o := range x.obs {
		if strings.Contains(o.id, only) {
			if dump != "" {
				os.WriteFile(dump, []byte(solverMain[0].pre+o.q.text(true)+"(check-sat)\n"), 0644)
			}
			r := o.q.solve(1)
			fmt.Printf("%-70s %s %s %.2fs %s\n", o.id, o.pos, r.status, r.secs, r.output)
			if os.Getenv("GOVC_GOAL") != "" {
				fmt.Println("  goal:", show(o.q.goal))
			}
		}
	}
}

func report(r *funcResult, verbose bool, d time.Duration) bool {
	bad := r.err != "" || len(r.failed) > 0 || r.vacuous
	st := "ok"
	if bad {
		st = "FAILED"
	}
	n := 0
	for _, o := range r.obs {
		if !o.vac && o.cand == nil {
			n++
		}
	}
	fmt.Printf("%-45s %-6s %d obligations, %d candidates, %d rounds, %.1fs\n", r.key, st, n, r.cands, r.rounds, d.Seconds())
	if r.err != "" {
		fmt.Printf("    %s\n", r.err)
	}
	if r.vacuous {
		fmt.Printf("    vacuous: the precondition or every return is contradictory\n")
	}
	for _, o := range r.failed {
		fmt.Printf("    %s at %s: %s (%s)\n", o.id, o.pos, o.res.status, o.res.output)
	}
	if verbose {
		for _, o := range r.obs {
			fmt.Printf("      %-60s %-18s %s %s %.2fs\n", o.id, o.pos, o.res.status, o.res.solver, o.res.secs)
		}
	}
	return bad
}

// ---- check ----

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Violations  int                    `json:"violations,omitempty"`
}

func runCheck(repo, verif, prop string, verbose bool, t0 time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	P, err := setupProg(repo, verif)
	if err != nil {
		// the code does not load, or the contracts do not fit it any more
		fmt.Printf("property %s: %v\n", prop, err)
		return violation(verif, repo, prop, tier, seed, []string{err.Error()}, nil, t0, nil)
	}
	pd := P.S.props[prop]
	if pd == nil {
		fatal("unknown property %s", prop)
	}
	hardStop, poolStop = t0.Add(620*time.Second), t0.Add(330*time.Second)
	var gone []string
	present := 0
	for _, k := range pd.funcs {
		if P.missingHelper(k) {
			gone = append(gone, k)
		} else {
			present++
		}
	}
	if present == 0 {
		gone = nil
	}
	results := map[string]*funcResult{}
	var mu sync.Mutex
	var order []string
	var wg sync.WaitGroup
	lim := make(chan struct{}, 4)
	var start func(k string)
	start = func(k string) {
		mu.Lock()
		if _, ok := results[k]; ok {
			mu.Unlock()
			return
		}
		results[k] = nil
		order = append(order, k)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			lim <- struct{}{}
			r := P.verifyFunc(k)
			<-lim
			mu.Lock()
			results[k] = r
			mu.Unlock()
			for _, u := range r.used {
				if strings.HasPrefix(u, "func ") {
					start(u[5:])
				}
			}
		}()
	}
	for _, k := range pd.funcs {
		if !contains(gone, k) {
			start(k)
		}
	}
	wg.Wait()
	sort.Strings(order)
	// lemmas named by the property and lemmas that went into some query
	done := map[string]bool{}
	for {
		var todo []*Lemma
		want := map[string]bool{}
		for _, l := range pd.lemmas {
			want[l] = true
		}
		termMu.Lock()
		for k := range usedAxioms {
			if strings.HasPrefix(k, "lemma ") {
				want[k[6:]] = true
			}
		}
		termMu.Unlock()
		for _, f := range P.S.contracts {
			if results[f.key] != nil {
				for _, u := range f.uses {
					for _, n := range useNames(u.e) {
						want[n] = true
					}
				}
			}
		}
		for _, l := range P.S.lemmas {
			if done[l.name] {
				for _, u := range l.uses {
					for _, n := range useNames(u) {
						want[n] = true
					}
				}
			}
		}
		for _, l := range P.S.lemmas {
			if want[l.name] && !done[l.name] {
				done[l.name] = true
				todo = append(todo, l)
			}
		}
		if len(todo) == 0 {
			break
		}
		for _, l := range todo {
			r := P.verifyLemma(l)
			results[r.key] = r
			order = append(order, r.key)
		}
	}
	var problems []string
	total, disch, cands, vac := 0, 0, 0, 0
	byBackend := map[string]int{}
	trusted := map[string]bool{}
	notes := map[string]bool{}
	var under, inlined []string
	inl := map[string]bool{}
	for _, k := range order {
		r := results[k]
		if r == nil {
			continue
		}
		if verbose {
			report(r, false, 0)
		}
		if !strings.HasPrefix(k, "lemma ") {
			under = append(under, k)
		}
		if r.err != "" {
			total++
			problems = append(problems, fmt.Sprintf("%s: %s", k, r.err))
		}
		if r.vacuous {
			total++
			problems = append(problems, fmt.Sprintf("%s: contract is vacuous on this code (contradictory precondition or no reachable return)", k))
		}
		for _, o := range r.obs {
			if o.vac {
				vac++
				continue
			}
			if o.cand != nil {
				cands++
				continue
			}
			total++
			if o.res.status == "unsat" {
				disch++
				byBackend[o.res.solver]++
			}
		}
		total += r.trivial
		disch += r.trivial
		byBackend["simplifier"] += r.trivial
		for _, o := range r.failed {
			problems = append(problems, fmt.Sprintf("obligation %s at %s not discharged: %s", o.id, o.pos, o.res.output))
		}
		for _, u := range r.used {
			if strings.HasPrefix(u, "extern ") || strings.HasPrefix(u, "iface ") {
				trusted[u] = true
			}
		}
		for _, n := range r.notes {
			notes[n] = true
		}
		for _, n := range r.inlined {
			inl[n] = true
		}
	}
	for n := range inl {
		inlined = append(inlined, n)
	}
	sort.Strings(inlined)
	var tb []string
	for u := range trusted {
		tb = append(tb, "assumed contract: "+u)
	}
	for k, a := range usedAxioms {
		if a.kind == "axiom" {
			tb = append(tb, "assumed "+k)
		}
	}
	sort.Strings(tb)
	tb = append(tb, "govc (this verifier: Go semantics, memory model, obligation generator)", "go/types of the installed Go", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"machine integers are taken as mathematical integers and float64 as real numbers")
	var as []string
	as = append(as, pd.notes...)
	for n := range notes {
		as = append(as, n)
	}
	sort.Strings(as)
	as = append(as, "int arithmetic does not overflow", "float64 arithmetic is exact real arithmetic", "loops and calls terminate (partial correctness)")
	cov := map[string]interface{}{
		"obligations":                  total,
		"discharged":                   disch,
		"checker_cmd":                  fmt.Sprintf("bin/govc check -prop %s", prop),
		"trusted_base":                 tb,
		"functions_under_contract":     under,
		"functions_inlined":            inlined,
		"obligations_by_back_end":      byBackend,
		"candidate_invariants_checked": cands,
		"vacuity_checks":               vac,
		"solver_seconds":               round2(solverTime),
		"solver_runs":                  solverRuns,
	}
	level := pd.level
	if level == "" {
		level = "proof"
	}
	for _, k := range gone {
		as = append(as, "function "+k+" no longer exists: its contract is not checked (its callers' contracts are)")
	}
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: level, Coverage: cov, Assumptions: as}
	if len(gone) > 0 && len(pd.standin) == 0 {
		// a function under contract is gone: search for a failing input as well
		out, _ := runReplay(verif, repo, prop, tier, seed, true)
		if strings.Contains(out, "FAILING-INPUT ") {
			standinOut = out
			return violation(verif, repo, prop, tier, seed, []string{"replay of the contracts on the real code found a failing input"}, ev, t0, results)
		}
	}
	// bounded stand-ins and known findings are run by the replay harness
	if len(problems) > 0 {
		return violation(verif, repo, prop, tier, seed, problems, ev, t0, results)
	}
	if len(pd.standin) > 0 {
		out, code := runReplay(verif, repo, prop, tier, seed, false)
		var st map[string]interface{}
		json.Unmarshal([]byte(lastStat(out)), &st)
		cov["bounded_stand_in_for"] = pd.standin
		if pd.level == "exploration" {
			for k, x := range st {
				cov[k] = x
			}
		} else {
			cov["bounded_stand_in"] = st
		}
		if code != 0 {
			standinOut = out
			return violation(verif, repo, prop, tier, seed, []string{"bounded stand-in check failed"}, ev, t0, results)
		}
	}
	printKnown(verif, prop)
	ev.WallS = round2(time.Since(t0).Seconds())
	writeEvidence(verif, ev)
	fmt.Printf("property %s: %d obligations, all discharged (%d functions under contract, %d lemmas), %.1fs\n", prop, total, len(under), len(order)-len(under), ev.WallS)
	return 0
}

func useNames(e SE) []string {
	switch c := e.(type) {
	case sCall:
		return []string{c.fn}
	case sQuant:
		return useNames(c.body)
	}
	return nil
}

func contains(l []string, w string) bool {
	for _, f := range l {
		if f == w {
			return true
		}
	}
	return false
}

func hasWord(s, w string) bool {
	for _, f := range strings.Fields(s) {
		if f == w {
			return true
		}
	}
	return false
}

func lastStat(out string) string {
	r := ""
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "STATS "); i >= 0 {
			r = l[i+6:]
		}
	}
	return r
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func writeEvidence(verif string, ev *evidence) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, ev.Property+".json"), append(b, '\n'), 0644)
}

func printKnown(verif, prop string) {
	d, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(d), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			fmt.Printf("KNOWN-FINDING: %s\n", strings.TrimPrefix(l, "known: "))
		}
	}
}

// runReplay runs the property's replay harness against the real code: the executable reading of the contracts.
func runReplay(verif, repo, prop, tier string, seed int, search bool) (string, int) {
	c := exec.Command("bash", filepath.Join(verif, "replay", "run.sh"), prop)
	c.Dir = verif
	mode := "standin"
	if search {
		mode = "search"
	}
	c.Env = append(os.Environ(), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "REPLAY_MODE="+mode, "REPLAY_REPO="+repo)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	err := c.Run()
	code := 0
	if err != nil {
		code = 1
	}
	return out.String(), code
}

// standinOut is the output of a failed bounded stand-in run
var standinOut string

func violation(verif, repo, prop, tier string, seed int, problems []string, ev *evidence, t0 time.Time, results map[string]*funcResult) int {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: obligations that fail on the current source of %s\n\n", prop, repo)
	for _, p := range problems {
		fmt.Fprintf(&b, "- %s\n", p)
	}
	out := standinOut
	if !strings.Contains(out, "FAILING-INPUT ") {
		out, _ = runReplay(verif, repo, prop, tier, seed, true)
	}
	input := ""
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "FAILING-INPUT "); i >= 0 && input == "" {
			input = l[i:]
		}
	}
	fmt.Fprintf(&b, "\nreplay against the real code (bash replay/run.sh %s, REPLAY_MODE=search VERIF_SEED=%d):\n", prop, seed)
	if input != "" {
		fmt.Fprintf(&b, "%s\n", input)
	} else {
		fmt.Fprintf(&b, "no failing input found\n")
	}
	if len(out) > 20000 {
		out = out[:20000] + "\n..."
	}
	fmt.Fprintf(&b, "\noutput of the replay harness:\n%s\n", out)
	os.WriteFile(path, []byte(b.String()), 0644)
	for _, p := range problems {
		fmt.Println("  " + p)
	}
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
	if input == "" {
		line += " no-failing-input-found"
	} else {
		fmt.Println("  " + input)
	}
	if ev == nil {
		ev = &evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: map[string]interface{}{"obligations": len(problems), "discharged": 0, "checker_cmd": "bin/govc check -prop " + prop, "trusted_base": []string{}}}
	}
	ev.Violations = len(problems)
	ev.Coverage["undischarged"] = problems
	ev.WallS = round2(time.Since(t0).Seconds())
	writeEvidence(verif, ev)
	fmt.Println(line)
	return 1
}
