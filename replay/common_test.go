package featselect

// Replay harness, common part: generators, an input recorder and numeric comparison. Identifiers start with vf.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"gonum.org/v1/gonum/mat"
)

type vfRun struct {
	prop     string
	rng      *rand.Rand
	search   bool
	cases    int
	deadline time.Time
	limit    time.Duration
	maxCases int
	curMu    sync.Mutex
	cur      func() string
	curStart int64
	curLimit int64
	caseFile string
	seen     map[uint64]bool
	samples  []string
}

func vfStart(t *testing.T, prop string) *vfRun {
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	v := &vfRun{prop: prop, rng: rand.New(rand.NewSource(seed)), caseFile: os.Getenv("VF_CASE"), seen: map[uint64]bool{}}
	v.search = os.Getenv("REPLAY_MODE") != "standin"
	v.limit = 12 * time.Second
	if v.search {
		v.limit = 30 * time.Second
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		v.limit = 50 * time.Second
	}
	rand.Seed(seed)
	go v.watch()
	return v
}

// watch reports a case that runs for more than 40 s as non-terminating
func (v *vfRun) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := atomic.LoadInt64(&v.curStart)
		if s != 0 && time.Now().UnixNano()-s > int64(40*time.Second) {
			v.curMu.Lock()
			c := v.cur
			v.curMu.Unlock()
			if c != nil {
				v.fail("no result within 40 s for "+c(), "a result")
			}
		}
	}
}

// more says whether to run another case: at most max cases (a factor 10 more when searching), within the time limit of the loop
func (v *vfRun) more(i, max int) bool {
	if v.search {
		max *= 10
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		max *= 10
	}
	if i == 0 {
		v.deadline = time.Now().Add(v.limit)
	}
	return i < max && time.Now().Before(v.deadline)
}

// case sets the description of the input now being run
func (v *vfRun) run(desc func() string, f func()) {
	v.runP(desc, false, f)
}

// runP: persist the description, for code that can crash the process from another goroutine
func (v *vfRun) runP(desc func() string, persist bool, f func()) {
	v.cases++
	if !v.search {
		d := desc()
		h := fnv.New64a()
		h.Write([]byte(d))
		k := h.Sum64()
		if !v.seen[k] && (len(v.seen) == 0 || len(v.seen) == 40 || len(v.seen) == 160) {
			if len(d) > 1200 {
				d = d[:1200] + "..."
			}
			v.samples = append(v.samples, d)
		}
		v.seen[k] = true
	}
	v.curMu.Lock()
	v.cur = desc
	v.curMu.Unlock()
	atomic.StoreInt64(&v.curStart, time.Now().UnixNano())
	if persist && v.caseFile != "" {
		os.WriteFile(v.caseFile, []byte(desc()), 0644)
	}
	defer func() {
		atomic.StoreInt64(&v.curStart, 0)
		if r := recover(); r != nil {
			v.fail(desc()+fmt.Sprintf(" panicked: %v", r), "a result")
		}
	}()
	f()
}

// panics runs f and says whether it panicked
func (v *vfRun) panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func (v *vfRun) fail(got string, want string) {
	s := fmt.Sprintf("FAILING-INPUT property=%s %s; expected %s", v.prop, got, want)
	s = strings.Replace(s, "\n", " ", -1)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	fmt.Printf("\n%s\n", s)
	os.Stdout.Sync()
	os.Exit(3)
}

// check fails with the current case's description unless ok
func (v *vfRun) check(ok bool, format string, args ...interface{}) {
	if ok {
		return
	}
	v.curMu.Lock()
	c := v.cur
	v.curMu.Unlock()
	d := ""
	if c != nil {
		d = c()
	}
	v.fail(d, fmt.Sprintf(format, args...))
}

func (v *vfRun) done(format string, args ...interface{}) {
	b, _ := json.Marshal(map[string]interface{}{"evaluations": v.cases, "distinct_nontrivial": len(v.seen), "samples": v.samples,
		"rule": "cases generated at random from VERIF_SEED and run on the real code: " + fmt.Sprintf(format, args...) + "; distinct by their full textual description"})
	fmt.Printf("\nSTATS %s\n", b)
}

// vfClose: equal up to rounding
func vfClose(a, b float64) bool { return vfCloseTol(a, b, 1e-8) }
func vfCloseTol(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}
func vfCloseAll(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vfCloseTol(a[i], b[i], tol) {
			return false
		}
	}
	return true
}
func vfSameF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}
func vfSameI(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vfSameB(a, b []bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vfCopyF(a []float64) []float64 { return append([]float64(nil), a...) }
func vfCopyI(a []int) []int         { return append([]int(nil), a...) }
func vfCopyB(a []bool) []bool       { return append([]bool(nil), a...) }

func vfDense(X mat.Matrix) [][]float64 {
	r, c := X.Dims()
	res := make([][]float64, r)
	for i := range res {
		res[i] = make([]float64, c)
		for j := range res[i] {
			res[i][j] = X.At(i, j)
		}
	}
	return res
}
func vfSameM(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vfSameF(a[i], b[i]) {
			return false
		}
	}
	return true
}
func vfCloseM(a, b [][]float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vfCloseAll(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

// float draws a value: small integers (ties), decimals, extremes
func (v *vfRun) float() float64 {
	switch v.rng.Intn(4) {
	case 0:
		return float64(v.rng.Intn(7) - 3)
	case 1:
		return float64(v.rng.Intn(2000)-1000) / 8
	case 2:
		return v.rng.NormFloat64()
	}
	return v.rng.NormFloat64() * math.Pow(10, float64(v.rng.Intn(7)-3))
}
func (v *vfRun) floats(n int) []float64 {
	r := make([]float64, n)
	k := v.rng.Intn(3)
	for i := range r {
		if k == 0 {
			r[i] = float64(v.rng.Intn(5) - 2)
		} else {
			r[i] = v.float()
		}
	}
	return r
}
func (v *vfRun) bools(n int) []bool {
	r := make([]bool, n)
	p := v.rng.Float64()
	for i := range r {
		r[i] = v.rng.Float64() < p
	}
	return r
}
func (v *vfRun) dense(r, c int) *mat.Dense {
	d := make([]float64, r*c)
	for i := range d {
		d[i] = v.float()
	}
	return mat.NewDense(r, c, d)
}

// gauss: a well conditioned random matrix
func (v *vfRun) gauss(r, c int) *mat.Dense {
	d := make([]float64, r*c)
	for i := range d {
		d[i] = v.rng.NormFloat64()
	}
	return mat.NewDense(r, c, d)
}

// vfAscending subset of 0..n-1
func (v *vfRun) subset(n int) []int {
	var r []int
	p := v.rng.Float64()
	for i := 0; i < n; i++ {
		if v.rng.Float64() < p {
			r = append(r, i)
		}
	}
	return r
}
func vfSel(m []bool) []int {
	var r []int
	for i, b := range m {
		if b {
			r = append(r, i)
		}
	}
	return r
}
func vfModel(s []int, n int) []bool {
	r := make([]bool, n)
	for _, j := range s {
		r[j] = true
	}
	return r
}

// vfSolve: least squares by modified Gram-Schmidt (full column rank), an independent reference
func vfLstsq(X [][]float64, y []float64) ([]float64, bool) {
	n := len(X)
	p := len(X[0])
	q := make([][]float64, p)
	R := make([][]float64, p)
	for j := 0; j < p; j++ {
		q[j] = make([]float64, n)
		R[j] = make([]float64, p)
		norm0 := 0.0
		for i := 0; i < n; i++ {
			q[j][i] = X[i][j]
			norm0 += X[i][j] * X[i][j]
		}
		for rep := 0; rep < 2; rep++ {
			for k := 0; k < j; k++ {
				d := 0.0
				for i := 0; i < n; i++ {
					d += q[k][i] * q[j][i]
				}
				R[k][j] += d
				for i := 0; i < n; i++ {
					q[j][i] -= d * q[k][i]
				}
			}
		}
		s := 0.0
		for i := 0; i < n; i++ {
			s += q[j][i] * q[j][i]
		}
		R[j][j] = math.Sqrt(s)
		if R[j][j] < 1e-4*math.Sqrt(norm0) || R[j][j] < 1e-4 {
			return nil, false
		}
		for i := 0; i < n; i++ {
			q[j][i] /= R[j][j]
		}
	}
	c := make([]float64, p)
	b := make([]float64, p)
	for j := 0; j < p; j++ {
		for i := 0; i < n; i++ {
			b[j] += q[j][i] * y[i]
		}
	}
	for j := p - 1; j >= 0; j-- {
		s := b[j]
		for k := j + 1; k < p; k++ {
			s -= R[j][k] * c[k]
		}
		c[j] = s / R[j][j]
	}
	return c, true
}
func vfCols(X [][]float64, sel []int) [][]float64 {
	r := make([][]float64, len(X))
	for i := range X {
		for _, j := range sel {
			r[i] = append(r[i], X[i][j])
		}
	}
	return r
}
func vfRss(X [][]float64, c []float64, y []float64) float64 {
	s := 0.0
	for i := range X {
		p := 0.0
		for j := range c {
			p += X[i][j] * c[j]
		}
		s += (p - y[i]) * (p - y[i])
	}
	return s
}
func vfAicc(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d
}
func vfNode(n *Node) string {
	if n == nil {
		return "nil"
	}
	return fmt.Sprintf("{Model:%v Coeff:%v Level:%d Lower:%v Upper:%v Score:%v WasFlipped:%v}", n.Model, n.Coeff, n.Level, n.Lower, n.Upper, n.Score, n.WasFlipped)
}
