package featselect

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"gonum.org/v1/gonum/mat"
)

type vfCohen struct {
	v     *vfRun
	X     mat.Matrix
	calls [][]int
	sels  [][]int
	next  func() []int
}

func (c *vfCohen) GetX() mat.Matrix { return c.X }
func (c *vfCohen) GetSelection(ind []int) []int {
	c.calls = append(c.calls, vfCopyI(ind))
	s := c.next()
	c.sels = append(c.sels, vfCopyI(s))
	return s
}
func (c *vfCohen) HyperParameters() map[string]float64 { return map[string]float64{} }
func (c *vfCohen) StringRep() string                   { return "vf" }

func vfKappa(a, b []int, n int) float64 {
	if len(a) == 0 && len(b) == 0 || len(a) == n && len(b) == n {
		return 1
	}
	A, B := vfModel(a, n), vfModel(b, n)
	ag := 0
	for k := 0; k < n; k++ {
		if A[k] == B[k] {
			ag++
		}
	}
	N := float64(n)
	pa := float64(ag) / N
	pe := float64(len(a))/N*float64(len(b))/N + (N-float64(len(a)))/N*(N-float64(len(b)))/N
	return (pa - pe) / (1 - pe)
}

func TestVFC20(t *testing.T) {
	v := vfStart(t, "C20")
	for i := 0; v.more(i, 60000); i++ {
		n := 1 + v.rng.Intn(9)
		sh := func(s []int) []int {
			r := make([]int, len(s))
			for k, p := range v.rng.Perm(len(s)) {
				r[k] = s[p]
			}
			return r
		}
		a := sh(v.subset(n))
		b := sh(v.subset(n))
		switch v.rng.Intn(4) {
		case 0:
			b = sh(a)
		case 1:
			b = sh(vfSel(func() []bool {
				m := vfModel(a, n)
				for k := range m {
					m[k] = !m[k]
				}
				return m
			}()))
		}
		v.run(func() string { return fmt.Sprintf("CohenKappa(%v, %v, %d)", a, b, n) }, func() {
			ac, bc := vfCopyI(a), vfCopyI(b)
			k := CohenKappa(ac, bc, n)
			w := vfKappa(a, b, n)
			v.check(vfCloseTol(k, w, 1e-9), "%v, got %v", w, k)
			v.check(k <= 1+1e-9, "at most 1, got %v", k)
			v.check(vfCloseTol(CohenKappa(bc, ac, n), k, 1e-9), "symmetry: %v, got %v", k, CohenKappa(bc, ac, n))
			v.check(vfCloseTol(CohenKappa(ac, ac, n), 1, 1e-9), "1 for identical selections, got %v", CohenKappa(ac, ac, n))
			v.check(vfSameI(ac, a) && vfSameI(bc, b), "unchanged selections")
		})
	}
	for i := 0; v.more(i, 6000); i++ {
		nr, nc := 2+v.rng.Intn(9), 1+v.rng.Intn(6)
		ns := 1 + v.rng.Intn(6)
		var pool [][]int
		for k := 0; k < 2*ns; k++ {
			pool = append(pool, v.subset(nc))
		}
		c := &vfCohen{v: v, X: mat.NewDense(nr, nc, nil)}
		c.next = func() []int { return vfCopyI(pool[len(c.sels)%len(pool)]) }
		v.run(func() string {
			return fmt.Sprintf("GetCohensKappa(%d, target with %d data points, %d features and selections %v)", ns, nr, nc, pool)
		}, func() {
			k := GetCohensKappa(ns, c)
			v.check(len(c.calls) == 2*ns, "%d selections, got %d", 2*ns, len(c.calls))
			w := 0.0
			for s := 0; s < ns; s++ {
				x, y := c.calls[2*s], c.calls[2*s+1]
				v.check(len(x) == nr/2 || len(y) == nr/2, "two halves, got %v and %v", x, y)
				all := append(vfCopyI(x), y...)
				sort.Ints(all)
				ok := len(all) == nr
				for q := 0; ok && q < nr; q++ {
					ok = all[q] == q
				}
				v.check(ok, "disjoint halves that contain each data point once, got %v and %v", x, y)
				w += vfKappa(c.sels[2*s], c.sels[2*s+1], nc) / float64(ns)
			}
			v.check(math.Abs(k-w) <= 1e-9*(1+math.Abs(w)), "mean kappa %v, got %v", w, k)
		})
	}
	v.done("up to 9 features, all kinds of pairs; stability estimates with up to 6 samples of up to 10 data points")
}
