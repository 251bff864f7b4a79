package featselect

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
)

func TestVFC24(t *testing.T) {
	v := vfStart(t, "C24")
	for i := 0; v.more(i, 60); i++ {
		nc := 1 + v.rng.Intn(5)
		nr := 3 + v.rng.Intn(14)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		for r := range y {
			y[r] = v.rng.NormFloat64()
			for c := 0; c < nc; c++ {
				if i>>uint(c)&1 == 0 {
					y[r] += 2 * X.At(r, c)
				}
			}
		}
		ys := math.Pow(10, float64(v.rng.Intn(13)-6))
		for r := range y {
			y[r] *= ys
		}
		sweeps := 1 + v.rng.Intn(2)
		which := v.rng.Intn(3)
		cost := []crit{Aicc, Aic, Bic}[which]
		seed := v.rng.Int63()
		Xc, yc := vfDense(X), vfCopyF(y)
		v.run(func() string {
			return fmt.Sprintf("SelectModelSA(X=%v, y=%v, sweeps %d, cost %d) with seed %d", Xc, yc, sweeps, which, seed)
		}, func() {
			rand.Seed(seed)
			res := SelectModelSA(X, y, sweeps, cost)
			v.check(vfSameM(vfDense(X), Xc) && vfSameF(y, yc), "unchanged data")
			own := func(sel []int, coeff []float64, what string) float64 {
				v.check(len(sel) > 0 && len(coeff) == len(sel), "%s non-empty with one coefficient per feature, got %v %v", what, sel, coeff)
				for k, j := range sel {
					v.check(j >= 0 && j < nc && (k == 0 || sel[k-1] < j), "%s strictly ascending and in range, got %v", what, sel)
				}
				v.check(2*len(sel) < nr, "%s with fewer features than half of the %d data points, got %v", what, nr, sel)
				D := vfCols(Xc, sel)
				c, ok := vfLstsq(D, yc)
				if !ok {
					return math.NaN()
				}
				v.check(vfCloseAll(coeff, c, 1e-5), "%s %v with its own coefficients %v, got %v", what, sel, c, coeff)
				return cost(len(sel), nr, math.Max(vfRss(D, c, yc), 1e-12))
			}
			final := own(res.Selected, res.Coeff, "returned selection")
			v.check(len(res.Scores.Items) > 0 && len(res.Scores.Items) <= 10, "a score list of at most 10 models")
			best := math.Inf(-1)
			for a, it := range res.Scores.Items {
				w := own(it.Selection, it.Coeff, "listed selection")
				if !math.IsNaN(w) {
					v.check(vfCloseTol(it.Score, -w, 1e-6), "listed selection %v with score %v, got %v", it.Selection, -w, it.Score)
				}
				best = math.Max(best, it.Score)
				for b := 0; b < a; b++ {
					v.check(!vfSameI(res.Scores.Items[b].Selection, it.Selection), "different listed selections")
				}
			}
			if !math.IsNaN(final) {
				v.check(best >= -final-1e-6*(1+math.Abs(final)), "best listed score at least %v, got %v", -final, best)
			}
			b := res.Scores.BestItem
			w := own(b.Selection, b.Coeff, "best selection")
			v.check(b.Score == best && (math.IsNaN(w) || vfCloseTol(b.Score, -w, 1e-6)), "best item with score %v, got %v", best, b.Score)
		})
	}
	v.done("targets of scales 1e-6 to 1e6, 1 to 5 features, 3 to 16 data points, 1 or 2 sweeps, three criteria")
}
