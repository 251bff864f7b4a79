package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC25(t *testing.T) {
	v := vfStart(t, "C25")
	for i := 0; v.more(i, 40000); i++ {
		n := 1 + v.rng.Intn(7)
		a := make([]float64, n)
		off := []float64{0, 100, -500, 1e4, -1e4}[v.rng.Intn(5)]
		for k := range a {
			a[k] = off + float64(v.rng.Intn(400))/16
		}
		sh := float64(v.rng.Intn(2000) - 1000)
		v.run(func() string { return fmt.Sprintf("WeightsFromAIC(%v), also shifted by %v", a, sh) }, func() {
			in := vfCopyF(a)
			w := WeightsFromAIC(in)
			v.check(vfSameF(in, a), "unchanged criteria, got %v", in)
			v.check(len(w) == n, "%d weights", n)
			s := 0.0
			for k := range w {
				v.check(w[k] > 0, "positive weights, got %v", w)
				s += w[k]
				for q := range w {
					if a[q] < a[k] {
						v.check(w[q] > w[k], "larger weights for smaller criteria, got %v", w)
					}
					if a[q] == a[k] {
						v.check(vfCloseTol(w[q], w[k], 1e-12), "equal weights for equal criteria, got %v", w)
					}
				}
			}
			v.check(math.Abs(s-1) <= 1e-9, "weights summing to 1, got %v", w)
			mn := math.Inf(1)
			for _, x := range a {
				mn = math.Min(mn, x)
			}
			z := 0.0
			for _, x := range a {
				z += math.Exp(mn - x)
			}
			for k := range a {
				v.check(vfCloseTol(w[k], math.Exp(mn-a[k])/z, 1e-9), "weight %d %v, got %v", k, math.Exp(mn-a[k])/z, w[k])
			}
			for k := range in {
				in[k] += sh
			}
			u := WeightsFromAIC(in)
			v.check(vfCloseAll(u, w, 1e-9), "weights that depend on differences only: %v, got %v", w, u)
		})
		nf := 1 + v.rng.Intn(6)
		var sp []SparseCoeff
		var ws []float64
		want := make([]float64, nf)
		scale := 1.0
		for k := v.rng.Intn(5); k > 0; k-- {
			s := v.subset(nf)
			if v.rng.Intn(2) == 0 {
				for x, y := 0, len(s)-1; x < y; x, y = x+1, y-1 {
					s[x], s[y] = s[y], s[x]
				}
			}
			c := v.floats(len(s))
			w := v.rng.Float64()
			for q, j := range s {
				want[j] += w * c[q]
				scale += math.Abs(c[q])
			}
			sp = append(sp, SparseCoeff{Coeff: c, Selection: s})
			ws = append(ws, w)
		}
		v.run(func() string { return fmt.Sprintf("WeightedAveragedCoeff(%d, %v, %v)", nf, ws, sp) }, func() {
			wc := vfCopyF(ws)
			var spc []SparseCoeff
			for _, s := range sp {
				spc = append(spc, SparseCoeff{Coeff: vfCopyF(s.Coeff), Selection: vfCopyI(s.Selection)})
			}
			got := WeightedAveragedCoeff(nf, wc, spc)
			v.check(len(got) == nf, "%d values", nf)
			for k := range want {
				v.check(math.Abs(got[k]-want[k]) <= 1e-10*scale, "average %v, got %v", want, got)
			}
			v.check(vfSameF(wc, ws), "unchanged weights")
			for k, s := range sp {
				v.check(vfSameF(spc[k].Coeff, s.Coeff) && vfSameI(spc[k].Selection, s.Selection), "unchanged models")
			}
			v.check(v.panics(func() { WeightedAveragedCoeff(nf, append(vfCopyF(ws), 1), spc) }), "a panic for mismatched lengths")
			if len(ws) > 0 {
				v.check(v.panics(func() { WeightedAveragedCoeff(nf, ws[1:], spc) }), "a panic for mismatched lengths")
			}
		})
	}
	v.done("up to 7 criteria within a range of 25, up to 4 models over up to 6 features")
}
