package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC05(t *testing.T) {
	v := vfStart(t, "C05")
	for i := 0; v.more(i, 20000); i++ {
		n := v.rng.Intn(9)
		m := v.bools(n)
		s := v.rng.Intn(n + 1)
		v.run(func() string { return fmt.Sprintf("Gcs/Lcs(%v, %d)", m, s) }, func() {
			in := vfCopyB(m)
			g := Gcs(in, s)
			v.check(vfSameB(in, m), "unchanged input of Gcs")
			l := Lcs(in, s)
			v.check(vfSameB(in, m), "unchanged input of Lcs")
			wg, wl := make([]bool, n), make([]bool, n)
			for k := range m {
				wg[k] = k >= s || m[k]
				wl[k] = k < s && m[k]
			}
			v.check(vfSameB(g, wg), "largest completion %v, got %v", wg, g)
			v.check(vfSameB(l, wl), "smallest completion %v, got %v", wl, l)
			for k := range g {
				g[k] = !g[k]
				l[k] = !l[k]
			}
			v.check(vfSameB(in, m), "completions not sharing storage with the input")
		})
	}
	for i := 0; v.more(i, 600); i++ {
		nc := 1 + v.rng.Intn(6)
		nr := 2 + v.rng.Intn(10)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		sc := math.Pow(10, float64(v.rng.Intn(7)-3))
		for k := range y {
			y[k] = sc * v.rng.NormFloat64()
		}
		m := v.bools(nc)
		s := v.rng.Intn(nc + 1)
		if s == nc && len(vfSel(m)) == 0 {
			continue
		}
		v.run(func() string { return fmt.Sprintf("BoundsAIC/BoundsAICC(model=%v, start=%d, X=%v, y=%v)", m, s, vfDense(X), y) }, func() {
			Xc, yc, mc := vfDense(X), vfCopyF(y), vfCopyB(m)
			lo, up := BoundsAIC(m, s, X, y)
			lo2, up2 := BoundsAICC(m, s, X, y)
			v.check(vfSameM(Xc, vfDense(X)) && vfSameF(yc, y) && vfSameB(mc, m), "unchanged arguments")
			free := nc - s
			kg := 0
			for k := range m {
				if k >= s || m[k] {
					kg++
				}
			}
			for mask := 0; mask < 1<<uint(free); mask++ {
				c := vfCopyB(m)
				for k := 0; k < free; k++ {
					c[s+k] = mask>>uint(k)&1 == 1
				}
				sel := vfSel(c)
				if len(sel) == 0 || len(sel) >= nr {
					continue
				}
				D := vfCols(Xc, sel)
				co, ok := vfLstsq(D, yc)
				if !ok {
					continue
				}
				rss := vfRss(D, co, yc)
				if rss < 1e-9*sc*sc || rss < 1e-11 {
					continue
				}
				aic := 2*float64(len(sel)) + float64(nr)*math.Log(rss)
				v.check(lo <= aic+1e-6*(1+math.Abs(aic)), "AIC lower bound at most %v of completion %v, got %v", aic, sel, lo)
				v.check(up >= aic-1e-6*(1+math.Abs(aic)), "AIC upper bound at least %v of completion %v, got %v", aic, sel, up)
				if kg < nr-1 {
					a := vfAicc(len(sel), nr, rss)
					v.check(lo2 <= a+1e-6*(1+math.Abs(a)), "AICc lower bound at most %v of completion %v, got %v", a, sel, lo2)
					v.check(up2 >= a-1e-6*(1+math.Abs(a)), "AICc upper bound at least %v of completion %v, got %v", a, sel, up2)
				}
			}
			// the defining values
			var kl int
			sg, sl := []int{}, []int{}
			for k := range m {
				if k < s && m[k] {
					kl++
					sl = append(sl, k)
				}
				if k >= s || m[k] {
					sg = append(sg, k)
				}
			}
			rg, rl, ok := 1e-12, math.MaxFloat64, true
			if kg < nr {
				c, o := vfLstsq(vfCols(Xc, sg), yc)
				if o {
					rg = vfRss(vfCols(Xc, sg), c, yc)
				}
				ok = ok && o && rg > 1e-9*sc*sc
			}
			if kl > 0 {
				if kl >= nr {
					ok = false
				} else {
					c, o := vfLstsq(vfCols(Xc, sl), yc)
					if o {
						rl = vfRss(vfCols(Xc, sl), c, yc)
					}
					ok = ok && o && rl > 1e-9*sc*sc
				}
			}
			if ok {
				f := func(k int, r float64) float64 { return 2*float64(k) + float64(nr)*math.Log(r) }
				v.check(vfCloseTol(lo, f(kl, rg), 1e-5) && vfCloseTol(up, f(kg, rl), 1e-5), "AIC bounds %v, %v, got %v, %v", f(kl, rg), f(kg, rl), lo, up)
				v.check(vfCloseTol(lo2, vfAicc(kl, nr, rg), 1e-5) && vfCloseTol(up2, vfAicc(kg, nr, rl), 1e-5), "AICc bounds %v, %v, got %v, %v", vfAicc(kl, nr, rg), vfAicc(kg, nr, rl), lo2, up2)
			}
		})
	}
	v.done("completions of up to 8 features; bounds against every completion for up to 6 features and 11 data points")
}
