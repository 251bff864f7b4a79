package featselect

import (
	"fmt"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC04(t *testing.T) {
	v := vfStart(t, "C04")
	for i := 0; v.more(i, 20000); i++ {
		n := v.rng.Intn(8)
		m := v.bools(n)
		flip := v.rng.Intn(2) == 0 && n > 0
		lev := 0
		if n > 0 {
			lev = v.rng.Intn(n)
		}
		v.run(func() string { return fmt.Sprintf("GetChildNode(%v) of a node with model %v at level %d", flip, m, lev) }, func() {
			src := vfCopyB(m)
			p := NewNode(lev, src)
			v.check(p.Level == lev && vfSameB(p.Model, m) && len(p.Coeff) == len(vfSel(m)) && !p.WasFlipped, "a node with that model")
			p.Score, p.Lower, p.Upper = 3, 1, 2
			c := p.GetChildNode(flip)
			want := vfCopyB(m)
			if flip {
				want[lev] = !want[lev]
			}
			v.check(c != nil && c.Level == lev+1, "child one level deeper")
			v.check(vfSameB(c.Model, want), "child model %v, got %v", want, c.Model)
			v.check(c.WasFlipped == flip, "WasFlipped %v", flip)
			v.check(vfSameB(p.Model, m) && p.Level == lev && p.Score == 3 && p.Lower == 1 && p.Upper == 2 && vfSameB(src, m), "unchanged parent")
			for k := range c.Model {
				c.Model[k] = !c.Model[k]
			}
			v.check(vfSameB(p.Model, m), "parent not sharing storage with the child")
			for k := range p.Model {
				p.Model[k] = !p.Model[k]
			}
			v.check(vfSameB(src, m), "node not sharing storage with the given model")
		})
	}
	for i := 0; v.more(i, 120); i++ {
		nc := 1 + v.rng.Intn(6)
		nr := nc + 2 + v.rng.Intn(6)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		for k := range y {
			y[k] = v.rng.NormFloat64()
		}
		v.run(func() string { return fmt.Sprintf("BruteForceSelect(X=%v, y=%v)", vfDense(X), y) }, func() {
			Xc, yc := vfDense(X), vfCopyF(y)
			h := BruteForceSelect(X, y)
			v.check(vfSameM(Xc, vfDense(X)) && vfSameF(yc, y), "unchanged data")
			seen := map[string]bool{}
			prev := 0.0
			k := 0
			for e := h.Items.Front(); e != nil; e = e.Next() {
				nd := e.Value.(*Node)
				sel := vfSel(nd.Model)
				v.check(len(nd.Model) == nc && len(sel) > 0, "non-empty selections of %d features", nc)
				key := fmt.Sprint(sel)
				v.check(!seen[key], "each subset once, %v repeated", sel)
				seen[key] = true
				v.check(k == 0 || prev >= nd.Score, "best to worst order")
				prev = nd.Score
				k++
				D := vfCols(Xc, sel)
				c, ok := vfLstsq(D, yc)
				if ok {
					v.check(vfCloseAll(nd.Coeff, c, 1e-5), "coefficients %v for %v, got %v", c, sel, nd.Coeff)
					want := -vfAicc(len(sel), nr, vfRss(D, c, yc))
					v.check(vfCloseTol(nd.Score, want, 1e-5), "score %v for %v, got %v", want, sel, nd.Score)
				}
			}
			v.check(k == 1<<uint(nc)-1, "%d subsets, got %d", 1<<uint(nc)-1, k)
		})
	}
	_ = mat.NewDense
	v.done("child nodes of models of up to 7 features; exhaustive search on 1 to 6 features and 3 to 13 data points")
}
