package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC07(t *testing.T) {
	v := vfStart(t, "C07")
	for i := 0; v.more(i, 400); i++ {
		nc := 3 + v.rng.Intn(4)
		nr := 3 + v.rng.Intn(12)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		for k := range y {
			y[k] = v.rng.NormFloat64() * 0.3
			for j := 0; j < nc; j++ {
				if i>>uint(j)&1 == 1 {
					y[k] += X.At(k, j) * float64(j+1)
				}
			}
		}
		Xc, yc := vfDense(X), vfCopyF(y)
		best := math.Inf(1)
		var bestSel []int
		regular := true
		for mask := 1; mask < 1<<uint(nc); mask++ {
			var sel []int
			for j := 0; j < nc; j++ {
				if mask>>uint(j)&1 == 1 {
					sel = append(sel, j)
				}
			}
			if len(sel) >= nr {
				continue
			}
			D := vfCols(Xc, sel)
			c, ok := vfLstsq(D, yc)
			if !ok {
				regular = false
				continue
			}
			r := vfRss(D, c, yc)
			if r < 1e-8 {
				regular = false
			}
			if a := vfAicc(len(sel), nr, r); a < best {
				best, bestSel = a, sel
			}
		}
		if !regular {
			continue
		}
		var root []bool
		switch v.rng.Intn(4) {
		case 0:
			root = make([]bool, nc)
		case 1:
			root = v.bools(nc)
		case 2:
			root = vfModel(bestSel, nc)
		}
		if nr <= nc {
			root = nil
		}
		size := []int{1, 2, 5, 10, 200}[v.rng.Intn(5)]
		v.runP(func() string { return fmt.Sprintf("SelectModel(X=%v, y=%v) with root %v and a list of %d", Xc, yc, root, size) }, true, func() {
			h := NewHighscore(size)
			var sp SearchProgress
			p := NewSelectModelOptParams()
			p.RootModel = vfCopyB(root)
			if root == nil {
				p.RootModel = nil
			}
			if root == nil && v.rng.Intn(2) == 0 {
				p = nil
			}
			SelectModel(X, y, h, &sp, p)
			v.check(vfSameM(Xc, vfDense(X)) && vfSameF(yc, y), "unchanged data")
			v.check(h.Len() > 0, "a non-empty highscore list")
			v.check(vfCloseTol(h.BestScore(), -best, 1e-6), "best score %v of selection %v, got %v", -best, bestSel, h.BestScore())
			seen := map[string]bool{}
			for e := h.Items.Front(); e != nil; e = e.Next() {
				nd := e.Value.(*Node)
				sel := vfSel(nd.Model)
				key := fmt.Sprint(sel)
				v.check(!seen[key], "no selection listed twice, %v is", sel)
				seen[key] = true
				if len(sel) == 0 {
					v.check(nd.Score == -math.MaxFloat64, "the empty selection as worst, got %v", nd.Score)
					continue
				}
				if len(sel) >= nr {
					v.check(false, "only non-empty selections with fewer features than data points, got %v", sel)
				}
				D := vfCols(Xc, sel)
				c, _ := vfLstsq(D, yc)
				v.check(vfCloseAll(nd.Coeff, c, 1e-5), "coefficients %v of %v, got %v", c, sel, nd.Coeff)
				v.check(vfCloseTol(nd.Score, -vfAicc(len(sel), nr, vfRss(D, c, yc)), 1e-5), "score %v of %v, got %v", -vfAicc(len(sel), nr, vfRss(D, c, yc)), sel, nd.Score)
			}
		})
	}
	v.done("3 to 6 features, 3 to 14 data points, list sizes 1 to 200, empty, random and optimal root selections (given roots only with more data points than features)")
}
