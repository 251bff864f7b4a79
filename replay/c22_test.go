package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC22(t *testing.T) {
	v := vfStart(t, "C22")
	bic := func(k, n int, r float64) float64 { return float64(k)*math.Log(float64(n)) + float64(n)*math.Log(r) }
	aic := func(k, n int, r float64) float64 { return 2*float64(k) + float64(n)*math.Log(r) }
	for i := 0; v.more(i, 60000); i++ {
		k, n, r := v.rng.Intn(12), 1+v.rng.Intn(14), math.Exp(v.rng.NormFloat64()*8)
		v.run(func() string { return fmt.Sprintf("Aic/Aicc/Bic(%d, %d, %v)", k, n, r) }, func() {
			v.check(vfCloseTol(Aic(k, n, r), aic(k, n, r), 1e-10), "AIC %v, got %v", aic(k, n, r), Aic(k, n, r))
			v.check(vfCloseTol(Aicc(k, n, r), vfAicc(k, n, r), 1e-10), "AICc %v, got %v", vfAicc(k, n, r), Aicc(k, n, r))
			v.check(vfCloseTol(Bic(k, n, r), bic(k, n, r), 1e-10), "BIC %v, got %v", bic(k, n, r), Bic(k, n, r))
		})
	}
	for i := 0; v.more(i, 10000); i++ {
		nr, nc := 1+v.rng.Intn(7), 1+v.rng.Intn(6)
		X := v.gauss(nr, nc)
		y := v.floats(nr)
		var nodes, ref []*LassoLarsNode
		for k := v.rng.Intn(5); k > 0; k-- {
			s := v.subset(nc)
			if len(s) == 0 {
				s = []int{v.rng.Intn(nc)}
			}
			c := v.floats(len(s))
			nodes = append(nodes, &LassoLarsNode{Coeff: vfCopyF(c), Lamb: float64(k), Selection: vfCopyI(s)})
			ref = append(ref, &LassoLarsNode{Coeff: c, Lamb: float64(k), Selection: s})
		}
		Xc, yc := vfDense(X), vfCopyF(y)
		which := v.rng.Intn(4)
		f := []crit{Aic, Aicc, Bic, func(k, n int, r float64) float64 { return float64(k)*1e6 + float64(n)*1e3 + r }}[which]
		g := []func(int, int, float64) float64{aic, vfAicc, bic, func(k, n int, r float64) float64 { return float64(k)*1e6 + float64(n)*1e3 + r }}[which]
		v.run(func() string {
			s := fmt.Sprintf("GetCriteria(criterion %d) of X=%v, y=%v, path", which, Xc, yc)
			for _, r := range ref {
				s += fmt.Sprint(" ", *r)
			}
			return s
		}, func() {
			d := &Dataset{X: X, Y: y, Names: make([]string, nc+1), TargetCol: nc}
			p := &LassoLarsPath{Dset: d, LassoLarsNodes: nodes}
			got := p.GetCriteria(f)
			v.check(len(got) == len(ref), "%d values, got %d", len(ref), len(got))
			for k, r := range ref {
				rss := vfRss(vfCols(Xc, r.Selection), r.Coeff, yc)
				w := g(len(r.Selection), nr, rss)
				if rss < 1e-6 {
					continue
				}
				v.check(vfCloseTol(got[k], w, 1e-7), "entry %d %v, got %v", k, w, got[k])
				v.check(vfSameI(nodes[k].Selection, r.Selection) && vfSameF(nodes[k].Coeff, r.Coeff) && nodes[k].Lamb == r.Lamb, "unchanged path")
			}
			v.check(p.Dset == d && d.X == X && vfSameM(vfDense(X), Xc) && vfSameF(y, yc) && vfSameF(d.Y, yc), "unchanged data")
		})
	}
	v.done("up to 11 features and 14 data points; paths of up to 4 entries over up to 6 features, four criteria")
}
