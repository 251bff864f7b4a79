package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC27(t *testing.T) {
	v := vfStart(t, "C27")
	for i := 0; v.more(i, 40000); i++ {
		nr, nc := 1+v.rng.Intn(6), 1+v.rng.Intn(6)
		X := v.dense(nr, nc)
		c, y := v.floats(nc), v.floats(nr)
		src := vfDense(X)
		H := v.dense(nr, nr)
		pred := v.floats(nr)
		for k := 0; k < nr; k++ {
			H.Set(k, k, v.rng.Float64()*0.9)
			for q := 0; q < k; q++ {
				H.Set(q, k, 7)
			}
		}
		hs := vfDense(H)
		v.run(func() string { return fmt.Sprintf("PredictOne/Predict/Rss(%v, %v, %v), Gcv(%v, %v, %v)", src, c, y, hs, y, pred) }, func() {
			cc, yc, pc := vfCopyF(c), vfCopyF(y), vfCopyF(pred)
			want := make([]float64, nr)
			scale := 1.0
			rss := 0.0
			for r := range want {
				for k := range c {
					want[r] += src[r][k] * c[k]
					scale += math.Abs(src[r][k] * c[k])
				}
				rss += (want[r] - y[r]) * (want[r] - y[r])
				scale += math.Abs(y[r])
			}
			p := Predict(X, cc)
			v.check(len(p) == nr, "%d predictions", nr)
			for r := range want {
				v.check(math.Abs(p[r]-want[r]) <= 1e-11*scale, "prediction %v of row %d, got %v", want[r], r, p[r])
				row := vfCopyF(src[r])
				o := PredictOne(row, cc)
				v.check(math.Abs(o-want[r]) <= 1e-11*scale && vfSameF(row, src[r]), "single prediction %v of row %d, got %v", want[r], r, o)
			}
			g := Rss(X, cc, yc)
			v.check(math.Abs(g-rss) <= 1e-10*scale*scale, "residual sum of squares %v, got %v", rss, g)
			v.check(v.panics(func() { Rss(X, cc, append(vfCopyF(y), 1)) }), "a panic for too many targets")
			v.check(v.panics(func() { Predict(X, append(vfCopyF(c), 1)) }), "a panic for too many coefficients")
			if nc > 1 {
				v.check(v.panics(func() { Predict(X, c[1:]) }), "a panic for too few coefficients")
				v.check(v.panics(func() { PredictOne(src[0], c[1:]) }), "a panic for too few coefficients")
			}
			if nr > 1 {
				v.check(v.panics(func() { Rss(X, cc, y[1:]) }), "a panic for too few targets")
			}
			s := 0.0
			for k := range y {
				s += (y[k] - pred[k]) * (y[k] - pred[k]) / (1 - hs[k][k])
			}
			w := math.Sqrt(s / float64(nr))
			v.check(vfCloseTol(Gcv(H, yc, pc), w, 1e-9), "generalised cross validation %v, got %v", w, Gcv(H, yc, pc))
			v.check(vfSameM(vfDense(X), src) && vfSameM(vfDense(H), hs) && vfSameF(cc, c) && vfSameF(yc, y) && vfSameF(pc, pred), "unchanged inputs")
		})
	}
	v.done("up to 6 by 6")
}
