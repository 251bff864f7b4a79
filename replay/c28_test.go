package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC28(t *testing.T) {
	v := vfStart(t, "C28")
	for i := 0; v.more(i, 6000); i++ {
		nc := 1 + v.rng.Intn(7)
		nr := nc + 1 + v.rng.Intn(12)
		X := v.gauss(nr, nc)
		if i%40 == 0 {
			nr = nc + 100 + v.rng.Intn(500)
			X = v.gauss(nr, nc)
		}
		kind := v.rng.Intn(5)
		small := 2e-5 * (1 + 4*v.rng.Float64())
		for r := 0; r < nr; r++ {
			for c := 0; c < nc; c++ {
				switch kind {
				case 1: // different scales
					X.Set(r, c, X.At(r, c)*math.Pow(10, float64(c%5-2)))
				case 2: // correlated columns
					if c > 0 {
						X.Set(r, c, X.At(r, c)*0.01+X.At(r, 0))
					}
				case 4: // one column of small scale, its singular value stays above the cutoff of the fit
					if c == 0 {
						X.Set(r, c, X.At(r, c)*small)
					}
				case 3: // powers
					X.Set(r, c, math.Pow(float64(r+1)/float64(nr), float64(c)))
				}
			}
		}
		ys := math.Pow(10, float64(v.rng.Intn(7)-3))
		y := make([]float64, nr)
		for r := range y {
			y[r] = ys * v.rng.NormFloat64()
		}
		if kind == 3 && nc > 4 {
			continue // too close to rank deficient
		}
		src, yc := vfDense(X), vfCopyF(y)
		v.run(func() string { return fmt.Sprintf("Fit(%v, %v)", src, yc) }, func() {
			var A mat.Matrix = X
			if v.rng.Intn(3) == 0 {
				A = mat.DenseCopyOf(X.T()).T()
			}
			c := Fit(A, y)
			v.check(len(c) == nc, "%d coefficients", nc)
			v.check(vfSameM(vfDense(X), src) && vfSameF(y, yc), "unchanged data")
			for j := 0; j < nc; j++ {
				g, s := 0.0, 0.0
				for r := range yc {
					p := yc[r]
					q := math.Abs(yc[r])
					for k := range c {
						p -= src[r][k] * c[k]
						q += math.Abs(src[r][k] * c[k])
					}
					g += src[r][j] * p
					s += math.Abs(src[r][j]) * q
				}
				v.check(math.Abs(g) <= 1e-8*s, "a residual orthogonal to column %d, product %v (coefficients %v)", j, g, c)
			}
			v.check(v.panics(func() { Fit(X, append(vfCopyF(y), 1)) }), "a panic for too many targets")
			v.check(v.panics(func() { Fit(X, y[1:]) }), "a panic for too few targets")
		})
	}
	v.done("1 to 7 columns, up to 12 more rows than columns, sometimes hundreds of rows, scales from 2e-5 to 1e2, correlated and polynomial columns")
}
