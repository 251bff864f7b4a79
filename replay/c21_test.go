package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC21(t *testing.T) {
	v := vfStart(t, "C21")
	for i := 0; v.more(i, 30000); i++ {
		nr, nc := 1+v.rng.Intn(6), 1+v.rng.Intn(5)
		X := v.dense(nr, nc)
		if v.rng.Intn(2) == 0 {
			for a := 0; a < nr; a++ {
				for b := 0; b < nc; b++ {
					X.Set(a, b, float64(v.rng.Intn(5)-2))
				}
			}
		}
		src := vfDense(X)
		th := math.Abs(v.float())
		if v.rng.Intn(3) == 0 {
			th = math.Abs(src[v.rng.Intn(nr)][v.rng.Intn(nc)])
		}
		num := v.rng.Intn(nr + 1)
		v.run(func() string { return fmt.Sprintf("threshold %v, split of size %d and covariances of %v", th, num, src) }, func() {
			op := ThresholdOperator{threshold: th, numRemoved: 5}
			Y := mat.DenseCopyOf(X)
			op.Apply(Y)
			cnt := 0
			for a := range src {
				for b, x := range src[a] {
					w := x
					if math.Abs(x) < th {
						w = 0
						cnt++
					}
					v.check(Y.At(a, b) == w, "thresholded entry %d,%d %v, got %v", a, b, w, Y.At(a, b))
				}
			}
			v.check(op.numRemoved == cnt && op.threshold == th, "%d removed, got %d", cnt, op.numRemoved)
			if num > 0 && num < nr {
				A, B := RandomRowSplit(X, num)
				ra, ca := A.Dims()
				rb, cb := B.Dims()
				v.check(ra == num && rb == nr-num && ca == nc && cb == nc, "parts of %d and %d rows, got %d and %d", num, nr-num, ra, rb)
				rows := append(vfDense(A), vfDense(B)...)
				used := make([]bool, nr)
				for _, r := range rows {
					f := false
					for k := range src {
						if !used[k] && vfSameF(src[k], r) {
							used[k] = true
							f = true
							break
						}
					}
					v.check(f, "every row intact in exactly one part, got parts %v and %v", vfDense(A), vfDense(B))
				}
			}
			ident := (&Identity{}).Get(X)
			emp := (&Empirical{}).Get(X)
			cov := CovarianceMatrix(X)
			for _, M := range []mat.Matrix{ident, emp, cov} {
				r, c := M.Dims()
				v.check(r == nc && c == nc, "matrices of %d by %d", nc, nc)
			}
			for a := 0; a < nc; a++ {
				for b := 0; b < nc; b++ {
					s, ma, mb, sc := 0.0, 0.0, 0.0, 1.0
					for k := 0; k < nr; k++ {
						s += src[k][a] * src[k][b] / float64(nr)
						ma += src[k][a] / float64(nr)
						mb += src[k][b] / float64(nr)
					}
					for k := 0; k < nr; k++ {
						for q := 0; q < nr; q++ {
							sc += math.Abs(src[k][a] * src[q][b])
						}
					}
					id := 0.0
					if a == b {
						id = 1
					}
					v.check(ident.At(a, b) == id, "identity entry %d,%d %v, got %v", a, b, id, ident.At(a, b))
					v.check(math.Abs(emp.At(a, b)-s) <= 1e-11*sc, "empirical entry %d,%d %v, got %v", a, b, s, emp.At(a, b))
					v.check(math.Abs(cov.At(a, b)-(s-ma*mb)) <= 1e-11*sc, "covariance entry %d,%d %v, got %v", a, b, s-ma*mb, cov.At(a, b))
				}
			}
			v.check(vfSameM(vfDense(X), src), "unchanged source")
		})
	}
	v.done("matrices of up to 6 by 5, thresholds equal to entries, all split sizes but 0 and all (rejected by the matrix library)")
}
