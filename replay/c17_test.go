package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC17(t *testing.T) {
	v := vfStart(t, "C17")
	for i := 0; v.more(i, 20000); i++ {
		n := 1 + v.rng.Intn(9)
		a := v.floats(n)
		nf := v.rng.Intn(6)
		v.run(func() string { return fmt.Sprintf("Argmax(%v), NewOmpResult(%d)", a, nf) }, func() {
			in := vfCopyF(a)
			k := Argmax(in)
			w := 0
			for j := range a {
				if a[j] > a[w] {
					w = j
				}
			}
			v.check(k == w && vfSameF(in, a), "index %d, got %d", w, k)
			r := NewOmpResult(nf)
			v.check(len(r.Order) == nf && len(r.Coeff) == nf, "lengths %d", nf)
			for j := 0; j < nf; j++ {
				v.check(r.Order[j] == -1 && r.Coeff[j] == 0, "an empty result, got %v %v", r.Order, r.Coeff)
			}
		})
	}
	for i := 0; v.more(i, 3000); i++ {
		nc := 1 + v.rng.Intn(6)
		if i%40 == 0 {
			nc = 10 + v.rng.Intn(8)
		}
		nr := 2 + v.rng.Intn(12)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		exact := v.rng.Intn(3) == 0
		colScale := make([]float64, nc)
		wide := v.rng.Intn(2) == 0
		for c := range colScale {
			colScale[c] = float64(1 + c*c)
			if wide { // the smallest singular value stays far above the cutoff of the fit
				colScale[c] = math.Pow(10, float64(v.rng.Intn(7)-3))
			}
		}
		for r := range y {
			for c := 0; c < nc; c++ {
				X.Set(r, c, X.At(r, c)*colScale[c])
				if (i>>uint(c))&1 == 1 {
					y[r] += X.At(r, c) / colScale[c] * float64(c+1)
				}
			}
			if !exact {
				y[r] += v.rng.NormFloat64()
			}
		}
		s := 0.0
		for _, x := range y {
			s += x * x
		}
		if s < 1e-9 {
			continue
		}
		tol := []float64{1e-8, 0.3, 1, 3, 100}[v.rng.Intn(5)]
		Xc, yc := vfDense(X), vfCopyF(y)
		v.run(func() string { return fmt.Sprintf("Omp(X=%v, y=%v, tol=%v)", Xc, yc, tol) }, func() {
			res := Omp(X, y, tol)
			v.check(vfSameM(vfDense(X), Xc) && vfSameF(y, yc), "unchanged data")
			v.check(len(res.Coeff) == nc && len(res.Order) >= 1 && len(res.Order) <= nc, "1 to %d entries, got order %v", nc, res.Order)
			seen := make([]bool, nc)
			for _, j := range res.Order {
				v.check(j >= 0 && j < nc && !seen[j], "distinct valid features, got %v", res.Order)
				seen[j] = true
			}
			// follow the order
			resid := vfCopyF(yc)
			var sel []int
			reg := true
			stopped := false
			for k, j := range res.Order {
				rn := 0.0
				for _, x := range resid {
					rn += x * x
				}
				if math.Sqrt(rn) < 1e-7*math.Sqrt(s) {
					reg = false
					break
				}
				v.check(!stopped, "a stop after entry %d, the residual is below %v; order %v", k-1, tol, res.Order)
				best, mine := 0.0, 0.0
				for c := 0; c < nc; c++ {
					p, q := 0.0, 0.0
					for r := range resid {
						p += Xc[r][c] * resid[r]
						q += Xc[r][c] * Xc[r][c]
					}
					p = math.Abs(p) / math.Sqrt(q*rn)
					best = math.Max(best, p)
					if c == j {
						mine = p
					}
				}
				if rn > 1e-10*s {
					v.check(mine >= best-1e-5, "entry %d with the largest projection %v, got feature %d with %v", k, best, j, mine)
				}
				sel = append(sel, j)
				m := vfSel(vfModel(sel, nc))
				D := vfCols(Xc, m)
				if len(sel) >= nr {
					reg = false
					break
				}
				co, ok := vfLstsq(D, yc)
				if !ok {
					reg = false
					break
				}
				rs := 0.0
				for r := range resid {
					p := 0.0
					for q := range m {
						p += D[r][q] * co[q]
					}
					resid[r] = yc[r] - p
					rs += resid[r] * resid[r]
				}
				rmse := math.Sqrt(rs / float64(nr))
				stopped = rmse < tol*(1-1e-6)
				if k == len(res.Order)-1 && rs > 1e-6*s {
					for c := 0; c < nc; c++ {
						if !seen[c] {
							v.check(res.Coeff[c] == 0, "coefficient 0 of feature %d outside the order %v, got %v", c, res.Order, res.Coeff[c])
						}
					}
					for q := range m {
						v.check(vfCloseTol(res.Coeff[m[q]], co[q], 1e-5), "coefficient %v of feature %d, got %v", co[q], m[q], res.Coeff[m[q]])
					}
					v.check(len(res.Order) == nc || rmse < tol*(1+1e-6), "a pursuit that ends at tolerance %v or with all features, rmse %v", tol, rmse)
				}
			}
			_ = reg
		})
	}
	v.done("1 to 17 features of norms 1e-3 to 1e3, 2 to 13 data points, exact and noisy targets, tolerances 1e-8 to 100")
}
