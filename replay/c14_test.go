package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC14(t *testing.T) {
	v := vfStart(t, "C14")
	for i := 0; v.more(i, 30000); i++ {
		x, th := v.float(), math.Abs(v.float())
		if v.rng.Intn(4) == 0 {
			x = th
		}
		nr, nc := 1+v.rng.Intn(5), 1+v.rng.Intn(5)
		X := v.dense(nr, nc)
		b := v.floats(nc)
		src := vfDense(X)
		v.run(func() string { return fmt.Sprintf("SoftThreshold(%v, %v), MulSlice(%v, %v)", x, th, src, b) }, func() {
			w := 0.0
			if x > th {
				w = x - th
			} else if x < -th {
				w = x + th
			}
			v.check(vfCloseTol(SoftThreshold(x, th), w, 1e-12), "soft threshold %v, got %v", w, SoftThreshold(x, th))
			bc := vfCopyF(b)
			got := MulSlice(X, bc)
			v.check(len(got) == nr, "length %d", nr)
			for r := 0; r < nr; r++ {
				s, sc := 0.0, 1.0
				for c := 0; c < nc; c++ {
					s += src[r][c] * b[c]
					sc += math.Abs(src[r][c] * b[c])
				}
				v.check(math.Abs(got[r]-s) <= 1e-10*sc, "product %v in row %d, got %v", s, r, got[r])
			}
			v.check(vfSameM(vfDense(X), src) && vfSameF(bc, b), "unchanged arguments")
			v.check(v.panics(func() { MulSlice(X, append(vfCopyF(b), 1)) }), "a panic for a vector of the wrong length")
		})
		n := 1 + v.rng.Intn(5)
		C := v.dense(n, n)
		cs := vfDense(C)
		cd := v.floats(n)
		k := v.rng.Intn(n)
		o, nw := v.float(), v.float()
		v.run(func() string { return fmt.Sprintf("UpdateCovDotBeta(%v, %v, %d, %v, %v)", cs, cd, k, o, nw) }, func() {
			in := vfCopyF(cd)
			out := UpdateCovDotBeta(C, in, k, o, nw)
			v.check(len(out) == n, "length %d", n)
			for a := range cd {
				w := cd[a] + cs[a][k]*(nw-o)
				v.check(math.Abs(in[a]-w) <= 1e-9*(1+math.Abs(cd[a])+math.Abs(cs[a][k])*(math.Abs(nw)+math.Abs(o))) && in[a] == out[a], "entry %d %v, got %v", a, w, in[a])
			}
			v.check(vfSameM(vfDense(C), cs), "unchanged matrix")
		})
		xy, cb, co := v.floats(n), v.floats(n), v.floats(n)
		for a := range co {
			if v.rng.Intn(2) == 0 {
				co[a] = 0
			}
		}
		lamb := math.Abs(v.float())
		var corr LassoCorrection = &PureLasso{}
		el := 0.0
		if v.rng.Intn(2) == 0 {
			el = float64(v.rng.Intn(3))
			corr = &ElasticNet{Lamb: el}
		}
		v.run(func() string {
			return fmt.Sprintf("UnsatisfiedKKTConditions(Xy=%v, covDotBeta=%v, coeff=%v, lamb=%v, elastic net %v)", xy, cb, co, lamb, el)
		}, func() {
			a1, a2 := vfCopyF(cb), vfCopyF(co)
			got := UnsatisfiedKKTConditions(mat.NewVecDense(n, vfCopyF(xy)), a1, a2, lamb, corr)
			in := map[int]bool{}
			for p, j := range got {
				v.check(j >= 1 && j < n && (p == 0 || got[p-1] < j), "ascending features from 1, got %v", got)
				in[j] = true
			}
			for j := 1; j < n; j++ {
				g := math.Abs(xy[j]-cb[j]-el*co[j]) - lamb
				if math.Abs(g) < 1e-9*(1+lamb+math.Abs(xy[j])+math.Abs(cb[j])) {
					continue
				}
				v.check(in[j] == (co[j] == 0 && g > 0), "feature %d violating: %v", j, co[j] == 0 && g > 0)
			}
			v.check(vfSameF(a1, cb) && vfSameF(a2, co), "unchanged arguments")
		})
		nb := v.floats(n)
		eta := v.float()
		v.run(func() string { return fmt.Sprintf("CLasso eta %v Update(%v) Deriv(%v, %d)", eta, nb, co, k) }, func() {
			cl := NewCLasso(n, eta)
			v.check(cl.Deriv(co, k) == 0, "derivative 0 before an update")
			up := vfCopyF(nb)
			cl.Update(up)
			sq, in, sc := 0.0, 0.0, 0.0
			for a := range nb {
				sq += nb[a] * nb[a]
				in += nb[a] * co[a]
				sc += math.Abs(nb[a] * co[a])
			}
			want, tol := 0.0, 0.0
			if sq >= 1e-10 {
				want = eta * nb[k] * in / sq
				tol = 1e-9 * (1 + math.Abs(eta*nb[k])*sc/sq)
			}
			if math.Abs(sq-1e-10) < 1e-15 {
				return
			}
			v.check(math.Abs(cl.Deriv(co, k)-want) <= tol, "derivative %v, got %v", want, cl.Deriv(co, k))
			up[0]++
			v.check(math.Abs(cl.Deriv(co, k)-want) <= tol, "an update that copies the coefficients")
			e := &ElasticNet{Lamb: eta}
			v.check(vfCloseTol(e.Deriv(co, k), eta*co[k], 1e-12), "elastic net derivative %v", eta*co[k])
			p := &PureLasso{}
			v.check(p.Deriv(co, k) == 0, "pure lasso derivative 0")
		})
	}
	for i := 0; v.more(i, 1500); i++ {
		nc := 2 + v.rng.Intn(7)
		nr := nc + 2 + v.rng.Intn(30)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		mix := v.rng.Intn(2) == 0
		for r := 0; r < nr; r++ {
			X.Set(r, 0, 1)
			if mix {
				for c := 2; c < nc; c++ {
					X.Set(r, c, 0.6*X.At(r, c)+0.8*X.At(r, 1+v.rng.Intn(1)))
				}
			}
			y[r] = v.rng.NormFloat64()
			for c := 1; c < nc; c++ {
				y[r] += X.At(r, c) * float64((c*7+i)%4-1)
			}
		}
		d := NewNormalizedData(X, y)
		lamb := math.Pow(10, -3*v.rng.Float64())
		var x0 []float64
		switch v.rng.Intn(3) {
		case 0:
			x0 = make([]float64, nc)
		case 1:
			x0 = make([]float64, nc)
			for k := range x0 {
				if v.rng.Intn(2) == 0 {
					x0[k] = v.rng.NormFloat64()
				}
			}
		}
		kind := v.rng.Intn(3)
		par := 0.5 * v.rng.Float64()
		var corr LassoCorrection = &PureLasso{}
		if kind == 1 {
			corr = &ElasticNet{Lamb: par}
		}
		if kind == 2 {
			corr = NewCLasso(nc, par*0.3)
		}
		var cov CovMat = &Empirical{}
		Xc, yc, xc := vfDense(d.X), vfCopyF(d.y), vfCopyF(x0)
		v.run(func() string {
			return fmt.Sprintf("LassoCrdDesc(X=%v, y=%v, lamb=%v, x0=%v, correction %d with %v)", Xc, yc, lamb, xc, kind, par)
		}, func() {
			beta := LassoCrdDesc(d, lamb, cov, x0, 100000, 1e-11, corr)
			v.check(vfSameF(x0, xc), "unchanged starting vector, got %v", x0)
			v.check(vfSameM(vfDense(d.X), Xc) && vfSameF(d.y, yc), "unchanged data")
			v.check(len(beta) == nc && beta[0] == 0, "bias coefficient 0, got %v", beta)
			zero := true
			for _, b := range beta {
				zero = zero && b == 0
			}
			if zero && kind != 0 {
				return
			}
			if zero && x0 != nil {
				for _, b := range x0 {
					if b != 0 {
						return // no convergence is reported for an all-zero solution
					}
				}
			}
			for j := 1; j < nc; j++ {
				g := 0.0
				for r := 0; r < nr; r++ {
					p := 0.0
					for c := range beta {
						p += Xc[r][c] * beta[c]
					}
					g += Xc[r][j] * (yc[r] - p) / float64(nr)
				}
				g -= corr.Deriv(beta, j)
				tol := 1e-6
				if beta[j] > 0 {
					v.check(math.Abs(g-lamb) <= tol, "gradient %v at positive coefficient %d, got %v (beta %v)", lamb, j, g, beta)
				} else if beta[j] < 0 {
					v.check(math.Abs(g+lamb) <= tol, "gradient %v at negative coefficient %d, got %v (beta %v)", -lamb, j, g, beta)
				} else {
					v.check(math.Abs(g) <= lamb+tol, "gradient within %v at zero coefficient %d, got %v (beta %v)", lamb, j, g, beta)
				}
			}
		})
	}
	v.done("vectors and matrices of up to 5; solves on 2 to 8 features with pure, elastic-net and covariance corrections, all starting vectors")
}
