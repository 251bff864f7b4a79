package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC15(t *testing.T) {
	v := vfStart(t, "C15")
	for i := 0; v.more(i, 250); i++ {
		nc := 2 + v.rng.Intn(6)
		nr := nc + 2 + v.rng.Intn(20)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		for r := 0; r < nr; r++ {
			X.Set(r, 0, 1)
			for c := 2; c < nc; c++ {
				X.Set(r, c, X.At(r, c)+0.7*X.At(r, 1))
			}
			y[r] = v.rng.NormFloat64()
			for c := 1; c < nc; c++ {
				y[r] += X.At(r, c) * float64((c*5+i)%4-1)
			}
		}
		d := NewNormalizedData(X, y)
		nl := 1 + v.rng.Intn(25)
		var lambs []float64
		switch v.rng.Intn(3) {
		case 0:
			lambs = Logspace(1e-3, 1.2, nl)
		case 1:
			lambs = Logspace(1.2, 1e-3, nl)
		default:
			for k := 0; k < nl; k++ {
				lambs = append(lambs, math.Pow(10, -3*v.rng.Float64()))
			}
		}
		var corr LassoCorrection = &PureLasso{}
		el := 0.0
		if v.rng.Intn(3) == 0 {
			el = v.rng.Float64()
			corr = &ElasticNet{Lamb: el}
		}
		Xc, yc, lc := vfDense(d.X), vfCopyF(d.y), vfCopyF(lambs)
		v.runP(func() string { return fmt.Sprintf("LassoCrdDescPath(X=%v, y=%v, lambs=%v, elastic net %v)", Xc, yc, lc, el) }, true, func() {
			grad := func(beta []float64, j int) float64 {
				g := 0.0
				for r := 0; r < nr; r++ {
					p := 0.0
					for c := range beta {
						p += Xc[r][c] * beta[c]
					}
					g += Xc[r][j] * (yc[r] - p) / float64(nr)
				}
				return g - el*beta[j]
			}
			path := LassoCrdDescPath(d, &Empirical{}, lambs, 100000, 1e-11, corr)
			v.check(vfSameF(lambs, lc) && vfSameM(vfDense(d.X), Xc) && vfSameF(d.y, yc), "unchanged arguments")
			off := nl - len(path)
			v.check(off >= 0 && len(path) > 0, "at most one entry per value, got %d", len(path))
			if off > 0 {
				v.check(len(path[0].Selection) > 0, "only empty leading entries dropped, and all of them")
			}
			all0 := true
			for _, nd := range path {
				all0 = all0 && len(nd.Selection) == 0
			}
			if !all0 {
				v.check(len(path[0].Selection) > 0, "all empty leading entries dropped")
			} else {
				v.check(off == 0, "no entry dropped of an all-empty path")
			}
			asc := true
			for k := 1; k < nl; k++ {
				asc = asc && lc[k] > lc[k-1]
			}
			for k := 0; k < off && asc; k++ {
				for j := 1; j < nc; j++ {
					v.check(math.Abs(grad(make([]float64, nc), j)) <= lc[nl-1-k]+1e-6, "only entries with an empty solution dropped (value %v)", lc[nl-1-k])
				}
			}
			for k, nd := range path {
				lamb := lc[nl-1-off-k]
				v.check(nd.Lamb == lamb, "entry %d for value %v, got %v", k, lamb, nd.Lamb)
				v.check(len(nd.Coeff) == len(nd.Selection), "one coefficient per feature")
				beta := make([]float64, nc)
				for q, j := range nd.Selection {
					v.check(j >= 0 && j < nc && (q == 0 || nd.Selection[q-1] < j), "ascending features in range, got %v", nd.Selection)
					v.check(nd.Coeff[q] != 0, "non-zero coefficients")
					beta[j] = nd.Coeff[q]
				}
				v.check(beta[0] == 0, "no bias coefficient")
				if len(nd.Selection) == 0 {
					continue
				}
				for j := 1; j < nc; j++ {
					g := grad(beta, j)
					if beta[j] > 0 {
						v.check(math.Abs(g-lamb) <= 1e-6, "optimality of feature %d in entry %d (value %v): gradient %v, beta %v", j, k, lamb, g, beta)
					} else if beta[j] < 0 {
						v.check(math.Abs(g+lamb) <= 1e-6, "optimality of feature %d in entry %d (value %v): gradient %v, beta %v", j, k, lamb, g, beta)
					} else {
						v.check(math.Abs(g) <= lamb+1e-6, "optimality of zero feature %d in entry %d (value %v): gradient %v, beta %v", j, k, lamb, g, beta)
					}
				}
			}
		})
	}
	v.done("2 to 7 features, 1 to 25 regularisation values in any order, whatever schedule the run takes")
}
