package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC16(t *testing.T) {
	v := vfStart(t, "C16")
	for i := 0; v.more(i, 20000); i++ {
		n := 1 + v.rng.Intn(7)
		a := v.floats(n)
		act := v.subset(n)
		lamb := math.Abs(v.float())
		c, d := v.floats(n), v.floats(n)
		for k := range d {
			if d[k] == 0 {
				d[k] = 0.5
			}
			if v.rng.Intn(3) == 0 {
				c[k] = d[k] * lamb * v.rng.Float64()
			}
		}
		v.run(func() string {
			return fmt.Sprintf("maxJoinTime(%v, %v), maxCrossTime(%v), tCross/betaLARS(c=%v, d=%v, lamb=%v), NewLassoLarsNode", a, act, a, c, d, lamb)
		}, func() {
			isA := vfModel(act, n)
			ac := vfCopyI(act)
			m, k := maxJoinTime(mat.NewVecDense(n, vfCopyF(a)), ac)
			best := 0.0
			for j := range a {
				if !isA[j] && a[j] > best {
					best = a[j]
				}
			}
			v.check(m == best, "largest positive joining time of an inactive feature %v, got %v", best, m)
			if best > 0 {
				v.check(k >= 0 && k < n && !isA[k] && a[k] == best, "its feature, got %d", k)
			}
			v.check(vfSameI(ac, act), "unchanged active set")
			av := mat.NewVecDense(n, vfCopyF(a))
			m, k = maxCrossTime(av)
			best = 0.0
			for j := range a {
				best = math.Max(best, a[j])
			}
			v.check(m == best && (best == 0 || a[k] == best), "largest crossing time %v, got %v at %d", best, m, k)
			llp := LassoLarsParams{c: mat.NewVecDense(n, vfCopyF(c)), d: mat.NewVecDense(n, vfCopyF(d))}
			cr := tCross(&llp, lamb)
			b := betaLARS(&llp, lamb)
			v.check(cr.Len() == n && b.Len() == n, "one value per feature")
			for j := range c {
				r := c[j] / d[j]
				if math.Abs(r+1e-6-lamb) > 1e-9*(1+lamb) {
					if r+1e-6 > lamb {
						r = 0
					}
					v.check(vfCloseTol(cr.AtVec(j), r, 1e-12), "crossing time %v of feature %d, got %v", r, j, cr.AtVec(j))
				}
				v.check(math.Abs(b.AtVec(j)-(c[j]-lamb*d[j])) <= 1e-10*(1+math.Abs(c[j])+math.Abs(lamb*d[j])), "coefficient %v of feature %d, got %v", c[j]-lamb*d[j], j, b.AtVec(j))
				v.check(llp.c.AtVec(j) == c[j] && llp.d.AtVec(j) == d[j], "unchanged parameters")
			}
			sel := v.rng.Perm(n)
			s1, c1 := vfCopyI(sel), vfCopyF(c)
			nd := NewLassoLarsNode(c1, lamb, s1)
			v.check(nd.Lamb == lamb && vfSameI(nd.Selection, sel) && vfSameF(nd.Coeff, c), "a node with these values")
			s1[0], c1[0] = -5, 1e9
			v.check(vfSameI(nd.Selection, sel) && vfSameF(nd.Coeff, c), "a node with its own storage")
			v.check(v.panics(func() { NewLassoLarsNode(c, lamb, sel[1:]) }), "a panic for different lengths")
		})
	}
	skipped := 0
	for i := 0; v.more(i, 600); i++ {
		nc := 2 + v.rng.Intn(6)
		nr := nc + 3 + v.rng.Intn(20)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		bias := v.rng.Intn(2) == 0
		corrl := v.rng.Float64() * 2
		for r := 0; r < nr; r++ {
			for c := 1; c < nc; c++ {
				X.Set(r, c, X.At(r, c)+corrl*X.At(r, 0))
			}
			if bias {
				X.Set(r, 0, 1)
			}
			y[r] = v.rng.NormFloat64()
			for c := 0; c < nc; c++ {
				y[r] += X.At(r, c) * float64((c*7+i)%5-2)
			}
		}
		d := NewNormalizedData(X, y)
		min := math.Pow(10, -3*v.rng.Float64())
		Xc, yc := vfDense(d.X), vfCopyF(d.y)
		v.run(func() string { return fmt.Sprintf("LassoLars(X=%v, y=%v, lambMin=%v)", Xc, yc, min) }, func() {
			var cd MorsePenroseCD
			var path []*LassoLarsNode
			if v.panics(func() { path = LassoLars(d, min, &cd) }) {
				skipped++
				v.check(skipped < 20, "a path")
				return
			}
			v.check(vfSameM(vfDense(d.X), Xc) && vfSameF(d.y, yc), "unchanged data")
			max := 0.0
			for j := 0; j < nc; j++ {
				s := 0.0
				for r := range yc {
					s += Xc[r][j] * yc[r]
				}
				max = math.Max(max, math.Abs(s))
			}
			if max > min*(1+1e-9) {
				v.check(len(path) > 0 && vfCloseTol(path[0].Lamb, max, 1e-9), "a path that starts at %v", max)
			}
			for k, nd := range path {
				v.check(len(nd.Coeff) == len(nd.Selection) && len(nd.Selection) > 0, "one coefficient per active feature in node %d, got %v %v", k, nd.Selection, nd.Coeff)
				for q, j := range nd.Selection {
					v.check(j >= 0 && j < nc && (q == 0 || nd.Selection[q-1] < j), "strictly ascending active features in node %d, got %v", k, nd.Selection)
				}
				v.check(nd.Lamb > min, "values above %v, got %v", min, nd.Lamb)
				if k > 0 {
					v.check(nd.Lamb <= path[k-1].Lamb, "values that never increase, got %v after %v", nd.Lamb, path[k-1].Lamb)
				}
			}
			// the formula between events: residual correlations of the active features equal the value
			for k, nd := range path {
				beta := make([]float64, nc)
				for q, j := range nd.Selection {
					beta[j] = nd.Coeff[q]
				}
				for j := 0; j < nc; j++ {
					g := 0.0
					for r := range yc {
						p := yc[r]
						for c := range beta {
							p -= Xc[r][c] * beta[c]
						}
						g += Xc[r][j] * p
					}
					act := false
					for _, q := range nd.Selection {
						act = act || q == j
					}
					if act {
						v.check(math.Abs(math.Abs(g)-nd.Lamb) <= 1e-4*(1+max), "node %d on the straight line of its active set: correlation %v of feature %d, value %v", k, g, j, nd.Lamb)
					}
				}
			}
		})
	}
	v.done("event functions on up to 7 features; paths on 2 to 7 features, with and without bias column and correlation (%d without a path)", skipped)
}
