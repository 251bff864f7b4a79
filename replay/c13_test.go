package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC13(t *testing.T) {
	v := vfStart(t, "C13")
	mom := func(a []float64) (float64, float64) {
		n := float64(len(a))
		m := 0.0
		for _, x := range a {
			m += x / n
		}
		s := 0.0
		for _, x := range a {
			s += (x - m) * (x - m)
		}
		return m, math.Sqrt(s / (n - 1))
	}
	for i := 0; v.more(i, 20000); i++ {
		n := 1 + v.rng.Intn(8)
		a := v.floats(n)
		nr, nc := 2+v.rng.Intn(4), 2+v.rng.Intn(4)
		X := v.dense(nr, nc)
		src := vfDense(X)
		v.run(func() string { return fmt.Sprintf("Mean/Std/NormalizeArray of %v, NormalizeRows/NormalizeCols of %v", a, src) }, func() {
			in := vfCopyF(a)
			m, s := mom(a)
			mx := 0.0
			for _, x := range a {
				mx = math.Max(mx, math.Abs(x))
			}
			v.check(math.Abs(Mean(in)-m) <= 1e-9*(1+mx), "mean %v, got %v", m, Mean(in))
			if n == 1 {
				v.check(Std(in) == 0, "standard deviation 0 of one value, got %v", Std(in))
				return
			}
			v.check(math.Abs(Std(in)-s) <= 1e-7*(1+mx), "standard deviation %v, got %v", s, Std(in))
			v.check(vfSameF(in, a), "unchanged list")
			if s > 1e-6*(1+mx) {
				NormalizeArray(in)
				for k := range a {
					v.check(vfCloseTol(in[k], (a[k]-m)/s, 1e-5), "normalised entry %d %v, got %v", k, (a[k]-m)/s, in[k])
				}
			}
			cols, rows := mat.DenseCopyOf(X), mat.DenseCopyOf(X)
			NormalizeCols(cols)
			NormalizeRows(rows)
			for c := 0; c < nc; c++ {
				col := []float64{}
				for r := 0; r < nr; r++ {
					col = append(col, src[r][c])
				}
				m, s := mom(col)
				for r := 0; r < nr && s > 1e-4*math.Abs(m); r++ {
					v.check(vfCloseTol(cols.At(r, c), (src[r][c]-m)/s, 1e-5), "normalised column entry %d,%d %v, got %v", r, c, (src[r][c]-m)/s, cols.At(r, c))
				}
			}
			for r := 0; r < nr; r++ {
				m, s := mom(src[r])
				for c := 0; c < nc && s > 1e-4*math.Abs(m); c++ {
					v.check(vfCloseTol(rows.At(r, c), (src[r][c]-m)/s, 1e-5), "normalised row entry %d,%d %v, got %v", r, c, (src[r][c]-m)/s, rows.At(r, c))
				}
			}
		})
	}
	for i := 0; v.more(i, 20000); i++ {
		nr, nc := 2+v.rng.Intn(6), 1+v.rng.Intn(5)
		X := v.gauss(nr, nc)
		for r := 0; r < nr; r++ {
			for c := 0; c < nc; c++ {
				X.Set(r, c, X.At(r, c)*math.Pow(4, float64(c-2))+float64(c-1)*3)
			}
		}
		if v.rng.Intn(4) == 0 { // columns of widely different scales, all well above the threshold of a constant column
			for c := 0; c < nc; c++ {
				f := math.Pow(10, float64(v.rng.Intn(17)-8))
				for r := 0; r < nr; r++ {
					X.Set(r, c, v.rng.NormFloat64()*f)
				}
				X.Set(0, c, 2*f)
				X.Set(1, c, -f)
			}
		}
		y := make([]float64, nr)
		for k := range y {
			y[k] = v.rng.NormFloat64()*5 + 2
		}
		bias := v.rng.Intn(2) == 0
		cc := []float64{1, 1, 2, -3, 0.1}[v.rng.Intn(5)]
		if bias {
			for r := 0; r < nr; r++ {
				X.Set(r, 0, cc)
			}
		}
		bad := -1
		if nc > 1 && v.rng.Intn(10) == 0 {
			bad = 1 + v.rng.Intn(nc-1)
			for r := 0; r < nr; r++ {
				X.Set(r, bad, 0.3)
			}
		}
		src, ysrc := vfDense(X), vfCopyF(y)
		lo := 0
		if bias {
			lo = 1
		}
		var path, ref []*LassoLarsNode
		for k := v.rng.Intn(4); k >= 0; k-- {
			var s []int
			for _, j := range v.subset(nc) {
				if j >= lo {
					s = append(s, j)
				}
			}
			c := v.floats(len(s))
			path = append(path, &LassoLarsNode{Coeff: vfCopyF(c), Lamb: float64(k), Selection: vfCopyI(s)})
			ref = append(ref, &LassoLarsNode{Coeff: c, Lamb: float64(k), Selection: s})
		}
		v.run(func() string {
			s := fmt.Sprintf("NewNormalizedData(X=%v, y=%v) and Path2Unnormalized of", src, ysrc)
			for _, r := range ref {
				s += fmt.Sprint(" ", *r)
			}
			return s
		}, func() {
			var d *NormalizedData
			p := v.panics(func() { d = NewNormalizedData(X, y) })
			v.check(p == (bad >= 0), "panics %v", bad >= 0)
			if p {
				return
			}
			v.check(d.HasBias == bias, "bias flag %v", bias)
			my, sy := mom(ysrc)
			for r := range ysrc {
				v.check(vfCloseTol(y[r], (ysrc[r]-my)/sy, 1e-6), "normalised target %d %v, got %v", r, (ysrc[r]-my)/sy, y[r])
			}
			var mu, sd []float64
			for c := 0; c < nc; c++ {
				col := []float64{}
				for r := 0; r < nr; r++ {
					col = append(col, src[r][c])
				}
				m, s := mom(col)
				mu, sd = append(mu, m), append(sd, s)
				for r := 0; r < nr; r++ {
					w := (src[r][c] - m) / s
					if bias && c == 0 {
						w = 0
					}
					v.check(vfCloseTol(d.X.At(r, c), w, 1e-6), "normalised value %d,%d %v, got %v", r, c, w, d.X.At(r, c))
				}
			}
			Path2Unnormalized(d, path)
			for k, nd := range path {
				wantSel := ref[k].Selection
				if bias {
					wantSel = append([]int{0}, wantSel...)
				}
				v.check(vfSameI(nd.Selection, wantSel) && len(nd.Coeff) == len(wantSel) && nd.Lamb == ref[k].Lamb, "selection %v in entry %d, got %v with %d coefficients", wantSel, k, nd.Selection, len(nd.Coeff))
				for r := 0; r < nr; r++ {
					norm := 0.0
					scale := 1.0
					for q, j := range ref[k].Selection {
						norm += ref[k].Coeff[q] * (src[r][j] - mu[j]) / sd[j]
						scale += math.Abs(ref[k].Coeff[q]*src[r][j]/sd[j]) * sy
					}
					want := my + sy*norm
					got := 0.0
					for q, j := range nd.Selection {
						if bias && q == 0 {
							got += nd.Coeff[q]
							continue
						}
						got += nd.Coeff[q] * src[r][j]
					}
					if !bias {
						got += d.LinearTransformationBias(ref[k].Selection, ref[k].Coeff)
					}
					v.check(math.Abs(got-want) <= 1e-7*(scale+math.Abs(want)), "prediction %v in row %d of entry %d, got %v", want, r, k, got)
				}
			}
		})
	}
	v.done("lists of up to 8 values; data of up to 7 by 5 with and without a constant first column, paths of up to 4 entries (the bias coefficient is an additive constant)")
}
