package featselect

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC18(t *testing.T) {
	v := vfStart(t, "C18")
	for i := 0; v.more(i, 5000); i++ {
		n, r := v.rng.Intn(5), v.rng.Intn(5)
		vals := make([]int, n)
		for k := range vals {
			vals[k] = v.rng.Intn(9) - 3
		}
		v.run(func() string { return fmt.Sprintf("IterProduct(%v, %d)", vals, r) }, func() {
			in := vfCopyI(vals)
			got := IterProduct(in, r)
			num := 1
			for k := 0; k < r; k++ {
				num *= n
			}
			v.check(len(got) == num, "%d rows, got %d", num, len(got))
			check := func(skip int) {
				for k := 0; k < num; k++ {
					if k == skip {
						continue
					}
					v.check(len(got[k]) == r, "rows of length %d", r)
					q := k
					for p := r - 1; p >= 0; p-- {
						v.check(got[k][p] == vals[q%n], "row %d position %d = %d, got %v", k, p, vals[q%n], got[k])
						q /= n
					}
				}
			}
			check(-1)
			v.check(vfSameI(in, vals), "unchanged values")
			if num > 1 && r > 0 {
				k := v.rng.Intn(num)
				for p := range got[k] {
					got[k][p] = 1000 + p
				}
				got[k] = append(got[k], 7)
				check(k)
			}
		})
		if i%3 != 0 {
			continue
		}
		a := make([]int, v.rng.Intn(6))
		s := 0
		for k := range a {
			a[k] = v.rng.Intn(20) - 10
			s += a[k]
		}
		v.run(func() string { return fmt.Sprintf("Sum(%v)", a) }, func() { v.check(Sum(a) == s, "%d, got %d", s, Sum(a)) })
	}
	for i := 0; v.more(i, 1200); i++ {
		nr, nc := 1+v.rng.Intn(4), 1+v.rng.Intn(4)
		maxp := v.rng.Intn(5)
		if i%60 == 59 { // a few hundred monomials
			nr = 1 + v.rng.Intn(2)
			nc, maxp = 4, 5+v.rng.Intn(3)
			if v.rng.Intn(3) == 0 {
				nc, maxp = 6+v.rng.Intn(2), 4
			}
		}
		X := mat.NewDense(nr, nc, nil)
		for a := 0; a < nr; a++ {
			for b := 0; b < nc; b++ {
				X.Set(a, b, (1.1+v.rng.Float64())*[]float64{1, -1}[v.rng.Intn(2)])
			}
		}
		src := vfDense(X)
		cols := v.rng.Perm(nc)[:1+v.rng.Intn(nc)]
		whole := v.rng.Intn(2) == 0
		if whole {
			cols = nil
			for k := 0; k < nc; k++ {
				cols = append(cols, k)
			}
		}
		v.run(func() string {
			if whole {
				return fmt.Sprintf("NewLazyMatrix(%v, %d).FullMatrix()", src, maxp)
			}
			return fmt.Sprintf("AddPowerSequence(%v, %d) on %v, FullMatrix()", cols, maxp, src)
		}, func() {
			var m *LazyPowerMatrix
			if whole {
				m = NewLazyMatrix(X, maxp)
			} else {
				m = NewLazyMatrix(X, 0)
				v.check(m.NumCols() == nc, "the original matrix for power 0")
				m.AddPowerSequence(vfCopyI(cols), maxp)
			}
			// the monomials
			var mons [][]int
			var rec func(p []int, k, left int)
			rec = func(p []int, k, left int) {
				if k == len(cols) {
					if s := maxp - left; s >= 2 {
						mons = append(mons, vfCopyI(p))
					}
					return
				}
				for e := 0; e <= left; e++ {
					p[k] = e
					rec(p, k+1, left-e)
				}
				p[k] = 0
			}
			rec(make([]int, len(cols)), 0, maxp)
			v.check(m.NumCols() == nc+len(mons), "%d columns, got %d", nc+len(mons), m.NumCols())
			F := vfDense(m.FullMatrix())
			v.check(len(F) == nr && len(F[0]) == nc+len(mons), "a full matrix of %d by %d", nr, nc+len(mons))
			for c := range F[0] {
				col := m.GetCol(c)
				v.check(len(col) == nr, "columns of length %d", nr)
				for a := 0; a < nr; a++ {
					v.check(vfCloseTol(col[a], F[a][c], 1e-12), "column %d in the full matrix", c)
					if c < nc {
						v.check(F[a][c] == src[a][c], "original column %d", c)
					}
				}
			}
			used := make([]bool, len(F[0]))
			for _, p := range mons {
				found := -1
				for c := nc; c < len(F[0]) && found < 0; c++ {
					if used[c] {
						continue
					}
					ok := true
					for a := 0; a < nr && ok; a++ {
						w := 1.0
						for q, col := range cols {
							w *= math.Pow(src[a][col], float64(p[q]))
						}
						ok = math.Abs(w-F[a][c]) <= 1e-9*(1+math.Abs(w))
					}
					if ok {
						found = c
					}
				}
				v.check(found >= 0, "a column for the powers %v of columns %v", p, cols)
				used[found] = true
			}
			v.check(vfSameM(vfDense(X), src), "unchanged matrix")
		})
	}
	v.done("up to 4 values and repeats; expansions of matrices of up to 4 by 4 to power 4 and a few of up to 7 columns or power 7")
}
