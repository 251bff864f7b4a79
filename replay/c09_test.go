package featselect

import (
	"fmt"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC09(t *testing.T) {
	v := vfStart(t, "C09")
	for i := 0; v.more(i, 30000); i++ {
		nr, nc := 1+v.rng.Intn(5), 1+v.rng.Intn(7)
		X := v.dense(nr, nc)
		src := vfDense(X)
		m := v.bools(nc)
		if v.rng.Intn(5) == 0 {
			m = m[:v.rng.Intn(nc)]
		}
		sel := vfSel(m)
		v.run(func() string { return fmt.Sprintf("GetDesignMatrix(%v, %v)", m, src) }, func() {
			mc := vfCopyB(m)
			if len(sel) == 0 {
				v.check(v.panics(func() { GetDesignMatrix(mc, X) }), "a panic for an empty selection")
				return
			}
			var arg mat.Matrix = X
			if v.rng.Intn(2) == 0 {
				arg = mat.DenseCopyOf(X.T()).T()
			}
			D := GetDesignMatrix(mc, arg)
			v.check(vfSameM(vfDense(D), vfCols(src, sel)), "columns %v: %v, got %v", sel, vfCols(src, sel), vfDense(D))
			v.check(vfSameM(vfDense(X), src) && vfSameB(mc, m), "unchanged source")
			if md, ok := D.(*mat.Dense); ok {
				md.Set(0, 0, md.At(0, 0)+1)
				v.check(vfSameM(vfDense(X), src), "design matrix not sharing storage")
			}
		})
		idx := make([]int, v.rng.Intn(6))
		for k := range idx {
			idx[k] = v.rng.Intn(nc)
		}
		v.run(func() string { return fmt.Sprintf("NewIndexedColView(%v, %v)", src, idx) }, func() {
			w := NewIndexedColView(X, idx)
			r, c := w.Dims()
			v.check(r == nr && c == len(idx), "dimensions %d, %d, got %d, %d", nr, len(idx), r, c)
			T := w.T()
			tr, tc := T.Dims()
			v.check(tr == len(idx) && tc == nr, "transposed dimensions")
			for a := 0; a < nr; a++ {
				for b := range idx {
					v.check(w.At(a, b) == src[a][idx[b]], "entry %d,%d = %v, got %v", a, b, src[a][idx[b]], w.At(a, b))
					v.check(T.At(b, a) == src[a][idx[b]], "transposed entry %d,%d = %v, got %v", b, a, src[a][idx[b]], T.At(b, a))
				}
			}
			if len(idx) > 0 {
				X.Set(0, idx[0], 77)
				v.check(w.At(0, 0) == 77, "a view of the current entry")
				X.Set(0, idx[0], src[0][idx[0]])
			}
		})
		d := v.floats(1 + v.rng.Intn(6))
		rows := make([]int, v.rng.Intn(6))
		for k := range rows {
			rows[k] = v.rng.Intn(len(d))
		}
		v.run(func() string { return fmt.Sprintf("NewIndexedColVecView(%v, %v) and NewSliceVec", d, rows) }, func() {
			dd := vfCopyF(d)
			w := NewIndexedColVecView(mat.NewVecDense(len(d), vfCopyF(d)), rows)
			s := NewSliceVec(dd)
			r, c := w.Dims()
			v.check(r == len(rows) && c == 1 && w.Len() == len(rows), "vector view dimensions")
			tr, tc := w.T().Dims()
			v.check(tr == 1 && tc == len(rows), "transposed vector view dimensions")
			for k := range rows {
				x := d[rows[k]]
				v.check(w.AtVec(k) == x && w.At(k, 0) == x && w.T().At(0, k) == x, "view entry %d = %v, got %v %v", k, x, w.AtVec(k), w.T().At(0, k))
			}
			r, c = s.Dims()
			v.check(r == len(d) && c == 1 && s.Len() == len(d), "slice vector dimensions")
			tr, tc = s.T().Dims()
			v.check(tr == 1 && tc == len(d), "transposed slice vector dimensions")
			for k := range d {
				v.check(s.AtVec(k) == d[k] && s.At(k, 0) == d[k] && s.T().At(0, k) == d[k], "slice vector entry %d = %v", k, d[k])
			}
			v.check(vfSameF(dd, d), "unchanged slice")
			dd[0] = 99
			v.check(s.AtVec(0) == 99, "the slice's current entry")
		})
		perm := v.rng.Perm(nc)[:v.rng.Intn(nc+1)]
		order := vfCopyI(perm)
		if v.rng.Intn(3) == 0 {
			for len(order) < nc {
				order = append(order, -1)
			}
		}
		v.run(func() string { return fmt.Sprintf("RearrangeDense(%v, %v)", src, order) }, func() {
			oc := vfCopyI(order)
			N := RearrangeDense(X, oc)
			want := vfCopyI(perm)
			used := map[int]bool{}
			for _, p := range perm {
				used[p] = true
			}
			for k := 0; k < nc; k++ {
				if !used[k] {
					want = append(want, k)
				}
			}
			v.check(vfSameM(vfDense(N), vfCols(src, want)), "columns in order %v, got %v", want, vfDense(N))
			v.check(vfSameM(vfDense(X), src) && vfSameI(oc, order), "unchanged source")
		})
	}
	v.done("matrices of up to 5 by 7, all subsets, repeated indices, order lists with trailing -1")
}
