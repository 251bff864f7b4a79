package featselect

import (
	"fmt"
	"testing"
)

func TestVFC08(t *testing.T) {
	v := vfStart(t, "C08")
	for i := 0; v.more(i, 60000); i++ {
		n := v.rng.Intn(10)
		if i%100 == 0 {
			n = []int{63, 64, 65, 127, 130, 255, 256, 257, 300, 520, 1030, 70000}[v.rng.Intn(12)]
			if n > 2000 && i%2000 != 0 {
				n = 400
			}
		}
		m := v.bools(n)
		sel := vfSel(m)
		co := v.floats(len(sel))
		v.run(func() string { return fmt.Sprintf("conversions of %v with coefficients %v", m, co) }, func() {
			in := vfCopyB(m)
			v.check(NumFeatures(in) == len(sel), "NumFeatures %d, got %d", len(sel), NumFeatures(in))
			s := SelectedFeatures(in)
			v.check(vfSameI(s, sel), "SelectedFeatures %v, got %v", sel, s)
			it := NewSAItem(in)
			v.check(vfSameI(it.Selection, sel) && len(it.Coeff) == len(sel), "NewSAItem selection %v, got %v", sel, it.Selection)
			nd := NewNode(0, in)
			cc := vfCopyF(co)
			nd.Coeff = cc
			sp := nd.ToSparseCoeff()
			v.check(vfSameI(sp.Selection, sel) && vfSameF(sp.Coeff, co), "ToSparseCoeff %v %v, got %v %v", sel, co, sp.Selection, sp.Coeff)
			v.check(vfSameB(in, m) && vfSameB(nd.Model, m) && vfSameF(cc, co), "unchanged inputs")
			// any order, repeats allowed for the marks
			perm := v.rng.Perm(len(sel))
			ps := make([]int, len(sel))
			pc := make([]float64, len(sel))
			for k, p := range perm {
				ps[k], pc[k] = sel[p], co[p]
			}
			psIn := vfCopyI(ps)
			b := Selected2Model(psIn, n)
			v.check(vfSameB(b, m) && vfSameI(psIn, ps), "Selected2Model(%v, %d) %v, got %v", ps, n, m, b)
			pcIn := vfCopyF(pc)
			f := FullCoeffVector(n, psIn, pcIn)
			want := make([]float64, n)
			for k, j := range ps {
				want[j] = pc[k]
			}
			v.check(vfSameF(f, want) && vfSameI(psIn, ps) && vfSameF(pcIn, pc), "FullCoeffVector(%d, %v, %v) %v, got %v", n, ps, pc, want, f)
			if len(sel) > 0 {
				r := append(vfCopyI(ps), ps[0])
				v.check(vfSameB(Selected2Model(r, n), m), "Selected2Model(%v, %d) %v", r, n, m)
			}
		})
	}
	v.run(func() string { return "NewSAItem(nil)" }, func() {
		it := NewSAItem(nil)
		v.check(it != nil && len(it.Selection) == 0 && len(it.Coeff) == 0, "an empty item")
	})
	v.done("selections of up to 9 and some of up to 70000 features, random orders of index lists")
}
