package featselect

import (
	"fmt"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC10(t *testing.T) {
	v := vfStart(t, "C10")
	mk := func() *Dataset {
		nr, nc := 1+v.rng.Intn(4), 1+v.rng.Intn(6)
		names := make([]string, nc+1)
		for i, p := range v.rng.Perm(nc + 1) {
			names[i] = fmt.Sprintf("n%d", p)
		}
		return &Dataset{X: v.dense(nr, nc), Y: v.floats(nr), Names: names, TargetCol: v.rng.Intn(nc + 1)}
	}
	str := func(d *Dataset) string {
		return fmt.Sprintf("{X:%v Y:%v Names:%v TargetCol:%d}", vfDense(d.X), d.Y, d.Names, d.TargetCol)
	}
	clone := func(d *Dataset) *Dataset {
		return &Dataset{X: mat.DenseCopyOf(d.X), Y: vfCopyF(d.Y), Names: append([]string{}, d.Names...), TargetCol: d.TargetCol}
	}
	for i := 0; v.more(i, 30000); i++ {
		d := mk()
		ref := clone(d)
		nr, nc := d.X.Dims()
		feat := []string{}
		for k, n := range ref.Names {
			if k != ref.TargetCol {
				feat = append(feat, n)
			}
		}
		sub := v.rng.Perm(nc)[:1+v.rng.Intn(nc)]
		if v.rng.Intn(4) == 0 {
			sub = append(sub, sub[0])
		}
		unchanged := func() {
			v.check(str(d) == str(ref), "unchanged dataset")
		}
		v.run(func() string { return fmt.Sprintf("dataset %s, features %v", str(ref), sub) }, func() {
			for k := 0; k < nc; k++ {
				v.check(d.GetFeatName(k) == feat[k], "GetFeatName(%d) = %s, got %s", k, feat[k], d.GetFeatName(k))
				v.check(d.FeatNoByName(feat[k]) == k, "FeatNoByName(%s) = %d, got %d", feat[k], k, d.FeatNoByName(feat[k]))
			}
			v.check(v.panics(func() { d.FeatNoByName("no such name") }), "a panic for an unknown name")
			sc := vfCopyI(sub)
			s := d.GetSubset(sc)
			unchanged()
			v.check(vfSameI(sc, sub), "unchanged feature list")
			v.check(vfSameM(vfDense(s.X), vfCols(vfDense(ref.X), sub)), "subset columns, got %v", vfDense(s.X))
			v.check(vfSameF(s.Y, ref.Y) && s.TargetCol == len(sub) && len(s.Names) == len(sub)+1, "subset targets %v target column %d, got %v %d %v", ref.Y, len(sub), s.Y, s.TargetCol, s.Names)
			for k, f := range sub {
				v.check(s.Names[k] == feat[f], "subset name %d %s, got %s", k, feat[f], s.Names[k])
			}
			v.check(s.Names[len(sub)] == ref.Names[ref.TargetCol], "target name last, got %v", s.Names)
			if nr > 0 {
				s.Y[0]++
				s.X.Set(0, 0, s.X.At(0, 0)+1)
				s.Names[0] += "x"
				unchanged()
			}
			c := d.Copy()
			v.check(str(c) == str(ref), "an equal copy, got %s", str(c))
			v.check(d.IsEqual(c) && c.IsEqual(d), "IsEqual of a copy")
			c.Y[0]++
			c.X.Set(nr-1, nc-1, c.X.At(nr-1, nc-1)+1)
			c.Names[0] += "x"
			c.TargetCol++
			unchanged()
			// single differences
			for k := 0; k < 5; k++ {
				o := clone(ref)
				switch k {
				case 0:
					o.Y[v.rng.Intn(nr)] += 1e4
				case 1:
					a, b := v.rng.Intn(nr), v.rng.Intn(nc)
					o.X.Set(a, b, o.X.At(a, b)-1e5)
				case 2:
					o.Names[v.rng.Intn(nc+1)] += "y"
				case 3:
					o.TargetCol = (o.TargetCol + 1) % (nc + 1)
				case 4:
					g := mat.NewDense(nr, nc+1, nil)
					o.X = g
				}
				v.check(!d.IsEqual(o) && !o.IsEqual(d), "unequal to %s", str(o))
			}
			o := clone(ref)
			o.Y = append(o.Y, 0)
			v.check(!d.IsEqual(o) && !o.IsEqual(d), "unequal to %s", str(o))
			o = clone(ref)
			o.Names = append(o.Names, "z")
			v.check(!d.IsEqual(o) && !o.IsEqual(d), "unequal to %s", str(o))
			// mapping by name
			names := make([]string, nc)
			to := v.rng.Perm(nc)
			for k := range names {
				names[k] = feat[to[k]]
			}
			sel := v.subset(nc)
			want := make([]int, len(sel))
			for k, x := range sel {
				want[k] = to[x]
			}
			got := MapSelectionByName(d, names, vfCopyI(sel))
			v.check(vfSameI(got, want), "MapSelectionByName(%v, %v) = %v, got %v", names, sel, want, got)
			unchanged()
		})
	}
	v.done("datasets of up to 4 by 6 with the target in any column, distinct names")
}
