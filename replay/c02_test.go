package featselect

import (
	"fmt"
	"testing"
)

func TestVFC02(t *testing.T) {
	v := vfStart(t, "C02")
	type rec struct {
		sel []int
		c   []float64
		s   float64
	}
	same := func(x *SAItem, r rec) bool {
		return vfSameI(x.Selection, r.sel) && vfSameF(x.Coeff, r.c) && x.Score == r.s
	}
	for i := 0; v.more(i, 40000); i++ {
		K := 1 + v.rng.Intn(5)
		n := v.rng.Intn(25)
		nf := 2 + v.rng.Intn(4)
		var ins []rec
		ties := v.rng.Intn(3) == 0
		for k := 0; k < n; k++ {
			s := v.subset(nf)
			if v.rng.Intn(6) == 0 && k > 0 {
				s = vfCopyI(ins[v.rng.Intn(k)].sel)
			}
			r := rec{sel: s, c: v.floats(len(s)), s: v.float()}
			if ties {
				r.s = float64(v.rng.Intn(4))
			}
			if v.rng.Intn(4) == 0 {
				r.s -= 100
			}
			ins = append(ins, r)
		}
		v.run(func() string { return fmt.Sprintf("NewSAScore(%d), Insert of (selection, coeff, score) %v", K, ins) }, func() {
			sc := NewSAScore(K)
			type ref struct {
				r rec
			}
			var items []rec // the models the list should hold, as a multiset
			for step, r := range ins {
				it := &SAItem{Selection: vfCopyI(r.sel), Coeff: vfCopyF(r.c), Score: r.s}
				before := items
				dup := false
				for _, x := range before {
					dup = dup || vfSameI(x.sel, r.sel)
				}
				v.check(sc.Exists(it) == dup, "Exists %v at step %d", dup, step)
				sc.Insert(it)
				v.check(len(sc.Items) <= K, "at most %d models after step %d", K, step)
				// which models may be held now
				var now []rec
				for _, x := range sc.Items {
					v.check(x != nil, "no nil item after step %d", step)
					now = append(now, rec{vfCopyI(x.Selection), vfCopyF(x.Coeff), x.Score})
				}
				cnt := func(l []rec, r rec) int {
					c := 0
					for _, y := range l {
						if vfSameI(y.sel, r.sel) && vfSameF(y.c, r.c) && y.s == r.s {
							c++
						}
					}
					return c
				}
				if dup {
					v.check(len(now) == len(before), "a known selection is ignored at step %d", step)
					for _, x := range before {
						v.check(cnt(now, x) == 1, "a known selection changes nothing at step %d: missing %v", step, x)
					}
				} else if len(before) < K {
					v.check(len(now) == len(before)+1 && cnt(now, r) == 1, "new selection added at step %d, held %v", step, now)
					for _, x := range before {
						v.check(cnt(now, x) == 1, "the held models stay at step %d: missing %v", step, x)
					}
				} else {
					worst := before[0].s
					for _, x := range before {
						if x.s < worst {
							worst = x.s
						}
					}
					if r.s > worst {
						v.check(len(now) == len(before) && cnt(now, r) == 1, "model replaces the worst one at step %d, held %v", step, now)
						gone := 0
						for _, x := range before {
							if cnt(now, x) == 0 {
								gone++
								v.check(x.s == worst, "only a worst model (score %v) is replaced at step %d, lost %v", worst, step, x)
							}
						}
						v.check(gone == 1, "exactly one model replaced at step %d, held %v", step, now)
					} else {
						v.check(len(now) == len(before), "no better model, no change at step %d", step)
						for _, x := range before {
							v.check(cnt(now, x) == 1, "no better model, no change at step %d: missing %v", step, x)
						}
					}
				}
				items = now
				hi, lo := items[0].s, items[0].s
				for a, x := range items {
					if x.s > hi {
						hi = x.s
					}
					if x.s < lo {
						lo = x.s
					}
					for b := 0; b < a; b++ {
						v.check(!vfSameI(items[b].sel, x.sel), "pairwise different selections after step %d", step)
					}
				}
				v.check(sc.BestItem != nil && sc.BestItem.Score == hi, "best score %v after step %d, got %v", hi, step, sc.BestItem.Score)
				v.check(sc.WorstItem != nil && sc.WorstItem.Score == lo, "worst score %v after step %d, got %v", lo, step, sc.WorstItem.Score)
				okB := false
				for _, y := range ins[:step+1] {
					okB = okB || same(sc.BestItem, y)
				}
				v.check(okB, "best item carrying one inserted model's own data after step %d, got %v %v %v", step, sc.BestItem.Selection, sc.BestItem.Coeff, sc.BestItem.Score)
			}
		})
	}
	v.done("capacities to 5, insertion sequences to 25, selections of up to 5 features, with repeats and ties")
}
