package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC23(t *testing.T) {
	v := vfStart(t, "C23")
	for i := 0; v.more(i, 60000); i++ {
		nc := 1 + v.rng.Intn(8)
		var nodes, ref []*LassoLarsNode
		for k := v.rng.Intn(6); k > 0; k-- {
			s := v.subset(nc)
			if v.rng.Intn(2) == 0 {
				p := v.rng.Perm(len(s))
				q := make([]int, len(s))
				for a, b := range p {
					q[a] = s[b]
				}
				s = q
			}
			c := v.floats(len(s))
			l := math.Exp(v.rng.NormFloat64() * 3)
			nodes = append(nodes, &LassoLarsNode{Coeff: vfCopyF(c), Lamb: l, Selection: vfCopyI(s)})
			ref = append(ref, &LassoLarsNode{Coeff: c, Lamb: l, Selection: s})
		}
		num := v.rng.Intn(nc + 2)
		feat := v.rng.Intn(nc + 1)
		v.run(func() string {
			s := "path"
			for _, r := range ref {
				s += fmt.Sprint(" ", *r)
			}
			return fmt.Sprintf("PickMostRelevantFeatures(%d), ExtractPath(%d), MaxMinFeatNo, LassoNodesSlice2SparsCoeff of %s", num, feat, s)
		}, func() {
			p := &LassoLarsPath{LassoLarsNodes: nodes}
			var want []int
			seen := map[int]bool{}
			for _, r := range ref {
				for _, j := range r.Selection {
					if !seen[j] {
						seen[j] = true
						want = append(want, j)
					}
				}
				if len(want) >= num {
					break
				}
			}
			got := p.PickMostRelevantFeatures(num)
			v.check(vfSameI(got, want), "relevant features %v, got %v", want, got)
			xy := p.ExtractPath(feat)
			v.check(len(xy) == len(ref), "%d points, got %d", len(ref), len(xy))
			lo, hi, any := 0, 0, false
			for k, r := range ref {
				w := 0.0
				for q, j := range r.Selection {
					if j == feat {
						w = r.Coeff[q]
					}
					if !any || j < lo {
						lo = j
					}
					if !any || j > hi {
						hi = j
					}
					any = true
				}
				v.check(xy[k].Y == w && vfCloseTol(xy[k].X, math.Log10(r.Lamb), 1e-12), "point %d (%v, %v), got %v", k, math.Log10(r.Lamb), w, xy[k])
			}
			if any {
				mn, mx := p.MaxMinFeatNo()
				v.check(mn == lo && mx == hi, "range %d to %d, got %d to %d", lo, hi, mn, mx)
			}
			sp := LassoNodesSlice2SparsCoeff(nodes)
			v.check(len(sp) == len(ref), "%d sparse entries", len(ref))
			for k, r := range ref {
				v.check(vfSameI(sp[k].Selection, r.Selection) && vfSameF(sp[k].Coeff, r.Coeff), "sparse entry %d %v %v, got %v", k, r.Selection, r.Coeff, sp[k])
				v.check(vfSameI(nodes[k].Selection, r.Selection) && vfSameF(nodes[k].Coeff, r.Coeff) && nodes[k].Lamb == r.Lamb, "unchanged path")
			}
			if len(got) > 0 {
				got[0] = 500
				v.check(len(p.LassoLarsNodes) == len(ref), "unchanged path")
				for k, r := range ref {
					v.check(vfSameI(nodes[k].Selection, r.Selection), "features not sharing storage with the path")
				}
			}
		})
	}
	v.done("paths of up to 5 entries over up to 8 features, empty entries, any order of features")
}
