package featselect

import (
	"fmt"
	"testing"
)

func TestVFC01(t *testing.T) {
	v := vfStart(t, "C01")
	for i := 0; v.more(i, 20000); i++ {
		K := 1 + v.rng.Intn(6)
		n := v.rng.Intn(14)
		if i%50 == 0 {
			n = v.rng.Intn(60)
			K = 1 + v.rng.Intn(30)
		}
		scores := v.floats(n)
		if v.rng.Intn(3) == 0 {
			for k := range scores {
				scores[k] = -float64(v.rng.Intn(4))
			}
		}
		v.run(func() string { return fmt.Sprintf("NewHighscore(%d), Insert of nodes with scores %v", K, scores) }, func() {
			h := NewHighscore(K)
			v.check(h.Len() == 0, "an empty new list")
			v.check(h.BestScore() == 0, "best score 0 of an empty list")
			var in []*Node
			for step, s := range scores {
				nd := &Node{Score: s, Level: step, Model: []bool{step%2 == 0}, Coeff: []float64{s}}
				h.Insert(nd)
				in = append(in, nd)
				v.check(h.MaxItems == K, "unchanged capacity after step %d", step)
				held := map[*Node]bool{}
				sc := h.Scores()
				k := 0
				prev := 0.0
				for e := h.Items.Front(); e != nil; e = e.Next() {
					x := e.Value.(*Node)
					ok := false
					for _, y := range in {
						ok = ok || x == y
					}
					v.check(ok, "only inserted models after step %d", step)
					v.check(!held[x], "each model at most once after step %d", step)
					held[x] = true
					v.check(k == 0 || prev >= x.Score, "descending order after step %d, held %v", step, sc)
					v.check(k < len(sc) && sc[k] == x.Score, "Scores() equal to the held scores after step %d, got %v", step, sc)
					prev = x.Score
					k++
				}
				v.check(k == len(sc) && k == h.Len(), "length %d after step %d", k, step)
				v.check(k <= K, "at most %d models after step %d, held %d", K, step, k)
				m := len(in)
				if m < K {
					v.check(k == m, "all %d inserted models after step %d, held %d", m, step, k)
				} else {
					lo := K - 1
					if lo < 1 {
						lo = 1
					}
					v.check(k >= lo, "at least %d models after step %d, held %d", lo, step, k)
				}
				best := in[0].Score
				for _, x := range in {
					if x.Score > best {
						best = x.Score
					}
					if !held[x] {
						v.check(x.Score <= prev, "no dropped model (score %v) better than a kept one (score %v) after step %d", x.Score, prev, step)
					}
					v.check(x.Coeff[0] == x.Score && len(x.Model) == 1, "unchanged models")
				}
				v.check(h.BestScore() == best, "best score %v after step %d, got %v", best, step, h.BestScore())
			}
		})
	}
	// equality
	for i := 0; v.more(i, 20000); i++ {
		mk := func() *Node {
			return &Node{Score: float64(v.rng.Intn(3)), Lower: float64(v.rng.Intn(2)), Upper: float64(v.rng.Intn(2)), Level: v.rng.Intn(2),
				Model: v.bools(v.rng.Intn(3)), Coeff: v.floats(v.rng.Intn(2))}
		}
		cp := func(a *Node) *Node {
			b := *a
			b.Model = vfCopyB(a.Model)
			b.Coeff = vfCopyF(a.Coeff)
			return &b
		}
		eq := func(a, b *Node) bool {
			return a.Score == b.Score && a.Lower == b.Lower && a.Upper == b.Upper && a.Level == b.Level && vfSameB(a.Model, b.Model) && vfSameF(a.Coeff, b.Coeff)
		}
		n := v.rng.Intn(4)
		var l1, l2 []*Node
		for k := 0; k < n; k++ {
			a := mk()
			b := cp(a)
			switch v.rng.Intn(12) {
			case 0:
				b.Score += 1
			case 1:
				b.Lower += 1
			case 2:
				b.Upper -= 1
			case 3:
				b.Level++
			case 4:
				b.Model = append(b.Model, false)
			case 5:
				if len(b.Model) > 0 {
					b.Model[len(b.Model)-1] = !b.Model[len(b.Model)-1]
				}
			case 6:
				b.Coeff = append(b.Coeff, 0)
			case 7:
				if len(b.Coeff) > 0 {
					b.Coeff[len(b.Coeff)-1] += 1
				}
			}
			l1 = append(l1, a)
			l2 = append(l2, b)
		}
		if v.rng.Intn(5) == 0 {
			l2 = append(l2, mk())
		}
		m1, m2 := 10, 10
		if v.rng.Intn(6) == 0 {
			m2 = 11
		}
		v.run(func() string {
			s := fmt.Sprintf("Highscore.Equal of lists with capacity %d, %d and models", m1, m2)
			for _, x := range l1 {
				s += " " + vfNode(x)
			}
			s += " and"
			for _, x := range l2 {
				s += " " + vfNode(x)
			}
			return s
		}, func() {
			h1, h2 := NewHighscore(m1), NewHighscore(m2)
			for _, x := range l1 {
				h1.Items.PushBack(x)
			}
			for _, x := range l2 {
				h2.Items.PushBack(x)
			}
			want := m1 == m2 && len(l1) == len(l2)
			for k := 0; want && k < len(l1); k++ {
				want = eq(l1[k], l2[k])
			}
			v.check(h1.Equal(h2) == want, "%v", want)
			for k := 0; k < len(l1) && k < len(l2); k++ {
				v.check(NodesEqual(l1[k], l2[k]) == eq(l1[k], l2[k]), "NodesEqual %v for pair %d", eq(l1[k], l2[k]), k)
			}
		})
	}
	v.done("capacities to 30, insertion sequences to 60, tied and distinct scores; list equality with single differences")
}
