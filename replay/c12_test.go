package featselect

import (
	"encoding/json"
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC12(t *testing.T) {
	v := vfStart(t, "C12")
	wide := func() float64 {
		for {
			f := math.Float64frombits(v.rng.Uint64())
			if v.rng.Intn(4) == 0 {
				f = []float64{0, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-300, 1e21, 1e20, 123456789.125, 1.0 / 3, 1e-7, 16777217, 1 << 53}[v.rng.Intn(12)]
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
	mk := func() *Node {
		m := v.bools(v.rng.Intn(8))
		level := v.rng.Intn(9)
		switch v.rng.Intn(40) {
		case 0:
			m = v.bools([]int{63, 64, 65, 127, 128, 129, 200, 255, 257, 300, 1025}[v.rng.Intn(11)])
			level = v.rng.Intn(len(m) + 1)
		case 1:
			m = v.bools(8)
			level = []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1}[v.rng.Intn(9)]
		}
		n := &Node{Model: m, Coeff: v.floats(len(vfSel(m))), Level: level, Lower: v.float(), Upper: v.float(), Score: v.float()}
		if v.rng.Intn(3) == 0 {
			for _, p := range []*float64{&n.Lower, &n.Upper, &n.Score} {
				*p = wide()
			}
			for k := range n.Coeff {
				n.Coeff[k] = wide()
			}
		}
		return n
	}
	same := func(a, b *Node) bool {
		return vfSameB(a.Model, b.Model) && vfSameF(a.Coeff, b.Coeff) && a.Level == b.Level && a.Lower == b.Lower && a.Upper == b.Upper && a.Score == b.Score
	}
	for i := 0; v.more(i, 15000); i++ {
		n := mk()
		if v.rng.Intn(8) == 0 {
			n.Lower, n.Upper, n.Score = -1e100, 1e100, -math.MaxFloat64
		}
		v.run(func() string { return "JSON round trip of node " + vfNode(n) }, func() {
			ref := *n
			ref.Model, ref.Coeff = vfCopyB(n.Model), vfCopyF(n.Coeff)
			b, err := json.Marshal(n)
			v.check(err == nil, "an encoding, got %v", err)
			v.check(same(n, &ref), "unchanged node")
			dst := &Node{}
			if v.rng.Intn(2) == 0 {
				dst = mk()
			}
			err = json.Unmarshal(b, dst)
			v.check(err == nil && same(n, dst), "the same node, got %s", vfNode(dst))
		})
		K := 1 + v.rng.Intn(5)
		h := NewHighscore(K)
		cnt := v.rng.Intn(9)
		for k := 0; k < cnt; k++ {
			x := mk()
			if v.rng.Intn(2) == 0 {
				x.Score = float64(v.rng.Intn(3))
			}
			h.Insert(x)
		}
		var items []*Node
		for e := h.Items.Front(); e != nil; e = e.Next() {
			items = append(items, e.Value.(*Node))
		}
		v.run(func() string {
			s := fmt.Sprintf("JSON round trip of a highscore list of capacity %d with", K)
			for _, x := range items {
				s += " " + vfNode(x)
			}
			return s
		}, func() {
			b, err := json.Marshal(h)
			v.check(err == nil, "an encoding, got %v", err)
			v.check(h.Len() == len(items) && h.MaxItems == K, "unchanged list")
			for mode := 0; mode < 3; mode++ {
				var g *Highscore
				switch mode {
				case 0:
					g = &Highscore{}
				case 1:
					g = NewHighscore(2)
				case 2:
					g = NewHighscore(7)
					g.Insert(mk())
					g.Insert(mk())
				}
				err = json.Unmarshal(b, g)
				v.check(err == nil, "a decoding, got %v", err)
				v.check(g.MaxItems == K, "capacity %d, got %d", K, g.MaxItems)
				k := 0
				for e := g.Items.Front(); e != nil; e = e.Next() {
					v.check(k < len(items) && same(items[k], e.Value.(*Node)), "the same models in order, model %d is %s", k, vfNode(e.Value.(*Node)))
					k++
				}
				v.check(k == len(items) && g.Len() == k, "%d models, got %d", len(items), k)
			}
		})
		nr, nc := 1+v.rng.Intn(4), 1+v.rng.Intn(4)
		if i%10 == 0 {
			nr, nc = 1+v.rng.Intn(40), 1+v.rng.Intn(20)
		}
		d := &Dataset{X: v.dense(nr, nc), Y: v.floats(nr), TargetCol: v.rng.Intn(nc + 1)}
		if i%2 == 0 {
			d.X.Set(v.rng.Intn(nr), v.rng.Intn(nc), wide())
			d.Y[v.rng.Intn(nr)] = wide()
		}
		for k := 0; k <= nc; k++ {
			d.Names = append(d.Names, []string{"a", "b c", "\"q\"", "é", "<x>"}[v.rng.Intn(5)]+fmt.Sprint(k))
		}
		if i > 300 && i%20 != 0 {
			continue // the decoder prints
		}
		v.run(func() string {
			return fmt.Sprintf("JSON round trip of dataset X=%v Y=%v Names=%q TargetCol=%d", vfDense(d.X), d.Y, d.Names, d.TargetCol)
		}, func() {
			Xc := vfDense(d.X)
			b, err := json.Marshal(d)
			v.check(err == nil, "an encoding, got %v", err)
			var e Dataset
			if v.rng.Intn(2) == 0 {
				e = Dataset{X: mat.NewDense(2, 2, nil), Y: []float64{1, 2, 3, 4, 5}, Names: []string{"u", "v", "w"}, TargetCol: 2}
			}
			err = json.Unmarshal(b, &e)
			v.check(err == nil && vfSameM(vfDense(e.X), Xc) && vfSameM(vfDense(d.X), Xc), "the same matrix")
			v.check(vfSameF(e.Y, d.Y) && fmt.Sprintf("%q", e.Names) == fmt.Sprintf("%q", d.Names) && e.TargetCol == d.TargetCol, "the same targets, names and target column, got %v %q %d", e.Y, e.Names, e.TargetCol)
		})
	}
	v.done("nodes of up to 8 (some up to 1025) features and levels up to 2^31-1, values over the whole range of float64, highscore lists of capacity 1 to 5 after up to 8 insertions, datasets of up to 40 by 20")
}
