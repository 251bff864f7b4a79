package featselect

import (
	"container/list"
	"fmt"
	"math"
	"testing"
)

func TestVFC06(t *testing.T) {
	v := vfStart(t, "C06")
	for i := 0; v.more(i, 1500); i++ {
		nc := 2 + v.rng.Intn(5)
		nr := 1 + v.rng.Intn(9)
		X := v.gauss(nr, nc)
		y := make([]float64, nr)
		for k := range y {
			y[k] = v.rng.NormFloat64()
		}
		m := v.bools(nc)
		lev := v.rng.Intn(nc)
		flip := v.rng.Intn(2) == 0
		hs := []float64{}
		for k := v.rng.Intn(3); k > 0; k-- {
			hs = append(hs, v.rng.NormFloat64()*20)
		}
		cut := 0.0
		switch v.rng.Intn(3) {
		case 0:
			cut = v.rng.NormFloat64() * 10
		case 1:
			cut = math.Pow(10, float64(v.rng.Intn(4)))
		}
		child := vfCopyB(m)
		if flip {
			child[lev] = !child[lev]
		}
		n := len(vfSel(child))
		// the child's bounds decide; the best cost is put close to them in half of the cases
		var lo, up float64
		if n < nr {
			lo, up = -1e100, 1e100
			if n > 0 {
				ok := true
				func() {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					lo, up = BoundsAICC(child, lev+1, X, y)
				}()
				if !ok || math.IsNaN(lo) || math.IsInf(lo, 0) {
					continue
				}
			}
			if n > 0 && len(hs) > 0 && v.rng.Intn(2) == 0 {
				hs[0] = -(lo + cut) + []float64{-0.5, -1e-3, 1e-3, 0.5, 2}[v.rng.Intn(5)]
			}
		}
		v.run(func() string {
			return fmt.Sprintf("CreateChild(model=%v level=%d, flip=%v, X=%v, y=%v, cutoff=%v, highscore=%v)", m, lev, flip, vfDense(X), y, cut, hs)
		}, func() {
			h := NewHighscore(10)
			best := math.Inf(-1)
			for _, s := range hs {
				h.Insert(&Node{Score: s})
				best = math.Max(best, s)
			}
			p := NewNode(lev, m)
			c := CreateChild(p, flip, X, y, cut, h)
			v.check(vfSameB(p.Model, m) && p.Level == lev && h.Len() == len(hs), "unchanged parent and list")
			drop := n >= nr || len(hs) > 0 && lo+cut > -best
			if len(hs) > 0 && math.Abs(lo+cut+best) < 1e-7*(1+math.Abs(lo)) {
				return
			}
			v.check((c == nil) == drop, "discarded: %v (lower %v, best cost %v, %d features, %d data points)", drop, lo, -best, n, nr)
			if c != nil {
				v.check(vfSameB(c.Model, child) && c.Level == lev+1, "child model %v", child)
				v.check(vfCloseTol(c.Lower, lo, 1e-6) && vfCloseTol(c.Upper, up, 1e-6), "bounds %v %v, got %v %v", lo, up, c.Lower, c.Upper)
			}
		})
	}
	for i := 0; v.more(i, 20000); i++ {
		n := v.rng.Intn(8)
		lows := v.floats(n)
		th := v.float()
		if n > 0 && v.rng.Intn(3) == 0 {
			th = lows[v.rng.Intn(n)]
		}
		least := v.rng.Intn(2) == 0
		v.run(func() string {
			if least {
				return fmt.Sprintf("RemoveLeastPromising of nodes with lower bounds %v", lows)
			}
			return fmt.Sprintf("CleanQueue of nodes with lower bounds %v, threshold %v", lows, th)
		}, func() {
			q := list.New()
			var nodes []*Node
			for _, l := range lows {
				nd := &Node{Lower: l}
				nodes = append(nodes, nd)
				q.PushBack(nd)
			}
			th := th
			if least {
				th = 0
				for _, l := range lows {
					th += l
				}
				th /= float64(n)
				near := false
				for _, l := range lows {
					near = near || math.Abs(l-th) < 1e-9*(1+math.Abs(th))
				}
				allsame := true
				for _, l := range lows {
					allsame = allsame && l == lows[0]
				}
				RemoveLeastPromising(q)
				if near && !allsame {
					return
				}
				if allsame && n > 0 && float64(int(lows[0])) != lows[0] {
					return
				}
			} else {
				CleanQueue(q, th)
			}
			e := q.Front()
			for k, nd := range nodes {
				if lows[k] > th {
					continue
				}
				v.check(e != nil && e.Value.(*Node) == nd, "node %d (lower %v) kept in order, threshold %v", k, lows[k], th)
				e = e.Next()
			}
			v.check(e == nil, "nodes with lower bound above %v removed", th)
			for k, nd := range nodes {
				v.check(nd.Lower == lows[k], "unchanged nodes")
			}
		})
	}
	v.done("children of models of up to 6 features with 1 to 9 data points and up to 2 listed models; queues of up to 7 nodes")
}
