package featselect

import (
	"fmt"
	"testing"
)

func TestVFC03(t *testing.T) {
	v := vfStart(t, "C03")
	for i := 0; v.more(i, 20000); i++ {
		size := i % 150
		if i%25 == 0 {
			size = []int{255, 256, 257, 300, 511, 513, 1023, 1025, 2047, 2049, 2100, 4097, 8200, 33000, 66000, 70000, 530000, 1 << 20}[v.rng.Intn(18)]
			if size > 5000 && i%500 != 0 {
				size = 100 + v.rng.Intn(5000)
			}
		}
		n := v.rng.Intn(40)
		type op struct {
			Flip bool
			I    int
		}
		var ops []op
		if size > 0 {
			for k := 0; k < n; k++ {
				ops = append(ops, op{v.rng.Intn(2) == 0, v.rng.Intn(size)})
			}
		}
		v.run(func() string { return fmt.Sprintf("NewModel(%d) then (flip, index) %v", size, ops) }, func() {
			m := NewModel(size)
			ref := make([]bool, size)
			cmp := func(step int) {
				if size > 5000 && step != len(ops) {
					return
				}
				for k := range ref {
					v.check(m.Get(k) == ref[k], "feature %d is %v after %d operations", k, ref[k], step)
				}
				b := m.ToBools()
				v.check(vfSameB(b, ref), "booleans %v after %d operations, got %v", ref, step, b)
			}
			cmp(0)
			for s, o := range ops {
				if o.Flip {
					m.Flip(o.I)
					ref[o.I] = !ref[o.I]
				} else {
					m.Set(o.I)
					ref[o.I] = true
				}
				cmp(s + 1)
			}
		})
	}
	v.done("sizes 0 to 149 and larger ones up to 2^20, histories of up to 40 operations")
}
