package featselect

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVFC26(t *testing.T) {
	v := vfStart(t, "C26")
	desc := func() string {
		return "concurrent Set(k, k, k) by two goroutines and Get by two goroutines"
	}
	v.run(func() string { return "Set and Get in one goroutine" }, func() {
		var sp SearchProgress
		a, b, c := sp.Get()
		v.check(a == 0 && b == 0 && c == 0, "the initial state 0 0 0, got %v %v %v", a, b, c)
		for k := 0; k < 200; k++ {
			x, y, z := v.float(), v.rng.Intn(1000), v.float()
			for r := 0; r < 1+k%3; r++ {
				sp.Set(x, y, z)
			}
			for r := 0; r < 1+k%2; r++ {
				a, b, c = sp.Get()
				v.check(a == x && b == y && c == z, "%v %v %v, got %v %v %v", x, y, z, a, b, c)
			}
		}
	})
	for i := 0; v.more(i, 4); i++ {
		v.run(desc, func() {
			var sp SearchProgress
			var stop int32
			var wg sync.WaitGroup
			var n, reads int64
			var mix atomic.Value
			for g := 0; g < 2; g++ {
				wg.Add(2)
				go func(g int) {
					defer wg.Done()
					for k := g; atomic.LoadInt32(&stop) == 0; k += 2 {
						sp.Set(float64(k), k, float64(k))
						atomic.AddInt64(&n, 1)
					}
				}(g)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&stop) == 0 {
						a, b, c := sp.Get()
						atomic.AddInt64(&reads, 1)
						if a != float64(b) || b != int(c) {
							mix.Store(fmt.Sprintf("%v %v %v", a, b, c))
							atomic.StoreInt32(&stop, 1)
						}
					}
				}()
			}
			done := make(chan bool)
			go func() { wg.Wait(); done <- true }()
			time.Sleep(300 * time.Millisecond)
			atomic.StoreInt32(&stop, 1)
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				v.check(false, "the lock to be released by every call, the goroutines are blocked")
			}
			if m, ok := mix.Load().(string); ok {
				v.check(false, "triples of one single update, got %s", m)
			}
			v.check(n > 0 && reads > 0, "progress")
		})
	}
	v.done("two writers and two readers for 0.3 s per case")
}
