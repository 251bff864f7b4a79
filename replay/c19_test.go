package featselect

import (
	"fmt"
	"math"
	"testing"
)

func TestVFC19(t *testing.T) {
	v := vfStart(t, "C19")
	for i := 0; v.more(i, 60000); i++ {
		n := v.rng.Intn(9)
		if i%40 == 0 {
			n = v.rng.Intn(60)
		}
		a := v.floats(n)
		ints := func(n, k int) []int {
			r := make([]int, n)
			for q := range r {
				r[q] = v.rng.Intn(k) - k/2
			}
			return r
		}
		u, w := ints(n, 5), ints(v.rng.Intn(6), 6)
		if v.rng.Intn(10) == 0 {
			for q := range u {
				u[q] = int(int32(v.rng.Uint32()))
			}
		}
		if v.rng.Intn(3) == 0 {
			w = vfCopyI(u)
			if n > 0 && v.rng.Intn(2) == 0 {
				w[v.rng.Intn(n)]++
			}
			if v.rng.Intn(4) == 0 {
				w = append(w, 1)
			}
		}
		x := v.rng.Intn(5) - 2
		v.run(func() string { return fmt.Sprintf("order helpers of %v, set helpers of %v, %v and %d", a, u, w, x) }, func() {
			ac, uc, wc := vfCopyF(a), vfCopyI(u), vfCopyI(w)
			s := Argsort(ac)
			v.check(len(s) == n, "argsort of length %d", n)
			seen := make([]bool, n)
			for k, j := range s {
				v.check(j >= 0 && j < n && !seen[j], "argsort with each index once, got %v", s)
				seen[j] = true
				v.check(k == 0 || a[s[vfMax0(k-1)]] <= a[j], "argsort ascending, got %v", s)
			}
			if n > 0 {
				lo, hi := 0, 0
				for k := range a {
					if a[k] < a[lo] {
						lo = k
					}
					if a[k] > a[hi] {
						hi = k
					}
				}
				v.check(Argmin(ac) == lo, "Argmin %d, got %d", lo, Argmin(ac))
				v.check(Argmax(ac) == hi, "Argmax %d, got %d", hi, Argmax(ac))
				v.check(MinFloat(ac) == a[lo], "MinFloat %v, got %v", a[lo], MinFloat(ac))
				mn, mx := u[0], u[0]
				for _, q := range u {
					if q < mn {
						mn = q
					}
					if q > mx {
						mx = q
					}
				}
				v.check(MinInt(uc) == mn, "MinInt %d, got %d", mn, MinInt(uc))
				v.check(MaxInt(uc) == mx, "MaxInt %d, got %d", mx, MaxInt(uc))
			}
			ex, al, sm := false, true, 0
			for _, q := range u {
				ex = ex || q == x
				al = al && q == x
				sm += q
			}
			v.check(ExistInt(uc, x) == ex, "ExistInt %v", ex)
			v.check(All(uc, x) == al, "All %v", al)
			if n > 0 {
				same := make([]int, n)
				for k := range same {
					same[k] = x
				}
				v.check(All(same, x), "All true for %v", same)
				same[v.rng.Intn(n)]++
				v.check(!All(same, x), "All false for %v", same)
			}
			v.check(Sum(uc) == sm, "Sum %d, got %d", sm, Sum(uc))
			v.check(EqualInt(uc, wc) == vfSameI(u, w) && EqualInt(wc, uc) == vfSameI(u, w), "EqualInt %v", vfSameI(u, w))
			want := vfCopyI(u)
			for _, q := range w {
				f := false
				for _, p := range want {
					f = f || p == q
				}
				if !f {
					want = append(want, q)
				}
			}
			got := UnionInt(uc[:n:n], wc)
			v.check(vfSameI(got, want), "UnionInt %v, got %v", want, got)
			roomy := append(make([]int, 0, n+20), u...)
			v.check(vfSameI(UnionInt(roomy, wc), want), "UnionInt %v", want)
			v.check(vfSameF(ac, a) && vfSameI(uc, u) && vfSameI(wc, w), "unchanged arguments")
			b := Abs(ac)
			for k := range a {
				v.check(b[k] == math.Abs(a[k]), "Abs entry %d %v, got %v", k, math.Abs(a[k]), b[k])
			}
			v.check(len(b) == n, "Abs of length %d", n)
		})
	}
	v.done("lists of up to 59 values, ties, 32-bit extremes")
}

func vfMax0(k int) int {
	if k < 0 {
		return 0
	}
	return k
}
