// C19: order and set helpers; C08: full coefficient vector; C25: model averaging
spec sumi(a: seq int, n: int): int = if n <= 0 then 0 else sumi(a, n-1) + a[n-1];
def memi(a: []int, v: int) = exists k: int :: {a[k]} 0 <= k && k < len(a) && a[k] == v;

func All(a, value) (r) {
  ensures def: r <==> (forall k: int :: {a[k]} 0 <= k && k < len(a) ==> a[k] == value);
  loop 1 { invariant forall k: int :: {a[k]} 0 <= k && k < i ==> a[k] == value; }
}
func all(model) (r) {
  ensures def: r <==> (forall k: int :: {model[k]} 0 <= k && k < len(model) ==> model[k]);
  loop 1 { invariant forall k: int :: {model[k]} 0 <= k && k < i ==> model[k]; }
}
func Sum(a) (s) {
  ensures sum: s == sumi(arr(a), len(a));
  loop 1 { invariant s == sumi(arr(a), $i); }
}
func EqualInt(a, b) (r) {
  ensures def: r <==> len(a) == len(b) && (forall k: int :: {a[k]} {b[k]} 0 <= k && k < len(a) ==> a[k] == b[k]);
  loop 1 { invariant forall k: int :: {a[k]} {b[k]} 0 <= k && k < $i ==> a[k] == b[k]; }
}
func MaxInt(a) (m) {
  ensures bound: forall k: int :: {a[k]} 0 <= k && k < len(a) ==> a[k] <= m;
  ensures attained: m == -2147483648 || memi(a, m);
  ensures least: m >= -2147483648;
  ensures member: len(a) > 0 && (forall k: int :: {a[k]} 0 <= k && k < len(a) ==> -2147483648 <= a[k]) ==> memi(a, m);
  loop 1 {
    invariant forall k: int :: {a[k]} 0 <= k && k < $i ==> a[k] <= max;
    invariant max >= -2147483648;
    invariant max == -2147483648 || (exists k: int :: {a[k]} 0 <= k && k < $i && a[k] == max);
  }
}
func MinInt(a) (m) {
  ensures bound: forall k: int :: {a[k]} 0 <= k && k < len(a) ==> m <= a[k];
  ensures attained: m == 2147483647 || memi(a, m);
  ensures most: m <= 2147483647;
  ensures member: len(a) > 0 && (forall k: int :: {a[k]} 0 <= k && k < len(a) ==> a[k] <= 2147483647) ==> memi(a, m);
  loop 1 {
    invariant forall k: int :: {a[k]} 0 <= k && k < $i ==> min <= a[k];
    invariant min <= 2147483647;
    invariant min == 2147483647 || (exists k: int :: {a[k]} 0 <= k && k < $i && a[k] == min);
  }
}
def memr(a: []real, v: real) = exists k: int :: {a[k]} 0 <= k && k < len(a) && a[k] == v;
func MinFloat(a) (m) {
  ensures bound: forall k: int :: {a[k]} 0 <= k && k < len(a) ==> m <= a[k];
  ensures attained: m == MaxFloat64 || memr(a, m);
  ensures member: len(a) > 0 && (forall k: int :: {a[k]} 0 <= k && k < len(a) ==> a[k] <= MaxFloat64) ==> memr(a, m);
  loop 1 {
    invariant forall k: int :: {a[k]} 0 <= k && k < $i ==> min <= a[k];
    invariant min <= MaxFloat64;
    invariant min == MaxFloat64 || (exists k: int :: {a[k]} 0 <= k && k < $i && a[k] == min);
  }
}
func Argmin(a) (r) {
  requires nonempty: len(a) > 0;
  ensures range: 0 <= r && r < len(a);
  ensures least: forall k: int :: {a[k]} 0 <= k && k < len(a) ==> a[r] <= a[k];
  ensures first: forall k: int :: {a[k]} 0 <= k && k < r ==> a[r] < a[k];
  loop 1 {
    invariant 0 <= minIdx && minIdx < len(a) && (minIdx < $i || minIdx == 0) && minVal == a[minIdx];
    invariant forall k: int :: {a[k]} 0 <= k && k < $i ==> minVal <= a[k];
    invariant forall k: int :: {a[k]} 0 <= k && k < minIdx ==> minVal < a[k];
  }
}
func Argmax(v) (r) {
  requires nonempty: len(v) > 0;
  ensures range: 0 <= r && r < len(v);
  ensures most: forall k: int :: {v[k]} 0 <= k && k < len(v) ==> v[k] <= v[r];
  ensures first: forall k: int :: {v[k]} 0 <= k && k < r ==> v[k] < v[r];
  loop 1 {
    invariant 0 <= imax && imax < len(v) && (imax < i || imax == 0) && maxVal == v[imax];
    invariant forall k: int :: {v[k]} 0 <= k && k < i ==> v[k] <= maxVal;
    invariant forall k: int :: {v[k]} 0 <= k && k < imax ==> v[k] < maxVal;
  }
}
func Abs(x) (r) {
  modifies elems(x);
  ensures same: r == x;
  ensures abs: forall k: int :: {x[k]} 0 <= k && k < len(x) ==> x[k] == absr(old(x[k]));
  loop 1 {
    invariant forall k: int :: {x[k]} 0 <= k && k < len(x) ==> x[k] == (if k < i then absr(old(x[k])) else old(x[k]));
  }
}
func UnionInt(s1, s2) (r) {
  modifies elems(s1);
  ensures storage: ref(r) == ref(s1) || fresh(r);
  ensures front: len(r) >= len(s1) && (forall k: int :: {r[k]} 0 <= k && k < len(s1) ==> r[k] == old(s1[k]));
  ensures kept: forall k: int :: {s1[k]} 0 <= k && k < len(s1) ==> s1[k] == old(s1[k]);
  ensures added: forall k: int :: {r[k]} len(s1) <= k && k < len(r) ==> (exists j: int :: {s2[j]} 0 <= j && j < len(s2) && old(s2[j]) == r[k]);
  ensures once: forall i, k: int :: {r[i], r[k]} 0 <= i && i < k && len(s1) <= k && k < len(r) ==> r[i] != r[k];
  ensures complete: forall j: int :: {old(s2[j])} 0 <= j && j < len(s2) ==> (exists k: int :: {r[k]} 0 <= k && k < len(r) && r[k] == old(s2[j]));
  requires separate: s1 != nil && s2 != nil ==> ref(s1) != ref(s2);
  loop 1 {
    invariant len(s1) >= old(len(s1)) && (forall k: int :: {s1[k]} 0 <= k && k < old(len(s1)) ==> s1[k] == old(s1[k]));
    invariant forall k: int :: {old(s1[k])} 0 <= k && k < old(len(s1)) ==> s1[k] == old(s1[k]);
    invariant forall k: int :: {pre(s1)[k]} 0 <= k && k < old(len(s1)) ==> pre(s1)[k] == old(s1[k]);
    invariant ref(s1) == old(ref(s1)) || fresh(s1);
    invariant forall k: int :: {s1[k]} old(len(s1)) <= k && k < len(s1) ==> (exists j: int :: {s2[j]} 0 <= j && j < $i && s2[j] == s1[k]);
    invariant forall i, k: int :: {s1[i], s1[k]} 0 <= i && i < k && old(len(s1)) <= k && k < len(s1) ==> s1[i] != s1[k];
    invariant forall j: int :: {s2[j]} 0 <= j && j < $i ==> (exists k: int :: {s1[k]} 0 <= k && k < len(s1) && s1[k] == s2[j]);
    invariant forall j: int :: {s2[j]} 0 <= j && j < len(s2) ==> s2[j] == old(s2[j]);
  }
}
// sorting: sort.Sort on ByValue, given its Len/Less/Swap
func ByValue.Len(b) (n) { ensures n == len(b); }
func ByValue.Less(b, i, j) (r) {
  requires 0 <= i && i < len(b) && 0 <= j && j < len(b);
  ensures r <==> b[i].value < b[j].value;
}
func ByValue.Swap(b, i, j) {
  requires 0 <= i && i < len(b) && 0 <= j && j < len(b);
  modifies elems(b);
  ensures b[i] == old(b[j]) && b[j] == old(b[i]);
  ensures forall k: int :: {b[k]} 0 <= k && k < len(b) && k != i && k != j ==> b[k] == old(b[k]);
}
extern sort.Sort@ByValue(data) {
  modifies elems(data);
  ensures forall i, j: int :: {data[i].value, data[j].value} 0 <= i && i <= j && j < len(data) ==> data[i].value <= data[j].value;
  ensures exists p, q: seq int :: (forall i: int :: {p[i]} {data[i].idx} {data[i].value} 0 <= i && i < len(data) ==> 0 <= p[i] && p[i] < len(data) && q[p[i]] == i
      && data[i].value == old(data[p[i]].value) && data[i].idx == old(data[p[i]].idx))
    && (forall k: int :: {q[k]} {old(data[k].idx)} 0 <= k && k < len(data) ==> 0 <= q[k] && q[k] < len(data) && p[q[k]] == k && data[q[k]].idx == old(data[k].idx));
}
func Argsort(a) (res) {
  ensures length: len(res) == len(a) && newfrom(res);
  ensures range: forall i: int :: {res[i]} 0 <= i && i < len(a) ==> 0 <= res[i] && res[i] < len(a);
  ensures once: forall i, j: int :: {res[i], res[j]} 0 <= i && i < j && j < len(a) ==> res[i] != res[j];
  ensures every: forall k: int :: {a[k]} 0 <= k && k < len(a) ==> (exists i: int :: {res[i]} 0 <= i && i < len(a) && res[i] == k);
  ensures ascending: forall i, j: int :: {res[i], res[j]} 0 <= i && i <= j && j < len(a) ==> a[res[i]] <= a[res[j]];
  loop 1 {
    invariant len(sortables) == len(a) && fresh(sortables);
    invariant forall k: int :: {sortables[k].value} {sortables[k].idx} 0 <= k && k < $i ==> sortables[k].value == a[k] && sortables[k].idx == k;
  }
  loop 2 {
    invariant len(res) == len(a) && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < $i ==> res[k] == sortables[k].idx;
  }
}
func FullCoeffVector(numFeat, selection, coeff) (res) {
  requires numFeat >= 0 && len(coeff) >= len(selection);
  requires range: forall k: int :: {selection[k]} 0 <= k && k < len(selection) ==> 0 <= selection[k] && selection[k] < numFeat;
  ensures length: len(res) == numFeat && newfrom(res);
  ensures placed: (forall i, j: int :: {selection[i], selection[j]} 0 <= i && i < j && j < len(selection) ==> selection[i] != selection[j]) ==>
     (forall k: int :: {selection[k]} 0 <= k && k < len(selection) ==> res[selection[k]] == coeff[k]);
  ensures zero: forall f: int :: {res[f]} 0 <= f && f < numFeat && !memi(selection, f) ==> res[f] == 0.0;
  loop 1 {
    invariant len(res) == numFeat && fresh(res);
    invariant (forall i, j: int :: {selection[i], selection[j]} 0 <= i && i < j && j < len(selection) ==> selection[i] != selection[j]) ==>
       (forall k: int :: {selection[k]} 0 <= k && k < $i ==> res[selection[k]] == coeff[k]);
    invariant forall f: int :: {res[f]} 0 <= f && f < numFeat && (forall k: int :: {selection[k]} 0 <= k && k < $i ==> selection[k] != f) ==> res[f] == 0.0;
  }
}
property C19 { verify All, all, Sum, EqualInt, MaxInt, MinInt, MinFloat, Argmin, Argmax, Abs, UnionInt, ByValue.Len, ByValue.Less, ByValue.Swap, Argsort; }
property C08 { verify FullCoeffVector; }
