// C18: products of a list with itself and polynomial features
axiom divMod "quotient and remainder of non-negative integers, as in Go" = forall k, v: int :: {k / v} {k % v} k >= 0 && v > 0 ==> k == (k / v) * v + k % v && 0 <= k % v && k % v < v && 0 <= k / v;
// ipw is v to the power of r; place d of the k-th of the v^r tuples of length r in lexicographic order is dig(v, r, k, d)
spec ipw(v: int, r: int): int = if r <= 0 then 1 else ipw(v, r-1) * v;
spec dig(v: int, r: int, k: int, d: int): int = if r <= 0 then 0 else if d == r-1 then k % v else dig(v, r-1, k / v, d);
lemma ipwPositive(v: int, r: int) { requires v >= 0; ensures ipw(v, r) >= 0; ensures v > 0 ==> ipw(v, r) > 0; induct r; trigger {ipw(v, r)}; }
lemma mulMono(a: int, b: int, v: int) { requires v > 0 && a < b; ensures a * v + v <= b * v; noauto; }
lemma divUnique(q: int, r: int, p: int, s: int, v: int) {
  requires 0 <= r && r < v && 0 <= s && s < v && q * v + r == p * v + s;
  use mulMono(q, p, v); use mulMono(p, q, v);
  ensures q == p && r == s;
  noauto;
}
lemma divOf(j: int, i: int, v: int) {
  requires 0 <= i && i < v && j >= 0 && j * v >= 0;
  use divUnique(j, i, (j * v + i) / v, (j * v + i) % v, v);
  ensures (j * v + i) / v == j && (j * v + i) % v == i;
  noauto;
}
lemma divRange(k: int, a: int, v: int) {
  requires v > 0 && 0 <= k && k < a * v;
  use mulMono(a - 1, k / v, v);
  ensures 0 <= k / v && k / v < a && 0 <= k % v && k % v < v && k == (k / v) * v + k % v;
  noauto;
}
// the position of a tuple in the enumeration
spec rank(t: seq int, r: int, v: int): int = if r <= 0 then 0 else rank(t, r-1, v) * v + t[r-1];
lemma digRange(v: int, r: int, k: int, d: int) {
  requires v > 0 && 0 <= k && k < ipw(v, r) && 0 <= d && d < r;
  use divRange(k, ipw(v, r-1), v);
  ensures 0 <= dig(v, r, k, d) && dig(v, r, k, d) < v;
  induct r; trigger {dig(v, r, k, d)};
}
// every tuple is enumerated, at the position given by its rank, and nowhere else
lemma rankRange(t: seq int, r: int, v: int) {
  requires v > 0 && r >= 0 && (forall d: int :: {t[d]} 0 <= d && d < r ==> 0 <= t[d] && t[d] < v);
  use mulMono(rank(t, r-1, v), ipw(v, r-1), v);
  ensures 0 <= rank(t, r, v) && rank(t, r, v) < ipw(v, r);
  induct r; noauto;
}
lemma rankDigit(t: seq int, r: int, v: int, d: int) {
  requires v > 0 && 0 <= d && d < r && (forall e: int :: {t[e]} 0 <= e && e < r ==> 0 <= t[e] && t[e] < v);
  use rankRange(t, r-1, v);
  use divOf(rank(t, r-1, v), t[r-1], v);
  ensures dig(v, r, rank(t, r, v), d) == t[d];
  induct r; noauto;
}
lemma rankUnique(t: seq int, r: int, v: int, k: int) {
  requires v > 0 && r >= 0 && 0 <= k && k < ipw(v, r);
  requires forall d: int :: {t[d]} {dig(v, r, k, d)} 0 <= d && d < r ==> dig(v, r, k, d) == t[d];
  use divRange(k, ipw(v, r-1), v);
  use rankUnique(t, r-1, v, k / v);
  ensures k == rank(t, r, v);
  induct r; noauto;
}
// rows come in lexicographic order
spec lexLess(v: int, r: int, k: int, l: int): bool = exists d: int :: {tag(d)} tag(d) && 0 <= d && d < r && dig(v, r, k, d) < dig(v, r, l, d) && (forall e: int :: {dig(v, r, k, e)} {dig(v, r, l, e)} 0 <= e && e < d ==> dig(v, r, k, e) == dig(v, r, l, e));
lemma digStep(v: int, r: int, k: int, d: int) { requires 0 <= d && d < r - 1; ensures dig(v, r, k, d) == dig(v, r-1, k / v, d); noauto; }
lemma digLast(v: int, r: int, k: int) { requires r >= 1; ensures dig(v, r, k, r-1) == k % v; noauto; }
lemma lexicographic(v: int, r: int, k: int, l: int) {
  requires v > 0 && r >= 0 && 0 <= k && k < l && l < ipw(v, r);
  requires tag(r-1);
  use divRange(k, ipw(v, r-1), v);
  use divRange(l, ipw(v, r-1), v);
  use mulMono(l / v, k / v, v);
  use digLast(v, r, k); use digLast(v, r, l);
  use forall d: int :: {dig(v, r, k, d)} digStep(v, r, k, d);
  use forall d: int :: {dig(v, r, l, d)} digStep(v, r, l, d);
  use lexicographic(v, r-1, k / v, l / v);
  ensures lexLess(v, r, k, l);
  induct r; noauto;
}
def isRow(row: []int, values: []int, n: int, k: int) = len(row) == n && (forall d: int :: {row[d]} 0 <= d && d < n ==> row[d] == values[dig(len(values), n, k, d)]);
spec distinctRows(a: seq []int, n: int): bool = forall k, l: int :: {a[k], a[l]} 0 <= k && k < l && l < n ==> ref(a[k]) != ref(a[l]);
lemma distinctAppend(a: seq []int, b: seq []int, n: int, m: int) {
  requires n >= 0 && m == n + 1 && distinctRows(a, n);
  requires forall k: int :: {b[k]} 0 <= k && k < n ==> ref(b[k]) == ref(a[k]) && ref(a[k]) != ref(b[n]);
  ensures distinctRows(b, m);
  trigger {distinctRows(a, n), distinctRows(b, m)};
}
lemma distinctFrame(a: seq []int, b: seq []int, n: int, m: int) {
  requires n == m && distinctRows(a, n);
  requires forall k: int :: {b[k]} 0 <= k && k < n ==> ref(b[k]) == ref(a[k]);
  ensures distinctRows(b, m);
  trigger {distinctRows(a, n), distinctRows(b, m)};
}
lemma distinctNone(a: seq []int, n: int) { requires n <= 0; ensures distinctRows(a, n); trigger {distinctRows(a, n)}; }
func IterProduct(values, repeat) (res) {
  hide distinctRows;
  requires repeat >= 0;
  ensures number: len(res) == ipw(len(values), repeat) && fresh(res);
  ensures rows: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> isRow(res[k], values, repeat, k);
  ensures independent: repeat > 0 ==> (forall k: int :: {res[k]} 0 <= k && k < len(res) ==> newfrom(res[k])) && distinctRows(arr(res), len(res));
  loop 1 {
    invariant 0 <= r && r <= repeat && len(res) == ipw(len(values), r) && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < len(res) ==> newfrom(res[k]) && isRow(res[k], values, r, k);
    invariant r > 0 ==> distinctRows(arr(res), len(res));
  }
  loop 2 {
    invariant forall k: int :: {res[k]} 0 <= k && k < len(res) ==> isRow(res[k], values, r, k);
    invariant len(updatedRes) == j * len(values) && newfrom(updatedRes);
    invariant forall k: int :: {updatedRes[k]} 0 <= k && k < len(updatedRes) ==> newfrom(updatedRes[k]) && isRow(updatedRes[k], values, r + 1, k);
    invariant distinctRows(arr(updatedRes), len(updatedRes));
  }
  loop 3 {
    behind copy use divOf(j, i, len(values));
    invariant forall k: int :: {res[k]} 0 <= k && k < len(res) ==> isRow(res[k], values, r, k);
    invariant len(updatedRes) == j * len(values) + i && newfrom(updatedRes);
    invariant forall k: int :: {updatedRes[k]} 0 <= k && k < len(updatedRes) ==> newfrom(updatedRes[k]) && isRow(updatedRes[k], values, r + 1, k);
    invariant distinctRows(arr(updatedRes), len(updatedRes));
  }
}
