// C20: Cohen's kappa
// the value v is among the first n entries of a
spec has(a: seq int, n: int, v: int): bool = n > 0 && (a[n-1] == v || has(a, n-1, v));
lemma hasFrom(a: seq int, n: int, k: int, v: int) { requires 0 <= k && k < n && a[k] == v; ensures has(a, n, v); induct n; trigger {has(a, n, v), a[k]}; }
lemma hasNot(a: seq int, n: int, v: int) { requires forall k: int :: {a[k]} 0 <= k && k < n ==> a[k] != v; ensures !has(a, n, v); induct n; trigger {has(a, n, v)}; }
// features (below n) in the first selection that are, or are not, in the second; and in neither
spec inFirst(a: seq int, m: int, b: seq int, l: int, both: bool, n: int): int = if n <= 0 then 0 else inFirst(a, m, b, l, both, n-1) + (if has(a, m, n-1) && (has(b, l, n-1) <==> both) then 1 else 0);
spec inNeither(a: seq int, m: int, b: seq int, l: int, n: int): int = if n <= 0 then 0 else inNeither(a, m, b, l, n-1) + (if !has(a, m, n-1) && !has(b, l, n-1) then 1 else 0);
// entries of the first list that are, or are not, in the second
spec entriesIn(a: seq int, b: seq int, l: int, both: bool, m: int): int = if m <= 0 then 0 else entriesIn(a, b, l, both, m-1) + (if (has(b, l, a[m-1]) <==> both) then 1 else 0);
spec selection(a: seq int, m: int, n: int): bool = (forall k: int :: {a[k]} 0 <= k && k < m ==> 0 <= a[k] && a[k] < n) && (forall i, k: int :: {a[i], a[k]} 0 <= i && i < k && k < m ==> a[i] != a[k]);
lemma inFirstStep(a: seq int, m: int, b: seq int, l: int, both: bool, n: int) {
  requires m > 0 && n >= 0 && !has(a, m-1, a[m-1]) && 0 <= a[m-1];
  ensures inFirst(a, m, b, l, both, n) == inFirst(a, m-1, b, l, both, n) + (if a[m-1] < n && (has(b, l, a[m-1]) <==> both) then 1 else 0);
  induct n; noauto;
}
lemma inFirstNone(a: seq int, b: seq int, l: int, both: bool, n: int) { ensures inFirst(a, 0, b, l, both, n) == 0; induct n; noauto; }
lemma entriesFeatures(a: seq int, m: int, b: seq int, l: int, both: bool, n: int) {
  requires m >= 0 && n >= 0 && selection(a, m, n);
  use inFirstStep(a, m, b, l, both, n); use hasNot(a, m-1, a[m-1]);
  use inFirstNone(a, b, l, both, n);
  ensures entriesIn(a, b, l, both, m) == inFirst(a, m, b, l, both, n);
  induct m; trigger {entriesIn(a, b, l, both, m), inFirst(a, m, b, l, both, n)};
}
lemma symmetricCount(a: seq int, m: int, b: seq int, l: int, n: int) { ensures inFirst(a, m, b, l, true, n) == inFirst(b, l, a, m, true, n) && inNeither(a, m, b, l, n) == inNeither(b, l, a, m, n); induct n; noauto; }
// every feature is counted once
lemma allCounted(a: seq int, m: int, b: seq int, l: int, n: int) {
  requires n >= 0;
  ensures inFirst(a, m, b, l, true, n) + inFirst(a, m, b, l, false, n) + inFirst(b, l, a, m, false, n) + inNeither(a, m, b, l, n) == n;
  ensures 0 <= inFirst(a, m, b, l, true, n) && 0 <= inFirst(a, m, b, l, false, n) && 0 <= inFirst(b, l, a, m, false, n) && 0 <= inNeither(a, m, b, l, n);
  induct n; noauto;
}
lemma bothEmpty(a: seq int, m: int, b: seq int, l: int, n: int) {
  requires n >= 0 && m == 0 && l == 0;
  ensures inFirst(a, m, b, l, true, n) == 0 && inFirst(a, m, b, l, false, n) == 0 && inFirst(b, l, a, m, false, n) == 0 && inNeither(a, m, b, l, n) == n;
  induct n; trigger {inNeither(a, m, b, l, n)};
}
// the definition, for the numbers of features in both, in one of them only and in neither, of n
spec observed(both: int, neither: int, n: int): real = real(both + neither) / real(n);
spec chance(both: int, one: int, two: int, neither: int, n: int): real = real((both + one) * (both + two)) / real(n * n) + real((one + neither) * (two + neither)) / real(n * n);
spec kappaDef(both: int, one: int, two: int, neither: int, n: int): real = if chance(both, one, two, neither, n) == 1.0 then 1.0 else (observed(both, neither, n) - chance(both, one, two, neither, n)) / (1.0 - chance(both, one, two, neither, n));
spec kappaOf(a: seq int, m: int, b: seq int, l: int, n: int): real = kappaDef(inFirst(a, m, b, l, true, n), inFirst(a, m, b, l, false, n), inFirst(b, l, a, m, false, n), inNeither(a, m, b, l, n), n);
lemma chanceEmpty(n: int) { requires n > 0; ensures chance(0, 0, 0, n, n) == 1.0; trigger {chance(0, 0, 0, n, n)}; }
func CohenKappa(s1, s2, totNum) (kappa) {
  requires totNum > 0 && selection(arr(s1), len(s1), totNum) && selection(arr(s2), len(s2), totNum);
  ensures definition: kappa == kappaOf(arr(s1), len(s1), arr(s2), len(s2), totNum);
  loop 1 {
    invariant n11 == entriesIn(arr(s1), arr(s2), len(s2), true, $i) && n12 == entriesIn(arr(s1), arr(s2), len(s2), false, $i);
  }
  loop 2 { invariant n21 == entriesIn(arr(s2), arr(s1), len(s1), false, $i); }
  loop 3 { invariant n22 == inNeither(arr(s1), len(s1), arr(s2), len(s2), i); }
}
lemma sameMembers(a: seq int, m: int, b: seq int, l: int, n: int) {
  requires forall v: int :: {has(a, m, v)} {has(b, l, v)} has(a, m, v) <==> has(b, l, v);
  ensures inFirst(a, m, b, l, false, n) == 0;
  induct n; noauto;
}
lemma kappaSymmetric(a: seq int, m: int, b: seq int, l: int, n: int) {
  use symmetricCount(a, m, b, l, n);
  ensures kappaOf(a, m, b, l, n) == kappaOf(b, l, a, m, n);
  noauto;
}
lemma chanceSwap(both: int, one: int, two: int, neither: int, n: int) { ensures chance(both, one, two, neither, n) == chance(both, two, one, neither, n); trigger {chance(both, one, two, neither, n)}; }
lemma kappaSame(a: seq int, m: int, b: seq int, l: int, n: int) {
  requires n > 0 && (forall v: int :: {has(a, m, v)} {has(b, l, v)} has(a, m, v) <==> has(b, l, v));
  use sameMembers(a, m, b, l, n); use sameMembers(b, l, a, m, n); use allCounted(a, m, b, l, n);
  ensures kappaOf(a, m, b, l, n) == 1.0;
  noauto;
}
lemma prodNonneg(p: int, q: int) { requires p >= 0 && q >= 0; ensures p * q >= 0; noauto; }
lemma chanceInts(p: int, q: int, n: int) {
  requires 0 <= p && p <= n && 0 <= q && q <= n;
  use prodNonneg(p, n - q); use prodNonneg(q, n - p);
  ensures p * q + (n - p) * (n - q) <= n * n;
  noauto;
}
lemma ratioAtMostOne(x: real, y: real, z: real) { requires z > 0.0 && x + y <= z; ensures x / z + y / z <= 1.0; noauto; }
lemma chanceAtMostOne(both: int, one: int, two: int, neither: int, n: int) {
  requires n > 0 && both >= 0 && one >= 0 && two >= 0 && neither >= 0 && both + one + two + neither == n;
  use chanceInts(both + one, both + two, n);
  use prodNonneg(n, n);
  use ratioAtMostOne(real((both + one) * (both + two)), real((one + neither) * (two + neither)), real(n * n));
  ensures chance(both, one, two, neither, n) <= 1.0;
  noauto;
}
lemma quotient(x: real, y: real) { requires y > 0.0 && x <= y; ensures x / y <= 1.0; noauto; }
lemma kappaAtMostOne(a: seq int, m: int, b: seq int, l: int, n: int) {
  requires n > 0;
  use allCounted(a, m, b, l, n);
  use chanceAtMostOne(inFirst(a, m, b, l, true, n), inFirst(a, m, b, l, false, n), inFirst(b, l, a, m, false, n), inNeither(a, m, b, l, n), n);
  use quotient(real(inFirst(a, m, b, l, true, n) + inNeither(a, m, b, l, n)), real(n));
  use quotient(observed(inFirst(a, m, b, l, true, n), inNeither(a, m, b, l, n), n) - chance(inFirst(a, m, b, l, true, n), inFirst(a, m, b, l, false, n), inFirst(b, l, a, m, false, n), inNeither(a, m, b, l, n), n), 1.0 - chance(inFirst(a, m, b, l, true, n), inFirst(a, m, b, l, false, n), inFirst(b, l, a, m, false, n), inNeither(a, m, b, l, n), n));
  ensures kappaOf(a, m, b, l, n) <= 1.0;
  noauto;
}
// the stability estimate; a selection routine may remember things from one call to the next (its state), and the features it
// selects, and its state afterwards, depend on its state before and the data points
uninterp selOf(state: seq ref, points: seq int, n: int): seq int;
uninterp selLen(state: seq ref, points: seq int, n: int): int;
uninterp selNext(state: seq ref, points: seq int, n: int): seq ref;
uninterp targetX(t: ref): ref;
iface CohensKappaTarget.GetX(t) (X) { ensures X == targetX(t) && X != nil && rows(X) > 0 && cols(X) > 0; }
iface CohensKappaTarget.GetSelection(t, points) (sel) {
  modifies list(t);
  ensures valid: selection(arr(sel), len(sel), cols(targetX(t)));
  ensures result: len(sel) == selLen(old(lseq(t)), arr(points), len(points)) && arr(sel) == selOf(old(lseq(t)), arr(points), len(points));
  ensures state: lseq(t) == selNext(old(lseq(t)), arr(points), len(points));
}
// the m entries of p and the l entries of q together are the numbers 0, .., n-1, each once
spec halves(p: seq int, m: int, q: seq int, l: int, n: int): bool = m + l == n && selection(p, m, n) && selection(q, l, n) && (forall i, j: int :: {p[i], q[j]} 0 <= i && i < m && 0 <= j && j < l ==> p[i] != q[j])
  && (forall k: int :: {has(p, m, k)} {has(q, l, k)} 0 <= k && k < n ==> has(p, m, k) || has(q, l, k));
lemma entriesAll(a: seq int, n: int, m: int) { requires 0 <= m && m <= n; ensures entriesIn(a, a, n, true, m) == m; induct m; noauto; }
lemma inFirstFull(a: seq int, n: int, m: int, v: int) { requires 0 <= m; ensures inFirst(a, n, a, n, true, m) <= m && (0 <= v && v < m && !has(a, n, v) ==> inFirst(a, n, a, n, true, m) < m); induct m; noauto; }
// n different numbers below n are all of them
lemma pigeonhole(a: seq int, n: int, v: int) {
  requires selection(a, n, n) && 0 <= v && v < n;
  use entriesAll(a, n, n); use inFirstFull(a, n, n, v); use entriesFeatures(a, n, a, n, true, n);
  ensures has(a, n, v);
  noauto;
}
lemma hasSplit(a: seq int, n: int, m: int, q: seq int, v: int) {
  requires 0 <= m && m <= n && has(a, n, v) && (forall j: int :: {q[j]} 0 <= j && j < n - m ==> q[j] == a[m+j]);
  ensures has(a, m, v) || has(q, n - m, v);
  induct n; noauto;
}
lemma halvesIntro(a: seq int, n: int, m: int, q: seq int, l: int) {
  requires selection(a, n, n) && 0 <= m && m <= n && l == n - m && (forall j: int :: {q[j]} 0 <= j && j < l ==> q[j] == a[m+j]);
  use forall v: int :: {has(a, m, v)} {has(q, l, v)} pigeonhole(a, n, v);
  use forall v: int :: {has(a, m, v)} {has(q, l, v)} hasSplit(a, n, m, q, v);
  ensures halves(a, m, q, l, n);
  trigger {selection(a, n, n), halves(a, m, q, l, n)};
}
lemma selectionIntro(a: seq int, n: int, m: int) {
  requires m == n && (forall k: int :: {a[k]} 0 <= k && k < m ==> 0 <= a[k] && a[k] < n) && (forall i, k: int :: {a[i], a[k]} 0 <= i && i < k && k < m ==> a[i] != a[k]);
  ensures selection(a, m, n);
  trigger {selection(a, m, n)};
}
def pairKappa(st: seq ref, p: seq int, m: int, q: seq int, l: int, nc: int) = kappaOf(selOf(st, p, m), selLen(st, p, m), selOf(selNext(st, p, m), q, l), selLen(selNext(st, p, m), q, l), nc);
// after k samples, starting from state s, the state is t and the kappa values add up to total
spec sampled(s: seq ref, t: seq ref, total: real, k: int, n: int, nc: int): bool = if k <= 0 then t == s && total == 0.0
  else (exists t1: seq ref; total1: real; p: seq int; q: seq int :: {sampled(s, t1, total1, k-1, n, nc), halves(p, n/2, q, n - n/2, n)} sampled(s, t1, total1, k-1, n, nc) && halves(p, n/2, q, n - n/2, n)
    && total == total1 + pairKappa(t1, p, n/2, q, n - n/2, nc) && t == selNext(selNext(t1, p, n/2), q, n - n/2));
lemma sampledStep(s: seq ref, t: seq ref, total: real, k: int, n: int, nc: int, p: seq int, m: int, q: seq int, l: int, total2: real, j: int, t2: seq ref) {
  requires sampled(s, t, total, k, n, nc) && k >= 0 && j == k + 1 && m == n/2 && l == n - n/2 && halves(p, m, q, l, n) && t2 == selNext(selNext(t, p, m), q, l);
  requires total2 == total + pairKappa(t, p, m, q, l, nc);
  ensures sampled(s, t2, total2, j, n, nc);
  trigger {sampled(s, t, total, k, n, nc), selNext(selNext(t, p, m), q, l), sampled(s, t2, total2, j, n, nc)};
}
lemma sampledNone(s: seq ref, n: int, nc: int) { ensures sampled(s, s, 0.0, 0, n, nc); trigger {sampled(s, s, 0.0, 0, n, nc)}; }
func GetCohensKappa(numSamples, target) (mean) {
  hide sampled, selection, halves;
  requires target != nil && numSamples > 0;
  modifies list(target);
  ensures mean: exists total: real :: {sampled(old(lseq(target)), lseq(target), total, numSamples, rows(targetX(target)), cols(targetX(target)))}
    sampled(old(lseq(target)), lseq(target), total, numSamples, rows(targetX(target)), cols(targetX(target))) && mean == total / real(numSamples);
  loop 1 {
    invariant len(indices) == nr && fresh(indices);
    invariant forall k: int :: {indices[k]} 0 <= k && k < i ==> indices[k] == k;
  }
  loop 2 {
    invariant len(indices) == nr && fresh(indices);
    invariant permutation(indices, nr);
    invariant selection(arr(indices), nr, nr);
    invariant sampled(old(lseq(target)), lseq(target), kappa, i, nr, nc);
  }
  loop 3 {
    invariant len(indices) == nr && fresh(indices);
    invariant permutation(indices, nr);
    invariant selection(arr(indices), nr, nr);
  }
}
property C20 { verify CohenKappa, GetCohensKappa, ExistInt; lemmas kappaSymmetric, kappaSame, kappaAtMostOne, allCounted, symmetricCount, chanceSwap, pigeonhole; }
