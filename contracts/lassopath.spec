// C15: the path of coordinate-descent solutions.
// solved: b is what LassoCrdDesc returned for the problem at lamb (from some starting vector)
uninterp solved(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, b: seq real): bool;
// s and c list the entries of b that are not zero, in order
spec nonzeros(s: seq int, c: seq real, m: int, b: seq real, n: int): bool =
  if n <= 0 then m == 0
  else (if absr(b[n-1]) > 1e-16 then m > 0 && s[m-1] == n - 1 && c[m-1] == b[n-1] && nonzeros(s, c, m - 1, b, n - 1) else nonzeros(s, c, m, b, n - 1));
lemma nonzerosFrame(s: seq int, c: seq real, m: int, b: seq real, n: int, s2: seq int, c2: seq real) {
  requires m >= 0 && n >= 0 && nonzeros(s, c, m, b, n);
  requires forall i: int :: {s2[i]} 0 <= i && i < m ==> s2[i] == s[i];
  requires forall i: int :: {c2[i]} 0 <= i && i < m ==> c2[i] == c[i];
  ensures nonzeros(s2, c2, m, b, n);
  induct n; use nonzerosFrame(s, c, m - 1, b, n - 1, s2, c2); noauto;
}
lemma nonzerosRange(s: seq int, c: seq real, m: int, b: seq real, n: int) {
  requires n >= 0 && nonzeros(s, c, m, b, n);
  ensures m >= 0 && m <= n && (forall k: int :: {s[k]} 0 <= k && k < m ==> 0 <= s[k] && s[k] < n);
  induct n; use nonzerosRange(s, c, m - 1, b, n - 1); trigger {nonzeros(s, c, m, b, n)};
}
lemma nonzerosPush(s: seq int, c: seq real, m: int, b: seq real, n: int, s2: seq int, c2: seq real, k: int, d: int) {
  requires m >= 0 && n >= 0 && d == n + 1 && nonzeros(s, c, m, b, n);
  requires forall i: int :: {s2[i]} 0 <= i && i < m ==> s2[i] == s[i];
  requires forall i: int :: {c2[i]} 0 <= i && i < m ==> c2[i] == c[i];
  requires if absr(b[n]) > 1e-16 then k == m + 1 && s2[m] == n && c2[m] == b[n] else k == m;
  ensures nonzeros(s2, c2, k, b, d);
  use nonzerosFrame(s, c, m, b, n, s2, c2);
  trigger {nonzeros(s, c, m, b, n), nonzeros(s2, c2, k, b, d)};
}
spec entry(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, s: seq int, c: seq real, m: int, n: int): bool =
  exists b: seq real :: {solved(d, lamb, cov, maxIter, tol, corr, b)} solved(d, lamb, cov, maxIter, tol, corr, b) && nonzeros(s, c, m, b, n);
lemma entryIntro(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, s: seq int, c: seq real, m: int, n: int, b: seq real) {
  requires solved(d, lamb, cov, maxIter, tol, corr, b) && nonzeros(s, c, m, b, n);
  ensures entry(d, lamb, cov, maxIter, tol, corr, s, c, m, n);
  noauto;
}
lemma entryRange(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, s: seq int, c: seq real, m: int, n: int) {
  requires n >= 0 && entry(d, lamb, cov, maxIter, tol, corr, s, c, m, n);
  ensures 0 <= m && m <= n && (forall k: int :: {s[k]} 0 <= k && k < m ==> 0 <= s[k] && s[k] < n);
  trigger {entry(d, lamb, cov, maxIter, tol, corr, s, c, m, n)};
}
// the correction does not depend on what it was told of the iterations (the goroutines share it)
def stateless(corr: LassoCorrection) = forall s: seq seq real; t: seq seq real; b: seq real; j: int :: {derivf(corr, s, b, j), derivf(corr, t, b, j)} derivf(corr, s, b, j) == derivf(corr, t, b, j);
def pathNode(l: *LassoLarsNode, d: *NormalizedData, lamb: real, cov: CovMat, maxIter: int, tol: real, corr: LassoCorrection) =
  l != nil && l.Lamb == lamb && len(l.Coeff) == len(l.Selection) && entry(d, lamb, cov, maxIter, tol, corr, arr(l.Selection), arr(l.Coeff), len(l.Selection), cols(d.X));
def placed(l: *LassoLarsNode) = allocated(l) && allocated(l.Coeff) && allocated(l.Selection);
func PerformLassoCrd(workload, res) {
  ghostparam shared: LassoCorrection;
  requires shared != nil;
  chan workload job: msg.corr == shared && msg.dset != nil && msg.dset.X != nil && msg.cov != nil && shared != msg.dset.X && rows(msg.dset.X) > 0 && cols(msg.dset.X) > 0 && rows(msg.dset.X) == len(msg.dset.y);
  relay workload res key lambIdx answer: placed(out.node) && pathNode(out.node, in.dset, in.lamb, in.cov, in.maxIter, in.tol, in.corr);
  modifies matc(shared);
  hide nonzeros;
  loop 2 {
    invariant listed: len(selection) == len(selectedCoeff) && nonzeros(arr(selection), arr(selectedCoeff), len(selection), arr(coeff), $i);
  }
  loop 1 {
    behind NewLassoLarsNode use nonzerosFrame(arr(selection), arr(selectedCoeff), len(selection), arr(coeff), len(coeff), arr(node.Selection), arr(node.Coeff));
    behind NewLassoLarsNode use entryIntro(wrk.dset, wrk.lamb, wrk.cov, wrk.maxIter, wrk.tol, wrk.corr, arr(node.Selection), arr(node.Coeff), len(node.Selection), cols(wrk.dset.X), arr(coeff));
  }
}
lemma nonzerosNone(s: seq int, c: seq real, m: int, b: seq real, n: int) {
  requires n <= 0;
  ensures nonzeros(s, c, m, b, n) <==> m == 0;
  trigger {nonzeros(s, c, m, b, n)};
}
lemma cntAll(a: seq bool, n: int, k: int) { requires 0 <= k && k < n && cnt(a, n) >= n; ensures a[k]; induct n; trigger {cnt(a, n), a[k]}; }
spec emptySolution(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, n: int): bool =
  exists b: seq real :: {solved(d, lamb, cov, maxIter, tol, corr, b)} solved(d, lamb, cov, maxIter, tol, corr, b) && (forall j: int :: {b[j]} 0 <= j && j < n ==> absr(b[j]) <= 1e-16);
lemma nonzerosEmpty(s: seq int, c: seq real, b: seq real, n: int) {
  requires n >= 0 && nonzeros(s, c, 0, b, n);
  ensures forall j: int :: {b[j]} 0 <= j && j < n ==> absr(b[j]) <= 1e-16;
  induct n; trigger {nonzeros(s, c, 0, b, n)};
}
lemma entryEmpty(d: ref, lamb: real, cov: ref, maxIter: int, tol: real, corr: ref, s: seq int, c: seq real, m: int, n: int) {
  requires n >= 0 && m == 0 && entry(d, lamb, cov, maxIter, tol, corr, s, c, m, n);
  ensures emptySolution(d, lamb, cov, maxIter, tol, corr, n);
  trigger {entry(d, lamb, cov, maxIter, tol, corr, s, c, m, n)};
}
func LassoCrdDescPath(dset, cov, lambs, maxIter, tol, correction) (path) {
  requires dset != nil && dset.X != nil && cov != nil && correction != nil && correction != dset.X && stateless(correction);
  requires shape: rows(dset.X) > 0 && cols(dset.X) > 0 && rows(dset.X) == len(dset.y);
  spawn PerformLassoCrd {
    ghost shared = correction;
    sends own: msg.dset == dset && msg.lamb == lambs[msg.lambIdx] && msg.cov == cov && msg.maxIter == maxIter && msg.tol == tol && msg.corr == correction;
  }
  modifies matc(correction);
  hide nonzeros, entry, emptySolution;
  ensures count: len(path) <= len(lambs) && (len(lambs) > 0 ==> len(path) > 0);
  ensures each: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> path[k] != nil && pathNode(path[k], dset, lambs[len(path)-1-k], cov, maxIter, tol, correction);
  ensures dropped: forall k: int :: {lambs[k]} len(path) <= k && k < len(lambs) ==> emptySolution(dset, lambs[k], cov, maxIter, tol, correction, cols(dset.X));
  ensures first: len(path) < len(lambs) ==> len(path[0].Selection) > 0;
  ensures none: len(path) > 0 && len(path[0].Selection) == 0 ==> (forall k: int :: {path[k]} 0 <= k && k < len(path) ==> len(path[k].Selection) == 0);
  loop 1 {
    invariant sizes: len(availableLambs) == len(lambs) && fresh(availableLambs) && len(nodes) == len(lambs) && fresh(nodes) && len(x0) == cols(dset.X);
    invariant backwards: forall k: int :: {availableLambs[k]} 0 <= k && k < i ==> availableLambs[k] == len(lambs) - k - 1;
  }
  loop 2 {
    invariant sizes: len(availableLambs) == len(lambs) - i && i <= len(lambs) && fresh(availableLambs) && len(nodes) == len(lambs) && fresh(nodes) && len(x0) == cols(dset.X) && numWorkers <= len(lambs);
    invariant backwards: off(availableLambs) >= 0 && off(availableLambs) + len(availableLambs) == len(lambs) && (forall k: int :: {arr(availableLambs)[k]} 0 <= k && k < len(lambs) ==> arr(availableLambs)[k] == len(lambs) - k - 1);
    invariant waiting: forall k: int :: {outstanding(PerformLassoCrd)[k]} outstanding(PerformLassoCrd)[k] ==> len(availableLambs) <= k && k < len(lambs);
    invariant busy: pending(PerformLassoCrd) == i && workers(PerformLassoCrd) == i;
    invariant unanswered: forall k: int :: {answered(PerformLassoCrd)[k]} !answered(PerformLassoCrd)[k];
  }
  loop 3 {
    invariant sizes: len(availableLambs) <= len(lambs) && fresh(availableLambs) && len(nodes) == len(lambs) && fresh(nodes);
    invariant backwards: off(availableLambs) >= 0 && off(availableLambs) + len(availableLambs) == len(lambs) && (forall k: int :: {arr(availableLambs)[k]} 0 <= k && k < len(lambs) ==> arr(availableLambs)[k] == len(lambs) - k - 1);
    invariant waiting: forall k: int :: {outstanding(PerformLassoCrd)[k]} outstanding(PerformLassoCrd)[k] ==> len(availableLambs) <= k && k < len(lambs) && !answered(PerformLassoCrd)[k];
    invariant answers: forall k: int :: {answered(PerformLassoCrd)[k]} answered(PerformLassoCrd)[k] ==> len(availableLambs) <= k && k < len(lambs);
    invariant busy: pending(PerformLassoCrd) + numReceive + len(availableLambs) == len(lambs) && pending(PerformLassoCrd) <= workers(PerformLassoCrd) && (len(availableLambs) > 0 ==> pending(PerformLassoCrd) > 0);
    invariant counted: numReceive == cnt(answered(PerformLassoCrd), len(lambs));
    invariant placed: forall k: int :: {answered(PerformLassoCrd)[k]} answered(PerformLassoCrd)[k] ==> nodes[len(lambs)-1-k] != nil && placed(nodes[len(lambs)-1-k]);
    invariant solved: forall k: int :: {answered(PerformLassoCrd)[k]} answered(PerformLassoCrd)[k] ==> pathNode(nodes[len(lambs)-1-k], dset, lambs[k], cov, maxIter, tol, correction);
    invariant best: len(availableLambs) == 0 || (highestInserted == 0 && numReceive == 0) || (0 <= highestInserted && highestInserted < len(lambs) && answered(PerformLassoCrd)[len(lambs)-1-highestInserted]);
    after all: forall k: int :: {nodes[k]} 0 <= k && k < len(lambs) ==> answered(PerformLassoCrd)[len(lambs)-1-k];
    after values: forall k: int :: {lambs[k]} 0 <= k && k < len(lambs) ==> nodes[len(lambs)-1-k] != nil && pathNode(nodes[len(lambs)-1-k], dset, lambs[k], cov, maxIter, tol, correction);
    after nodes: forall k: int :: {nodes[k]} 0 <= k && k < len(lambs) ==> nodes[k] != nil && pathNode(nodes[k], dset, lambs[len(lambs)-1-k], cov, maxIter, tol, correction);
  }
  loop 4 {
    invariant start: len(wrk.x0) == cols(dset.X) && fresh(wrk.x0);
  }
  loop 5 {
    invariant empty: forall k: int :: {nodes[k]} 0 <= k && k < $i ==> len(nodes[k].Selection) == 0;
    invariant zero: firstModelWithFeatures == 0;
  }
}
