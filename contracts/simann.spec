// C24: simulated annealing
axiom expZero "exp(0) is 1" = expf(0.0) == 1.0;
extern rand.Intn(n) (r) { requires n > 0; ensures 0 <= r && r < n; }
extern rand.Float64() (r) { ensures 0.0 <= r && r < 1.0; }
lemma cntSet(m: seq bool, i: int, b: bool, n: int) {
  requires n >= 0 && 0 <= i;
  ensures cnt(set(m, i, b), n) == cnt(m, n) + (if i < n then (if b then 1 else 0) - (if m[i] then 1 else 0) else 0);
  induct n; trigger {cnt(set(m, i, b), n)};
}
// the k-th marked position
spec pick(m: seq bool, n: int, k: int): int = if n <= 0 then -1 else if m[n-1] && cnt(m, n-1) == k then n-1 else pick(m, n-1, k);
lemma pickOk(m: seq bool, n: int, k: int) {
  requires n >= 0 && 0 <= k && k < cnt(m, n);
  ensures 0 <= pick(m, n, k) && pick(m, n, k) < n && m[pick(m, n, k)] && cnt(m, pick(m, n, k)) == k;
  induct n; trigger {pick(m, n, k)};
}
// two matrices with the same entries
spec agree(D: seq seq real, E: seq seq real, nr: int, nc: int): bool = forall i, k: int :: {D[i][k]} {E[i][k]} 0 <= i && i < nr && 0 <= k && k < nc ==> D[i][k] == E[i][k];
axiom svdEntries "the singular value decomposition depends on the entries of the matrix alone" = forall D, E: seq seq real; nr, nc: int :: {agree(D, E, nr, nc)} agree(D, E, nr, nc) ==>
  svdU(D, nr, nc) == svdU(E, nr, nc) && svdS(D, nr, nc) == svdS(E, nr, nc) && svdV(D, nr, nc) == svdV(E, nr, nc);
lemma rssAgree(D: seq seq real, E: seq seq real, c: seq real, d: seq real, y: seq real, nc: int, nr: int) {
  requires nr >= 0 && nc >= 0;
  requires forall i, k: int :: {D[i][k]} {E[i][k]} 0 <= i && i < nr && 0 <= k && k < nc ==> D[i][k] == E[i][k];
  requires forall k: int :: {c[k]} {d[k]} 0 <= k && k < nc ==> c[k] == d[k];
  use dotrFrame(D[nr-1], c, E[nr-1], d, nc);
  ensures rssOf(D, c, y, nc, nr) == rssOf(E, d, y, nc, nr);
  induct nr; noauto;
}
lemma fitAgree(D: seq seq real, E: seq seq real, c: seq real, d: seq real, y: seq real, nc: int, nr: int) {
  requires nr >= 0 && nc >= 0 && agree(D, E, nr, nc) && isFit(D, nr, nc, y, c) && isFit(E, nr, nc, y, d);
  use rssAgree(D, E, c, d, y, nc, nr);
  ensures (forall k: int :: {c[k]} {d[k]} 0 <= k && k < nc ==> c[k] == d[k]);
  ensures rssOf(D, c, y, nc, nr) == rssOf(E, d, y, nc, nr);
  trigger {isFit(D, nr, nc, y, c), isFit(E, nr, nc, y, d)};
}
lemma designAgree(D: seq seq real, E: seq seq real, m: seq bool, p: seq bool, n: int, X: seq seq real, nr: int) {
  requires n >= 0 && isDesign(D, m, n, X, nr) && isDesign(E, p, n, X, nr);
  requires forall i: int :: {m[i]} {p[i]} 0 <= i && i < n ==> m[i] == p[i];
  use cntFrame(m, p, n);
  ensures forall i, k: int :: {D[i][k]} {E[i][k]} 0 <= i && i < nr && 0 <= k && k < cnt(m, n) ==> D[i][k] == X[i][pick(m, n, k)] && E[i][k] == X[i][pick(m, n, k)];
  ensures agree(D, E, nr, cnt(m, n)) && cnt(m, n) == cnt(p, n);
  trigger {isDesign(D, m, n, X, nr), isDesign(E, p, n, X, nr)};
}
lemma designFrame(D: seq seq real, m: seq bool, p: seq bool, n: int, X: seq seq real, nr: int) {
  requires n >= 0 && isDesign(D, m, n, X, nr);
  requires forall i: int :: {m[i]} {p[i]} 0 <= i && i < n ==> m[i] == p[i];
  ensures isDesign(D, p, n, X, nr);
  trigger {isDesign(D, m, n, X, nr), cnt(p, n)};
}
// the criterion of model m is v: c are the least-squares coefficients of exactly its columns
spec okState(m: seq bool, n: int, c: seq real, v: real, X: seq seq real, nr: int, y: seq real, cost: crit): bool =
  exists D: seq seq real :: {isDesign(D, m, n, X, nr)} isDesign(D, m, n, X, nr) && isFit(D, nr, cnt(m, n), y, c) && v == apply(cost, cnt(m, n), nr, maxr(rssOf(D, c, y, cnt(m, n), nr), 1e-12));
// the same for an ascending list of columns
spec isColumns(D: seq seq real, s: seq int, ns: int, X: seq seq real, nr: int): bool = forall i, k: int :: {D[i][k]} 0 <= i && i < nr && 0 <= k && k < ns ==> D[i][k] == X[i][s[k]];
spec okModel(s: seq int, ns: int, c: seq real, v: real, X: seq seq real, nr: int, nc: int, y: seq real, cost: crit): bool =
  ns > 0 && 2 * ns < nr && (forall k: int :: {s[k]} 0 <= k && k < ns ==> 0 <= s[k] && s[k] < nc) && (forall i, k: int :: {s[i], s[k]} 0 <= i && i < k && k < ns ==> s[i] < s[k])
  && (exists D: seq seq real :: {isColumns(D, s, ns, X, nr)} isColumns(D, s, ns, X, nr) && isFit(D, nr, ns, y, c) && v == apply(cost, ns, nr, maxr(rssOf(D, c, y, ns, nr), 1e-12)));

lemma stateDet(m: seq bool, p: seq bool, n: int, c: seq real, d: seq real, v: real, w: real, X: seq seq real, nr: int, y: seq real, cost: crit) {
  requires n >= 0 && nr >= 0 && okState(m, n, c, v, X, nr, y, cost) && okState(p, n, d, w, X, nr, y, cost);
  requires forall i: int :: {m[i]} {p[i]} 0 <= i && i < n ==> m[i] == p[i];
  ensures v == w;
  trigger {okState(m, n, c, v, X, nr, y, cost), okState(p, n, d, w, X, nr, y, cost)};
}
lemma modelDet(s: seq int, t: seq int, ns: int, c: seq real, d: seq real, v: real, w: real, X: seq seq real, nr: int, nc: int, y: seq real, cost: crit) {
  requires nr >= 0 && okModel(s, ns, c, v, X, nr, nc, y, cost) && okModel(t, ns, d, w, X, nr, nc, y, cost);
  requires forall i: int :: {s[i]} {t[i]} 0 <= i && i < ns ==> s[i] == t[i];
  ensures v == w;
  trigger {okModel(s, ns, c, v, X, nr, nc, y, cost), okModel(t, ns, d, w, X, nr, nc, y, cost)};
}
lemma stateFrame(m: seq bool, p: seq bool, n: int, c: seq real, d: seq real, v: real, X: seq seq real, nr: int, y: seq real, cost: crit) {
  requires n >= 0 && nr >= 0 && okState(m, n, c, v, X, nr, y, cost);
  requires forall i: int :: {m[i]} {p[i]} 0 <= i && i < n ==> m[i] == p[i];
  requires forall k: int :: {c[k]} {d[k]} 0 <= k && k < cnt(m, n) ==> c[k] == d[k];
  use cntFrame(m, p, n);
  ensures okState(p, n, d, v, X, nr, y, cost);
  trigger {okState(m, n, c, v, X, nr, y, cost), okState(p, n, d, v, X, nr, y, cost)};
}
spec selTag(s: seq int): bool = true;
lemma designColumns(D: seq seq real, m: seq bool, n: int, X: seq seq real, nr: int, s: seq int) {
  requires n >= 0 && isDesign(D, m, n, X, nr);
  requires forall k: int :: {s[k]} 0 <= k && k < cnt(m, n) ==> 0 <= s[k] && s[k] < n && m[s[k]] && cnt(m, s[k]) == k;
  ensures isColumns(D, s, cnt(m, n), X, nr);
  trigger {isDesign(D, m, n, X, nr), selTag(s)};
}
lemma stateModel(m: seq bool, n: int, s: seq int, ns: int, c: seq real, d: seq real, v: real, w: real, X: seq seq real, nr: int, nc: int, y: seq real, cost: crit) {
  requires selTag(s) && v == w && ns == cnt(m, n);
  requires n >= 0 && nr >= 0 && n <= nc && okState(m, n, c, v, X, nr, y, cost) && ns > 0 && 2 * ns < nr;
  requires forall k: int :: {s[k]} 0 <= k && k < ns ==> 0 <= s[k] && s[k] < n && m[s[k]] && cnt(m, s[k]) == k;
  requires forall k: int :: {c[k]} {d[k]} 0 <= k && k < ns ==> c[k] == d[k];
  ensures okModel(s, ns, d, w, X, nr, nc, y, cost);
  trigger {okState(m, n, c, v, X, nr, y, cost), okModel(s, ns, d, w, X, nr, nc, y, cost)};
}
lemma modelFrame(s: seq int, t: seq int, ns: int, c: seq real, d: seq real, v: real, w: real, X: seq seq real, nr: int, nc: int, y: seq real, cost: crit) {
  requires nr >= 0 && okModel(s, ns, c, v, X, nr, nc, y, cost);
  requires forall i: int :: {s[i]} {t[i]} 0 <= i && i < ns ==> s[i] == t[i];
  requires forall k: int :: {c[k]} {d[k]} 0 <= k && k < ns ==> c[k] == d[k];
  requires v == w;
  ensures okModel(t, ns, d, w, X, nr, nc, y, cost);
  trigger {okModel(s, ns, c, v, X, nr, nc, y, cost), okModel(t, ns, d, w, X, nr, nc, y, cost)};
}

lemma stateIntro(D: seq seq real, m: seq bool, n: int, k: int, c: seq real, v: real, X: seq seq real, nr: int, y: seq real, cost: crit) {
  requires n >= 0 && nr >= 0 && isDesign(D, m, n, X, nr) && k == cnt(m, n) && isFit(D, nr, k, y, c) && v == apply(cost, k, nr, maxr(rssOf(D, c, y, k, nr), 1e-12));
  ensures okState(m, n, c, v, X, nr, y, cost);
  trigger {isDesign(D, m, n, X, nr), isFit(D, nr, k, y, c), okState(m, n, c, v, X, nr, y, cost)};
}
def okItem(it: *SAItem, X: seq seq real, nr: int, nc: int, y: seq real, cost: crit) = okModel(arr(it.Selection), len(it.Selection), arr(it.Coeff), -it.Score, X, nr, nc, y, cost) && len(it.Coeff) == len(it.Selection);
spec scoreTag(v: real): bool = true;
func SelectModelSA(X, y, nSweeps, cost) (res) {
  requires X != nil && rows(X) >= 3 && cols(X) > 0 && len(y) == rows(X);
  requires costs: forall m: seq bool; c: seq real; v: real :: {okState(m, cols(X), c, v, cont(X), rows(X), arr(y), cost)} okState(m, cols(X), c, v, cont(X), rows(X), arr(y), cost) ==> v < 1.7976931348623157e308;
  hide okState, okModel, isDesign, isFit;
  ensures selection: len(res.Selected) > 0 && ascending(res.Selected) && inRange(res.Selected, cols(X)) && 2 * len(res.Selected) < rows(X) && len(res.Coeff) == len(res.Selected);
  ensures coefficients: exists v: real :: {scoreTag(v)} scoreTag(v) && okModel(arr(res.Selected), len(res.Selected), arr(res.Coeff), v, cont(X), rows(X), cols(X), arr(y), cost)
     && len(res.Scores.Items) > 0 && res.Scores.BestItem.Score >= -v;
  ensures list: forall i: int :: {res.Scores.Items[i]} 0 <= i && i < len(res.Scores.Items) ==> okItem(res.Scores.Items[i], cont(X), rows(X), cols(X), arr(y), cost);
  ensures best: saBest(res.Scores);
  loop 1 {
    after tag: scoreTag(currentScore);
    behind cost state: okState(arr(current), nc, arr(coeffTemp), score, old(cont(X)), nr, arr(y), cost);
    behind Insert item: okItem(item, old(cont(X)), nr, nc, arr(y), cost);
    invariant fresh(current) && fresh(coeff) && len(current) == nc && len(coeff) == nc && nr == rows(X) && nc == cols(X);
    invariant number: 1 <= cnt(arr(current), nc) && 2 * cnt(arr(current), nc) < nr;
    invariant numSteps >= 0 && (numSteps > 0 ==> len(res.Scores.Items) > 0);
    invariant temp > 0.0;
    invariant res.Scores != nil && fresh(res.Scores) && res.Scores.Cap == 10;
    invariant own: fresh(res.Scores) && newfrom(res.Scores.Items) && (len(res.Scores.Items) == 0 ==> res.Scores.WorstItem == nil) && (len(res.Scores.Items) > 0 ==> fresh(res.Scores.WorstItem));
    invariant ownItems: forall i: int :: {res.Scores.Items[i]} 0 <= i && i < len(res.Scores.Items) ==> fresh(res.Scores.Items[i]);
    invariant first: len(res.Scores.Items) == 0 ==> currentScore == 1.7976931348623157e308;
    invariant state: len(res.Scores.Items) > 0 ==> okState(arr(current), nc, arr(coeff), currentScore, old(cont(X)), nr, arr(y), cost);
    invariant wf: saWF(res.Scores);
    invariant distinct: saDistinct(res.Scores);
    invariant worst: saWorst(res.Scores);
    invariant best: saBest(res.Scores);
    invariant items: forall i: int :: {res.Scores.Items[i]} 0 <= i && i < len(res.Scores.Items) ==> ref(res.Scores.Items[i].Coeff) != ref(coeff) && okItem(res.Scores.Items[i], old(cont(X)), nr, nc, arr(y), cost);
    invariant atLeast: len(res.Scores.Items) > 0 ==> res.Scores.BestItem.Score >= -currentScore;
  }
  loop 2 {
    invariant counter == cnt(arr(current), i);
    invariant len(res.Selected) == cnt(arr(current), len(current)) && fresh(res.Selected);
    invariant forall j: int :: {current[j]} 0 <= j && j < i && current[j] ==> res.Selected[cnt(arr(current), j)] == j;
    invariant forall k: int :: {res.Selected[k]} 0 <= k && k < counter ==> 0 <= res.Selected[k] && res.Selected[k] < len(current) && current[res.Selected[k]] && cnt(arr(current), res.Selected[k]) == k;
  }
}
property C24 { verify SelectModelSA, NewSAItem, NewSAScore, SAScore.Insert, SAScore.Exists, GetDesignMatrix, NumFeatures;
  lemmas cntSet, pickOk, rssAgree, fitAgree, designAgree, designFrame, stateDet, modelDet, stateFrame, designColumns, stateModel, modelFrame, stateIntro; }
