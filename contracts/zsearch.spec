// C07: the branch-and-bound search. fitRes stands for the fitResual of the fit to the columns of a selection: regular says
// that it is determined by the selection, positive, smaller for larger selections, and the criterion a number in range.
uninterp fitRes(S: seq bool, n: int, X: seq seq real, nr: int, y: seq real): real;
spec crit(S: seq bool, n: int, X: seq seq real, nr: int, y: seq real): real = aiccOf(cnt(S, n), nr, fitRes(S, n, X, nr, y));
spec within(a: seq bool, b: seq bool, n: int): bool = forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> (a[i] ==> b[i]);
spec regular(n: int, X: seq seq real, nr: int, y: seq real): bool =
  (forall m: seq bool; D: seq seq real; c: seq real :: {isDesign(D, m, n, X, nr), isFit(D, nr, cnt(m, n), y, c)} cnt(m, n) > 0 && isDesignFit(m, n, X, nr, y, c, D) ==> rssOf(D, c, y, cnt(m, n), nr) == fitRes(m, n, X, nr, y))
  && (forall a, b: seq bool :: {fitRes(a, n, X, nr, y), fitRes(b, n, X, nr, y)} cnt(a, n) > 0 && within(a, b, n) ==> 0.0 < fitRes(b, n, X, nr, y) && fitRes(b, n, X, nr, y) <= fitRes(a, n, X, nr, y))
  && (forall a: seq bool :: {crit(a, n, X, nr, y)} cnt(a, n) > 0 ==> -1e100 < crit(a, n, X, nr, y) && crit(a, n, X, nr, y) < 1e300);
lemma aiccLower(kl: int, k: int, n: int, rg: real, r: real) {
  requires 0 <= kl && kl <= k && k <= n - 1;
  requires 0.0 < rg && rg <= r;
  ensures aiccOf(kl, n, rg) <= aiccOf(k, n, r);
  noauto;
}
lemma critSame(S: seq bool, m: seq bool, n: int, X: seq seq real, nr: int, y: seq real) {
  requires n >= 0 && regular(n, X, nr, y) && same(S, m, n) && cnt(m, n) > 0;
  ensures crit(S, n, X, nr, y) == crit(m, n, X, nr, y) && cnt(S, n) == cnt(m, n);
  use cntFrame(S, m, n);
  trigger {crit(S, n, X, nr, y), crit(m, n, X, nr, y)};
}
spec bounding(S: seq bool, m: seq bool, start: int, n: int): bool = true;
lemma between(S: seq bool, g: seq bool, l: seq bool, m: seq bool, start: int, n: int) {
  requires 0 <= start && start <= n && same(S, m, start) && isGcs(g, m, start, n) && isLcs(l, m, start, n);
  ensures cnt(l, n) <= cnt(S, n) && cnt(S, n) <= cnt(g, n) && within(S, g, n);
  use completionCount(g, l, S, m, start, n);
  noauto;
}
lemma fitted(S: seq bool, m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, r: real, start: int, m2: seq bool) {
  requires regular(n, X, nr, y) && cnt(m, n) > 0 && fitRss(m, n, X, nr, y, r);
  ensures r == fitRes(m, n, X, nr, y);
  noauto;
}
lemma boundOne(S: seq bool, g: seq bool, l: seq bool, m: seq bool, n: int, start: int, X: seq seq real, nr: int, y: seq real, rg: real) {
  requires 0 <= start && start <= n && n < nr && cnt(S, n) > 0;
  requires regular(n, X, nr, y) && same(S, m, start) && isGcs(g, m, start, n) && isLcs(l, m, start, n) && fitRss(g, n, X, nr, y, rg);
  ensures aiccOf(cnt(l, n), nr, rg) <= crit(S, n, X, nr, y);
  use between(S, g, l, m, start, n); use fitted(S, g, n, X, nr, y, rg, start, m); use aiccLower(cnt(l, n), cnt(S, n), nr, rg, fitRes(S, n, X, nr, y));
  trigger {cnt(g, n), cnt(l, n), logf(rg), bounding(S, m, start, n), regular(n, X, nr, y)};
}
lemma boundHolds0(S: seq bool, lower: real, upper: real, m: seq bool, n: int, start: int, X: seq seq real, nr: int, y: seq real, ny: int) {
  requires 0 <= start && start <= n && n < nr && ny == nr;
  requires regular(n, X, nr, y);
  requires same(S, m, start) && cnt(S, n) > 0 && bounding(S, m, start, n);
  requires boundsOf(lower, upper, m, n, start, X, nr, y, ny, true);
  ensures lower <= crit(S, n, X, nr, y);
  noauto;
}
// a lower bound is one for every selection that agrees with the decided features
lemma boundHolds(S: seq bool, lower: real, upper: real, m: seq bool, n: int, start: int, X: seq seq real, nr: int, y: seq real, ny: int) {
  requires 0 <= start && start <= n && n < nr && ny == nr;
  requires regular(n, X, nr, y);
  requires same(S, m, start) && cnt(S, n) > 0;
  requires boundsOf(lower, upper, m, n, start, X, nr, y, ny, true);
  ensures lower <= crit(S, n, X, nr, y);
  use boundHolds0(S, lower, upper, m, n, start, X, nr, y, ny);
  trigger {sel(S), boundsOf(lower, upper, m, n, start, X, nr, y, ny, true)};
}
lemma ownScore(m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, co: seq real, score: real) {
  requires regular(n, X, nr, y) && cnt(m, n) > 0 && ownFit(m, n, X, nr, y, co, score);
  ensures score == -crit(m, n, X, nr, y);
  trigger {regular(n, X, nr, y), ownFit(m, n, X, nr, y, co, score)};
}
lemma fullCounts(n: int, X: seq seq real, nr: int, y: seq real) { requires n >= 1; ensures cnt(constseq(true), n) >= 1 && sel(constseq(true)); use cntPos(constseq(true), n, 0); trigger {regular(n, X, nr, y)}; }
def best(h: *Highscore, S: seq bool, X: mat.Matrix, y: []real) = llen(h.Items) > 0 && hscore(h, 0) >= -crit(S, cols(X), cont(X), rows(X), arr(y));
def treeNode7(p: *Node, X: mat.Matrix, y: []real, h: *Highscore) = newfrom(p) && newfrom(p.Model) && len(p.Model) == cols(X) && 0 <= p.Level && p.Level < cols(X)
  && (cnt(arr(p.Model), cols(X)) > 0 ==> best(h, arr(p.Model), X, y));
def listed7(p: *Node, X: mat.Matrix, y: []real) = newfrom(p) && newfrom(p.Model) && (if cnt(arr(p.Model), cols(X)) > 0 then newfrom(p.Coeff) && nodeFit(p, X, y) else p.Score == -MaxFloat64);
// a selection that is yet to come below the node
def below(S: seq bool, p: *Node) = same(S, arr(p.Model), p.Level);
func SelectModel(X, y, highscore, sp, params) {
  requires data: cols(X) >= 3 && cols(X) < rows(X) && len(y) == rows(X) && regular(cols(X), cont(X), rows(X), arr(y));
  requires list: hsWF(highscore) && hsOrdered(highscore) && hsBounded(highscore) && llen(highscore.Items) == 0 && lockstate(highscore.rwlock) == 0;
  requires progress: sp != nil && lockstate(sp.rwlock) == 0 && (forall bs: real; ne: int; np: real :: {isUpdate(as(ref, sp), bs, ne, np)} isUpdate(as(ref, sp), bs, ne, np));
  requires root: params != nil && params.RootModel != nil ==> len(params.RootModel) == cols(X);
  requires cap: params != nil ==> params.MaxQueueSize >= 0;
  requires noCutoff: params != nil ==> params.Cutoff <= 0.0;
  requires noLimit: forall k: int :: {queueCut(k)} queueCut(k) ==> k <= (if params == nil then 10000000000 else params.MaxQueueSize);
  modifies list(highscore.Items), lock(highscore.rwlock), params.RootModel, sp.BestScore, sp.NumExplored, sp.Log2NumPruned, lock(sp.rwlock);
  ensures wf: hsWF(highscore) && hsOrdered(highscore) && hsBounded(highscore) && lockstate(highscore.rwlock) == 0;
  ensures optimal: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, cols(X)) > 0 ==> best(highscore, S, X, y);
  ensures listed: forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> (if cnt(arr(hnode(highscore, i).Model), cols(X)) > 0 then nodeFit(hnode(highscore, i), X, y) else hscore(highscore, i) == -MaxFloat64);
  ensures found: llen(highscore.Items) > 0 && cnt(arr(hnode(highscore, 0).Model), cols(X)) > 0;
  hide boundsOf, isDesign, isFit, isDesignFit, logMonotone, cntAll, cntPos;
  spawn ScoreWorker { }
  spawn CreateChildNodes { }
  loop 3 {
    paths;
    invariant wf: hsWF(highscore) && hsOrdered(highscore) && hsBounded(highscore) && lockstate(highscore.rwlock) == 0 && lockstate(sp.rwlock) == 0;
    invariant queue: qWF(queue) && fresh(queue) && queue != highscore.Items;
    invariant kept: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    invariant scores: forall p: *Node :: {p.Score} old(allocated(p)) ==> p.Score == old(p.Score);
    invariant coeffs: forall p: *Node :: {p.Coeff} old(allocated(p)) ==> p.Coeff == old(p.Coeff);
    invariant count: numInProgress == pending(CreateChildNodes);
    invariant nodes: forall i: int :: {lseq(queue)[i]} 0 <= i && i < llen(queue) ==> treeNode7(qnode(queue, i), X, y, highscore)
       && childBounds(qnode(queue, i).Lower, qnode(queue, i).Upper, arr(qnode(queue, i).Model), cols(X), qnode(queue, i).Level, X, y)
       && !outstanding(CreateChildNodes)[ref(qnode(queue, i))][0] && !outstanding(CreateChildNodes)[ref(qnode(queue, i))][1];
    invariant apart: forall i, j: int :: {lseq(queue)[i], lseq(queue)[j]} 0 <= i && i < j && j < llen(queue) ==> qnode(queue, i) != qnode(queue, j);
    invariant asked: forall p: ref; k: int :: {outstanding(CreateChildNodes)[p][k]} outstanding(CreateChildNodes)[p][k] ==> as(*Node, p) != nil && allocated(as(*Node, p)) && treeNode7(as(*Node, p), X, y, highscore);
    invariant listed: forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> listed7(hnode(highscore, i), X, y);
    onbreak wf: hsWF(highscore) && hsOrdered(highscore) && hsBounded(highscore) && lockstate(highscore.rwlock) == 0 && lockstate(sp.rwlock) == 0;
    onbreak kept: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    onbreak scores: forall p: *Node :: {p.Score} old(allocated(p)) ==> p.Score == old(p.Score);
    onbreak coeffs: forall p: *Node :: {p.Coeff} old(allocated(p)) ==> p.Coeff == old(p.Coeff);
    onbreak answered: llen(queue) == 0 && (forall p: ref; k: int :: {outstanding(CreateChildNodes)[p][k]} !outstanding(CreateChildNodes)[p][k]);
    onbreak listed: forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> listed7(hnode(highscore, i), X, y);
    onbreak optimal: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, cols(X)) > 0 ==> best(highscore, S, X, y);
    invariant covered: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, cols(X)) > 0 ==> best(highscore, S, X, y)
       || (exists i: int :: {lseq(queue)[i]} 0 <= i && i < llen(queue) && below(S, qnode(queue, i)))
       || (exists p: ref; k: int :: {outstanding(CreateChildNodes)[p][k]} outstanding(CreateChildNodes)[p][k] && below(S, as(*Node, p)) && (k == 1 <==> S[as(*Node, p).Level] != as(*Node, p).Model[as(*Node, p).Level]));
  }
}
property C07 {
  verify SelectModel, CreateChildNodes, ScoreWorker, CreateChild, CleanQueue, Highscore.Insert, Highscore.BestScore, NewNode, Node.GetChildNode, NumFeatures, GetDesignMatrix, Fit, Rss, Aicc, BoundsAICC, Gcs, Lcs, SearchProgress.Set;
  lemmas aiccLower, critSame, between, fitted, boundOne, boundHolds0, boundHolds, ownScore, fullCounts, completionCount, cntFrame, cntPos;
}
