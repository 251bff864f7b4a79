// C04: the exhaustive search. What is still to come of the queue and what is already listed are sums over the lists.
spec pow2(k: int): int = if k <= 0 then 1 else 2 * pow2(k-1);
lemma pow2Pos(k: int) { ensures pow2(k) >= 1; induct k; trigger {pow2(k)}; }
spec same(a: seq bool, b: seq bool, n: int): bool = forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i];
spec blank(m: seq bool, lev: int, n: int): bool = forall j: int :: {m[j]} lev <= j && j < n ==> !m[j];
spec none(k: int): seq bool = constseq(false);
spec sel(S: seq bool): bool = true;
lemma cntNone(m: seq bool, n: int) { requires n >= 0; requires forall i: int :: {m[i]} 0 <= i && i < n ==> !m[i]; ensures cnt(m, n) == 0; induct n; trigger {cnt(m, n)}; }
// weight of a node at the given level with model m (no marks from the level on):
// 0: how many selections it stands for, 1: whether it stands for selection S, 2: whether it is S
spec wt(k: int, S: seq bool, n: int, lev: int, fl: bool, m: seq bool): int =
  if k == 0 then pow2(n - lev) - (if fl then 0 else 1)
  else (if k == 1 then (if same(S, m, lev) && (fl || !same(S, m, n)) then 1 else 0)
  else (if same(S, m, n) then 1 else 0));
lemma sameKept(S: seq bool, m: seq bool, c: seq bool, lev: int) {
  requires lev >= 0;
  requires forall i: int :: {m[i]} {c[i]} 0 <= i && i < lev ==> c[i] == m[i];
  ensures same(S, c, lev + 1) <==> (same(S, m, lev) && S[lev] == c[lev]);
  noauto;
}
lemma sameFrame(S: seq bool, m: seq bool, c: seq bool, n: int) {
  requires forall i: int :: {m[i]} {c[i]} 0 <= i && i < n ==> c[i] == m[i];
  ensures same(S, c, n) <==> same(S, m, n);
  noauto;
}
lemma samePrefix(S: seq bool, m: seq bool, k: int, n: int) { requires k <= n; requires same(S, m, n); ensures same(S, m, k) && (k < n && k >= 0 ==> S[k] == m[k]); noauto; }
lemma expand(S: seq bool, n: int, lev: int, fl: bool, m: seq bool, c0: seq bool, c1: seq bool) {
  requires 0 <= lev && lev < n;
  requires blank(m, lev, n);
  requires forall i: int :: {m[i]} {c0[i]} 0 <= i && i < n ==> c0[i] == m[i];
  requires forall i: int :: {m[i]} {c1[i]} 0 <= i && i < n ==> (c1[i] <==> (if i == lev then !m[i] else m[i]));
  ensures wt(0, S, n, lev, fl, m) == (if fl then 1 else 0) + wt(0, S, n, lev + 1, false, c0) + wt(0, S, n, lev + 1, true, c1);
  ensures wt(1, S, n, lev, fl, m) == (if fl then wt(2, S, n, lev, fl, m) else 0) + wt(1, S, n, lev + 1, false, c0) + wt(1, S, n, lev + 1, true, c1);
  use sameKept(S, m, c0, lev); use sameKept(S, m, c1, lev); use sameFrame(S, m, c0, n); use samePrefix(S, m, lev, n); use samePrefix(S, c1, lev, n); noauto;
}
spec lsum(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, c: int): int =
  if c <= 0 then 0 else lsum(k, S, n, s, ev, lv, fl, mr, hb, c-1) + wt(k, S, n, lv[ev[s[c-1]]], fl[ev[s[c-1]]], hb[mr[ev[s[c-1]]]]);
lemma lsumFrame(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool,
                s2: seq ref, ev2: seq int, lv2: seq int, fl2: seq bool, mr2: seq int, hb2: seq seq bool, c: int) {
  requires c >= 0;
  requires forall i: int :: {s[i]} {s2[i]} 0 <= i && i < c ==> ev[s[i]] == ev2[s2[i]] && lv[ev[s[i]]] == lv2[ev[s[i]]] && (fl[ev[s[i]]] <==> fl2[ev[s[i]]]) && hb[mr[ev[s[i]]]] == hb2[mr2[ev[s[i]]]];
  ensures lsum(k, S, n, s, ev, lv, fl, mr, hb, c) == lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, c);
  induct c; trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, c), lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, c)};
}
// the first node taken off
lemma lsumTail(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, s2: seq ref, ev2: seq int, c: int) {
  requires c >= 0;
  requires forall i: int :: {s2[i]} 0 <= i && i < c ==> ev2[s2[i]] == ev[s[i+1]];
  ensures lsum(k, S, n, s, ev, lv, fl, mr, hb, c + 1) == wt(k, S, n, lv[ev[s[0]]], fl[ev[s[0]]], hb[mr[ev[s[0]]]]) + lsum(k, S, n, s2, ev2, lv, fl, mr, hb, c);
  induct c; noauto;
}
// a node put in at position p
lemma lsumPut(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, s2: seq ref, ev2: seq int, p: int, c: int) {
  requires c >= 0 && 0 <= p && p <= c;
  requires forall i: int :: {s2[i]} 0 <= i && i <= c && i < p ==> ev2[s2[i]] == ev[s[i]];
  requires forall i: int :: {s2[i]} 0 <= i && i <= c && i > p ==> ev2[s2[i]] == ev[s[i-1]];
  ensures lsum(k, S, n, s2, ev2, lv, fl, mr, hb, c + 1) == wt(k, S, n, lv[ev2[s2[p]]], fl[ev2[s2[p]]], hb[mr[ev2[s2[p]]]]) + lsum(k, S, n, s, ev, lv, fl, mr, hb, c);
  induct c; use lsumPut(k, S, n, s, ev, lv, fl, mr, hb, s2, ev2, p, c - 1); use lsumFrame(k, S, n, s, ev, lv, fl, mr, hb, s2, ev2, lv, fl, mr, hb, c); noauto;
}
lemma lsumNonneg(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, c: int) {
  requires c >= 0;
  ensures 0 <= lsum(k, S, n, s, ev, lv, fl, mr, hb, c);
  induct c; trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, c)};
}

lemma lsumPutAt(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool,
                s2: seq ref, ev2: seq int, lv2: seq int, fl2: seq bool, mr2: seq int, hb2: seq seq bool, p: int, c: int, d: int) {
  requires c >= 0 && 0 <= p && p <= c && d == c + 1;
  requires forall i: int :: {s[i]} 0 <= i && i < c ==> lv[ev[s[i]]] == lv2[ev[s[i]]] && (fl[ev[s[i]]] <==> fl2[ev[s[i]]]) && hb[mr[ev[s[i]]]] == hb2[mr2[ev[s[i]]]];
  requires forall i: int :: {s2[i]} 0 <= i && i <= c && i < p ==> ev2[s2[i]] == ev[s[i]];
  requires forall i: int :: {s2[i]} 0 <= i && i <= c && i > p ==> ev2[s2[i]] == ev[s[i-1]];
  ensures lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, d) == wt(k, S, n, lv2[ev2[s2[p]]], fl2[ev2[s2[p]]], hb2[mr2[ev2[s2[p]]]]) + lsum(k, S, n, s, ev, lv, fl, mr, hb, c);
  use lsumPut(k, S, n, s, ev, lv2, fl2, mr2, hb2, s2, ev2, p, c);
  use lsumFrame(k, S, n, s, ev, lv, fl, mr, hb, s, ev, lv2, fl2, mr2, hb2, c);
  trigger {lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, d), lsum(k, S, n, s, ev, lv, fl, mr, hb, c), tag(p)};
}
lemma lsumTailAt(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool,
                s2: seq ref, ev2: seq int, lv2: seq int, fl2: seq bool, mr2: seq int, hb2: seq seq bool, c: int, d: int) {
  requires c >= 0 && d == c + 1;
  requires forall i: int :: {s[i]} 0 <= i && i < d ==> lv[ev[s[i]]] == lv2[ev[s[i]]] && (fl[ev[s[i]]] <==> fl2[ev[s[i]]]) && hb[mr[ev[s[i]]]] == hb2[mr2[ev[s[i]]]];
  requires forall i: int :: {s2[i]} 0 <= i && i < c ==> ev2[s2[i]] == ev[s[i+1]];
  ensures lsum(k, S, n, s, ev, lv, fl, mr, hb, d) == wt(k, S, n, lv[ev[s[0]]], fl[ev[s[0]]], hb[mr[ev[s[0]]]]) + lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, c);
  use lsumTail(k, S, n, s, ev, lv2, fl2, mr2, hb2, s2, ev2, c);
  use lsumFrame(k, S, n, s, ev, lv, fl, mr, hb, s, ev, lv2, fl2, mr2, hb2, d);
  trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, d), lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, c)};
}
// a node put in at the end
lemma lsumPush(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool,
                s2: seq ref, ev2: seq int, lv2: seq int, fl2: seq bool, mr2: seq int, hb2: seq seq bool, c: int, d: int) {
  requires c >= 0 && d == c + 1;
  requires forall i: int :: {s[i]} {s2[i]} 0 <= i && i < c ==> ev[s[i]] == ev2[s2[i]] && lv[ev[s[i]]] == lv2[ev[s[i]]] && (fl[ev[s[i]]] <==> fl2[ev[s[i]]]) && hb[mr[ev[s[i]]]] == hb2[mr2[ev[s[i]]]];
  ensures lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, d) == wt(k, S, n, lv2[ev2[s2[c]]], fl2[ev2[s2[c]]], hb2[mr2[ev2[s2[c]]]]) + lsum(k, S, n, s, ev, lv, fl, mr, hb, c);
  use lsumFrame(k, S, n, s, ev, lv, fl, mr, hb, s2, ev2, lv2, fl2, mr2, hb2, c);
  trigger {lsum(k, S, n, s2, ev2, lv2, fl2, mr2, hb2, d), lsum(k, S, n, s, ev, lv, fl, mr, hb, c)};
}
lemma lsumNone(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, c: int) {
  requires c <= 0; ensures lsum(k, S, n, s, ev, lv, fl, mr, hb, c) == 0; trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, c)};
}
lemma lsumOne(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, c: int) {
  requires c == 1; ensures lsum(k, S, n, s, ev, lv, fl, mr, hb, c) == wt(k, S, n, lv[ev[s[0]]], fl[ev[s[0]]], hb[mr[ev[s[0]]]]); trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, c)};
}
lemma lsumFirst(k: int, S: seq bool, n: int, s: seq ref, ev: seq int, lv: seq int, fl: seq bool, mr: seq int, hb: seq seq bool, c: int) {
  requires c >= 1;
  requires forall i: int :: {s[i]} 0 <= i && i < c ==> lv[ev[s[i]]] <= n;
  ensures wt(k, S, n, lv[ev[s[0]]], fl[ev[s[0]]], hb[mr[ev[s[0]]]]) <= lsum(k, S, n, s, ev, lv, fl, mr, hb, c);
  induct c; trigger {lsum(k, S, n, s, ev, lv, fl, mr, hb, c)};
}
lemma expand0(S: seq bool, n: int, lev: int, fl: bool, m: seq bool, l1: int, f0: bool, c0: seq bool, f1: bool, c1: seq bool) {
  requires 0 <= lev && lev < n && l1 == lev + 1 && !f0 && f1;
  requires blank(m, lev, n);
  requires forall i: int :: {m[i]} {c0[i]} 0 <= i && i < n ==> c0[i] == m[i];
  requires forall i: int :: {m[i]} {c1[i]} 0 <= i && i < n ==> (c1[i] <==> (if i == lev then !m[i] else m[i]));
  ensures wt(0, S, n, lev, fl, m) == (if fl then 1 else 0) + wt(0, S, n, l1, f0, c0) + wt(0, S, n, l1, f1, c1);
  use expand(S, n, lev, fl, m, c0, c1); trigger {wt(0, S, n, lev, fl, m), wt(0, S, n, l1, f0, c0), wt(0, S, n, l1, f1, c1)};
}
lemma expand1(S: seq bool, n: int, lev: int, fl: bool, m: seq bool, l1: int, f0: bool, c0: seq bool, f1: bool, c1: seq bool) {
  requires 0 <= lev && lev < n && l1 == lev + 1 && !f0 && f1;
  requires blank(m, lev, n);
  requires forall i: int :: {m[i]} {c0[i]} 0 <= i && i < n ==> c0[i] == m[i];
  requires forall i: int :: {m[i]} {c1[i]} 0 <= i && i < n ==> (c1[i] <==> (if i == lev then !m[i] else m[i]));
  ensures wt(1, S, n, lev, fl, m) == (if fl then wt(2, S, n, lev, fl, m) else 0) + wt(1, S, n, l1, f0, c0) + wt(1, S, n, l1, f1, c1);
  use expand(S, n, lev, fl, m, c0, c1); trigger {wt(1, S, n, lev, fl, m), wt(1, S, n, l1, f0, c0), wt(1, S, n, l1, f1, c1)};
}
lemma leaf(S: seq bool, n: int, lev: int, fl: bool, m: seq bool) {
  requires lev == n;
  ensures wt(0, S, n, lev, fl, m) == (if fl then 1 else 0) && wt(1, S, n, lev, fl, m) == (if fl then wt(2, S, n, lev, fl, m) else 0);
  trigger {wt(1, S, n, lev, fl, m)}; trigger {wt(0, S, n, lev, fl, m)};
}
lemma rootWeighs(S: seq bool, n: int, lev: int, fl: bool, m: seq bool) {
  requires lev == 0 && !fl;
  ensures wt(0, S, n, lev, fl, m) == pow2(n) - 1;
  trigger {wt(0, S, n, lev, fl, m)};
}
lemma rootCovers(S: seq bool, n: int, lev: int, fl: bool, m: seq bool) {
  requires lev == 0 && !fl && n >= 0 && blank(m, lev, n) && cnt(S, n) > 0;
  ensures wt(1, S, n, lev, fl, m) == 1;
  trigger {wt(1, S, n, lev, fl, m)};
}
lemma flippedCounts(S: seq bool, n: int, lev: int, fl: bool, m: seq bool) {
  requires fl && lev <= n;
  ensures wt(0, S, n, lev, fl, m) >= 1;
  trigger {wt(0, S, n, lev, fl, m)};
}
lemma blankKept(m: seq bool, lev: int, c: seq bool, l1: int, n: int) {
  requires lev >= 0 && l1 == lev + 1 && blank(m, lev, n);
  requires forall i: int :: {m[i]} {c[i]} 0 <= i && i < n && i != lev ==> c[i] == m[i];
  ensures blank(c, l1, n);
  trigger {blank(m, lev, n), blank(c, l1, n)};
}
lemma blankAll(m: seq bool, n: int) { requires forall i: int :: {m[i]} 0 <= i && i < n ==> !m[i]; ensures blank(m, 0, n); trigger {blank(m, 0, n)}; }
lemma blankAt(m: seq bool, lev: int, n: int) { requires lev < n && blank(m, lev, n); ensures !m[lev]; trigger {blank(m, lev, n)}; }
lemma blankNone(m: seq bool, n: int) { requires n >= 0 && blank(m, 0, n); ensures cnt(m, n) == 0; trigger {blank(m, 0, n), cnt(m, n)}; }
// the values of the list's elements ascend: later elements were allocated later
spec inOrder(s: seq ref, ev: seq int, c: int): bool = if c <= 1 then true else inOrder(s, ev, c-1) && ev[s[c-2]] < ev[s[c-1]];
lemma inOrderFrame(s: seq ref, ev: seq int, s2: seq ref, ev2: seq int, c: int) {
  requires c >= 0;
  requires forall i: int :: {s[i]} {s2[i]} 0 <= i && i < c ==> ev[s[i]] == ev2[s2[i]];
  ensures inOrder(s, ev, c) <==> inOrder(s2, ev2, c);
  induct c; trigger {inOrder(s, ev, c), inOrder(s2, ev2, c)};
}
lemma inOrderTail(s: seq ref, ev: seq int, s2: seq ref, ev2: seq int, c: int, d: int) {
  requires c >= 0 && d == c + 1;
  requires forall i: int :: {s2[i]} 0 <= i && i < c ==> ev2[s2[i]] == ev[s[i+1]];
  requires inOrder(s, ev, d);
  ensures inOrder(s2, ev2, c) && (c >= 1 ==> ev[s[0]] < ev2[s2[0]]);
  induct c; use inOrderTail(s, ev, s2, ev2, c - 1, d - 1); trigger {inOrder(s, ev, d), inOrder(s2, ev2, c)};
}
lemma inOrderPush(s: seq ref, ev: seq int, s2: seq ref, ev2: seq int, c: int, d: int) {
  requires c >= 0 && d == c + 1;
  requires forall i: int :: {s[i]} {s2[i]} 0 <= i && i < c ==> ev[s[i]] == ev2[s2[i]];
  requires c >= 1 ==> ev[s[c-1]] < ev2[s2[c]];
  requires inOrder(s, ev, c);
  ensures inOrder(s2, ev2, d);
  use inOrderFrame(s, ev, s2, ev2, c); trigger {inOrder(s, ev, c), inOrder(s2, ev2, d)};
}
lemma inOrderOne(s: seq ref, ev: seq int, c: int) { requires c <= 1; ensures inOrder(s, ev, c); trigger {inOrder(s, ev, c)}; }
def wtOf(k: int, S: seq bool, n: int, p: *Node) = wt(k, S, n, p.Level, p.WasFlipped, arr(p.Model));
// what the list at q sums to
def lsumOf(k: int, S: seq bool, n: int, q: *list.List) = lsum(k, S, n, lseq(q), evals(), fieldheap(Node, Level), fieldheap(Node, WasFlipped), fieldheap(Node, Model.ref), heap(bool), llen(q));
// the score of a listed node is the criterion of the least-squares fit to the columns of its own features, and it carries the coefficients
spec ownFit(m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, co: seq real, score: real): bool =
  exists D: seq seq real :: {isDesign(D, m, n, X, nr)} isDesign(D, m, n, X, nr) && isFit(D, nr, cnt(m, n), y, co) && score == -aiccOf(cnt(m, n), nr, rssOf(D, co, y, cnt(m, n), nr));
lemma ownFitIntro(m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, co: seq real, score: real, D: seq seq real) {
  requires isDesign(D, m, n, X, nr) && isFit(D, nr, cnt(m, n), y, co) && score == -aiccOf(cnt(m, n), nr, rssOf(D, co, y, cnt(m, n), nr));
  ensures ownFit(m, n, X, nr, y, co, score);
  trigger {isDesign(D, m, n, X, nr), ownFit(m, n, X, nr, y, co, score)};
}
def nodeFit(p: *Node, X: mat.Matrix, y: []real) = len(p.Model) == cols(X) && len(p.Coeff) == cnt(arr(p.Model), cols(X)) && ownFit(arr(p.Model), cols(X), cont(X), rows(X), arr(y), arr(p.Coeff), p.Score);
def treeNode(p: *Node, n: int) = newfrom(p) && newfrom(p.Model) && len(p.Model) == n && blank(arr(p.Model), p.Level, n) && 0 <= p.Level && p.Level <= n && (p.WasFlipped ==> p.Level >= 1 && p.Model[p.Level - 1]);
def treeNodes(q: *list.List, n: int) = forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> treeNode(qnode(q, i), n);
def lastOf(q: *list.List) = qnode(q, llen(q) - 1);
func BruteForceSelect(X, y) (h) {
  requires rows(X) > 0 && len(y) == rows(X) && 1 <= cols(X) && cols(X) <= 62;
  hide inOrder, lsum, ordered, none, pow2, aicOf, wt, same, blank, isDesign, isFit, ownFit;
  ensures wf: hsWF(h);
  ensures ordered: hsOrdered(h);
  ensures length: llen(h.Items) == pow2(cols(X)) - 1;
  ensures once: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, cols(X)) > 0 ==> lsumOf(2, S, cols(X), h.Items) == 1;
  ensures fitted: forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < llen(h.Items) ==> nodeFit(hnode(h, i), X, y);
  loop 1 {
    behind Insert keptI: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    behind Insert countI: llen(highscore.Items) + lsumOf(0, none(0), ncols, queue) == pow2(ncols);
    behind Insert onceI: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, ncols) > 0 ==> lsumOf(2, S, ncols, highscore.Items) + lsumOf(1, S, ncols, queue) == 1 + wtOf(2, S, ncols, currentNode);
    behind Insert fittedI: nodeFit(currentNode, X, y) && newfrom(currentNode.Coeff);
    behind Insert fittedAll: forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> nodeFit(hnode(highscore, i), X, y) && newfrom(hnode(highscore, i)) && newfrom(hnode(highscore, i).Model) && newfrom(hnode(highscore, i).Coeff);
    behind Remove countR: llen(highscore.Items) + wtOf(0, none(0), ncols, currentNode) + lsumOf(0, none(0), ncols, queue) == pow2(ncols) - 1 + (if currentNode.WasFlipped then 1 else 0);
    behind Remove onceR: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, ncols) > 0 ==> lsumOf(2, S, ncols, highscore.Items) + wtOf(1, S, ncols, currentNode) + lsumOf(1, S, ncols, queue) == 1 + (if currentNode.WasFlipped then wtOf(2, S, ncols, currentNode) else 0);
    behind Remove keptR: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    behind Remove agesR: inOrder(lseq(queue), evals(), llen(queue)) && (llen(queue) > 0 ==> older(currentNode, qnode(queue, 0)));
    behind PushBack keptP: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    behind PushBack agesP: inOrder(lseq(queue), evals(), llen(queue)) && older(currentNode, qnode(queue, 0));
    behind Remove nodesR: treeNodes(queue, ncols) && treeNode(currentNode, ncols);
    behind PushBack blankP: blank(arr(lastOf(queue).Model), lastOf(queue).Level, ncols);
    behind PushBack nodesP: treeNode(lastOf(queue), ncols);
    behind PushBack nodesP: treeNodes(queue, ncols);
    behind PushBack countP: llen(highscore.Items) + lsumOf(0, none(0), ncols, queue) + (if lastOf(queue).WasFlipped then 0 else wtOf(0, none(0), ncols, currentNode) - wtOf(0, none(0), ncols, lastOf(queue)))
       == pow2(ncols) - 1 + (if !lastOf(queue).WasFlipped && currentNode.WasFlipped then 1 else 0);
    behind PushBack onceP: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, ncols) > 0 ==> lsumOf(2, S, ncols, highscore.Items) + lsumOf(1, S, ncols, queue) + (if lastOf(queue).WasFlipped then 0 else wtOf(1, S, ncols, currentNode) - wtOf(1, S, ncols, lastOf(queue)))
       == 1 + (if !lastOf(queue).WasFlipped && currentNode.WasFlipped then wtOf(2, S, ncols, currentNode) else 0);
    invariant kept: forall e: *list.Element :: {eown(e)} {epos(e)} old(allocated(e)) ==> eown(e) == old(eown(e)) && epos(e) == old(epos(e));
    invariant wf: hsWF(highscore) && hsOrdered(highscore) && fresh(highscore) && fresh(highscore.Items) && fresh(queue) && queue != highscore.Items && qWF(queue) && highscore.MaxItems == pow2(ncols);
    invariant count: llen(highscore.Items) + lsumOf(0, none(0), ncols, queue) == pow2(ncols) - 1;
    invariant once: forall S: seq bool :: {sel(S)} sel(S) && cnt(S, ncols) > 0 ==> lsumOf(2, S, ncols, highscore.Items) + lsumOf(1, S, ncols, queue) == 1;
    invariant nodes: treeNodes(queue, ncols);
    invariant ages: inOrder(lseq(queue), evals(), llen(queue));
    invariant listed: llen(queue) > 0 ==> (forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> older(hnode(highscore, i), qnode(queue, 0)));
    invariant fitted: forall i: int :: {lseq(highscore.Items)[i]} 0 <= i && i < llen(highscore.Items) ==> nodeFit(hnode(highscore, i), X, y) && newfrom(hnode(highscore, i)) && newfrom(hnode(highscore, i).Model) && newfrom(hnode(highscore, i).Coeff);
  }
}
property C04 { verify Node.GetChildNode, NewNode, BruteForceSelect, Highscore.Insert, NewHighscore, NumFeatures, GetDesignMatrix, Fit, Rss, Aicc; }
