// C06: pruning; C04, C07: searches
def qnode(q: *list.List, i: int) = as(*Node, elem(q, i));
def qWF(q: *list.List) = q != nil && allocated(q) && (forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> qnode(q, i) != nil && allocated(qnode(q, i)));
// m is the child's model: the parent's with the feature at the parent's level inverted if asked for
def childModel(m: seq bool, node: *Node, flip: bool) = forall i: int :: {m[i]} {node.Model[i]} 0 <= i && i < len(node.Model) ==> (m[i] <==> (if flip && i == node.Level then !node.Model[i] else node.Model[i]));
// while CreateChild runs, other goroutines put nodes into the highscore list, so the best score does not get worse
def hsGrows(h: *Highscore) = hsWF(h) && (old(llen(h.Items)) > 0 ==> llen(h.Items) > 0 && hscore(h, 0) >= old(hscore(h, 0)));
// the child of node is left out: too many features for the data, or the best score rules it out
def ruledOut(node: *Node, flip: bool, X: mat.Matrix, y: []real, cutoff: real, h: *Highscore) =
  exists m: seq bool :: {cnt(m, len(node.Model))} childModel(m, node, flip) && (cnt(m, len(node.Model)) >= rows(X) ||
     llen(h.Items) > 0 && (if cnt(m, len(node.Model)) == 0 then -1e100 + cutoff > -hscore(h, 0) else
       (exists lower, upper: real :: {boundsOf(lower, upper, m, len(node.Model), node.Level + 1, cont(X), rows(X), arr(y), len(y), true)}
          lower + cutoff > -hscore(h, 0) && boundsOf(lower, upper, m, len(node.Model), node.Level + 1, cont(X), rows(X), arr(y), len(y), true))));
def isChild(child: *Node, node: *Node, flip: bool, X: mat.Matrix, y: []real) = child.Level == node.Level + 1 && child.WasFlipped == flip && len(child.Model) == len(node.Model)
  && childModel(arr(child.Model), node, flip) && cnt(arr(child.Model), len(child.Model)) < rows(X)
  && childBounds(child.Lower, child.Upper, arr(child.Model), len(child.Model), node.Level + 1, X, y);
def parentOf(node: *Node, X: mat.Matrix, y: []real) = 0 <= node.Level && node.Level < len(node.Model) && len(node.Model) == cols(X) && rows(X) > 0 && len(y) == rows(X);
func CreateChild(node, flip, X, y, cutoff, h) (child) {
  requires node != nil && parentOf(node, X, y);
  requires hsWF(h) && lockstate(h.rwlock) == 0;
  rely h.Items under rwlock best: hsGrows(h);
  modifies list(h.Items), lock(h.rwlock);
  ensures free: hsGrows(h) && lockstate(h.rwlock) == 0;
  ensures fresh: child != nil ==> fresh(child) && newfrom(child.Model);
  ensures child: child != nil ==> isChild(child, node, flip, X, y);
  ensures kept: child != nil ==> old(llen(h.Items)) == 0 || child.Lower + cutoff <= -old(hscore(h, 0));
  ensures discarded: child == nil ==> ruledOut(node, flip, X, y, cutoff, h);
}
// a goroutine that answers each parent by its two children, or by the level of the parent for a child that is left out
func CreateChildNodes(parentCh, pruneCh, nodeCh, ready, X, y, cutoff, h) {
  requires hsWF(h) && lockstate(h.rwlock) == 0 && rows(X) > 0 && len(y) == rows(X);
  chan parentCh parent: msg != nil ==> parentOf(msg, X, y);
  chan nodeCh child: msg != nil && 0 <= msg.Level && len(msg.Model) == cols(X);
  rely h.Items under rwlock best: hsGrows(h);
  modifies list(h.Items), lock(h.rwlock);
  fork parentCh 2 when in != nil;
  gives pruneCh left: out == in.Level && ruledOut(in, k == 1, X, y, cutoff, h);
  gives nodeCh child: fresh(out) && newfrom(out.Model) && isChild(out, in, k == 1, X, y);
  loop 1 { invariant hsWF(h) && lockstate(h.rwlock) == 0; }
  loop 2 { invariant hsWF(h) && lockstate(h.rwlock) == 0;
    invariant parent != nil && owed(parentCh) == 2 - $i; }
}
// a goroutine that fits a node to the columns of its features
func ScoreWorker(nodeCh, scoreCh, X, y) {
  requires rows(X) > 0 && len(y) == rows(X);
  chan nodeCh node: msg != nil && len(msg.Model) == cols(X);
  relay nodeCh scoreCh key msg owned Coeff, Score scored: out == in && isScored(out, X, y);
}
spec isNew(level: int, flipped: bool): bool = level == 0 || flipped;
def isScored(p: *Node, X: mat.Matrix, y: []real) = if cnt(arr(p.Model), cols(X)) > 0 && isNew(p.Level, p.WasFlipped)
  then newfrom(p.Coeff) && nodeFit(p, X, y) else p.Score == -MaxFloat64;
def childBounds(lower: real, upper: real, m: seq bool, n: int, start: int, X: mat.Matrix, y: []real) =
  (cnt(m, n) > 0 ==> boundsOf(lower, upper, m, n, start, cont(X), rows(X), arr(y), len(y), true)) && (cnt(m, n) == 0 ==> lower == -1e100 && upper == 1e100);
// the number of nodes among the first n of the queue with a lower bound of at most thr
spec keptq(s: seq ref, ev: seq int, lo: seq real, thr: real, n: int): int = if n <= 0 then 0 else keptq(s, ev, lo, thr, n-1) + (if lo[ev[s[n-1]]] > thr then 0 else 1);
lemma keptBounds(s: seq ref, ev: seq int, lo: seq real, thr: real, n: int) { requires n >= 0; ensures 0 <= keptq(s, ev, lo, thr, n) && keptq(s, ev, lo, thr, n) <= n; induct n; trigger {keptq(s, ev, lo, thr, n)}; }
lemma keptMono(s: seq ref, ev: seq int, lo: seq real, thr: real, m: int, n: int) { requires 0 <= m && m <= n; ensures keptq(s, ev, lo, thr, m) <= keptq(s, ev, lo, thr, n) && keptq(s, ev, lo, thr, n) <= keptq(s, ev, lo, thr, m) + n - m;
  ensures m < n && !(lo[ev[s[m]]] > thr) ==> keptq(s, ev, lo, thr, m) < keptq(s, ev, lo, thr, n);
  induct n; trigger {keptq(s, ev, lo, thr, m), keptq(s, ev, lo, thr, n)}; }
func CleanQueue(q, threshold) {
  requires qWF(q);
  modifies list(q);
  ensures wf: qWF(q);
  ensures count: llen(q) == keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, old(llen(q)));
  // the node at each kept position stands where the number of kept nodes before it says, so order is preserved
  ensures kept: forall i: int :: {old(lseq(q))[i]} 0 <= i && i < old(llen(q)) && !(old(qnode(q, i)).Lower > threshold) ==>
     qnode(q, keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, i)) == old(qnode(q, i));
  ensures only: forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> qnode(q, i).Lower <= threshold;
  ensures from: forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> (let e = as(*list.Element, lseq(q)[i]) in old(allocated(e)) && old(eown(e)) == q && eval(e) == old(eval(e)));
  loop 1 {
    invariant from: forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> (let e = as(*list.Element, lseq(q)[i]) in old(allocated(e)) && old(eown(e)) == q && eval(e) == old(eval(e)));
    invariant range: $i <= old(llen(q)) && (item == nil <==> $i == old(llen(q)));
    invariant item != nil ==> item == as(*list.Element, old(lseq(q))[$i]) && eown(item) == q && epos(item) == keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, $i);
    invariant count: llen(q) == keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, $i) + old(llen(q)) - $i;
    invariant vals: forall i: int :: {old(lseq(q))[i]} 0 <= i && i < old(llen(q)) ==> eval(as(*list.Element, old(lseq(q))[i])) == old(elem(q, i));
    invariant kept: forall i: int :: {old(lseq(q))[i]} 0 <= i && i < $i && !(old(qnode(q, i)).Lower > threshold) ==>
       lseq(q)[keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, i)] == old(lseq(q))[i];
    invariant rest: forall i: int :: {old(lseq(q))[i]} $i <= i && i < old(llen(q)) ==> lseq(q)[keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, $i) + i - $i] == old(lseq(q))[i];
    invariant low: forall i: int :: {lseq(q)[i]} 0 <= i && i < keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), threshold, $i) ==> qnode(q, i).Lower <= threshold;
    invariant wf: qWF(q);
  }
}
// the sum of the lower bounds of the first n nodes of the queue
spec lowSum(s: seq ref, ev: seq int, lo: seq real, n: int): real = if n <= 0 then 0.0 else lowSum(s, ev, lo, n-1) + lo[ev[s[n-1]]];
def meanLow(q: *list.List) = lowSum(lseq(q), evals(), fieldheap(Node, Lower), llen(q)) / real(llen(q));
// queueCut(k) says that RemoveLeastPromising was called with k nodes in the queue
uninterp queueCut(k: int): bool;
func RemoveLeastPromising(q) {
  requires qWF(q) && llen(q) > 0;
  modifies list(q);
  ensures wf: qWF(q);
  ensures count: llen(q) == keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), old(meanLow(q)), old(llen(q)));
  ensures kept: forall i: int :: {old(lseq(q))[i]} 0 <= i && i < old(llen(q)) && !(old(qnode(q, i)).Lower > old(meanLow(q))) ==>
     qnode(q, keptq(old(lseq(q)), old(evals()), old(fieldheap(Node, Lower)), old(meanLow(q)), i)) == old(qnode(q, i));
  ensures only: forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> qnode(q, i).Lower <= old(meanLow(q));
  ensures from: forall i: int :: {lseq(q)[i]} 0 <= i && i < llen(q) ==> (let e = as(*list.Element, lseq(q)[i]) in old(eown(e)) == q && eval(e) == old(eval(e)));
  assumed cut: queueCut(old(llen(q)));
  loop 1 {
    invariant $i <= llen(q) && (item == nil <==> $i == llen(q));
    invariant item != nil ==> item == as(*list.Element, lseq(q)[$i]) && eown(item) == q && epos(item) == $i;
    invariant avgLowerBound == lowSum(lseq(q), evals(), fieldheap(Node, Lower), $i);
  }
}
property C06 { verify CreateChild, CleanQueue, RemoveLeastPromising; }
