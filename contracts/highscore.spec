// C01: highscore list
def hnode(h: *Highscore, i: int) = as(*Node, elem(h.Items, i));
def hscore(h: *Highscore, i: int) = as(*Node, elem(h.Items, i)).Score;
def hsWF(h: *Highscore) = h != nil && h.Items != nil && allocated(h.Items)
  && (forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < llen(h.Items) ==> hnode(h, i) != nil && allocated(hnode(h, i)));
spec ordered(s: seq ref, ev: seq int, sc: seq real, n: int): bool = forall i, j: int :: {s[i], s[j]} 0 <= i && i <= j && j < n ==> sc[ev[s[i]]] >= sc[ev[s[j]]];
lemma orderedFrame(s: seq ref, ev: seq int, sc: seq real, s2: seq ref, ev2: seq int, sc2: seq real, n: int) {
  requires forall i: int :: {s[i]} {s2[i]} 0 <= i && i < n ==> sc[ev[s[i]]] == sc2[ev2[s2[i]]];
  requires ordered(s, ev, sc, n);
  ensures ordered(s2, ev2, sc2, n);
  trigger {ordered(s, ev, sc, n), ordered(s2, ev2, sc2, n)};
}
def hsOrdered(h: *Highscore) = ordered(lseq(h.Items), evals(), fieldheap(Node, Score), llen(h.Items));
def hsBounded(h: *Highscore) = h.MaxItems >= 1 && llen(h.Items) <= h.MaxItems;

func NewHighscore(maxItems) (h) {
  ensures new: fresh(h) && fresh(h.Items);
  ensures empty: hsWF(h) && llen(h.Items) == 0 && h.MaxItems == maxItems && hsOrdered(h);
}

func Highscore.Len(h) (n) {
  requires hsWF(h);
  ensures n == llen(h.Items);
}

def splicedIn(s: seq ref, ev: seq int, n: int, h: *Highscore, node: *Node) = exists p: int :: {tag(p)} tag(p) && 0 <= p && p <= n
    && (forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < llen(h.Items) ==>
          hnode(h, i) == as(*Node, if i < p then ev[s[i]] else (if i == p then ref(node) else ev[s[i - 1]])))
    && (p == n && llen(h.Items) == p ==> (forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < llen(h.Items) ==> hscore(h, i) >= node.Score))
    && (p < n ==> as(*Node, ev[s[p]]).Score < node.Score)
    && (p < n && llen(h.Items) == n ==>
         (forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < llen(h.Items) ==> hscore(h, i) >= as(*Node, ev[s[llen(h.Items) - 1]]).Score));
func Highscore.Insert(h, node) {
  requires wf: hsWF(h) && hsOrdered(h) && hsBounded(h);
  behind Back at: tag(old(llen(h.Items)));
  behind PushBack at: tag(old(llen(h.Items)));
  requires node: node != nil;
  modifies list(h.Items);
  ensures wf: hsWF(h);
  ensures ordered: hsOrdered(h);
  ensures bounded: hsBounded(h);
  ensures grows: old(llen(h.Items)) < h.MaxItems - 1 || old(llen(h.Items)) == 0 ==> llen(h.Items) == old(llen(h.Items)) + 1;
  ensures keeps: llen(h.Items) == old(llen(h.Items)) || llen(h.Items) == old(llen(h.Items)) + 1;
  // the new list is the old one with the node put in at one place; what falls off is the end
  ensures spliced: splicedIn(old(lseq(h.Items)), old(evals()), old(llen(h.Items)), h, node);
  ensures best: hscore(h, 0) == (if old(llen(h.Items)) == 0 || old(hscore(h, 0)) < node.Score then node.Score else old(hscore(h, 0)));
  loop 1 {
    invariant llen(h.Items) == old(llen(h.Items)) && lseq(h.Items) == old(lseq(h.Items));
    invariant item != nil ==> eown(item) == h.Items && 0 <= epos(item) && epos(item) < llen(h.Items) && item == as(*list.Element, lseq(h.Items)[epos(item)]);
    invariant forall i: int :: {lseq(h.Items)[i]} 0 <= i && i < (if item == nil then llen(h.Items) else epos(item)) ==> hscore(h, i) >= node.Score;
    invariant !itemInserted;
    behind InsertBefore at: tag(epos(item) - 1);
    onbreak spliced: splicedIn(old(lseq(h.Items)), old(evals()), old(llen(h.Items)), h, node);
  }
}

func Highscore.BestScore(h) (b) {
  requires hsWF(h);
  ensures none: llen(h.Items) == 0 ==> b == 0.0;
  ensures best: llen(h.Items) > 0 ==> b == hscore(h, 0);
}

func Highscore.Scores(h) (s) {
  requires hsWF(h);
  ensures len(s) == llen(h.Items) && newfrom(s);
  ensures forall i: int :: {s[i]} 0 <= i && i < len(s) ==> s[i] == hscore(h, i);
  loop 1 {
    invariant item != nil ==> eown(item) == h.Items && epos(item) == i && i < llen(h.Items) && item == as(*list.Element, lseq(h.Items)[i]);
    invariant item == nil ==> i == llen(h.Items);
    invariant len(scores) == llen(h.Items) && fresh(scores) && 0 <= i;
    invariant forall k: int :: {scores[k]} 0 <= k && k < i ==> scores[k] == hscore(h, k);
  }
}
property C01 { verify NewHighscore, Highscore.Len, Highscore.Insert, Highscore.BestScore, Highscore.Scores; }
