// C02: the score list of simulated annealing
def sameSel(a: []int, b: []int) = len(a) == len(b) && (forall k: int :: {a[k]} {b[k]} 0 <= k && k < len(a) ==> a[k] == b[k]);
// item x carries the selection, coefficients and score that item y carries
def sameItem(x: *SAItem, y: *SAItem) = x.Selection == y.Selection && x.Coeff == y.Coeff && x.Score == y.Score;
def saWF(s: *SAScore) = s.Cap >= 1 && len(s.Items) <= s.Cap
  && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> s.Items[i] != nil && allocated(s.Items[i]))
  && (forall i, j: int :: {s.Items[i], s.Items[j]} 0 <= i && i < j && j < len(s.Items) ==> s.Items[i] != s.Items[j])
  && (len(s.Items) > 0 ==> s.BestItem != nil && s.WorstItem != nil && allocated(s.BestItem) && allocated(s.WorstItem));
def saDistinct(s: *SAScore) = forall i, j: int :: {s.Items[i], s.Items[j]} 0 <= i && i < j && j < len(s.Items) ==> !sameSel(s.Items[i].Selection, s.Items[j].Selection);
def saWorst(s: *SAScore) = len(s.Items) > 0 ==> (exists w: int :: {s.Items[w]} 0 <= w && w < len(s.Items) && s.Items[w] == s.WorstItem)
  && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> s.WorstItem.Score <= s.Items[i].Score);
// the best item is one of the list or a copy of one
def saBest(s: *SAScore) = len(s.Items) > 0 ==> (exists w: int :: {s.Items[w]} 0 <= w && w < len(s.Items) && sameItem(s.BestItem, s.Items[w]))
  && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> s.Items[i].Score <= s.BestItem.Score);

def sameItemOld(x: *SAItem) = x.Selection == old(x.Selection) && x.Coeff == old(x.Coeff) && x.Score == old(x.Score);
def saKept(s: *SAScore, i: int) = s.Items[i] == old(s.Items[i]) && sameItemOld(s.Items[i]);
func NewSAScore(length) (s) {
  ensures fresh(s) && s.Cap == length && len(s.Items) == 0 && s.Items == nil && s.WorstItem == nil && s.BestItem == nil;
}
func SAScore.Exists(s, item) (r) {
  requires item != nil && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> s.Items[i] != nil);
  ensures def: r <==> (exists i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) && sameSel(s.Items[i].Selection, item.Selection));
  loop 1 { invariant forall i: int :: {s.Items[i]} 0 <= i && i < $i ==> !sameSel(s.Items[i].Selection, item.Selection); }
}
func SAScore.Insert(s, item) {
  requires wf: saWF(s) && saDistinct(s) && saWorst(s) && saBest(s);
  requires item: item != nil && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> s.Items[i] != item);
  modifies s.Items, s.BestItem, s.WorstItem, elems(s.Items), s.WorstItem.Selection, s.WorstItem.Coeff, s.WorstItem.Score;
  ensures wf: saWF(s);
  ensures worst: saWorst(s);
  ensures distinct: saDistinct(s);
  ensures best: saBest(s);
  ensures ignored: old(exists i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) && sameSel(s.Items[i].Selection, item.Selection)) ==>
     s.Items == old(s.Items) && s.BestItem == old(s.BestItem) && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==> saKept(s, i));
  ensures added: !old(exists i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) && sameSel(s.Items[i].Selection, item.Selection)) && (old(len(s.Items)) < s.Cap) ==>
     len(s.Items) == old(len(s.Items)) + 1 && s.Items[len(s.Items)-1] == item && sameItemOld(item) && (forall i: int :: {s.Items[i]} 0 <= i && i < old(len(s.Items)) ==> saKept(s, i));
  // when full, a new selection replaces the worst item exactly when it scores better
  ensures replaced: !old(exists i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) && sameSel(s.Items[i].Selection, item.Selection)) && old(len(s.Items)) >= s.Cap ==>
     len(s.Items) == old(len(s.Items)) && (forall i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) ==>
        (if s.Items[i] == old(s.WorstItem) && item.Score > old(s.WorstItem.Score) then s.Items[i] == old(s.Items[i]) && sameItem(s.Items[i], item) else saKept(s, i)));
  ensures bestKept: s.BestItem == item || s.BestItem == old(s.BestItem);
  ensures bestOwn: len(s.Items) > 0 ==> sameItem(s.BestItem, item) || (sameItemOld(s.BestItem));
  ensures atLeast: s.BestItem.Score >= item.Score || (exists i: int :: {s.Items[i]} 0 <= i && i < len(s.Items) && sameSel(s.Items[i].Selection, item.Selection) && s.BestItem.Score >= s.Items[i].Score);
  ensures itemKept: sameItemOld(item);
  loop 1 {
    invariant s.Items == old(s.Items) && minScore == s.WorstItem.Score;
    invariant exists w: int :: {s.Items[w]} 0 <= w && w < len(s.Items) && s.Items[w] == s.WorstItem;
    invariant forall i: int :: {s.Items[i]} 0 <= i && i < $i ==> minScore <= s.Items[i].Score;
  }
}
property C02 { verify NewSAScore, SAScore.Exists, SAScore.Insert; }
