// C04: tree expansion; C08: encodings
def approx(a: real, b: real, tol: real) = absr(a - b) <= tol || absr(a - b) <= tol * maxr(absr(a), absr(b));
extern floats.EqualApprox(s1, s2, tol) (r) {
  ensures r <==> len(s1) == len(s2) && (forall i: int :: {s1[i]} {s2[i]} 0 <= i && i < len(s1) ==> approx(s1[i], s2[i], tol));
}
func Node.GetChildNode(n, flip) (child) {
  requires level: flip ==> 0 <= n.Level && n.Level < len(n.Model);
  ensures new: fresh(child) && newfrom(child.Model);
  ensures level: child.Level == n.Level + 1 && child.WasFlipped == flip;
  ensures size: len(child.Model) == len(n.Model);
  ensures model: forall i: int :: {child.Model[i]} 0 <= i && i < len(n.Model) ==> (child.Model[i] <==> (if flip && i == n.Level then !n.Model[i] else n.Model[i]));
  ensures blank: child.Coeff == nil && len(child.Coeff) == 0 && child.Score == 0.0;
}

func NewNode(level, model) (node) {
  ensures new: fresh(node) && newfrom(node.Model) && newfrom(node.Coeff);
  ensures level: node.Level == level && !node.WasFlipped;
  ensures size: len(node.Model) == len(model) && len(node.Coeff) == cnt(arr(model), len(model));
  ensures model: forall i: int :: {node.Model[i]} 0 <= i && i < len(model) ==> (node.Model[i] <==> model[i]);
}

def nodesAgree(a: *Node, b: *Node) = len(a.Model) == len(b.Model) && a.Level == b.Level
  && (forall i: int :: {a.Model[i]} {b.Model[i]} 0 <= i && i < len(a.Model) ==> a.Model[i] == b.Model[i])
  && absr(a.Lower - b.Lower) <= 1e-10 && absr(a.Upper - b.Upper) <= 1e-10 && absr(a.Score - b.Score) <= 1e-10
  && len(a.Coeff) == len(b.Coeff) && (forall i: int :: {a.Coeff[i]} {b.Coeff[i]} 0 <= i && i < len(a.Coeff) ==> approx(a.Coeff[i], b.Coeff[i], 1e-10));
func NodesEqual(node1, node2) (r) {
  requires node1 != nil && node2 != nil;
  ensures def: r <==> nodesAgree(node1, node2);
  loop 1 { invariant forall k: int :: {node1.Model[k]} {node2.Model[k]} 0 <= k && k < i ==> node1.Model[k] == node2.Model[k]; }
}

func Node.ToSparseCoeff(n) (sp) {
  ensures selection: indexList(sp.Selection, n.Model) && newfrom(sp.Selection);
  ensures coeff: sp.Coeff == n.Coeff;
  loop 1 {
    invariant sIdx == cnt(arr(n.Model), i);
    invariant len(sp.Selection) == cnt(arr(n.Model), len(n.Model)) && fresh(sp.Selection);
    invariant forall j: int :: {n.Model[j]} 0 <= j && j < i && n.Model[j] ==> sp.Selection[cnt(arr(n.Model), j)] == j;
    invariant forall k: int :: {sp.Selection[k]} 0 <= k && k < sIdx ==> 0 <= sp.Selection[k] && sp.Selection[k] < len(n.Model) && n.Model[sp.Selection[k]] && cnt(arr(n.Model), sp.Selection[k]) == k;
  }
}
func SelectedFeatures(model) (res) {
  ensures selection: indexList(res, model) && newfrom(res);
  loop 1 {
    invariant counter == cnt(arr(model), i);
    invariant len(res) == cnt(arr(model), len(model)) && fresh(res);
    invariant forall j: int :: {model[j]} 0 <= j && j < i && model[j] ==> res[cnt(arr(model), j)] == j;
    invariant forall k: int :: {res[k]} 0 <= k && k < counter ==> 0 <= res[k] && res[k] < len(model) && model[res[k]] && cnt(arr(model), res[k]) == k;
  }
}
func NewSAItem(model) (item) {
  ensures new: fresh(item) && newfrom(item.Selection) && newfrom(item.Coeff);
  ensures empty: model == nil ==> item.Selection == nil && item.Coeff == nil && len(item.Selection) == 0 && len(item.Coeff) == 0;
  ensures selection: model != nil ==> indexList(item.Selection, model) && len(item.Coeff) == len(item.Selection);
  ensures separate: item.Selection != nil && item.Coeff != nil ==> ref(item.Selection) != ref(item.Coeff);
  loop 1 {
    invariant counter == cnt(arr(model), i);
    invariant len(saItem.Selection) == cnt(arr(model), len(model)) && fresh(saItem.Selection) && fresh(saItem.Coeff) && len(saItem.Coeff) == len(saItem.Selection);
    invariant forall j: int :: {model[j]} 0 <= j && j < i && model[j] ==> saItem.Selection[cnt(arr(model), j)] == j;
    invariant forall k: int :: {saItem.Selection[k]} 0 <= k && k < counter ==> 0 <= saItem.Selection[k] && saItem.Selection[k] < len(model) && model[saItem.Selection[k]] && cnt(arr(model), saItem.Selection[k]) == k;
  }
}
func Highscore.Equal(h, h2) (r) {
  requires hsWF(h) && hsWF(h2);
  ensures def: r <==> h.MaxItems == h2.MaxItems && llen(h.Items) == llen(h2.Items)
     && (forall i: int :: {lseq(h.Items)[i]} {lseq(h2.Items)[i]} 0 <= i && i < llen(h.Items) ==> nodesAgree(hnode(h, i), hnode(h2, i)));
  loop 1 {
    invariant e1 == nil <==> e2 == nil;
    invariant e1 != nil ==> eown(e1) == h.Items && eown(e2) == h2.Items && epos(e1) == epos(e2) && 0 <= epos(e1) && epos(e1) < llen(h.Items)
      && e1 == as(*list.Element, lseq(h.Items)[epos(e1)]) && e2 == as(*list.Element, lseq(h2.Items)[epos(e1)]);
    invariant forall i: int :: {lseq(h.Items)[i]} {lseq(h2.Items)[i]} 0 <= i && i < (if e1 == nil then llen(h.Items) else epos(e1)) ==> nodesAgree(hnode(h, i), hnode(h2, i));
  }
}
property C01 { verify Highscore.Equal, NodesEqual; }
property C08 { verify Node.ToSparseCoeff, SelectedFeatures, NewSAItem; }

