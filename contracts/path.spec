// C23: views of a lasso path; path[k] are the nodes
def pathOk(p: []*LassoLarsNode) = forall k: int :: {p[k]} 0 <= k && k < len(p) ==> p[k] != nil && allocated(p[k]);
func LassoLarsPath.MaxMinFeatNo(p) (lo, hi) {
  requires pathOk(p.LassoLarsNodes);
  ensures encloses: forall k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < len(p.LassoLarsNodes) && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) ==>
    lo <= p.LassoLarsNodes[k].Selection[j] && p.LassoLarsNodes[k].Selection[j] <= hi;
  ensures lowest: lo == 2147483647 || (exists k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < len(p.LassoLarsNodes) && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == lo);
  ensures highest: hi == 0 || (exists k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < len(p.LassoLarsNodes) && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == hi);
  ensures limits: lo <= 2147483647 && hi >= 0;
  loop 1 {
    invariant limits: minVal <= 2147483647 && maxVal >= 0;
    invariant encloses: forall k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < $i && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) ==>
      minVal <= p.LassoLarsNodes[k].Selection[j] && p.LassoLarsNodes[k].Selection[j] <= maxVal;
    invariant lowest: minVal == 2147483647 || (exists k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < $i && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == minVal);
    invariant highest: maxVal == 0 || (exists k, j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < $i && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == maxVal);
  }
}
func LassoLarsPath.ExtractPath(p, featNo) (xys) {
  requires pathOk(p.LassoLarsNodes);
  requires pairs: forall k: int :: {p.LassoLarsNodes[k]} 0 <= k && k < len(p.LassoLarsNodes) ==> len(p.LassoLarsNodes[k].Coeff) == len(p.LassoLarsNodes[k].Selection);
  ensures length: len(xys) == len(p.LassoLarsNodes);
  ensures lamb: forall k: int :: {xys[k].X} 0 <= k && k < len(xys) ==> xys[k].X == log10f(p.LassoLarsNodes[k].Lamb);
  ensures absent: forall k: int :: {xys[k].Y} 0 <= k && k < len(xys) && (forall j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= j && j < len(p.LassoLarsNodes[k].Selection) ==> p.LassoLarsNodes[k].Selection[j] != featNo) ==> xys[k].Y == 0.0;
  ensures coeff: forall k, j: int :: {xys[k].Y, p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < len(xys) && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == featNo
    && (forall i: int :: {p.LassoLarsNodes[k].Selection[i]} 0 <= i && i < j ==> p.LassoLarsNodes[k].Selection[i] != featNo) ==> xys[k].Y == p.LassoLarsNodes[k].Coeff[j];
  loop 1 {
    invariant len(xys) == len(p.LassoLarsNodes) && fresh(xys);
    invariant lamb: forall k: int :: {xys[k].X} 0 <= k && k < $i ==> xys[k].X == log10f(p.LassoLarsNodes[k].Lamb);
    invariant absent: forall k: int :: {xys[k].Y} 0 <= k && k < $i && (forall j: int :: {p.LassoLarsNodes[k].Selection[j]} 0 <= j && j < len(p.LassoLarsNodes[k].Selection) ==> p.LassoLarsNodes[k].Selection[j] != featNo) ==> xys[k].Y == 0.0;
    invariant coeff: forall k, j: int :: {xys[k].Y, p.LassoLarsNodes[k].Selection[j]} 0 <= k && k < $i && 0 <= j && j < len(p.LassoLarsNodes[k].Selection) && p.LassoLarsNodes[k].Selection[j] == featNo
      && (forall i: int :: {p.LassoLarsNodes[k].Selection[i]} 0 <= i && i < j ==> p.LassoLarsNodes[k].Selection[i] != featNo) ==> xys[k].Y == p.LassoLarsNodes[k].Coeff[j];
  }
  loop 2 {
    invariant !found && (forall j: int :: {n.Selection[j]} 0 <= j && j < $i ==> n.Selection[j] != featNo);
    invariant xys == pre(xys) && arr(xys) == pre(arr(xys));
  }
}
// p are the nodes of a path, sr and sl their selections (reference and length) and h the contents: v occurs before entry j of node k
spec occ(p: seq ref, sr: seq ref, sl: seq int, h: seq seq int, v: int, k: int, j: int): bool =
  if j > 0 then h[sr[p[k]]][j-1] == v || occ(p, sr, sl, h, v, k, j-1) else if k <= 0 then false else occ(p, sr, sl, h, v, k-1, sl[p[k-1]]);
// the number of different features before entry j of node k
spec news(p: seq ref, sr: seq ref, sl: seq int, h: seq seq int, k: int, j: int): int =
  if j > 0 then news(p, sr, sl, h, k, j-1) + (if occ(p, sr, sl, h, h[sr[p[k]]][j-1], k, j-1) then 0 else 1) else if k <= 0 then 0 else news(p, sr, sl, h, k-1, sl[p[k-1]]);
def shownBefore(p: *LassoLarsPath, v: int, k: int, j: int) = occ(arr(p.LassoLarsNodes), fieldheap(LassoLarsNode, Selection.ref), fieldheap(LassoLarsNode, Selection.len), old(heap(int)), v, k, j);
def numShown(p: *LassoLarsPath, k: int, j: int) = news(arr(p.LassoLarsNodes), fieldheap(LassoLarsNode, Selection.ref), fieldheap(LassoLarsNode, Selection.len), old(heap(int)), k, j);
def before(k: int, j: int, l: int, i: int) = k < l || k == l && j < i;
def pathEntry(p: []*LassoLarsNode, k: int, j: int) = 0 <= k && k < len(p) && 0 <= j && j < len(p[k].Selection);
// r lists exactly the features that occur before entry i of node l, each at its rank by first appearance
def listsAll(p: *LassoLarsPath, r: []int, l: int, i: int) = forall v: int :: {shownBefore(p, v, l, i)} shownBefore(p, v, l, i) ==> memi(r, v);
def listsOnly(p: *LassoLarsPath, r: []int, l: int, i: int) = forall a: int :: {r[a]} 0 <= a && a < len(r) ==> shownBefore(p, r[a], l, i);
def listsInOrder(p: *LassoLarsPath, r: []int, l: int, i: int) = forall k, j: int :: {p.LassoLarsNodes[k].Selection[j]} pathEntry(p.LassoLarsNodes, k, j) && before(k, j, l, i)
  && !shownBefore(p, p.LassoLarsNodes[k].Selection[j], k, j) ==> 0 <= numShown(p, k, j) && numShown(p, k, j) < len(r) && r[numShown(p, k, j)] == p.LassoLarsNodes[k].Selection[j];
def distinctList(r: []int) = forall a, b: int :: {r[a], r[b]} 0 <= a && a < b && b < len(r) ==> r[a] != r[b];
func LassoLarsPath.PickMostRelevantFeatures(p, numFeat) (r) {
  requires pathOk(p.LassoLarsNodes);
  ensures distinct: distinctList(r);
  // the shortest non-empty part of the path that shows at least numFeat features, or all of it
  ensures prefix: exists m: int :: {numShown(p, m, 0)} 0 <= m && m <= len(p.LassoLarsNodes) && len(r) == numShown(p, m, 0)
    && (m < len(p.LassoLarsNodes) ==> m > 0 && numShown(p, m, 0) >= numFeat) && (forall k: int :: {numShown(p, k, 0)} 1 <= k && k < m ==> numShown(p, k, 0) < numFeat)
    && listsAll(p, r, m, 0) && listsOnly(p, r, m, 0) && listsInOrder(p, r, m, 0);
  loop 1 {
    invariant fresh(mostRelevant);
    invariant distinct: distinctList(mostRelevant);
    invariant count: len(mostRelevant) == numShown(p, $i, 0);
    invariant few: forall k: int :: {numShown(p, k, 0)} 1 <= k && k <= $i ==> numShown(p, k, 0) < numFeat;
    invariant next: $i < len(p.LassoLarsNodes) ==> numShown(p, $i + 1, 0) == numShown(p, $i, len(p.LassoLarsNodes[$i].Selection));
    invariant all: listsAll(p, mostRelevant, $i, 0);
    invariant only: listsOnly(p, mostRelevant, $i, 0);
    invariant order: listsInOrder(p, mostRelevant, $i, 0);
  }
  loop 2 {
    invariant fresh(mostRelevant);
    invariant distinct: distinctList(mostRelevant);
    invariant count: len(mostRelevant) == numShown(p, $i1, $i);
    invariant all: listsAll(p, mostRelevant, $i1, $i);
    invariant only: listsOnly(p, mostRelevant, $i1, $i);
    invariant order: listsInOrder(p, mostRelevant, $i1, $i);
  }
}
func LassoNodesSlice2SparsCoeff(nodes) (sp) {
  requires pathOk(nodes);
  ensures length: len(sp) == len(nodes) && newfrom(sp);
  ensures pairs: forall k: int :: {sp[k]} 0 <= k && k < len(sp) ==> sp[k].Selection == nodes[k].Selection && sp[k].Coeff == nodes[k].Coeff;
  loop 1 {
    invariant len(sp) == len(nodes) && fresh(sp);
    invariant forall k: int :: {sp[k]} 0 <= k && k < $i ==> sp[k].Selection == nodes[k].Selection && sp[k].Coeff == nodes[k].Coeff;
  }
}
property C23 { verify LassoLarsPath.MaxMinFeatNo, LassoLarsPath.ExtractPath, LassoLarsPath.PickMostRelevantFeatures, LassoNodesSlice2SparsCoeff; }
