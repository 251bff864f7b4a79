// C10: names of features
def featCol(d: *Dataset, i: int) = if i < d.TargetCol then i else i + 1;
func Dataset.GetFeatName(d, i) (s) {
  requires 0 <= i && i + 1 < len(d.Names);
  ensures name: s == d.Names[featCol(d, i)];
}
func Dataset.FeatNoByName(d, name) (i) {
  panics when forall k: int :: {d.Names[k]} 0 <= k && k < len(d.Names) ==> d.Names[k] != name;
  // the first column with that name, counted without the target column
  ensures first: exists k: int :: {d.Names[k]} 0 <= k && k < len(d.Names) && d.Names[k] == name && i == (if k > d.TargetCol then k - 1 else k)
     && (forall l: int :: {d.Names[l]} 0 <= l && l < k ==> d.Names[l] != name);
  // the inverse of GetFeatName when names are distinct
  ensures inverse: (forall k, l: int :: {d.Names[k], d.Names[l]} 0 <= k && k < l && l < len(d.Names) ==> d.Names[k] != d.Names[l]) ==>
     (forall j: int :: {d.Names[featCol(d, j)]} 0 <= j && 0 <= d.TargetCol && j + 1 < len(d.Names) && d.Names[featCol(d, j)] == name ==> i == j);
  loop 1 { invariant forall k: int :: {d.Names[k]} 0 <= k && k < $i ==> d.Names[k] != name; }
}
def dsetWF(d: *Dataset) = d.X != nil && rows(d.X) > 0 && cols(d.X) > 0 && len(d.Names) == cols(d.X) + 1 && 0 <= d.TargetCol && d.TargetCol < len(d.Names) && len(d.Y) == rows(d.X);
func Dataset.GetSubset(d, features) (s) {
  requires dsetWF(d) && len(features) > 0 && inRange(features, cols(d.X));
  ensures new: fresh(s) && fresh(s.X) && newfrom(s.Y) && newfrom(s.Names);
  ensures shape: rows(s.X) == rows(d.X) && cols(s.X) == len(features) && len(s.Y) == len(d.Y) && len(s.Names) == len(features) + 1;
  ensures columns: forall r, k: int :: {cont(s.X)[r][k]} 0 <= r && r < rows(d.X) && 0 <= k && k < len(features) ==> cont(s.X)[r][k] == cont(d.X)[r][features[k]];
  ensures names: forall k: int :: {s.Names[k]} 0 <= k && k < len(features) ==> s.Names[k] == d.Names[featCol(d, features[k])];
  ensures target: s.TargetCol == len(features) && s.Names[len(features)] == d.Names[d.TargetCol];
  ensures values: forall r: int :: {s.Y[r]} 0 <= r && r < len(d.Y) ==> s.Y[r] == d.Y[r];
  loop 1 {
    invariant fresh(subset.X) && rows(subset.X) == rows(d.X) && cols(subset.X) == len(features);
    invariant forall k, c: int :: {cont(subset.X)[k][c]} 0 <= k && k < r && 0 <= c && c < len(features) ==> cont(subset.X)[k][c] == cont(d.X)[k][features[c]];
  }
  loop 2 {
    invariant forall k, c: int :: {cont(subset.X)[k][c]} 0 <= k && 0 <= c && c < len(features) && (k < r || k == r && c < $i) ==> cont(subset.X)[k][c] == cont(d.X)[k][features[c]];
  }
  loop 3 {
    invariant fresh(subset.Names) && len(subset.Names) == len(features) + 1;
    invariant forall k: int :: {subset.Names[k]} 0 <= k && k < $i ==> subset.Names[k] == d.Names[featCol(d, features[k])];
  }
}
def sameMat(a: mat.Matrix, b: mat.Matrix) = rows(a) == rows(b) && cols(a) == cols(b);
func Dataset.IsEqual(d, o) (r) {
  requires o != nil && d.X != nil && o.X != nil;
  ensures def: r <==> rows(d.X) == rows(o.X) && cols(d.X) == cols(o.X) && len(d.Y) == len(o.Y) && len(d.Names) == len(o.Names) && d.TargetCol == o.TargetCol
     && (forall i: int :: {d.Names[i]} {o.Names[i]} 0 <= i && i < len(d.Names) ==> d.Names[i] == o.Names[i])
     && (forall i: int :: {d.Y[i]} {o.Y[i]} 0 <= i && i < len(d.Y) ==> approx(d.Y[i], o.Y[i], 1e-10))
     && (forall i, j: int :: {cont(d.X)[i][j]} {cont(o.X)[i][j]} 0 <= i && i < rows(d.X) && 0 <= j && j < cols(d.X) ==> approx(cont(d.X)[i][j], cont(o.X)[i][j], 1e-10));
  loop 1 { invariant forall k: int :: {d.Names[k]} {o.Names[k]} 0 <= k && k < $i ==> d.Names[k] == o.Names[k]; }
}
func Dataset.Copy(d) (c) {
  requires d.X != nil;
  ensures new: fresh(c) && fresh(c.X) && newfrom(c.Y) && newfrom(c.Names);
  ensures separate: ref(c.Y) != ref(d.Y) && ref(c.Names) != ref(d.Names) && c.X != d.X;
  ensures matrix: rows(c.X) == rows(d.X) && cols(c.X) == cols(d.X) && (forall i, j: int :: {cont(c.X)[i][j]} 0 <= i && i < rows(d.X) && 0 <= j && j < cols(d.X) ==> cont(c.X)[i][j] == cont(d.X)[i][j]);
  ensures values: len(c.Y) == len(d.Y) && (forall i: int :: {c.Y[i]} 0 <= i && i < len(d.Y) ==> c.Y[i] == d.Y[i]);
  ensures names: len(c.Names) == len(d.Names) && c.TargetCol == d.TargetCol && (forall i: int :: {c.Names[i]} 0 <= i && i < len(d.Names) ==> c.Names[i] == d.Names[i]);
}
def sameName(d: *Dataset, names: []string, from: int, to: int) = exists k: int :: {d.Names[k]} 0 <= k && k < len(d.Names) && d.Names[k] == names[from] && to == (if k > d.TargetCol then k - 1 else k)
     && (forall l: int :: {d.Names[l]} 0 <= l && l < k ==> d.Names[l] != names[from]);
func MapSelectionByName(orig, names, selection) (r) {
  requires orig != nil && inRange(selection, len(names));
  panics when exists i: int :: {selection[i]} 0 <= i && i < len(selection) && (forall k: int :: {orig.Names[k]} 0 <= k && k < len(orig.Names) ==> orig.Names[k] != names[selection[i]]);
  modifies elems(selection);
  ensures same: r == selection;
  ensures mapped: forall i: int :: {selection[i]} 0 <= i && i < len(selection) ==> sameName(orig, names, old(selection[i]), selection[i]);
  loop 1 {
    invariant forall k: int :: {selection[k]} 0 <= k && k < $i ==> sameName(orig, names, old(selection[k]), selection[k]);
    invariant forall k: int :: {selection[k]} $i <= k && k < len(selection) ==> selection[k] == old(selection[k]);
  }
}
property C10 { verify Dataset.GetFeatName, Dataset.FeatNoByName, Dataset.GetSubset, Dataset.IsEqual, Dataset.Copy, MapSelectionByName; }
