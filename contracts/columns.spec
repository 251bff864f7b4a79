// C09: column selection
def inRange(s: []int, n: int) = forall k: int :: {s[k]} 0 <= k && k < len(s) ==> 0 <= s[k] && s[k] < n;
// D is the matrix of the columns of X marked in m
spec isDesign(D: seq seq real, m: seq bool, n: int, X: seq seq real, nr: int): bool =
  (forall i, j: int :: {X[i][j], m[j]} 0 <= i && i < nr && 0 <= j && j < n && m[j] ==> D[i][cnt(m, j)] == X[i][j]);
func GetDesignMatrix(model, X) (D) {
  requires len(model) <= cols(X) && (rows(X) > 0 || cnt(arr(model), len(model)) == 0);
  panics when cnt(arr(model), len(model)) == 0;
  ensures shape: fresh(D) && rows(D) == rows(X) && cols(D) == cnt(arr(model), len(model));
  ensures columns: isDesign(cont(D), arr(model), len(model), cont(X), rows(X));
  ensures content: forall i, j: int :: {cont(X)[i][j], model[j]} 0 <= i && i < rows(X) && 0 <= j && j < len(model) && model[j] ==> cont(D)[i][cnt(arr(model), j)] == cont(X)[i][j];
  loop 1 {
    invariant rows(design) == n && cols(design) == numFeat && fresh(design) && n == rows(X);
    invariant col == cnt(arr(model), i);
    invariant forall r, j: int :: {cont(X)[r][j], model[j]} 0 <= r && r < n && 0 <= j && j < i && model[j] ==> cont(design)[r][cnt(arr(model), j)] == cont(X)[r][j];
  }
  loop 2 {
    invariant rows(design) == n && cols(design) == numFeat && fresh(design);
    invariant forall r, k: int :: {cont(X)[r][k], model[k]} 0 <= r && r < n && 0 <= k && k < i && model[k] ==> cont(design)[r][cnt(arr(model), k)] == cont(X)[r][k];
    invariant forall r: int :: {cont(X)[r]} 0 <= r && r < j ==> cont(design)[r][col] == cont(X)[r][i];
  }
}
func IndexedColView.At(v, i, j) (r) {
  requires 0 <= j && j < len(v.ColIndices) && inRange(v.ColIndices, cols(v.Matrix)) && 0 <= i && i < rows(v.Matrix) && v.Matrix != nil;
  ensures entry: r == at(v.Matrix, i, v.ColIndices[j]);
}
func IndexedColView.Dims(v) (r, c) {
  requires v.Matrix != nil;
  ensures r == rows(v.Matrix) && c == len(v.ColIndices);
}
func IndexedColView.T(v) (t) {
  requires inRange(v.ColIndices, cols(v.Matrix));
  ensures rows(t) == len(v.ColIndices) && cols(t) == rows(v.Matrix);
  ensures forall i, j: int :: {cont(t)[i][j]} 0 <= i && i < rows(t) && 0 <= j && j < cols(t) ==> cont(t)[i][j] == at(v.Matrix, j, v.ColIndices[i]);
}
func NewIndexedColView(m, colInd) (v) {
  ensures v.Matrix == m && v.ColIndices == colInd;
}
func NewIndexedColVecView(v, rows) (r) {
  ensures fresh(r) && r.Vector == v && r.Rows == rows;
}
func IndexedColVecView.At(v, i, j) (r) {
  requires v.Vector != nil && 0 <= i && i < len(v.Rows) && inRange(v.Rows, rows(v.Vector));
  ensures entry: r == at(v.Vector, v.Rows[i], 0);
}
func IndexedColVecView.AtVec(v, i) (r) {
  requires v.Vector != nil && 0 <= i && i < len(v.Rows) && inRange(v.Rows, rows(v.Vector));
  ensures entry: r == at(v.Vector, v.Rows[i], 0);
}
func IndexedColVecView.Dims(v) (r, c) { ensures r == len(v.Rows) && c == 1; }
func IndexedColVecView.Len(v) (n) { ensures n == len(v.Rows); }
func IndexedColVecView.T(v) (t) {
  requires inRange(v.Rows, rows(v.Vector));
  ensures rows(t) == 1 && cols(t) == len(v.Rows);
  ensures forall j: int :: {cont(t)[0][j]} 0 <= j && j < cols(t) ==> cont(t)[0][j] == at(v.Vector, v.Rows[j], 0);
}
func SliceVec.AtVec(s, i) (r) { requires 0 <= i && i < len(s.data); ensures entry: r == s.data[i]; }
func SliceVec.Len(s) (n) { ensures n == len(s.data); }
func SliceVec.At(s, i, j) (r) { requires 0 <= i && i < len(s.data); ensures entry: r == s.data[i]; }
func SliceVec.Dims(s) (r, c) { ensures r == len(s.data) && c == 1; }
func SliceVec.T(s) (t) {
  ensures rows(t) == 1 && cols(t) == len(s.data);
  ensures forall j: int :: {cont(t)[0][j]} 0 <= j && j < cols(t) ==> cont(t)[0][j] == s.data[j];
}
func NewSliceVec(d) (s) { ensures fresh(s) && s.data == d; }

// the number of columns below n that are not in the order list
def listed(c: []int, j: int) = exists k: int :: {c[k]} 0 <= k && k < len(c) && c[k] == j;
lemma cntSet(m: seq bool, i: int, n: int) {
  requires n >= 0 && 0 <= i && !m[i];
  ensures cnt(set(m, i, true), n) == cnt(m, n) + (if i < n then 1 else 0);
  induct n; trigger {cnt(set(m, i, true), n)};
}
lemma cntNone(n: int) { requires n >= 0; ensures cnt(constseq(false), n) == 0; induct n; trigger {cnt(constseq(false), n)}; }
// the columns in the order list come first, the others follow in their original order: column j has j - cnt(m, j) unlisted columns before it
def restBehind(N: seq seq real, X: seq seq real, m: seq bool, first: int, nr: int, nc: int) =
  forall r, j: int :: {X[r][j], m[j]} 0 <= r && r < nr && 0 <= j && j < nc && !m[j] ==> N[r][first + j - cnt(m, j)] == X[r][j];
func RearrangeDense(X, colOrder) (N) {
  requires rows(X) > 0 && cols(X) > 0;
  requires inRange(colOrder, cols(X));
  requires distinct: forall i, j: int :: {colOrder[i], colOrder[j]} 0 <= i && i < j && j < len(colOrder) ==> colOrder[i] != colOrder[j];
  requires short: len(colOrder) <= cols(X);
  ensures shape: fresh(N) && rows(N) == rows(X) && cols(N) == cols(X);
  ensures listed: forall r, k: int :: {cont(N)[r][k], colOrder[k]} 0 <= r && r < rows(X) && 0 <= k && k < len(colOrder) ==> cont(N)[r][k] == cont(X)[r][colOrder[k]];
  ensures rest: exists m: seq bool :: {cnt(m, cols(X))} (forall j: int :: {m[j]} 0 <= j && j < cols(X) ==> (m[j] <==> listed(colOrder, j))) && cnt(m, cols(X)) == len(colOrder)
     && restBehind(cont(N), cont(X), m, len(colOrder), rows(X), cols(X));
  loop 1 {
    invariant rows(newMat) == rows(X) && cols(newMat) == cols(X) && fresh(newMat) && len(inserted) == cols(X) && fresh(inserted) && numInserted == i;
    invariant marked: forall j: int :: {inserted[j]} 0 <= j && j < cols(X) ==> (inserted[j] <==> (exists k: int :: {colOrder[k]} 0 <= k && k < i && colOrder[k] == j));
    invariant forall r, k: int :: {cont(newMat)[r][k]} 0 <= r && r < rows(X) && 0 <= k && k < i ==> cont(newMat)[r][k] == cont(X)[r][colOrder[k]];
    invariant count: cnt(arr(inserted), cols(X)) == i;
  }
  loop 2 {
    invariant forall r, k: int :: {cont(newMat)[r][k]} 0 <= r && r < rows(X) && 0 <= k && (k < i || k == i && r < j) ==> cont(newMat)[r][k] == cont(X)[r][colOrder[k]];
  }
  loop 3 {
    invariant rows(newMat) == rows(X) && cols(newMat) == cols(X) && fresh(newMat) && numInserted == len(colOrder) + i - cnt(arr(inserted), i);
    invariant forall r, k: int :: {cont(newMat)[r][k]} 0 <= r && r < rows(X) && 0 <= k && k < len(colOrder) ==> cont(newMat)[r][k] == cont(X)[r][colOrder[k]];
    invariant restBehind(cont(newMat), cont(X), arr(inserted), len(colOrder), rows(X), i);
  }
  loop 4 {
    invariant forall r, k: int :: {cont(newMat)[r][k]} 0 <= r && r < rows(X) && 0 <= k && k < cols(X) ==> cont(newMat)[r][k] == (if k == numInserted && r < j then cont(X)[r][i] else pre(cont(newMat))[r][k]);
  }
}
property C09 { verify GetDesignMatrix, IndexedColView.At, IndexedColView.Dims, IndexedColView.T, NewIndexedColView, NewIndexedColVecView, IndexedColVecView.At, IndexedColVecView.AtVec, IndexedColVecView.Dims,
  RearrangeDense, IndexedColVecView.Len, IndexedColVecView.T, SliceVec.AtVec, SliceVec.Len, SliceVec.At, SliceVec.Dims, SliceVec.T, NewSliceVec; }
