// gonum matrices: assumed contracts over the reals. rows/cols/at describe a matrix; a vector is a matrix with one column.
spec mm(a: seq seq real, i: int, b: seq seq real, j: int, n: int): real = if n <= 0 then 0.0 else mm(a, i, b, j, n-1) + a[i][n-1] * b[n-1][j];
// products of three and four matrices
spec mm3(a: seq seq real, i: int, b: seq seq real, c: seq seq real, j: int, n: int, m: int): real = if m <= 0 then 0.0 else mm3(a, i, b, c, j, n, m-1) + mm(a, i, b, m-1, n) * c[m-1][j];
spec mm4(a: seq seq real, i: int, b: seq seq real, c: seq seq real, d: seq seq real, j: int, n: int, m: int, l: int): real = if l <= 0 then 0.0 else mm4(a, i, b, c, d, j, n, m, l-1) + mm3(a, i, b, c, l-1, n, m) * d[l-1][j];
lemma mmFrame(a: seq seq real, b: seq seq real, c: seq seq real, d: seq seq real, i: int, i2: int, j: int, j2: int, n: int) {
  requires n >= 0;
  requires forall k: int :: {a[i][k]} {b[i2][k]} 0 <= k && k < n ==> a[i][k] == b[i2][k];
  requires forall k: int :: {c[k][j]} {d[k][j2]} 0 <= k && k < n ==> c[k][j] == d[k][j2];
  ensures mm(a, i, c, j, n) == mm(b, i2, d, j2, n);
  induct n; noauto;
}

iface mat.Matrix.Dims(m) (r, c) { ensures r == rows(m) && c == cols(m); }
iface mat.Matrix.At(m, i, j) (v) {
  requires 0 <= i && i < rows(m) && 0 <= j && j < cols(m);
  ensures v == at(m, i, j);
}
iface mat.Matrix.T(m) (t) {
  ensures fresh(t) && rows(t) == cols(m) && cols(t) == rows(m);
  ensures forall i, j: int :: {cont(t)[i][j]} cont(t)[i][j] == cont(m)[j][i];
}
iface mat.Mutable.Set(m, i, j, v) {
  requires 0 <= i && i < rows(m) && 0 <= j && j < cols(m);
  modifies matc(m);
  ensures cont(m) == set(old(cont(m)), i, set(old(cont(m))[i], j, v));
}
iface mat.Vector.AtVec(m, i) (v) {
  requires 0 <= i && i < rows(m);
  ensures v == at(m, i, 0);
}
iface mat.Vector.Len(m) (n) { ensures n == rows(m); }

extern mat.NewDense(r, c, data) (m) {
  requires r > 0 && c > 0;
  requires data != nil ==> len(data) == r * c;
  ensures fresh(m) && rows(m) == r && cols(m) == c;
  ensures data == nil ==> cont(m) == constseq(constseq(0.0));
  ensures data != nil ==> (forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < r && 0 <= j && j < c ==> cont(m)[i][j] == data[i * c + j]);
}
extern mat.NewVecDense(n, data) (m) {
  requires n > 0;
  requires data != nil ==> len(data) == n;
  ensures fresh(m) && rows(m) == n && cols(m) == 1;
  ensures data == nil ==> cont(m) == constseq(constseq(0.0));
  ensures data != nil ==> (forall i: int :: {cont(m)[i]} 0 <= i && i < n ==> cont(m)[i][0] == data[i]);
}
extern mat.NewDiagDense(n, data) (m) {
  requires n > 0 && len(data) == n;
  ensures fresh(m) && rows(m) == n && cols(m) == n;
  ensures forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < n && 0 <= j && j < n ==> cont(m)[i][j] == (if i == j then data[i] else 0.0);
}
extern mat.DenseCopyOf(a) (m) {
  ensures fresh(m) && rows(m) == rows(a) && cols(m) == cols(a);
  ensures forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(a) && 0 <= j && j < cols(a) ==> cont(m)[i][j] == cont(a)[i][j];
}
extern mat.EqualApprox(a, b, tol) (r) {
  ensures r <==> rows(a) == rows(b) && cols(a) == cols(b) && (forall i, j: int :: {cont(a)[i][j]} {cont(b)[i][j]} 0 <= i && i < rows(a) && 0 <= j && j < cols(a) ==> approx(cont(a)[i][j], cont(b)[i][j], tol));
}
uninterp normTag(R: real): bool;
extern mat.Norm(a, n) (r) { ensures r >= 0.0 && normTag(r); ensures forall i: int :: {cont(a)[i]} 0 <= i && i < rows(a) && cols(a) > 0 && cont(a)[i][0] != 0.0 ==> r > 0.0; }
extern mat.Dense.Dims(m) (r, c) { ensures r == rows(m) && c == cols(m); }
extern mat.Dense.At(m, i, j) (v) {
  requires 0 <= i && i < rows(m) && 0 <= j && j < cols(m);
  ensures v == at(m, i, j);
}
extern mat.Dense.Set(m, i, j, v) {
  requires 0 <= i && i < rows(m) && 0 <= j && j < cols(m);
  modifies matc(m);
  ensures cont(m) == set(old(cont(m)), i, set(old(cont(m))[i], j, v));
}
extern mat.Dense.SetCol(m, j, src) {
  requires 0 <= j && j < cols(m) && len(src) == rows(m);
  modifies matc(m);
  ensures forall i, k: int :: {cont(m)[i][k]} 0 <= i && i < rows(m) && 0 <= k && k < cols(m) ==> cont(m)[i][k] == (if k == j then src[i] else old(cont(m)[i][k]));
}
extern mat.Dense.T(m) (t) {
  ensures fresh(t) && rows(t) == cols(m) && cols(t) == rows(m);
  ensures forall i, j: int :: {cont(t)[i][j]} cont(t)[i][j] == cont(m)[j][i];
}
extern mat.Dense.ColView(m, j) (v) {
  requires 0 <= j && j < cols(m);
  ensures fresh(v) && rows(v) == rows(m) && cols(v) == 1;
  ensures forall i: int :: {cont(v)[i]} 0 <= i && i < rows(m) ==> cont(v)[i][0] == cont(m)[i][j];
}
extern mat.Dense.Mul(m, a, b) {
  requires cols(a) == rows(b) && rows(a) > 0 && cols(b) > 0;
  requires rows(m) == 0 && cols(m) == 0 || rows(m) == rows(a) && cols(m) == cols(b);
  modifies mat(m);
  ensures rows(m) == rows(a) && cols(m) == cols(b);
  ensures forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(m) && 0 <= j && j < cols(m) ==> cont(m)[i][j] == mm(old(cont(a)), i, old(cont(b)), j, old(cols(a)));
}
extern mat.Dense.Product(m, factors) {
  requires len(factors) > 0 && rows(factors[0]) > 0 && cols(factors[len(factors)-1]) > 0;
  requires forall k: int :: {factors[k]} 0 <= k && k + 1 < len(factors) ==> cols(factors[k]) == rows(factors[k+1]);
  requires rows(m) == 0 && cols(m) == 0 || rows(m) == rows(factors[0]) && cols(m) == cols(factors[len(factors)-1]);
  modifies mat(m);
  ensures rows(m) == old(rows(factors[0])) && cols(m) == old(cols(factors[len(factors)-1]));
  ensures len(factors) == 2 ==> (forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(m) && 0 <= j && j < cols(m) ==>
     cont(m)[i][j] == mm(old(cont(factors[0])), i, old(cont(factors[1])), j, old(cols(factors[0]))));
  ensures len(factors) == 3 ==> (forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(m) && 0 <= j && j < cols(m) ==>
     cont(m)[i][j] == mm3(old(cont(factors[0])), i, old(cont(factors[1])), old(cont(factors[2])), j, old(cols(factors[0])), old(cols(factors[1]))));
  ensures len(factors) == 4 ==> (forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(m) && 0 <= j && j < cols(m) ==>
     cont(m)[i][j] == mm4(old(cont(factors[0])), i, old(cont(factors[1])), old(cont(factors[2])), old(cont(factors[3])), j, old(cols(factors[0])), old(cols(factors[1])), old(cols(factors[2]))));
}
extern mat.Dense.Scale(m, f, a) {
  requires rows(m) == 0 && cols(m) == 0 || rows(m) == rows(a) && cols(m) == cols(a);
  modifies mat(m);
  ensures rows(m) == old(rows(a)) && cols(m) == old(cols(a));
  ensures forall i, j: int :: {cont(m)[i][j]} 0 <= i && i < rows(m) && 0 <= j && j < cols(m) ==> cont(m)[i][j] == f * old(cont(a)[i][j]);
}
extern mat.VecDense.Len(m) (n) { ensures n == rows(m); }
extern mat.VecDense.Dims(m) (r, c) { ensures r == rows(m) && c == cols(m); }
extern mat.VecDense.AtVec(m, i) (v) {
  requires 0 <= i && i < rows(m);
  ensures v == at(m, i, 0);
}
extern mat.VecDense.SetVec(m, i, v) {
  requires 0 <= i && i < rows(m);
  modifies matc(m);
  ensures cont(m) == set(old(cont(m)), i, set(old(cont(m))[i], 0, v));
}
extern mat.VecDense.MulVec(m, a, b) {
  requires rows(a) > 0;
  panics when cols(a) != rows(b);
  requires rows(m) == 0 || rows(m) == rows(a);
  modifies mat(m);
  ensures rows(m) == rows(a) && cols(m) == 1;
  ensures forall i: int :: {cont(m)[i]} 0 <= i && i < rows(m) ==> cont(m)[i][0] == mm(old(cont(a)), i, old(cont(b)), 0, old(cols(a)));
}
extern mat.VecDense.ScaleVec(m, f, a) {
  requires rows(m) == 0 || rows(m) == rows(a);
  modifies mat(m);
  ensures rows(m) == old(rows(a)) && cols(m) == 1;
  ensures forall i: int :: {cont(m)[i]} 0 <= i && i < rows(m) ==> cont(m)[i][0] == f * old(cont(a)[i][0]);
}

// views of this package seen as matrices
view IndexedColView(v) {
  rows = rows(v.Matrix);
  cols = len(v.ColIndices);
  at(i, j) = at(v.Matrix, i, v.ColIndices[j]);
}
view IndexedColVecView(v) {
  rows = len(v.Rows);
  cols = 1;
  at(i, j) = at(v.Vector, v.Rows[i], 0);
}
view SliceVec(v) {
  rows = len(v.data);
  cols = 1;
  at(i, j) = v.data[i];
}
