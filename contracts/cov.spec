// C21: thresholding, covariance, row splitting
// entries of a row (of the first nr rows) smaller in magnitude than t
spec smallRow(r: seq real, t: real, n: int): int = if n <= 0 then 0 else smallRow(r, t, n-1) + (if absr(r[n-1]) < t then 1 else 0);
spec smallAll(M: seq seq real, t: real, nc: int, nr: int): int = if nr <= 0 then 0 else smallAll(M, t, nc, nr-1) + smallRow(M[nr-1], t, nc);
def cutEntry(v: real, t: real) = if absr(v) < t then 0.0 else v;
func ThresholdOperator.Apply(t, X) {
  requires X != nil;
  modifies t.numRemoved, matc(X);
  ensures entries: forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==> cont(X)[i][j] == cutEntry(old(cont(X))[i][j], t.threshold);
  ensures count: t.numRemoved == smallAll(old(cont(X)), t.threshold, cols(X), rows(X));
  loop 1 {
    invariant t.numRemoved == smallAll(old(cont(X)), t.threshold, cols(X), i);
    invariant forall k, l: int :: {cont(X)[k][l]} 0 <= k && k < rows(X) && 0 <= l && l < cols(X) ==> cont(X)[k][l] == (if k < i then cutEntry(old(cont(X))[k][l], t.threshold) else old(cont(X))[k][l]);
  }
  loop 2 {
    invariant t.numRemoved == smallAll(old(cont(X)), t.threshold, cols(X), i) + smallRow(old(cont(X))[i], t.threshold, j);
    invariant forall k, l: int :: {cont(X)[k][l]} 0 <= k && k < rows(X) && 0 <= l && l < cols(X) ==> cont(X)[k][l] == (if k < i || k == i && l < j then cutEntry(old(cont(X))[k][l], t.threshold) else old(cont(X))[k][l]);
  }
}
// p is a rearrangement of 0..n-1
def permutation(p: []int, n: int) = len(p) == n && (forall i: int :: {p[i]} 0 <= i && i < n ==> 0 <= p[i] && p[i] < n)
  && (forall i, j: int :: {p[i], p[j]} 0 <= i && i < j && j < n ==> p[i] != p[j]);
def everyRow(p: []int, n: int) = forall k: int :: {rowTag(k)} 0 <= k && k < n ==> (exists i: int :: {p[i]} 0 <= i && i < n && p[i] == k);
uninterp rowTag(k: int): bool;
func RandomRowSplit(X, num) (m1, m2) {
  requires cols(X) > 0 && 0 < num && num < rows(X);
  ensures new: fresh(m1) && fresh(m2) && m1 != m2;
  ensures shape: rows(m1) == num && rows(m2) == rows(X) - num && cols(m1) == cols(X) && cols(m2) == cols(X);
  ensures rows: exists p: seq int :: {p[0]} (forall i: int :: {p[i]} 0 <= i && i < rows(X) ==> 0 <= p[i] && p[i] < rows(X))
     && (forall i, j: int :: {p[i], p[j]} 0 <= i && i < j && j < rows(X) ==> p[i] != p[j])
     && (forall k: int :: {rowTag(k)} 0 <= k && k < rows(X) ==> (exists i: int :: {p[i]} 0 <= i && i < rows(X) && p[i] == k))
     && (forall i, c: int :: {cont(m1)[i][c]} 0 <= i && i < num && 0 <= c && c < cols(X) ==> cont(m1)[i][c] == cont(X)[p[i]][c])
     && (forall i, c: int :: {cont(m2)[i][c]} 0 <= i && i < rows(X) - num && 0 <= c && c < cols(X) ==> cont(m2)[i][c] == cont(X)[p[i + num]][c]);
  loop 1 {
    invariant len(indices) == rows(X) && fresh(indices);
    invariant forall k: int :: {indices[k]} 0 <= k && k < i ==> indices[k] == k;
  }
  loop 2 {
    invariant len(indices) == rows(X) && fresh(indices);
    invariant permutation(indices, rows(X));
    invariant everyRow(indices, rows(X));
  }
  loop 3 {
    invariant rows(mat1) == num && cols(mat1) == cols(X) && fresh(mat1);
    invariant forall k, c: int :: {cont(mat1)[k][c]} 0 <= k && k < i && 0 <= c && c < cols(X) ==> cont(mat1)[k][c] == cont(X)[indices[k]][c];
  }
  loop 4 {
    invariant forall k, c: int :: {cont(mat1)[k][c]} 0 <= k && 0 <= c && c < cols(X) && (k < i || k == i && c < j) ==> cont(mat1)[k][c] == cont(X)[indices[k]][c];
  }
  loop 5 {
    invariant rows(mat2) == rows(X) - num && cols(mat2) == cols(X) && fresh(mat2);
    invariant forall k, c: int :: {cont(mat2)[k][c]} 0 <= k && k + num < i && 0 <= c && c < cols(X) ==> cont(mat2)[k][c] == cont(X)[indices[k + num]][c];
  }
  loop 6 {
    invariant forall k, c: int :: {cont(mat2)[k][c]} 0 <= k && 0 <= c && c < cols(X) && (k + num < i || k + num == i && c < j) ==> cont(mat2)[k][c] == cont(X)[indices[k + num]][c];
  }
}
// the sum over the first n rows of column a times column b
spec colDot(M: seq seq real, a: int, b: int, n: int): real = if n <= 0 then 0.0 else colDot(M, a, b, n-1) + M[n-1][a] * M[n-1][b];
lemma mmCols(T: seq seq real, M: seq seq real, a: int, b: int, n: int) {
  requires n >= 0;
  requires forall k: int :: {T[a][k]} 0 <= k && k < n ==> T[a][k] == M[k][a];
  ensures mm(T, a, M, b, n) == colDot(M, a, b, n);
  induct n; trigger {mm(T, a, M, b, n)};
}
// mean of the products of columns a and b; mean of column a
def meanProd(M: seq seq real, a: int, b: int, n: int) = (1.0 / real(n)) * colDot(M, a, b, n);
spec colShare(M: seq seq real, a: int, d: real, n: int): real = if n <= 0 then 0.0 else colShare(M, a, d, n-1) + M[n-1][a] / d;
lemma divAdd(a: real, b: real, d: real) { requires d != 0.0; ensures (a + b) / d == a / d + b / d; noauto; }
lemma colShareMean(M: seq seq real, a: int, d: real, n: int) { requires n >= 0 && d != 0.0;
  use divAdd(sumr(colseq(M, a, n-1), n-1), M[n-1][a], d);
  use sumrFrame(colseq(M, a, n), colseq(M, a, n-1), n-1);
  ensures colShare(M, a, d, n) == sumr(colseq(M, a, n), n) / d; induct n; noauto; }
func CovarianceMatrix(X) (cov) {
  requires rows(X) > 0 && cols(X) > 0;
  ensures shape: fresh(cov) && rows(cov) == cols(X) && cols(cov) == cols(X);
  ensures entries: forall i, j: int :: {cont(cov)[i][j]} 0 <= i && i < cols(X) && 0 <= j && j < cols(X) ==>
     cont(cov)[i][j] == meanProd(cont(X), i, j, rows(X)) - colShare(cont(X), i, real(rows(X)), rows(X)) * colShare(cont(X), j, real(rows(X)), rows(X));
  loop 1 {
    invariant len(mu) == cols(X) && fresh(mu);
    invariant forall c: int :: {mu[c]} 0 <= c && c < cols(X) ==> mu[c] == colShare(cont(X), c, real(rows(X)), i);
  }
  loop 2 {
    invariant len(mu) == cols(X) && fresh(mu);
    invariant forall c: int :: {mu[c]} 0 <= c && c < cols(X) ==> mu[c] == (if c < j then colShare(cont(X), c, real(rows(X)), i + 1) else colShare(cont(X), c, real(rows(X)), i));
  }
  loop 3 {
    invariant rows(cov) == cols(X) && cols(cov) == cols(X) && fresh(cov);
    invariant forall k, l: int :: {cont(cov)[k][l]} 0 <= k && k < cols(X) && 0 <= l && l < cols(X) ==> cont(cov)[k][l] == meanProd(cont(X), k, l, rows(X)) - (if k < i then mu[k] * mu[l] else 0.0);
  }
  loop 4 {
    invariant forall k, l: int :: {cont(cov)[k][l]} 0 <= k && k < cols(X) && 0 <= l && l < cols(X) ==> cont(cov)[k][l] == meanProd(cont(X), k, l, rows(X)) - (if k < i || k == i && l < j then mu[k] * mu[l] else 0.0);
  }
}
def isEmpirical(C: mat.Matrix, X: mat.Matrix) = rows(C) == cols(X) && cols(C) == cols(X)
  && (forall i, j: int :: {cont(C)[i][j]} 0 <= i && i < cols(X) && 0 <= j && j < cols(X) ==> cont(C)[i][j] == meanProd(cont(X), i, j, rows(X)));
func Empirical.Get(e, X) (cov) {
  requires rows(X) > 0 && cols(X) > 0;
  ensures fresh(cov) && isEmpirical(cov, X);
}
func Identity.Get(i, X) (cov) {
  requires cols(X) > 0;
  ensures fresh(cov) && rows(cov) == cols(X) && cols(cov) == cols(X);
  ensures forall a, b: int :: {cont(cov)[a][b]} 0 <= a && a < cols(X) && 0 <= b && b < cols(X) ==> cont(cov)[a][b] == (if a == b then 1.0 else 0.0);
  loop 1 {
    invariant len(ones) == cols(X) && fresh(ones);
    invariant forall k: int :: {ones[k]} 0 <= k && k < $i ==> ones[k] == 1.0;
  }
}
func SparseThresholded.Get(s, X) (cov) {
  requires rows(X) > 0 && cols(X) > 0 && s.op != nil && s.X != nil;
  panics when !(rows(X) == rows(s.X) && cols(X) == cols(s.X) && (forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==> approx(cont(X)[i][j], cont(s.X)[i][j], 1e-10)));
  modifies s.op.numRemoved;
  ensures fresh(cov) && rows(cov) == cols(X) && cols(cov) == cols(X);
  ensures forall i, j: int :: {cont(cov)[i][j]} 0 <= i && i < cols(X) && 0 <= j && j < cols(X) ==> cont(cov)[i][j] == cutEntry(meanProd(cont(X), i, j, rows(X)), s.op.threshold);
}
property C21 { verify ThresholdOperator.Apply, RandomRowSplit, CovarianceMatrix, Empirical.Get, Identity.Get, SparseThresholded.Get; lemmas colShareMean; }
