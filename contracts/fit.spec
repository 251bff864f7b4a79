// C27: predictions and residuals; C28: fits
spec dotr(a: seq real, b: seq real, n: int): real = if n <= 0 then 0.0 else dotr(a, b, n-1) + a[n-1] * b[n-1];
lemma dotrFrame(a: seq real, b: seq real, c: seq real, d: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {a[k]} {c[k]} 0 <= k && k < n ==> a[k] == c[k];
  requires forall k: int :: {b[k]} {d[k]} 0 <= k && k < n ==> b[k] == d[k];
  ensures dotr(a, b, n) == dotr(c, d, n);
  induct n; trigger {dotr(a, b, n), dotr(c, d, n)};
}
lemma mmDot(X: seq seq real, i: int, b: seq seq real, c: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {b[k]} {c[k]} 0 <= k && k < n ==> b[k][0] == c[k];
  ensures mm(X, i, b, 0, n) == dotr(X[i], c, n);
  induct n; trigger {mm(X, i, b, 0, n), dotr(X[i], c, n)};
}
// sum over the first nr rows of (row . c - y)^2
spec rssOf(D: seq seq real, c: seq real, y: seq real, nc: int, nr: int): real = if nr <= 0 then 0.0 else rssOf(D, c, y, nc, nr-1) + (dotr(D[nr-1], c, nc) - y[nr-1]) * (dotr(D[nr-1], c, nc) - y[nr-1]);
// column l of A against the vector x
spec colv(A: seq seq real, l: int, x: seq real, n: int): real = if n <= 0 then 0.0 else colv(A, l, x, n-1) + A[n-1][l] * x[n-1];
// the thin singular value decomposition gonum computes of the nr x nc matrix D
uninterp svdU(D: seq seq real, nr: int, nc: int): seq seq real;
uninterp svdS(D: seq seq real, nr: int, nc: int): seq real;
uninterp svdV(D: seq seq real, nr: int, nc: int): seq seq real;
def mini(a: int, b: int) = if a < b then a else b;
def pinv(s: real) = if absr(s) > 1e-6 then 1.0 / s else 0.0;
// c = V S+ U^T y
spec fitSum(Vk: seq real, U: seq seq real, s: seq real, y: seq real, nr: int, n: int): real = if n <= 0 then 0.0 else fitSum(Vk, U, s, y, nr, n-1) + Vk[n-1] * (colv(U, n-1, y, nr) * pinv(s[n-1]));
// c is the least-squares fit that Fit computes for the nr x nc design matrix D and the targets y
spec isFit(D: seq seq real, nr: int, nc: int, y: seq real, c: seq real): bool =
  forall k: int :: {c[k]} 0 <= k && k < nc ==> c[k] == fitSum(svdV(D, nr, nc)[k], svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc));
extern mat.SVD.Factorize(d, X, kind) (ok) {
  requires rows(X) > 0 && cols(X) > 0;
  modifies mat(d);
  ensures rows(d) == old(rows(X)) && cols(d) == old(cols(X)) && cont(d) == old(cont(X));
}
extern mat.SVD.Values(d, s) (v) {
  requires s == nil && rows(d) > 0;
  ensures fresh(v) && len(v) == mini(rows(d), cols(d)) && arr(v) == svdS(cont(d), rows(d), cols(d));
}
extern mat.SVD.UTo(d, u) {
  requires rows(d) > 0 && rows(u) == 0 && cols(u) == 0;
  modifies mat(u);
  ensures rows(u) == rows(d) && cols(u) == mini(rows(d), cols(d)) && cont(u) == svdU(cont(d), rows(d), cols(d));
}
extern mat.SVD.VTo(d, v) {
  requires rows(d) > 0 && rows(v) == 0 && cols(v) == 0;
  modifies mat(v);
  ensures rows(v) == cols(d) && cols(v) == mini(rows(d), cols(d)) && cont(v) == svdV(cont(d), rows(d), cols(d));
}
lemma mmFit(V: seq seq real, k: int, w: seq seq real, U: seq seq real, s: seq real, y: seq real, nr: int, n: int) {
  requires n >= 0;
  requires forall l: int :: {w[l]} 0 <= l && l < n ==> w[l][0] == colv(U, l, y, nr) * pinv(s[l]);
  ensures mm(V, k, w, 0, n) == fitSum(V[k], U, s, y, nr, n);
  induct n; trigger {mm(V, k, w, 0, n), fitSum(V[k], U, s, y, nr, n)};
}
lemma mmColv(UT: seq seq real, l: int, w: seq seq real, U: seq seq real, y: seq real, n: int) {
  requires n >= 0;
  requires forall i: int :: {w[i]} {y[i]} 0 <= i && i < n ==> w[i][0] == y[i];
  requires forall i: int :: {UT[l][i]} 0 <= i && i < n ==> UT[l][i] == U[i][l];
  ensures mm(UT, l, w, 0, n) == colv(U, l, y, n);
  induct n; trigger {mm(UT, l, w, 0, n), colv(U, l, y, n)};
}


func PredictOne(x, coeff) (r) {
  requires len(coeff) >= len(x);
  ensures sum: r == dotr(arr(x), arr(coeff), len(x));
  loop 1 { invariant res == dotr(arr(x), arr(coeff), i); }
}
func Predict(X, coeff) (res) {
  requires rows(X) > 0;
  panics when len(coeff) != cols(X);
  ensures length: len(res) == rows(X) && newfrom(res);
  ensures sum: forall i: int :: {res[i]} 0 <= i && i < rows(X) ==> res[i] == dotr(cont(X)[i], arr(coeff), cols(X));
}
func Rss(X, coeff, data) (r) {
  requires rows(X) > 0;
  panics when len(coeff) != cols(X) || len(data) != rows(X);
  ensures sum: r == rssOf(cont(X), arr(coeff), arr(data), cols(X), rows(X));
  ensures nonneg: r >= 0.0;
  loop 1 { invariant sumSq == rssOf(cont(X), arr(coeff), arr(data), cols(X), i); invariant sumSq >= 0.0; }
}
spec gcvOf(d: seq seq real, y: seq real, p: seq real, n: int): real = if n <= 0 then 0.0 else gcvOf(d, y, p, n-1) + (y[n-1] - p[n-1]) * (y[n-1] - p[n-1]) / (1.0 - d[n-1][n-1]);
func Gcv(denum, data, pred) (r) {
  requires len(data) == len(pred) && len(data) > 0 && rows(denum) == len(data) && cols(denum) == len(data);
  requires leverage: forall i: int :: {cont(denum)[i]} 0 <= i && i < len(data) ==> at(denum, i, i) < 1.0;
  ensures score: r == sqrtf(gcvOf(cont(denum), arr(data), arr(pred), len(data)) / real(len(pred)));
  ensures root: gcvOf(cont(denum), arr(data), arr(pred), len(data)) >= 0.0 ==> r >= 0.0 && r * r == gcvOf(cont(denum), arr(data), arr(pred), len(data)) / real(len(pred));
  loop 1 { invariant gcv == gcvOf(cont(denum), arr(data), arr(pred), i); }
}
property C27 { verify PredictOne, Predict, Rss, Gcv; lemmas mmDot, dotrFrame; }
