// C28: the coefficients of Fit satisfy the normal equations
spec dot3(a: seq real, s: seq real, b: seq real, n: int): real = if n <= 0 then 0.0 else dot3(a, s, b, n-1) + a[n-1] * s[n-1] * b[n-1];
spec colOf(A: seq seq real, l: int, n: int): seq real = if n <= 0 then constseq(0.0) else set(colOf(A, l, n-1), n-1, A[n-1][l]);
spec prodSeq(a: seq real, b: seq real, n: int): seq real = if n <= 0 then constseq(0.0) else set(prodSeq(a, b, n-1), n-1, a[n-1] * b[n-1]);
spec xAw(x: seq real, A: seq seq real, w: seq real, p: int, n: int): real = if p <= 0 then 0.0 else xAw(x, A, w, p-1, n) + x[p-1] * dotr(A[p-1], w, n);
spec dsum(x: seq real, A: seq seq real, w: seq real, p: int, n: int): real = if n <= 0 then 0.0 else dsum(x, A, w, p, n-1) + colv(A, n-1, x, p) * w[n-1];
spec fitB(U: seq seq real, y: seq real, nr: int, n: int): seq real = if n <= 0 then constseq(0.0) else set(fitB(U, y, nr, n-1), n-1, colv(U, n-1, y, nr));
spec fitW(U: seq seq real, s: seq real, y: seq real, nr: int, n: int): seq real = if n <= 0 then constseq(0.0) else set(fitW(U, s, y, nr, n-1), n-1, colv(U, n-1, y, nr) * pinv(s[n-1]));
spec resid(D: seq seq real, c: seq real, y: seq real, nc: int, nr: int): seq real = if nr <= 0 then constseq(0.0) else set(resid(D, c, y, nc, nr-1), nr-1, dotr(D[nr-1], c, nc) - y[nr-1]);
axiom svdFactors "D = U diag(S) V^T, the singular value decomposition" = forall D: seq seq real; nr, nc, i, k: int :: {D[i][k], svdU(D, nr, nc)} 0 <= i && i < nr && 0 <= k && k < nc ==> D[i][k] == dot3(svdU(D, nr, nc)[i], svdS(D, nr, nc), svdV(D, nr, nc)[k], mini(nr, nc));
axiom svdOrthoU "the columns of U are orthonormal" = forall D: seq seq real; nr, nc, l, m: int :: {colv(svdU(D, nr, nc), m, colOf(svdU(D, nr, nc), l, nr), nr)} nr > 0 && nc > 0 && 0 <= l && l < mini(nr, nc) && 0 <= m && m < mini(nr, nc)
  ==> colv(svdU(D, nr, nc), m, colOf(svdU(D, nr, nc), l, nr), nr) == (if m == l then 1.0 else 0.0);
axiom svdOrthoV "the columns of V are orthonormal" = forall D: seq seq real; nr, nc, l, m: int :: {colv(svdV(D, nr, nc), m, colOf(svdV(D, nr, nc), l, nc), nc)} nr > 0 && nc > 0 && 0 <= l && l < mini(nr, nc) && 0 <= m && m < mini(nr, nc)
  ==> colv(svdV(D, nr, nc), m, colOf(svdV(D, nr, nc), l, nc), nc) == (if m == l then 1.0 else 0.0);
// full rank in the numeric sense of Fit: every singular value exceeds 1e-6
def fullRank(D: seq seq real, nr: int, nc: int) = forall l: int :: {svdS(D, nr, nc)[l]} 0 <= l && l < mini(nr, nc) ==> svdS(D, nr, nc)[l] > 1e-6;

lemma colOfAt(A: seq seq real, l: int, n: int, i: int) {
  requires 0 <= i && i < n;
  ensures colOf(A, l, n)[i] == A[i][l];
  induct n; trigger {colOf(A, l, n)[i]};
}
lemma prodSeqAt(a: seq real, b: seq real, n: int, i: int) {
  requires 0 <= i && i < n;
  ensures prodSeq(a, b, n)[i] == a[i] * b[i];
  induct n; trigger {prodSeq(a, b, n)[i]};
}
lemma fitBAt(U: seq seq real, y: seq real, nr: int, n: int, i: int) {
  requires 0 <= i && i < n;
  ensures fitB(U, y, nr, n)[i] == colv(U, i, y, nr);
  induct n; trigger {fitB(U, y, nr, n)[i]};
}
lemma fitWAt(U: seq seq real, s: seq real, y: seq real, nr: int, n: int, i: int) {
  requires 0 <= i && i < n;
  ensures fitW(U, s, y, nr, n)[i] == colv(U, i, y, nr) * pinv(s[i]);
  induct n; trigger {fitW(U, s, y, nr, n)[i]};
}
lemma residAt(D: seq seq real, c: seq real, y: seq real, nc: int, nr: int, i: int) {
  requires 0 <= i && i < nr;
  ensures resid(D, c, y, nc, nr)[i] == dotr(D[i], c, nc) - y[i];
  induct nr; trigger {resid(D, c, y, nc, nr)[i]};
}
// exchange of sums: sum_i x_i (A_i . w) = sum_l (A^T x)_l w_l
lemma dsumZero(x: seq real, A: seq seq real, w: seq real, p: int, n: int) {
  requires p <= 0;
  ensures dsum(x, A, w, p, n) == 0.0;
  induct n; noauto;
}
lemma dsumStep(x: seq real, A: seq seq real, w: seq real, p: int, n: int) {
  requires p > 0 && n >= 0;
  ensures dsum(x, A, w, p, n) == dsum(x, A, w, p-1, n) + x[p-1] * dotr(A[p-1], w, n);
  induct n; noauto;
}
lemma exchange(x: seq real, A: seq seq real, w: seq real, p: int, n: int) {
  requires n >= 0 && p >= 0;
  ensures xAw(x, A, w, p, n) == dsum(x, A, w, p, n);
  induct p; noauto;
  use dsumZero(x, A, w, p, n);
  use dsumStep(x, A, w, p, n);
}
lemma dsumDelta(x: seq real, A: seq seq real, w: seq real, p: int, n: int, l: int) {
  requires n >= 0 && l >= 0;
  requires forall m: int :: {colv(A, m, x, p)} 0 <= m && m < n ==> colv(A, m, x, p) == (if m == l then 1.0 else 0.0);
  ensures dsum(x, A, w, p, n) == (if l < n then w[l] else 0.0);
  induct n; noauto;
}
lemma dsumDot(x: seq real, A: seq seq real, w: seq real, p: int, n: int, b: seq real) {
  requires n >= 0;
  requires forall m: int :: {colv(A, m, x, p)} 0 <= m && m < n ==> colv(A, m, x, p) == b[m];
  ensures dsum(x, A, w, p, n) == dotr(b, w, n);
  induct n; noauto;
}
lemma colvXAw(A: seq seq real, l: int, x: seq real, w: seq real, c: seq real, p: int, n: int) {
  requires p >= 0;
  requires forall k: int :: {x[k]} 0 <= k && k < p ==> x[k] == A[k][l];
  requires forall k: int :: {c[k]} 0 <= k && k < p ==> c[k] == dotr(A[k], w, n);
  ensures colv(A, l, c, p) == xAw(x, A, w, p, n);
  induct p; noauto;
}
// orthonormal columns recover the weights: A^T (A w) = w
lemma recover(A: seq seq real, l: int, w: seq real, c: seq real, p: int, n: int) {
  requires p >= 0 && 0 <= l && l < n;
  requires forall k: int :: {c[k]} 0 <= k && k < p ==> c[k] == dotr(A[k], w, n);
  requires forall m: int :: {colv(A, m, colOf(A, l, p), p)} 0 <= m && m < n ==> colv(A, m, colOf(A, l, p), p) == (if m == l then 1.0 else 0.0);
  ensures colv(A, l, c, p) == w[l];
  noauto;
  use colvXAw(A, l, colOf(A, l, p), w, c, p, n);
  use exchange(colOf(A, l, p), A, w, p, n);
  use dsumDelta(colOf(A, l, p), A, w, p, n, l);
}
lemma dotProd(a: seq real, b: seq real, c: seq real, d: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {a[k]} {c[k]} 0 <= k && k < n ==> a[k] * b[k] == c[k] * d[k];
  ensures dotr(a, b, n) == dotr(c, d, n);
  induct n; noauto;
}
lemma dot3Left0(u: seq real, s: seq real, v: seq real, us: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {us[k]} 0 <= k && k < n ==> us[k] == u[k] * s[k];
  ensures dot3(u, s, v, n) == dotr(v, us, n);
  induct n; noauto;
}
lemma dot3Left(u: seq real, s: seq real, v: seq real, n: int) {
  requires n >= 0;
  ensures dot3(u, s, v, n) == dotr(v, prodSeq(u, s, n), n);
  noauto; use dot3Left0(u, s, v, prodSeq(u, s, n), n);
}
lemma dot3Right0(u: seq real, s: seq real, v: seq real, sv: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {sv[k]} 0 <= k && k < n ==> sv[k] == s[k] * v[k];
  ensures dot3(u, s, v, n) == dotr(u, sv, n);
  induct n; noauto;
}
lemma dot3Right(u: seq real, s: seq real, v: seq real, n: int) {
  requires n >= 0;
  ensures dot3(u, s, v, n) == dotr(u, prodSeq(s, v, n), n);
  noauto; use dot3Right0(u, s, v, prodSeq(s, v, n), n);
}
lemma rowXAw(d: seq real, V: seq seq real, us: seq real, c: seq real, p: int, n: int) {
  requires p >= 0;
  requires forall k: int :: {d[k]} 0 <= k && k < p ==> d[k] == dotr(V[k], us, n);
  ensures dotr(d, c, p) == xAw(c, V, us, p, n);
  induct p; noauto;
}
lemma colXAw(D: seq seq real, j: int, A: seq seq real, w: seq real, x: seq real, p: int, n: int) {
  requires p >= 0;
  requires forall i: int :: {D[i]} 0 <= i && i < p ==> D[i][j] == dotr(A[i], w, n);
  ensures colv(D, j, x, p) == xAw(x, A, w, p, n);
  induct p; noauto;
}
// a row of D = U S V^T times c, when V^T c = w and S w = b, is the row of U times b
lemma rowPred(d: seq real, u: seq real, s: seq real, V: seq seq real, w: seq real, c: seq real, b: seq real, p: int, n: int) {
  requires p >= 0 && n >= 0;
  requires forall k: int :: {d[k]} 0 <= k && k < p ==> d[k] == dot3(u, s, V[k], n);
  requires forall l: int :: {w[l]} 0 <= l && l < n ==> colv(V, l, c, p) == w[l];
  requires forall l: int :: {w[l]} 0 <= l && l < n ==> w[l] * s[l] == b[l];
  ensures dotr(d, c, p) == dotr(u, b, n);
  noauto;
  use forall k: int :: {V[k]} dot3Left(u, s, V[k], n);
  use rowXAw(d, V, prodSeq(u, s, n), c, p, n);
  use exchange(c, V, prodSeq(u, s, n), p, n);
  use dsumDot(c, V, prodSeq(u, s, n), p, n, w);
  use dotProd(w, prodSeq(u, s, n), u, b, n);
}
lemma colvSub(A: seq seq real, l: int, p: seq real, y: seq real, r: seq real, n: int) {
  requires n >= 0;
  requires forall i: int :: {r[i]} 0 <= i && i < n ==> r[i] == p[i] - y[i];
  ensures colv(A, l, r, n) == colv(A, l, p, n) - colv(A, l, y, n);
  induct n; noauto;
}
lemma dsumNull(x: seq real, A: seq seq real, w: seq real, p: int, n: int) {
  requires n >= 0;
  requires forall m: int :: {colv(A, m, x, p)} 0 <= m && m < n ==> colv(A, m, x, p) == 0.0;
  ensures dsum(x, A, w, p, n) == 0.0;
  induct n; noauto;
}
spec predSeq(A: seq seq real, b: seq real, n: int, p: int): seq real = if p <= 0 then constseq(0.0) else set(predSeq(A, b, n, p-1), p-1, dotr(A[p-1], b, n));
lemma predSeqAt(A: seq seq real, b: seq real, n: int, p: int, i: int) {
  requires 0 <= i && i < p;
  ensures predSeq(A, b, n, p)[i] == dotr(A[i], b, n);
  induct p; trigger {predSeq(A, b, n, p)[i]};
}
lemma fitSumDot(v: seq real, U: seq seq real, s: seq real, y: seq real, nr: int, w: seq real, n: int) {
  requires n >= 0;
  requires forall l: int :: {w[l]} 0 <= l && l < n ==> w[l] == colv(U, l, y, nr) * pinv(s[l]);
  ensures fitSum(v, U, s, y, nr, n) == dotr(v, w, n);
  induct n; noauto;
}
lemma pinvCancels(s: real, x: real) {
  requires s > 1e-6;
  ensures x * pinv(s) * s == x;
  noauto;
}
lemma fitWB(U: seq seq real, s: seq real, y: seq real, nr: int, n: int, l: int) {
  requires 0 <= l && l < n && s[l] > 1e-6;
  ensures fitW(U, s, y, nr, n)[l] * s[l] == fitB(U, y, nr, n)[l];
  noauto;
  use pinvCancels(s[l], colv(U, l, y, nr));
}
// the coefficients, seen through V, are the weights
lemma fitWeights(D: seq seq real, nr: int, nc: int, y: seq real, c: seq real, l: int) {
  requires nr > 0 && nc > 0 && 0 <= l && l < mini(nr, nc);
  requires isFit(D, nr, nc, y, c);
  ensures colv(svdV(D, nr, nc), l, c, nc) == fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l];
  noauto;
  use forall k: int :: {c[k]} fitSumDot(svdV(D, nr, nc)[k], svdU(D, nr, nc), svdS(D, nr, nc), y, nr, fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc));
  use recover(svdV(D, nr, nc), l, fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc)), c, nc, mini(nr, nc));
}
// predictions of the fit are the projection of y on the columns of U
lemma fitProjects(D: seq seq real, nr: int, nc: int, y: seq real, c: seq real, i: int) {
  requires nr > 0 && nc > 0 && 0 <= i && i < nr;
  requires isFit(D, nr, nc, y, c);
  requires fullRank(D, nr, nc);
  ensures forall l: int :: {fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l]} 0 <= l && l < mini(nr, nc) ==> colv(svdV(D, nr, nc), l, c, nc) == fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l];
  ensures forall l: int :: {fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l]} 0 <= l && l < mini(nr, nc) ==> fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l] * svdS(D, nr, nc)[l] == fitB(svdU(D, nr, nc), y, nr, mini(nr, nc))[l];
  ensures forall k: int :: {D[i][k]} 0 <= k && k < nc ==> D[i][k] == dot3(svdU(D, nr, nc)[i], svdS(D, nr, nc), svdV(D, nr, nc)[k], mini(nr, nc));
  ensures dotr(D[i], c, nc) == dotr(svdU(D, nr, nc)[i], fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc));
  noauto;
  use forall l: int :: {fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l]} fitWeights(D, nr, nc, y, c, l);
  use forall l: int :: {fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc))[l]} fitWB(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc), l);
  use rowPred(D[i], svdU(D, nr, nc)[i], svdS(D, nr, nc), svdV(D, nr, nc), fitW(svdU(D, nr, nc), svdS(D, nr, nc), y, nr, mini(nr, nc)), c, fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), nc, mini(nr, nc));
}
// the residual is orthogonal to every column of U
lemma residOrthoU(D: seq seq real, nr: int, nc: int, y: seq real, c: seq real, l: int) {
  requires nr > 0 && nc > 0 && 0 <= l && l < mini(nr, nc);
  requires isFit(D, nr, nc, y, c);
  requires fullRank(D, nr, nc);
  ensures forall i: int :: {resid(D, c, y, nc, nr)[i]} 0 <= i && i < nr ==> resid(D, c, y, nc, nr)[i] == predSeq(svdU(D, nr, nc), fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc), nr)[i] - y[i];
  ensures colv(svdU(D, nr, nc), l, predSeq(svdU(D, nr, nc), fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc), nr), nr) == fitB(svdU(D, nr, nc), y, nr, mini(nr, nc))[l];
  ensures colv(svdU(D, nr, nc), l, resid(D, c, y, nc, nr), nr) == colv(svdU(D, nr, nc), l, predSeq(svdU(D, nr, nc), fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc), nr), nr) - colv(svdU(D, nr, nc), l, y, nr);
  ensures colv(svdU(D, nr, nc), l, resid(D, c, y, nc, nr), nr) == 0.0;
  noauto;
  use forall i: int :: {D[i]} fitProjects(D, nr, nc, y, c, i);
  use recover(svdU(D, nr, nc), l, fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), predSeq(svdU(D, nr, nc), fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc), nr), nr, mini(nr, nc));
  use colvSub(svdU(D, nr, nc), l, predSeq(svdU(D, nr, nc), fitB(svdU(D, nr, nc), y, nr, mini(nr, nc)), mini(nr, nc), nr), y, resid(D, c, y, nc, nr), nr);
}
// the normal equations: the residual is orthogonal to every column of D
lemma normalEquations(D: seq seq real, nr: int, nc: int, y: seq real, c: seq real, j: int) {
  requires nr > 0 && nc > 0 && 0 <= j && j < nc;
  requires isFit(D, nr, nc, y, c);
  requires fullRank(D, nr, nc);
  ensures colv(D, j, resid(D, c, y, nc, nr), nr) == 0.0;
  noauto;
  use forall i: int :: {D[i]} dot3Right(svdU(D, nr, nc)[i], svdS(D, nr, nc), svdV(D, nr, nc)[j], mini(nr, nc));
  use colXAw(D, j, svdU(D, nr, nc), prodSeq(svdS(D, nr, nc), svdV(D, nr, nc)[j], mini(nr, nc)), resid(D, c, y, nc, nr), nr, mini(nr, nc));
  use exchange(resid(D, c, y, nc, nr), svdU(D, nr, nc), prodSeq(svdS(D, nr, nc), svdV(D, nr, nc)[j], mini(nr, nc)), nr, mini(nr, nc));
  use forall l: int :: {colv(svdU(D, nr, nc), l, resid(D, c, y, nc, nr), nr)} residOrthoU(D, nr, nc, y, c, l);
  use dsumNull(resid(D, c, y, nc, nr), svdU(D, nr, nc), prodSeq(svdS(D, nr, nc), svdV(D, nr, nc)[j], mini(nr, nc)), nr, mini(nr, nc));
}
