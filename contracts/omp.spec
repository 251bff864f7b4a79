// C17: orthogonal matching pursuit
spec colSq(X: seq seq real, j: int, n: int): real = if n <= 0 then 0.0 else colSq(X, j, n-1) + X[n-1][j] * X[n-1][j];
lemma mmColSq(T: seq seq real, X: seq seq real, j: int, n: int) {
  requires n >= 0;
  requires forall i: int :: {T[j][i]} 0 <= i && i < n ==> T[j][i] == X[i][j];
  ensures mm(T, j, X, j, n) == colSq(X, j, n);
  induct n; trigger {mm(T, j, X, j, n)};
}
// m marks the first k entries of the order o
spec among(o: seq int, k: int, j: int): bool = k > 0 && (o[k-1] == j || among(o, k-1, j));
lemma amongFrame(o: seq int, p: seq int, k: int, j: int) {
  requires forall i: int :: {o[i]} {p[i]} 0 <= i && i < k ==> o[i] == p[i];
  ensures among(o, k, j) == among(p, k, j);
  induct k; trigger {among(o, k, j), among(p, k, j)};
}
lemma amongOne(o: seq int, k: int, i: int) { requires 0 <= i && i < k; ensures among(o, k, o[i]); induct k; trigger {among(o, k, o[i])}; }
lemma amongMore(o: seq int, k: int, n: int, j: int) { requires k <= n && among(o, k, j); ensures among(o, n, j); induct n; trigger {among(o, k, j), among(o, n, j)}; }
lemma amongFewer(o: seq int, k: int, n: int, j: int) {
  requires among(o, n, j) && !among(o, k, j) && k <= n && (forall i: int :: {o[i]} k <= i && i < n ==> o[i] != j);
  ensures false;
  induct n; trigger {among(o, k, j), among(o, n, j)};
}
def marksOf(m: seq bool, o: seq int, k: int, n: int) = forall j: int :: {m[j]} 0 <= j && j < n ==> (m[j] <==> among(o, k, j));
// r is the residual the fit to the first k included features leaves
spec residAfter(r: seq real, X: seq seq real, nr: int, nc: int, y: seq real, o: seq int, k: int): bool =
  if k <= 0 then (forall i: int :: {r[i]} 0 <= i && i < nr ==> r[i] == y[i])
  else (exists m: seq bool; D: seq seq real; c: seq real :: {isFit(D, nr, cnt(m, nc), y, c)} marksOf(m, o, k, nc) && isDesignFit(m, nc, X, nr, y, c, D)
    && (forall i: int :: {r[i]} 0 <= i && i < nr ==> r[i] == dotr(D[i], c, cnt(m, nc)) - y[i]));
lemma residFrame(r: seq real, X: seq seq real, nr: int, nc: int, y: seq real, o: seq int, o2: seq int, k: int) {
  requires forall i: int :: {o[i]} {o2[i]} 0 <= i && i < k ==> o[i] == o2[i];
  ensures residAfter(r, X, nr, nc, y, o, k) ==> residAfter(r, X, nr, nc, y, o2, k);
  trigger {residAfter(r, X, nr, nc, y, o, k), residAfter(r, X, nr, nc, y, o2, k)};
}
spec residTag(r: seq real): bool = true;
def projOf(X: seq seq real, r: seq real, R: real, nr: int, j: int) = absr(colv(X, j, r, nr) / (R * sqrtf(colSq(X, j, nr))));
// no feature has a larger normalised projection on r than feature p; R is the norm of r
spec picks(r: seq real, X: seq seq real, nr: int, nc: int, p: int): bool = exists R: real :: {normTag(R)} R >= 0.0 && (forall i: int :: {r[i]} 0 <= i && i < nr && r[i] != 0.0 ==> R > 0.0)
  && (forall j: int :: {colv(X, j, r, nr)} 0 <= j && j < nc ==> projOf(X, r, R, nr, j) <= projOf(X, r, R, nr, p));
// feature p is the one taken after the first k features of o
spec takes(X: seq seq real, nr: int, nc: int, y: seq real, o: seq int, k: int, p: int): bool = exists r: seq real :: {residTag(r)} residTag(r) && residAfter(r, X, nr, nc, y, o, k) && picks(r, X, nr, nc, p);
lemma takesFrame(X: seq seq real, nr: int, nc: int, y: seq real, o: seq int, o2: seq int, k: int, p: int) {
  requires forall i: int :: {o[i]} {o2[i]} 0 <= i && i < k ==> o[i] == o2[i];
  ensures takes(X, nr, nc, y, o, k, p) ==> takes(X, nr, nc, y, o2, k, p);
  trigger {takes(X, nr, nc, y, o, k, p), takes(X, nr, nc, y, o2, k, p)};
}
// co holds the coefficients of the fit to the features marked in m, and zero for the others
spec coeffFit(co: seq real, m: seq bool, X: seq seq real, nr: int, nc: int, y: seq real): bool = exists D: seq seq real; c: seq real :: {isFit(D, nr, cnt(m, nc), y, c)} isDesignFit(m, nc, X, nr, y, c, D)
  && (forall j: int :: {m[j]} {co[j]} 0 <= j && j < nc ==> co[j] == (if m[j] then c[cnt(m, j)] else 0.0));
// the feature taken after the first n of the order is among them
def repicked(X: seq seq real, nr: int, nc: int, y: seq real, o: seq int, n: int) = exists p: int :: {among(o, n, p)} among(o, n, p) && takes(X, nr, nc, y, o, n, p);
func NewOmpResult(numFeatures) (res) {
  requires numFeatures >= 0;
  ensures new: fresh(res) && fresh(res.Coeff) && fresh(res.Order) && len(res.Coeff) == numFeatures && len(res.Order) == numFeatures && ref(res.Order) != ref(res.Coeff);
  ensures coeff: forall i: int :: {res.Coeff[i]} 0 <= i && i < numFeatures ==> res.Coeff[i] == 0.0;
  ensures order: forall i: int :: {res.Order[i]} 0 <= i && i < numFeatures ==> res.Order[i] == -1;
  loop 1 {
    invariant len(res.Coeff) == numFeatures && len(res.Order) == numFeatures && fresh(res.Coeff) && fresh(res.Order) && ref(res.Order) != ref(res.Coeff);
    invariant forall k: int :: {res.Order[k]} 0 <= k && k < i ==> res.Order[k] == -1;
  }
}
func Omp(X, y, tol) (res) {
  hide isDesign, agree;
  requires rows(X) > 0 && cols(X) > 0 && rows(X) == len(y);
  ensures size: fresh(res) && len(res.Coeff) == cols(X) && 1 <= len(res.Order) && len(res.Order) <= cols(X);
  ensures valid: inRange(res.Order, cols(X));
  ensures distinct: forall i, k: int :: {res.Order[i], res.Order[k]} 0 <= i && i < k && k < len(res.Order) ==> res.Order[i] != res.Order[k];
  ensures greedy: forall k: int :: {res.Order[k]} 0 <= k && k < len(res.Order) ==> takes(cont(X), rows(X), cols(X), arr(y), arr(res.Order), k, res.Order[k]);
  ensures coeff: exists m: seq bool :: {cnt(m, cols(X))} coeffFit(arr(res.Coeff), m, cont(X), rows(X), cols(X), arr(y)) && (forall k: int :: {res.Order[k]} 0 <= k && k < len(res.Order) ==> m[res.Order[k]])
    && (repicked(cont(X), rows(X), cols(X), arr(y), arr(res.Order), len(res.Order)) || (forall j: int :: {m[j]} 0 <= j && j < cols(X) && m[j] ==> among(arr(res.Order), len(res.Order), j)));
  loop 1 {
    invariant tag: residTag(arr(y));
    invariant residuals: rows(residuals) == len(y) && cols(residuals) == 1 && fresh(residuals);
    invariant forall k: int :: {cont(residuals)[k]} 0 <= k && k < i ==> cont(residuals)[k][0] == y[k];
  }
  loop 2 {
    invariant rows(norms) == cols(X) && cols(norms) == 1;
    invariant forall k: int :: {cont(norms)[k]} 0 <= k && k < i ==> cont(norms)[k][0] == sqrtf(colSq(cont(X), k, rows(X)));
  }
  loop 3 {
    invariant order: len(res.Order) == cols(X) && len(res.Coeff) == cols(X) && len(model) == cols(X);
    invariant separate: ref(res.Order) != ref(model) && ref(res.Coeff) != ref(model) && ref(res.Order) != ref(res.Coeff);
    invariant new: fresh(res) && fresh(res.Coeff) && fresh(res.Order) && fresh(model);
    invariant sizes: rows(residuals) == len(y) && cols(residuals) == 1 && rows(proj) == cols(X) && cols(proj) == 1 && 0 <= current && current <= cols(X) && fresh(residuals) && fresh(proj);
    invariant valid: forall k: int :: {res.Order[k]} 0 <= k && k < current ==> 0 <= res.Order[k] && res.Order[k] < cols(X);
    invariant unset: forall k: int :: {res.Order[k]} current <= k && k < cols(X) ==> res.Order[k] == -1;
    invariant marks: marksOf(arr(model), arr(res.Order), current, cols(X));
    invariant resid: exists r: seq real :: {residTag(r)} residTag(r) && residAfter(r, cont(X), rows(X), cols(X), arr(y), arr(res.Order), current)
      && (forall i: int :: {r[i]} {cont(residuals)[i]} 0 <= i && i < rows(X) ==> r[i] == cont(residuals)[i][0]);
    invariant zero: forall j: int :: {model[j]} {res.Coeff[j]} 0 <= j && j < cols(X) && !model[j] ==> res.Coeff[j] == 0.0;
    invariant coeff: current > 0 ==> cnt(arr(model), cols(X)) > 0 && coeffFit(arr(res.Coeff), arr(model), cont(X), rows(X), cols(X), arr(y));
    invariant greedy: forall k: int :: {res.Order[k]} 0 <= k && k < current ==> takes(cont(X), rows(X), cols(X), arr(y), arr(res.Order), k, res.Order[k]);
  }
  loop 4 {
    invariant resid: exists r: seq real :: {residTag(r)} residTag(r) && residAfter(r, cont(X), rows(X), cols(X), arr(y), pre(arr(res.Order)), current)
      && (forall i: int :: {r[i]} {cont(residuals)[i]} 0 <= i && i < rows(X) ==> r[i] == cont(residuals)[i][0])
      && (forall j: int :: {colv(cont(X), j, r, rows(X))} {pre(cont(proj))[j]} 0 <= j && j < cols(X) ==> pre(cont(proj))[j][0] == colv(cont(X), j, r, rows(X)));
    invariant forall k: int :: {cont(proj)[k]} {pre(cont(proj))[k]} 0 <= k && k < cols(X) ==> cont(proj)[k][0] == (if k < i then absr(pre(cont(proj))[k][0] / (resNorm * cont(norms)[k][0])) else pre(cont(proj))[k][0]);
  }
  loop 5 {
    invariant largest: forall k: int :: {cont(proj)[k]} 0 <= k && k < cols(X) ==> cont(proj)[k][0] <= cont(proj)[imax][0];
    invariant set: forall j: int :: {model[j]} {res.Coeff[j]} 0 <= j && j < cols(X) ==> res.Coeff[j] == (if model[j] && cnt(arr(model), j) < $i then coeff[cnt(arr(model), j)] else pre(res.Coeff[j]));
    invariant taken: takes(cont(X), rows(X), cols(X), arr(y), pre(arr(res.Order)), current, imax); }
  loop 6 {
    invariant tag: residTag(resid(cont(design), arr(coeff), arr(y), cols(design), rows(X)));
    invariant forall k: int :: {cont(residuals)[k]} 0 <= k && k < i ==> cont(residuals)[k][0] == ypred[k] - y[k];
  }
  loop 7 {
    invariant len(foundBefore) == cols(X) && fresh(foundBefore) && res.Order == pre(res.Order) && arr(res.Order) == pre(arr(res.Order));
    invariant cover: forall j: int :: {model[j]} 0 <= j && j < cols(X) && model[j] ==> among(arr(res.Order), cols(X), j);
    invariant tail: forall k, l: int :: {res.Order[k], res.Order[l]} 0 <= k && k < l && l < cols(X) && res.Order[k] == -1 ==> res.Order[l] == -1;
    invariant shown: forall k: int :: {res.Order[k]} 0 <= k && k < cols(X) && res.Order[k] != -1 ==> 0 <= res.Order[k] && res.Order[k] < cols(X) && model[res.Order[k]]
      && takes(cont(X), rows(X), cols(X), arr(y), arr(res.Order), k, res.Order[k]);
    onbreak stop: v == -1 ==> (forall j: int :: {model[j]} 0 <= j && j < cols(X) && model[j] ==> among(arr(res.Order), $i, j));
    onbreak again: v != -1 ==> among(arr(res.Order), $i, v) && takes(cont(X), rows(X), cols(X), arr(y), arr(res.Order), $i, v);
    onbreak cut: len(res.Order) == $i;
    after shownAll: forall k: int :: {res.Order[k]} 0 <= k && k < len(res.Order) ==> model[res.Order[k]];
    after complete: repicked(cont(X), rows(X), cols(X), arr(y), arr(res.Order), len(res.Order)) || (forall j: int :: {model[j]} 0 <= j && j < cols(X) && model[j] ==> among(arr(res.Order), len(res.Order), j));
    invariant fit: coeffFit(arr(res.Coeff), arr(model), cont(X), rows(X), cols(X), arr(y)) && cnt(arr(model), cols(X)) > 0;
    invariant valid: forall k: int :: {res.Order[k]} 0 <= k && k < $i ==> 0 <= res.Order[k] && res.Order[k] < cols(X);
    invariant found: forall j: int :: {foundBefore[j]} 0 <= j && j < cols(X) ==> (foundBefore[j] <==> among(arr(res.Order), $i, j));
    invariant distinct: forall i, k: int :: {res.Order[i], res.Order[k]} 0 <= i && i < k && k < $i ==> res.Order[i] != res.Order[k];
  }
}
lemma cntPos(a: seq bool, n: int, i: int) { requires 0 <= i && i < n && a[i]; ensures cnt(a, n) >= 1; induct n; trigger {cnt(a, n), a[i]}; }
lemma scaledAbs(p: real, s: real) { requires s > 0.0; ensures absr(p / s) * s == absr(p); noauto; }
// the norm of the residual does not matter for which normalised projection is largest
lemma largestProjection(pi: real, pj: real, R: real, ni: real, nj: real) {
  requires R > 0.0 && ni > 0.0 && nj > 0.0;
  requires absr(pj / (R * nj)) <= absr(pi / (R * ni));
  use scaledAbs(pi, R * ni);
  use scaledAbs(pj, R * nj);
  ensures R * (absr(pj) * ni) <= R * (absr(pi) * nj);
  ensures absr(pj) * ni <= absr(pi) * nj;
  noauto;
}
property C17 { verify NewOmpResult, Omp; lemmas mmColSq, largestProjection; }
