// C14: lasso by coordinate descent
def soft(x: real, t: real) = if x < -t then x + t else if x > t then x - t else 0.0;
func SoftThreshold(x, threshold) (r) { ensures formula: r == soft(x, threshold); }
func MulSlice(X, v) (res) {
  requires X != nil && rows(X) >= 0;
  panics when len(v) != cols(X);
  ensures length: len(res) == rows(X) && newfrom(res);
  ensures product: forall i: int :: {res[i]} 0 <= i && i < rows(X) ==> res[i] == dotr(cont(X)[i], arr(v), cols(X));
  loop 1 {
    invariant len(res) == rows(X) && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < rows(X) ==> res[k] == (if k < i then dotr(cont(X)[k], arr(v), cols(X)) else 0.0);
  }
  loop 2 {
    invariant forall k: int :: {res[k]} 0 <= k && k < rows(X) ==> res[k] == (if k < i then dotr(cont(X)[k], arr(v), cols(X)) else if k == i then dotr(cont(X)[i], arr(v), j) else 0.0);
  }
}
func UpdateCovDotBeta(cov, covDotBeta, coeffNo, oldCoeff, newCoeff) (r) {
  requires cov != nil && 0 <= coeffNo && coeffNo < cols(cov) && len(covDotBeta) <= rows(cov);
  modifies elems(covDotBeta);
  ensures same: r == covDotBeta;
  ensures update: forall i: int :: {covDotBeta[i]} 0 <= i && i < len(covDotBeta) ==> covDotBeta[i] == old(covDotBeta[i]) + at(cov, i, coeffNo) * (newCoeff - oldCoeff);
  loop 1 {
    invariant forall k: int :: {covDotBeta[k]} 0 <= k && k < len(covDotBeta) ==> covDotBeta[k] == old(covDotBeta[k]) + (if k < i then at(cov, k, coeffNo) * (newCoeff - oldCoeff) else 0.0);
  }
}
// corrections: the derivative depends on the state of the correction, the coefficients and the feature
uninterp derivf(c: ref, state: seq seq real, beta: seq real, j: int): real;
iface LassoCorrection.Deriv(c, beta, featNo) (d) { ensures d == derivf(c, cont(c), arr(beta), featNo); }
iface LassoCorrection.Update(c, beta) { modifies matc(c); }
iface CovMat.Get(c, X) (C) { ensures fresh(C) && rows(C) == cols(X) && cols(C) == cols(X); }
func PureLasso.Deriv(p, bet, featNo) (r) { ensures none: r == 0.0; }
func PureLasso.Update(p, beta) {}
func ElasticNet.Deriv(e, beta, featNo) (r) {
  requires 0 <= featNo && featNo < len(beta);
  ensures formula: r == e.Lamb * beta[featNo];
}
func ElasticNet.Update(e, beta) {}
func NewCLasso(numFeat, eta) (c) {
  requires numFeat >= 0;
  ensures new: fresh(c) && c.eta == eta && len(c.beta) == numFeat && newfrom(c.beta);
  ensures zero: forall i: int :: {c.beta[i]} 0 <= i && i < numFeat ==> c.beta[i] == 0.0;
}
func CLasso.Update(cl, beta) {
  requires len(beta) == len(cl.beta);
  modifies elems(cl.beta);
  ensures copied: forall i: int :: {cl.beta[i]} 0 <= i && i < len(cl.beta) ==> cl.beta[i] == old(beta[i]);
}
func CLasso.Deriv(cl, beta, featNo) (r) {
  requires len(beta) >= len(cl.beta) && 0 <= featNo && featNo < len(cl.beta);
  ensures formula: r == (if absr(dotr(arr(cl.beta), arr(cl.beta), len(cl.beta))) < 1e-10 then 0.0
    else cl.eta * cl.beta[featNo] * dotr(arr(cl.beta), arr(beta), len(cl.beta)) / dotr(arr(cl.beta), arr(cl.beta), len(cl.beta)));
  loop 1 {
    invariant normSq == dotr(arr(cl.beta), arr(cl.beta), $i) && inner == dotr(arr(cl.beta), arr(beta), $i);
  }
}
// coefficient i is zero although its gradient exceeds the regularisation
def violates(g: real, b: real, lamb: real) = absr(g) - lamb > 1e-16 && absr(b) <= 1e-16;
def grad(Xy: seq seq real, cb: seq real, c: LassoCorrection, beta: seq real, i: int) = Xy[i][0] - cb[i] - derivf(c, cont(c), beta, i);
func UnsatisfiedKKTConditions(Xy, covDotBeta, coeff, lamb, correction) (r) {
  requires Xy != nil && correction != nil && rows(Xy) >= len(covDotBeta) && len(coeff) >= len(covDotBeta);
  ensures ascending: ascending(r) && newfrom(r);
  ensures only: forall k: int :: {r[k]} 0 <= k && k < len(r) ==> 1 <= r[k] && r[k] < len(covDotBeta) && violates(grad(cont(Xy), arr(covDotBeta), correction, arr(coeff), r[k]), coeff[r[k]], lamb);
  ensures all: forall i: int :: {covDotBeta[i]} {coeff[i]} 1 <= i && i < len(covDotBeta) && violates(grad(cont(Xy), arr(covDotBeta), correction, arr(coeff), i), coeff[i], lamb) ==> (exists k: int :: {r[k]} 0 <= k && k < len(r) && r[k] == i);
  loop 1 {
    invariant fresh(unsatisfied) && ascending(unsatisfied);
    invariant only: forall k: int :: {unsatisfied[k]} 0 <= k && k < len(unsatisfied) ==> 1 <= unsatisfied[k] && unsatisfied[k] < i && unsatisfied[k] < len(covDotBeta) && violates(grad(cont(Xy), arr(covDotBeta), correction, arr(coeff), unsatisfied[k]), coeff[unsatisfied[k]], lamb);
    invariant all: forall j: int :: {covDotBeta[j]} {coeff[j]} 1 <= j && j < i && violates(grad(cont(Xy), arr(covDotBeta), correction, arr(coeff), j), coeff[j], lamb) ==> (exists k: int :: {unsatisfied[k]} 0 <= k && k < len(unsatisfied) && unsatisfied[k] == j);
  }
}
// the coefficients b with the entries idx[0..m) of a sweep done, starting from bo
spec mixSeq(bo: seq real, b: seq real, idx: seq int, m: int): seq real = if m <= 0 then bo else set(mixSeq(bo, b, idx, m-1), idx[m-1], b[idx[m-1]]);
lemma mixFrame(bo: seq real, b: seq real, b2: seq real, idx: seq int, m: int) {
  requires m >= 0;
  requires forall k: int :: {idx[k]} 0 <= k && k < m ==> b[idx[k]] == b2[idx[k]];
  ensures mixSeq(bo, b, idx, m) == mixSeq(bo, b2, idx, m);
  induct m; noauto;
}
lemma mixOut(bo: seq real, b: seq real, idx: seq int, m: int, j: int) {
  requires m >= 0;
  requires forall k: int :: {idx[k]} 0 <= k && k < m ==> idx[k] != j;
  ensures mixSeq(bo, b, idx, m)[j] == bo[j];
  induct m; trigger {mixSeq(bo, b, idx, m)[j]};
}
lemma mixIn(bo: seq real, b: seq real, idx: seq int, m: int, k: int) {
  requires 0 <= k && k < m;
  ensures mixSeq(bo, b, idx, m)[idx[k]] == b[idx[k]];
  induct m; trigger {mixSeq(bo, b, idx, m), idx[k]};
}
lemma dotrSet(a: seq real, b: seq real, i: int, v: real, n: int) {
  requires n >= 0 && 0 <= i;
  ensures dotr(a, set(b, i, v), n) == dotr(a, b, n) + (if i < n then a[i] * (v - b[i]) else 0.0);
  induct n; noauto;
}
// one step of a sweep: entry m-1 of idx gets the value v
lemma mixStep(bo: seq real, b: seq real, idx: seq int, m: int, v: real) {
  requires m >= 1;
  requires forall k: int :: {idx[k]} 0 <= k && k < m - 1 ==> idx[k] != idx[m-1];
  use mixFrame(bo, set(b, idx[m-1], v), b, idx, m-1);
  use mixOut(bo, b, idx, m-1, idx[m-1]);
  ensures mixSeq(bo, set(b, idx[m-1], v), idx, m) == set(mixSeq(bo, b, idx, m-1), idx[m-1], v) && mixSeq(bo, b, idx, m-1)[idx[m-1]] == bo[idx[m-1]];
  noauto;
}
lemma dotrMix(a: seq real, bo: seq real, b: seq real, idx: seq int, m: int, j: int, v: real, n: int) {
  requires m >= 1 && j == idx[m-1] && 0 <= j && j < n;
  requires forall k: int :: {idx[k]} 0 <= k && k < m - 1 ==> idx[k] != j;
  use mixStep(bo, b, idx, m, v);
  use dotrSet(a, mixSeq(bo, b, idx, m-1), j, v, n);
  ensures dotr(a, mixSeq(bo, set(b, j, v), idx, m), n) == dotr(a, mixSeq(bo, b, idx, m-1), n) + a[j] * (v - bo[j]);
  trigger {dotr(a, mixSeq(bo, set(b, j, v), idx, m), n)};
}
// how far the change from b to a moves a sum with weights c
spec absDiff(c: seq real, a: seq real, b: seq real, n: int): real = if n <= 0 then 0.0 else absDiff(c, a, b, n-1) + absr(c[n-1] * (a[n-1] - b[n-1]));
lemma absDiffNonneg(c: seq real, a: seq real, b: seq real, n: int) { ensures absDiff(c, a, b, n) >= 0.0; induct n; trigger {absDiff(c, a, b, n)}; requires n >= 0; }
lemma absDiffSet(c: seq real, a: seq real, i: int, v: real, b: seq real, n: int) {
  requires n >= 0 && 0 <= i && a[i] == b[i];
  ensures absDiff(c, set(a, i, v), b, n) == absDiff(c, a, b, n) + (if i < n then absr(c[i] * (v - b[i])) else 0.0);
  induct n; noauto;
}
lemma absDiffMix(c: seq real, bo: seq real, b: seq real, idx: seq int, m: int, j: int, v: real, n: int) {
  requires m >= 1 && j == idx[m-1] && 0 <= j && j < n;
  requires forall k: int :: {idx[k]} 0 <= k && k < m - 1 ==> idx[k] != j;
  use mixStep(bo, b, idx, m, v);
  use absDiffSet(c, mixSeq(bo, b, idx, m-1), j, v, bo, n);
  ensures absDiff(c, mixSeq(bo, set(b, j, v), idx, m), bo, n) == absDiff(c, mixSeq(bo, b, idx, m-1), bo, n) + absr(c[j] * (v - bo[j]));
  trigger {absDiff(c, mixSeq(bo, set(b, j, v), idx, m), bo, n)};
}
lemma absDiffFrame(c: seq real, a: seq real, a2: seq real, b: seq real, n: int) {
  requires n >= 0;
  requires forall k: int :: {a[k]} {a2[k]} 0 <= k && k < n ==> a[k] == a2[k];
  ensures absDiff(c, a, b, n) == absDiff(c, a2, b, n);
  induct n; trigger {absDiff(c, a, b, n), absDiff(c, a2, b, n)};
}
def kkt(g: real, b: real, lamb: real, slack: real) = (b > 0.0 ==> absr(g - lamb) <= slack) && (b < 0.0 ==> absr(g + lamb) <= slack) && (b == 0.0 ==> absr(g) <= lamb + slack);
def posDiag(C: seq seq real, n: int) = forall j: int :: {C[j]} 1 <= j && j < n ==> C[j][j] > 0.0;
def distinctInts(s: []int) = forall a, b: int :: {s[a], s[b]} 0 <= a && a < b && b < len(s) ==> s[a] != s[b];
def listedInts(s: []int, v: int) = exists k: int :: {s[k]} 0 <= k && k < len(s) && s[k] == v;
// after a sweep from bo to b every selected coefficient solves its own equation up to the changes made by the others
spec swept(C: seq seq real, Xy: seq seq real, cb: seq real, c: ref, state: seq seq real, bo: seq real, b: seq real, lamb: real, n: int): bool =
  forall j: int :: {b[j]} 1 <= j && j < n && absr(b[j]) > 1e-16 ==> kkt(Xy[j][0] - cb[j] - derivf(c, state, bo, j), b[j], lamb, absDiff(C[j], b, bo, n));
spec near(b: seq real, bo: seq real, d: real, n: int): bool = forall j: int :: {b[j]} {bo[j]} 0 <= j && j < n ==> absr(b[j] - bo[j]) <= d;
spec absSum(c: seq real, n: int): real = if n <= 0 then 0.0 else absSum(c, n-1) + absr(c[n-1]);
lemma absProd(x: real, y: real, d: real) { requires absr(y) <= d; ensures absr(x * y) <= d * absr(x); noauto; }
// the slack of swept is small when the last change was
lemma absDiffBound(c: seq real, b: seq real, bo: seq real, d: real, n: int, m: int) {
  requires 0 <= n && n <= m && near(b, bo, d, m);
  use absProd(c[n-1], b[n-1] - bo[n-1], d);
  ensures absDiff(c, b, bo, n) <= d * absSum(c, n);
  induct n; noauto;
}
func LassoCrdDesc(dset, lamb, cov, x0, maxIter, tol, corr) (beta) {
  requires dset != nil && dset.X != nil && cov != nil && corr != nil && corr != dset.X;
  requires shape: rows(dset.X) > 0 && cols(dset.X) > 0 && rows(dset.X) == len(dset.y);
  modifies matc(corr);
  ensures length: len(beta) == cols(dset.X) && newfrom(beta);
  ensures bias: beta[0] == 0.0;
  assumed result: solved(dset, lamb, cov, maxIter, tol, corr, arr(beta));
  loop 1 {
    invariant len(iterIndices) == nFeat - 1 && fresh(iterIndices) && nFeat == cols(dset.X) && nr == rows(dset.X);
    invariant xty: forall j: int :: {cont(XTy)[j]} 0 <= j && j < nFeat ==> cont(XTy)[j][0] == (1.0 / real(nr)) * colv(cont(dset.X), j, arr(dset.y), nr);
    invariant forall k: int :: {iterIndices[k]} 0 <= k && k < i - 1 ==> iterIndices[k] == k + 1;
    invariant every: forall j: int :: {tag(j)} tag(j) && 1 <= j && j < i ==> iterIndices[j-1] == j;
  }
  loop 2 {
    invariant sizes: len(beta) == nFeat && len(betaOld) == nFeat && len(covDotBeta) == nFeat && fresh(beta) && fresh(betaOld) && fresh(covDotBeta) && fresh(iterIndices);
    invariant separate: ref(beta) != ref(betaOld) && ref(beta) != ref(covDotBeta) && ref(betaOld) != ref(covDotBeta);
    invariant range: forall k: int :: {iterIndices[k]} 0 <= k && k < len(iterIndices) ==> 1 <= iterIndices[k] && iterIndices[k] < nFeat;
    invariant distinct: distinctInts(iterIndices);
    invariant bias: beta[0] == 0.0 && betaOld[0] == 0.0;
    invariant agree: forall j: int :: {beta[j]} {betaOld[j]} tag(j) && 0 <= j && j < nFeat && !listedInts(iterIndices, j) ==> beta[j] == betaOld[j];
    invariant books: forall i: int :: {covDotBeta[i]} 0 <= i && i < nFeat ==> covDotBeta[i] == dotr(cont(covMat)[i], arr(betaOld), nFeat);
    invariant active: forall j: int :: {tag(j)} {betaOld[j]} tag(j) && 1 <= j && j < nFeat && absr(betaOld[j]) > 1e-16 ==> listedInts(iterIndices, j);
  }
  loop 3 {
    invariant books: forall i: int :: {covDotBeta[i]} 0 <= i && i < nFeat ==> covDotBeta[i] == dotr(cont(covMat)[i], mixSeq(arr(betaOld), arr(beta), arr(iterIndices), $i), nFeat);
    invariant rest: forall j: int :: {beta[j]} 0 <= j && j < nFeat && (forall k: int :: {iterIndices[k]} 0 <= k && k < $i ==> iterIndices[k] != j) ==> beta[j] == pre(beta[j]);
    invariant kkt: lamb >= 0.0 && posDiag(cont(covMat), nFeat) ==> (forall k: int :: {iterIndices[k]} 0 <= k && k < $i ==>
      kkt(cont(XTy)[iterIndices[k]][0] - covDotBeta[iterIndices[k]] - derivf(corr, cont(corr), arr(betaOld), iterIndices[k]), beta[iterIndices[k]], lamb, absDiff(cont(covMat)[iterIndices[k]], mixSeq(arr(betaOld), arr(beta), arr(iterIndices), $i), arr(betaOld), nFeat)));
  }
  loop 3 {
    step balance: cont(covMat)[j][j] > 0.0 ==> beta[j] * covDiag == soft(cont(XTy)[j][0] - (covDotBeta[j] - beta[j] * covDiag) - derivf(corr, cont(corr), arr(betaOld), j), lamb) && (beta[j] > 0.0 <==> beta[j] * covDiag > 0.0) && (beta[j] < 0.0 <==> beta[j] * covDiag < 0.0);
    step solved: lamb >= 0.0 && cont(covMat)[j][j] > 0.0 ==> kkt(cont(XTy)[j][0] - covDotBeta[j] - derivf(corr, cont(corr), arr(betaOld), j), beta[j], lamb, 0.0);
    after mix: forall j: int :: {mixSeq(arr(betaOld), arr(beta), arr(iterIndices), len(iterIndices))[j]} 0 <= j && j < nFeat ==> mixSeq(arr(betaOld), arr(beta), arr(iterIndices), len(iterIndices))[j] == beta[j];
    after swept: lamb >= 0.0 && posDiag(cont(covMat), nFeat) ==> swept(cont(covMat), cont(XTy), arr(covDotBeta), corr, cont(corr), arr(betaOld), arr(beta), lamb, nFeat);
    after books: forall i: int :: {covDotBeta[i]} 0 <= i && i < nFeat ==> covDotBeta[i] == dotr(cont(covMat)[i], arr(beta), nFeat);
  }
  loop 4 {
    invariant change: forall k: int :: {iterIndices[k]} 0 <= k && k < $i ==> absr(beta[iterIndices[k]] - betaOld[iterIndices[k]]) <= maxChange;
    invariant coeff: forall k: int :: {iterIndices[k]} 0 <= k && k < $i ==> absr(beta[iterIndices[k]]) <= maxCoeff;
    invariant sign: maxChange >= 0.0 && maxCoeff >= 0.0;
    after near: near(arr(beta), arr(betaOld), maxChange, nFeat);
    after top: forall j: int :: {beta[j]} 1 <= j && j < nFeat && absr(beta[j]) > 1e-16 ==> absr(beta[j]) <= maxCoeff;
  }
  loop 5 {
    invariant count: 0 <= numActive && numActive <= $i;
    invariant rest: forall k: int :: {iterIndices[k]} {pre(iterIndices[k])} $i <= k && k < len(iterIndices) ==> iterIndices[k] == pre(iterIndices[k]);
    invariant from: forall k: int :: {iterIndices[k]} 0 <= k && k < numActive ==> (exists l: int :: {pre(iterIndices[l])} 0 <= l && l < $i && pre(iterIndices[l]) == iterIndices[k]);
    invariant distinct: forall a, b: int :: {iterIndices[a], iterIndices[b]} 0 <= a && a < b && b < numActive ==> iterIndices[a] != iterIndices[b];
    invariant active: forall l: int :: {pre(iterIndices[l])} 0 <= l && l < $i && absr(beta[pre(iterIndices[l])]) > 1e-16 ==> (exists k: int :: {iterIndices[k]} 0 <= k && k < numActive && iterIndices[k] == pre(iterIndices[l]));
      after active: forall j: int :: {tag(j)} {beta[j]} tag(j) && 1 <= j && j < nFeat && absr(beta[j]) > 1e-16 ==> (exists k: int :: {iterIndices[k]} 0 <= k && k < numActive && iterIndices[k] == j);
  }
  loop 2 {
    // the loop stops at an optimum
    onbreak zeros: forall j: int :: {beta[j]} 1 <= j && j < nFeat && absr(beta[j]) <= 1e-16 ==>
      absr((1.0 / real(nr)) * colv(cont(dset.X), j, arr(dset.y), nr) - dotr(cont(covMat)[j], arr(beta), nFeat) - derivf(corr, cont(corr), arr(beta), j)) <= lamb + 1e-16;
    onbreak selected: lamb >= 0.0 && posDiag(cont(covMat), nFeat) ==> (exists state: seq seq real; bo: seq real :: {swept(cont(covMat), cont(XTy), arr(covDotBeta), corr, state, bo, arr(beta), lamb, nFeat)}
      swept(cont(covMat), cont(XTy), arr(covDotBeta), corr, state, bo, arr(beta), lamb, nFeat) && near(arr(beta), bo, maxChange, nFeat));
    onbreak books: forall j: int :: {covDotBeta[j]} 1 <= j && j < nFeat ==> covDotBeta[j] == dotr(cont(covMat)[j], arr(beta), nFeat) && cont(XTy)[j][0] == (1.0 / real(nr)) * colv(cont(dset.X), j, arr(dset.y), nr);
    onbreak small: (maxCoeff > 0.0 ==> maxChange < tol * maxCoeff) && (forall j: int :: {beta[j]} 1 <= j && j < nFeat && absr(beta[j]) > 1e-16 ==> absr(beta[j]) <= maxCoeff);
  }
}
property C14 {
  verify SoftThreshold, MulSlice, UpdateCovDotBeta, UnsatisfiedKKTConditions, PureLasso.Deriv, PureLasso.Update, ElasticNet.Deriv, ElasticNet.Update, NewCLasso, CLasso.Update, CLasso.Deriv, LassoCrdDesc;
  lemmas dotrMix, absDiffMix, absDiffBound;
}
