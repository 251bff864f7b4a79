// C22: information criteria; C05: bounds
def aicOf(k: int, n: int, rss: real) = 2.0 * real(k) + real(n) * logf(rss);
def aiccOf(k: int, n: int, rss: real) = aicOf(k, n, rss) + real(2 * k * k + 2 * k) / (if k >= n - 1 then 1.0 else real(n - k - 1));
def bicOf(k: int, n: int, rss: real) = real(k) * logf(real(n)) + real(n) * logf(rss);
func Aic(numFeat, numData, logL) (r) { ensures formula: r == aicOf(numFeat, numData, logL); }
func Aicc(numFeat, numData, logL) (r) { ensures formula: r == aiccOf(numFeat, numData, logL); }
func Bic(numFeat, numData, logL) (r) { ensures formula: r == bicOf(numFeat, numData, logL); }

func Fit(X, y) (c) {
  requires rows(X) > 0 && cols(X) > 0;
  panics when rows(X) != len(y);
  ensures length: len(c) == cols(X) && newfrom(c);
  ensures leastSquares: isFit(cont(X), rows(X), cols(X), arr(y), arr(c));
  loop 1 {
    invariant rows(uTdoty) == len(s) && cols(uTdoty) == 1;
    invariant forall l: int :: {cont(uTdoty)[l]} 0 <= l && l < i ==> cont(uTdoty)[l][0] == colv(svdU(cont(X), rows(X), cols(X)), l, arr(y), rows(X)) * pinv(s[l]);
    invariant forall l: int :: {cont(uTdoty)[l]} i <= l && l < len(s) ==> cont(uTdoty)[l][0] == colv(svdU(cont(X), rows(X), cols(X)), l, arr(y), rows(X));
  }
  loop 2 {
    invariant len(x) == n && fresh(x);
    invariant forall k: int :: {x[k]} 0 <= k && k < i ==> x[k] == fitSum(svdV(cont(X), rows(X), cols(X))[k], svdU(cont(X), rows(X), cols(X)), svdS(cont(X), rows(X), cols(X)), arr(y), rows(X), mini(rows(X), cols(X)));
  }
}

// coefficients and residual of the fit of model m (of length n) to X, y
def isDesignFit(m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, c: seq real, D: seq seq real) =
  isDesign(D, m, n, X, nr) && isFit(D, nr, cnt(m, n), y, c);
def fitRss(m: seq bool, n: int, X: seq seq real, nr: int, y: seq real, r: real) =
  exists D: seq seq real; c: seq real :: {isFit(D, nr, cnt(m, n), y, c)} isDesignFit(m, n, X, nr, y, c, D) && r == rssOf(D, c, y, cnt(m, n), nr);
// the largest and the smallest completion of the first s decided features
def isGcs(g: seq bool, m: seq bool, s: int, n: int) = forall i: int :: {g[i]} 0 <= i && i < n ==> (g[i] <==> (i >= s || m[i]));
def isLcs(l: seq bool, m: seq bool, s: int, n: int) = forall i: int :: {l[i]} 0 <= i && i < n ==> (l[i] <==> (i < s && m[i]));
def completes(m2: seq bool, m: seq bool, s: int, n: int) = forall i: int :: {m2[i]} 0 <= i && i < s ==> (m2[i] <==> m[i]);

func Gcs(model, start) (g) {
  requires 0 <= start && start <= len(model);
  ensures length: len(g) == len(model) && newfrom(g);
  ensures largest: isGcs(arr(g), arr(model), start, len(model));
  loop 1 {
    invariant len(gcsMod) == len(model) && fresh(gcsMod);
    invariant forall k: int :: {gcsMod[k]} 0 <= k && k < i ==> (gcsMod[k] <==> (k >= start || model[k]));
  }
}
func Lcs(model, start) (l) {
  requires 0 <= start && start <= len(model);
  ensures length: len(l) == len(model) && newfrom(l);
  ensures smallest: isLcs(arr(l), arr(model), start, len(model));
  loop 1 {
    invariant len(lcsMod) == len(model) && fresh(lcsMod);
    invariant forall k: int :: {lcsMod[k]} 0 <= k && k < i ==> (lcsMod[k] <==> (k < start && model[k]));
  }
}
// every completion lies between the two
lemma completionCount(g: seq bool, l: seq bool, m2: seq bool, m: seq bool, s: int, n: int) {
  requires n >= 0 && 0 <= s;
  requires forall i: int :: {g[i]} 0 <= i && i < n ==> (g[i] <==> (i >= s || m[i]));
  requires forall i: int :: {l[i]} 0 <= i && i < n ==> (l[i] <==> (i < s && m[i]));
  requires forall i: int :: {m2[i]} 0 <= i && i < s && i < n ==> (m2[i] <==> m[i]);
  ensures cnt(l, n) <= cnt(m2, n) && cnt(m2, n) <= cnt(g, n);
  induct n; noauto;
}
spec boundsOf(lower: real, upper: real, m: seq bool, n: int, start: int, X: seq seq real, nr: int, y: seq real, ny: int, aicc: bool): bool =
  exists g, l: seq bool; rg, rl: real :: {cnt(g, n), cnt(l, n), logf(rg), logf(rl)}
    isGcs(g, m, start, n) && isLcs(l, m, start, n)
    && (cnt(g, n) < nr ==> fitRss(g, n, X, nr, y, rg))
    && (cnt(g, n) >= nr ==> rg == 1e-12)
    && (cnt(l, n) > 0 ==> fitRss(l, n, X, nr, y, rl))
    && (cnt(l, n) == 0 ==> rl == MaxFloat64)
    && lower == (if aicc then aiccOf(cnt(l, n), ny, rg) else aicOf(cnt(l, n), ny, rg))
    && upper == (if aicc then aiccOf(cnt(g, n), ny, rl) else aicOf(cnt(g, n), ny, rl));
func BoundsAIC(model, start, X, y) (lower, upper) {
  requires 0 <= start && start <= len(model) && len(model) == cols(X) && rows(X) > 0 && len(y) == rows(X) && (start < len(model) || cnt(arr(model), len(model)) > 0);
  ensures bounds: boundsOf(lower, upper, arr(model), len(model), start, cont(X), rows(X), arr(y), len(y), false);
}
func BoundsAICC(model, start, X, y) (lower, upper) {
  requires 0 <= start && start <= len(model) && len(model) == cols(X) && rows(X) > 0 && len(y) == rows(X) && (start < len(model) || cnt(arr(model), len(model)) > 0);
  ensures bounds: boundsOf(lower, upper, arr(model), len(model), start, cont(X), rows(X), arr(y), len(y), true);
}
// with ordered residuals the two values bracket the criterion of every completion
lemma aicBracket(kl: int, k: int, kg: int, n: int, rg: real, r: real, rl: real) {
  requires 0 <= kl && kl <= k && k <= kg && n >= 0;
  requires 0.0 < rg && rg <= r && r <= rl;
  ensures aicOf(kl, n, rg) <= aicOf(k, n, r) && aicOf(k, n, r) <= aicOf(kg, n, rl);
  noauto;
}
lemma aiccBracket(kl: int, k: int, kg: int, n: int, rg: real, r: real, rl: real) {
  requires 0 <= kl && kl <= k && k <= kg && kg < n - 1;
  requires 0.0 < rg && rg <= r && r <= rl;
  ensures aiccOf(kl, n, rg) <= aiccOf(k, n, r) && aiccOf(k, n, r) <= aiccOf(kg, n, rl);
  noauto;
}
// the value for entry k is the criterion of that entry's own selection and coefficients
def critOwn(v: real, p: *LassoLarsPath, criteria: crit, k: int) = 
    (exists r: real; D: seq seq real :: {apply(criteria, len(p.LassoLarsNodes[k].Selection), rows(p.Dset.X), r), rssOf(D, arr(p.LassoLarsNodes[k].Coeff), arr(p.Dset.Y), len(p.LassoLarsNodes[k].Selection), rows(p.Dset.X))}
       v == apply(criteria, len(p.LassoLarsNodes[k].Selection), rows(p.Dset.X), r)
       && r == rssOf(D, arr(p.LassoLarsNodes[k].Coeff), arr(p.Dset.Y), len(p.LassoLarsNodes[k].Selection), rows(p.Dset.X))
       && (forall i, c: int :: {D[i][c]} 0 <= i && i < rows(p.Dset.X) && 0 <= c && c < len(p.LassoLarsNodes[k].Selection) ==> D[i][c] == cont(p.Dset.X)[i][p.LassoLarsNodes[k].Selection[c]]));
func LassoLarsPath.GetCriteria(p, criteria) (values) {
  requires p.Dset != nil && p.Dset.X != nil && rows(p.Dset.X) > 0 && cols(p.Dset.X) > 0 && len(p.Dset.Y) == rows(p.Dset.X);
  requires nodes: forall k: int :: {p.LassoLarsNodes[k]} 0 <= k && k < len(p.LassoLarsNodes) ==> p.LassoLarsNodes[k] != nil && len(p.LassoLarsNodes[k].Selection) > 0
     && inRange(p.LassoLarsNodes[k].Selection, cols(p.Dset.X)) && len(p.LassoLarsNodes[k].Coeff) == len(p.LassoLarsNodes[k].Selection)
     && (forall i, j: int :: {p.LassoLarsNodes[k].Selection[i], p.LassoLarsNodes[k].Selection[j]} 0 <= i && i < j && j < len(p.LassoLarsNodes[k].Selection) ==> p.LassoLarsNodes[k].Selection[i] < p.LassoLarsNodes[k].Selection[j]);
  ensures length: len(values) == len(p.LassoLarsNodes) && newfrom(values);
  ensures own: forall k: int :: {values[k]} 0 <= k && k < len(values) ==> critOwn(values[k], p, criteria, k);
  loop 1 {
    invariant len(values) == len(p.LassoLarsNodes) && fresh(values);
    invariant forall k: int :: {values[k]} 0 <= k && k < $i ==> critOwn(values[k], p, criteria, k);
  }
}
property C22 { verify Aic, Aicc, Bic, LassoLarsPath.GetCriteria; }
property C05 { verify Gcs, Lcs, BoundsAIC, BoundsAICC, Aic, Aicc; lemmas completionCount, aicBracket, aiccBracket; }
