// C25: model averaging
// the sum of exp(-(a[k] - m)) over the first n entries
spec expsum(a: seq real, m: real, n: int): real = if n <= 0 then 0.0 else expsum(a, m, n-1) + expf(-(a[n-1] - m));
lemma expsumPos(a: seq real, m: real, n: int) { requires n >= 0; ensures expsum(a, m, n) >= 0.0; ensures n > 0 ==> expsum(a, m, n) > 0.0; induct n; trigger {expsum(a, m, n)}; }
// w are the weights of the criteria a, relative to m
def isWeights(w: seq real, a: seq real, m: real, n: int) = forall k: int :: {w[k]} 0 <= k && k < n ==> w[k] == expf(-(a[k] - m)) / expsum(a, m, n);
func WeightsFromAIC(aic) (w) {
  requires finite: forall k: int :: {aic[k]} 0 <= k && k < len(aic) ==> aic[k] <= MaxFloat64;
  ensures length: len(w) == len(aic) && newfrom(w);
  ensures weights: exists m: real :: {expsum(arr(aic), m, len(aic))} (len(aic) > 0 ==> memr(aic, m)) && (forall k: int :: {aic[k]} 0 <= k && k < len(aic) ==> m <= aic[k]) && isWeights(arr(w), arr(aic), m, len(aic));
  loop 1 { invariant sumW == expsum(arr(aic), min, $i); }
  loop 2 {
    invariant len(w) == len(aic) && fresh(w);
    invariant forall k: int :: {w[k]} 0 <= k && k < $i ==> w[k] == expf(-(aic[k] - min)) / sumW;
  }
}
// consequences of the formula
lemma weightPositive(w: seq real, a: seq real, m: real, n: int, k: int) { requires 0 <= k && k < n && isWeights(w, a, m, n); ensures w[k] > 0.0; noauto; }
lemma weightOrder(w: seq real, a: seq real, m: real, n: int, j: int, k: int) { requires 0 <= j && j < n && 0 <= k && k < n && isWeights(w, a, m, n) && a[j] < a[k]; ensures w[j] > w[k]; noauto; }
lemma weightPart(w: seq real, a: seq real, m: real, s: real, n: int) {
  requires n >= 0 && s > 0.0;
  requires forall k: int :: {w[k]} 0 <= k && k < n ==> w[k] == expf(-(a[k] - m)) / s;
  ensures sumr(w, n) == expsum(a, m, n) / s;
  induct n; noauto;
}
lemma weightSum(w: seq real, a: seq real, m: real, n: int) { requires n > 0 && isWeights(w, a, m, n); use weightPart(w, a, m, expsum(a, m, n), n); ensures sumr(w, n) == 1.0; noauto; }
lemma expsumShift(a: seq real, b: seq real, d: real, m: real, n: int) {
  requires n >= 0;
  requires forall k: int :: {a[k]} {b[k]} 0 <= k && k < n ==> b[k] == a[k] + d;
  ensures expsum(b, m + d, n) == expsum(a, m, n);
  induct n; noauto;
}
// shifted criteria give the same weights; the reference value is determined by being the smallest entry
lemma weightShift(w: seq real, v: seq real, a: seq real, b: seq real, d: real, m: real, l: real, n: int, k: int) {
  requires 0 <= k && k < n && isWeights(w, a, m, n) && isWeights(v, b, l, n);
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> b[i] == a[i] + d && m <= a[i] && l <= b[i];
  requires exists i: int :: {a[i]} 0 <= i && i < n && a[i] == m;
  requires exists i: int :: {b[i]} 0 <= i && i < n && b[i] == l;
  use expsumShift(a, b, d, m, n);
  ensures l == m + d;
  ensures w[k] == v[k];
  noauto;
}
property C25 { verify WeightsFromAIC; lemmas weightPositive, weightOrder, weightSum, weightShift; }
// what one model adds to the coefficient of feature f: its weight times its coefficients for f
spec modelPart(w: real, sel: seq int, co: seq real, f: int, n: int): real = if n <= 0 then 0.0 else modelPart(w, sel, co, f, n-1) + (if sel[n-1] == f then w * co[n-1] else 0.0);
spec avgPart(w: seq real, cs: seq SparseCoeff, hi: seq seq int, hr: seq seq real, f: int, n: int): real =
  if n <= 0 then 0.0 else avgPart(w, cs, hi, hr, f, n-1) + modelPart(w[n-1], hi[ref(cs[n-1].Selection)], hr[ref(cs[n-1].Coeff)], f, len(cs[n-1].Selection));
func WeightedAveragedCoeff(numFeat, weights, coeffs) (avg) {
  requires numFeat >= 0;
  requires sparse: forall i: int :: {len(coeffs[i].Selection)} 0 <= i && i < len(coeffs) ==> len(coeffs[i].Coeff) >= len(coeffs[i].Selection);
  requires range: forall i, j: int :: {coeffs[i].Selection[j]} 0 <= i && i < len(coeffs) && 0 <= j && j < len(coeffs[i].Selection) ==> 0 <= coeffs[i].Selection[j] && coeffs[i].Selection[j] < numFeat;
  panics when len(weights) != len(coeffs);
  ensures length: len(avg) == numFeat && newfrom(avg);
  ensures average: forall f: int :: {avg[f]} 0 <= f && f < numFeat ==> avg[f] == avgPart(arr(weights), arr(coeffs), old(heap(int)), old(heap(real)), f, len(coeffs));
  loop 1 {
    invariant len(avg) == numFeat && fresh(avg);
    invariant forall f: int :: {avg[f]} 0 <= f && f < numFeat ==> avg[f] == avgPart(arr(weights), arr(coeffs), old(heap(int)), old(heap(real)), f, $i);
  }
  loop 2 {
    invariant len(avg) == numFeat && fresh(avg);
    invariant forall f: int :: {avg[f]} 0 <= f && f < numFeat ==> avg[f] == avgPart(arr(weights), arr(coeffs), old(heap(int)), old(heap(real)), f, i)
      + modelPart(weights[i], arr(coeffs[i].Selection), arr(coeffs[i].Coeff), f, $i);
  }
}
// a model that does not select the feature adds nothing, one that selects it once adds weight times coefficient
lemma partNone(w: real, sel: seq int, co: seq real, f: int, n: int) { requires n >= 0; requires forall j: int :: {sel[j]} 0 <= j && j < n ==> sel[j] != f; ensures modelPart(w, sel, co, f, n) == 0.0; induct n; noauto; }
lemma partOnce(w: real, sel: seq int, co: seq real, f: int, k: int, n: int) {
  requires 0 <= k && k < n && sel[k] == f;
  requires forall j: int :: {sel[j]} 0 <= j && j < n && j != k ==> sel[j] != f;
  use partNone(w, sel, co, f, n-1);
  ensures modelPart(w, sel, co, f, n) == w * co[k];
  induct n; noauto;
}
lemma averageNone(w: seq real, cs: seq SparseCoeff, hi: seq seq int, hr: seq seq real, f: int, n: int) {
  requires n >= 0;
  requires forall i, j: int :: {hi[ref(cs[i].Selection)][j]} 0 <= i && i < n && 0 <= j && j < len(cs[i].Selection) ==> hi[ref(cs[i].Selection)][j] != f;
  requires forall i: int :: {cs[i]} 0 <= i && i < n ==> len(cs[i].Selection) >= 0;
  use partNone(w[n-1], hi[ref(cs[n-1].Selection)], hr[ref(cs[n-1].Coeff)], f, len(cs[n-1].Selection));
  ensures avgPart(w, cs, hi, hr, f, n) == 0.0;
  induct n; noauto;
}
property C25 { verify WeightedAveragedCoeff; lemmas partOnce, averageNone; }
