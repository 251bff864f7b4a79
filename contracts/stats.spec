// C13: normalisation; C25: model averaging
// the sum of squared deviations of the first n entries from m
spec sqdev(a: seq real, m: real, n: int): real = if n <= 0 then 0.0 else sqdev(a, m, n-1) + (a[n-1] - m) * (a[n-1] - m);
def meanOf(a: seq real, n: int) = sumr(a, n) / real(n);
def stdOf(a: seq real, n: int) = if n <= 1 then 0.0 else sqrtf(sqdev(a, sumr(a, n) / real(n), n) / real(n - 1));
lemma sqdevFrame(a: seq real, b: seq real, m: real, n: int) {
  requires n >= 0;
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i];
  ensures sqdev(a, m, n) == sqdev(b, m, n);
  induct n; trigger {sqdev(a, m, n), sqdev(b, m, n)};
}
lemma sqdevPos(a: seq real, m: real, n: int) { requires n >= 0; ensures sqdev(a, m, n) >= 0.0; induct n; trigger {sqdev(a, m, n)}; }

func Mean(v) (r) {
  requires nonempty: len(v) > 0;
  ensures mean: r == meanOf(arr(v), len(v));
  loop 1 { invariant mu == sumr(arr(v), i); }
}
func Std(v) (r) {
  ensures std: r == stdOf(arr(v), len(v));
  ensures square: len(v) > 1 ==> r >= 0.0 && r * r == sqdev(arr(v), meanOf(arr(v), len(v)), len(v)) / real(len(v) - 1);
  loop 1 { invariant sigmaSq == sqdev(arr(v), mu, i); }
}
func NormalizeArray(v) {
  requires nonempty: len(v) > 0;
  requires spread: stdOf(arr(v), len(v)) != 0.0;
  modifies elems(v);
  ensures entries: forall i: int :: {v[i]} 0 <= i && i < len(v) ==> v[i] == (old(v[i]) - old(meanOf(arr(v), len(v)))) / old(stdOf(arr(v), len(v)));
  loop 1 {
    invariant forall k: int :: {v[k]} 0 <= k && k < len(v) ==> v[k] == (if k < i then (old(v[k]) - old(meanOf(arr(v), len(v)))) / old(stdOf(arr(v), len(v))) else old(v[k]));
  }
}
// column c of M as a sequence
spec colseq(M: seq seq real, c: int, n: int): seq real = if n <= 0 then constseq(0.0) else set(colseq(M, c, n-1), n-1, M[n-1][c]);
lemma colseqAt(M: seq seq real, c: int, n: int, i: int) { requires 0 <= i && i < n; ensures colseq(M, c, n)[i] == M[i][c]; induct n; trigger {colseq(M, c, n)[i]}; }
def rowMean(M: seq seq real, i: int, nc: int) = meanOf(M[i], nc);
def rowStd(M: seq seq real, i: int, nc: int) = stdOf(M[i], nc);
def colMean(M: seq seq real, j: int, nr: int) = meanOf(colseq(M, j, nr), nr);
def colStd(M: seq seq real, j: int, nr: int) = stdOf(colseq(M, j, nr), nr);
func NormalizeRows(X) {
  requires rows(X) > 0 && cols(X) > 0;
  requires spread: forall i: int :: {cont(X)[i]} 0 <= i && i < rows(X) ==> rowStd(cont(X), i, cols(X)) != 0.0;
  modifies matc(X);
  ensures entries: forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==>
     cont(X)[i][j] == (old(cont(X))[i][j] - rowMean(old(cont(X)), i, cols(X))) / rowStd(old(cont(X)), i, cols(X));
  loop 1 {
    invariant forall k, j: int :: {cont(X)[k][j]} 0 <= k && k < rows(X) && 0 <= j && j < cols(X) ==>
       cont(X)[k][j] == (if k < i then (old(cont(X))[k][j] - rowMean(old(cont(X)), k, cols(X))) / rowStd(old(cont(X)), k, cols(X)) else old(cont(X))[k][j]);
  }
}
func NormalizeCols(X) {
  requires rows(X) > 0 && cols(X) > 0;
  requires spread: forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==> colStd(cont(X), j, rows(X)) != 0.0;
  modifies matc(X);
  ensures entries: forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==>
     cont(X)[i][j] == (old(cont(X))[i][j] - colMean(old(cont(X)), j, rows(X))) / colStd(old(cont(X)), j, rows(X));
  loop 1 {
    invariant len(tmp) == rows(X) && fresh(tmp);
    invariant forall k, j: int :: {cont(X)[k][j]} 0 <= k && k < rows(X) && 0 <= j && j < cols(X) ==>
       cont(X)[k][j] == (if j < col then (old(cont(X))[k][j] - colMean(old(cont(X)), j, rows(X))) / colStd(old(cont(X)), j, rows(X)) else old(cont(X))[k][j]);
  }
  loop 2 {
    invariant forall k: int :: {tmp[k]} 0 <= k && k < row ==> tmp[k] == cont(X)[k][col];
  }
  loop 3 {
    invariant forall k, j: int :: {cont(X)[k][j]} 0 <= k && k < rows(X) && 0 <= j && j < cols(X) ==>
       cont(X)[k][j] == (if j == col && k < row then tmp[k] else pre(cont(X))[k][j]);
  }
}
// what a column or target with deviation s is divided by; a (first) column with no spread is only shifted
def divisor(s: real) = if s < 1e-10 then 1.0 else s;
def shiftScale(v: real, m: real, s: real) = (v - m) / s;
def normY(d: *NormalizedData, y0: seq real, n: int) = d.stdY == stdOf(y0, n) && d.muY == meanOf(y0, n) && len(d.y) == n
  && (forall i: int :: {d.y[i]} 0 <= i && i < n ==> d.y[i] == shiftScale(y0[i], meanOf(y0, n), stdOf(y0, n)));
// a column with (numerically) no spread
spec constCol(M: seq seq real, j: int, nr: int): bool = colStd(M, j, nr) < 1e-10;
func NewNormalizedData(X, y) (d) {
  requires rows(X) > 0 && cols(X) > 0 && len(y) > 0;
  modifies matc(X), elems(y);
  panics when exists i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 < j && j < cols(X) && constCol(cont(X), j, rows(X));
  ensures new: fresh(d) && newfrom(d.mu) && newfrom(d.std) && len(d.mu) == cols(X) && len(d.std) == cols(X);
  ensures owns: d.X == X && d.y == y;
  ensures targets: normY(d, old(arr(y)), old(len(y)));
  ensures stats: forall j: int :: {d.mu[j]} {d.std[j]} 0 <= j && j < cols(X) ==> d.mu[j] == colMean(old(cont(X)), j, rows(X)) && d.std[j] == colStd(old(cont(X)), j, rows(X));
  ensures bias: d.HasBias <==> d.std[0] < 1e-10;
  ensures spread: forall j: int :: {d.std[j]} 0 < j && j < cols(X) ==> d.std[j] >= 1e-10;
  ensures entries: forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==>
     cont(X)[i][j] == shiftScale(old(cont(X))[i][j], d.mu[j], divisor(d.std[j]));
  loop 1 {
    invariant forall k: int :: {y[k]} 0 <= k && k < len(y) ==> y[k] == (if k < i then shiftScale(old(y[k]), old(meanOf(arr(y), len(y))), old(stdOf(arr(y), len(y)))) else old(y[k]));
  }
  loop 2 {
    invariant len(tmp) == rows(X) && fresh(tmp) && len(normD.mu) == cols(X) && len(normD.std) == cols(X) && fresh(normD.mu) && fresh(normD.std);
    invariant forall j: int :: {normD.mu[j]} {normD.std[j]} 0 <= j && j < c ==> normD.mu[j] == colMean(old(cont(X)), j, rows(X)) && normD.std[j] == colStd(old(cont(X)), j, rows(X));
    invariant forall j: int :: {normD.std[j]} {constCol(old(cont(X)), j, rows(X))} 0 < j && j < c ==> normD.std[j] >= 1e-10 && !constCol(old(cont(X)), j, rows(X));
    invariant normD.HasBias <==> c > 0 && normD.std[0] < 1e-10;
    invariant forall i, j: int :: {cont(X)[i][j]} 0 <= i && i < rows(X) && 0 <= j && j < cols(X) ==>
       cont(X)[i][j] == (if j < c then shiftScale(old(cont(X))[i][j], normD.mu[j], divisor(normD.std[j])) else old(cont(X))[i][j]);
  }
  loop 3 {
    invariant forall k: int :: {tmp[k]} 0 <= k && k < r ==> tmp[k] == cont(X)[k][c];
  }
  loop 4 {
    invariant forall k, j: int :: {cont(X)[k][j]} 0 <= k && k < rows(X) && 0 <= j && j < cols(X) ==>
       cont(X)[k][j] == (if j == c && k < r then shiftScale(tmp[k], normD.mu[c], stdtmp) else pre(cont(X))[k][j]);
  }
}
func NormalizedData.LinearNormalizationTransformation(n, idx, value) (r) {
  requires 0 <= idx && idx < len(n.std);
  panics when idx == 0 && n.HasBias;
  ensures formula: r == value * n.stdY / n.std[idx];
}
spec shiftSum(sel: seq int, c: seq real, mu: seq real, sd: seq real, n: int): real = if n <= 0 then 0.0 else shiftSum(sel, c, mu, sd, n-1) + c[n-1] * mu[sel[n-1]] / sd[sel[n-1]];
func NormalizedData.LinearTransformationBias(n, selected, coeff) (r) {
  requires len(coeff) >= len(selected) && len(n.mu) == len(n.std) && inRange(selected, len(n.std));
  ensures formula: r == n.muY - n.stdY * shiftSum(arr(selected), arr(coeff), arr(n.mu), arr(n.std), len(selected));
  loop 1 { invariant sumShift == shiftSum(arr(selected), arr(coeff), arr(n.mu), arr(n.std), $i); }
}
// the coefficients of node nd for the original data: back-scaled, with the bias in front when the first column is constant
def unnormLen(nd: *LassoLarsNode, d: *NormalizedData, n: int) = len(nd.Selection) == n + (if d.HasBias then 1 else 0) && len(nd.Coeff) == n + (if d.HasBias then 1 else 0);
def unnormBias(nd: *LassoLarsNode, d: *NormalizedData, sel: seq int, co: seq real, n: int) = d.HasBias ==> nd.Selection[0] == 0 && nd.Coeff[0] == d.muY - d.stdY * shiftSum(sel, co, arr(d.mu), arr(d.std), n);
def unnormSel(nd: *LassoLarsNode, d: *NormalizedData, sel: seq int, n: int) = forall i: int :: {sel[i]} 0 <= i && i < n ==> nd.Selection[if d.HasBias then i + 1 else i] == sel[i];
def unnormCoeff(nd: *LassoLarsNode, d: *NormalizedData, sel: seq int, co: seq real, n: int) = forall i: int :: {co[i]} {nd.Coeff[i]} !d.HasBias && 0 <= i && i < n ==> nd.Coeff[i] == co[i] * d.stdY / d.std[sel[i]];
def unnormCoeff1(nd: *LassoLarsNode, d: *NormalizedData, sel: seq int, co: seq real, n: int) = forall i: int :: {co[i]} d.HasBias && 0 <= i && i < n ==> nd.Coeff[i+1] == co[i] * d.stdY / d.std[sel[i]];
func Path2Unnormalized(data, path) {
  requires data != nil && data.mu != nil && data.std != nil && len(data.mu) == len(data.std);
  requires nodes: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> path[k] != nil && allocated(path[k]) && len(path[k].Coeff) == len(path[k].Selection) && inRange(path[k].Selection, len(data.std));
  requires noBias: data.HasBias ==> (forall k, i: int :: {path[k].Selection[i]} 0 <= k && k < len(path) && 0 <= i && i < len(path[k].Selection) ==> path[k].Selection[i] != 0);
  requires distinct: forall k, l: int :: {path[k], path[l]} 0 <= k && k < l && l < len(path) ==> path[k] != path[l] && (path[k].Coeff != nil || len(path[k].Coeff) > 0 ==> ref(path[k].Coeff) != ref(path[l].Coeff));
  requires separate: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> ref(path[k].Coeff) != ref(data.mu) && ref(path[k].Coeff) != ref(data.std);
  modifies forall k: int :: 0 <= k && k < len(path) ==> elems(path[k].Coeff), forall k: int :: 0 <= k && k < len(path) ==> path[k].Coeff, forall k: int :: 0 <= k && k < len(path) ==> path[k].Selection;
  ensures lengths: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> unnormLen(path[k], data, old(len(path[k].Selection)));
  ensures bias: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> unnormBias(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
  ensures selection: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> unnormSel(path[k], data, old(arr(path[k].Selection)), old(len(path[k].Selection)));
  ensures coeffs: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> unnormCoeff(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
  ensures coeffsAfterBias: forall k: int :: {path[k]} 0 <= k && k < len(path) ==> unnormCoeff1(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
  loop 1 {
    invariant stats: arr(data.mu) == old(arr(data.mu)) && arr(data.std) == old(arr(data.std));
    invariant lengths: forall k: int :: {path[k]} 0 <= k && k < $i ==> unnormLen(path[k], data, old(len(path[k].Selection)));
    invariant bias: forall k: int :: {path[k]} 0 <= k && k < $i ==> unnormBias(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
    invariant selection: forall k: int :: {path[k]} 0 <= k && k < $i ==> unnormSel(path[k], data, old(arr(path[k].Selection)), old(len(path[k].Selection)));
    invariant coeffs: forall k: int :: {path[k]} 0 <= k && k < $i ==> unnormCoeff(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
    invariant coeffsAfterBias: forall k: int :: {path[k]} 0 <= k && k < $i ==> unnormCoeff1(path[k], data, old(arr(path[k].Selection)), old(arr(path[k].Coeff)), old(len(path[k].Selection)));
    invariant owned: forall k: int :: {path[k]} 0 <= k && k < $i ==> (if data.HasBias then fresh(path[k].Coeff) && fresh(path[k].Selection) else path[k].Coeff == old(path[k].Coeff) && path[k].Selection == old(path[k].Selection));
    invariant rest: forall k: int :: {path[k]} $i <= k && k < len(path) ==> path[k].Coeff == old(path[k].Coeff) && path[k].Selection == old(path[k].Selection) && (path[k].Coeff == nil && len(path[k].Coeff) == 0 || arr(path[k].Coeff) == old(arr(path[k].Coeff))) && arr(path[k].Selection) == old(arr(path[k].Selection));
  }
  loop 2 {
    invariant forall i: int :: {node.Coeff[i]} 0 <= i && i < len(node.Coeff) ==> node.Coeff[i] == (if i < $i then pre(node.Coeff[i]) * data.stdY / data.std[node.Selection[i]] else pre(node.Coeff[i]));
  }
}
// the selected features of a row against their coefficients
spec selDot(sel: seq int, co: seq real, x: seq real, n: int): real = if n <= 0 then 0.0 else selDot(sel, co, x, n-1) + co[n-1] * x[sel[n-1]];
lemma unscaleStep(c: real, sy: real, sd: real, x: real, m: real) {
  requires sd != 0.0;
  ensures (c * sy / sd) * x == sy * (c * ((x - m) / sd) + c * m / sd);
  noauto;
}
// x is a row of the original data and z the same row normalised; c2 are the back-scaled coefficients
lemma backScaled(sel: seq int, c: seq real, c2: seq real, x: seq real, z: seq real, mu: seq real, sd: seq real, sy: real, n: int) {
  requires n >= 0;
  requires forall k: int :: {sel[k]} 0 <= k && k < n ==> sd[sel[k]] != 0.0 && c2[k] == c[k] * sy / sd[sel[k]] && z[sel[k]] == (x[sel[k]] - mu[sel[k]]) / sd[sel[k]];
  use unscaleStep(c[n-1], sy, sd[sel[n-1]], x[sel[n-1]], mu[sel[n-1]]);
  ensures selDot(sel, c2, x, n) == sy * (selDot(sel, c, z, n) + shiftSum(sel, c, mu, sd, n));
  induct n; noauto;
}
// predictions from original rows with the bias added are the back-scaled predictions from normalised rows
lemma samePrediction(sel: seq int, c: seq real, c2: seq real, x: seq real, z: seq real, mu: seq real, sd: seq real, sy: real, my: real, n: int) {
  requires n >= 0;
  requires forall k: int :: {sel[k]} 0 <= k && k < n ==> sd[sel[k]] != 0.0 && c2[k] == c[k] * sy / sd[sel[k]] && z[sel[k]] == (x[sel[k]] - mu[sel[k]]) / sd[sel[k]];
  use backScaled(sel, c, c2, x, z, mu, sd, sy, n);
  ensures (my - sy * shiftSum(sel, c, mu, sd, n)) + selDot(sel, c2, x, n) == my + sy * selDot(sel, c, z, n);
  noauto;
}
// a column without spread consists of its mean
lemma noSpread(a: seq real, m: real, n: int, i: int) {
  requires 0 <= i && i < n && sqdev(a, m, n) == 0.0;
  ensures a[i] == m;
  induct n; noauto;
}
property C13 {
  verify Mean, Std, NormalizeArray, NormalizeRows, NormalizeCols, NewNormalizedData, NormalizedData.LinearNormalizationTransformation, NormalizedData.LinearTransformationBias, Path2Unnormalized;
  lemmas unscaleStep, backScaled, samePrediction, noSpread;
}
