// C16: the exact lasso path
// c and d of the straight line c - lamb d, as the linear-algebra back end gives them for the active columns of X
uninterp larsC(X: seq seq real, act: seq int, n: int, y: seq seq real): seq real;
uninterp larsD(X: seq seq real, act: seq int, n: int, s: seq seq real): seq real;
// the back end remembers the matrix and the active features
uninterp xOf(state: seq ref): seq seq real;
uninterp actOf(state: seq ref): seq int;
iface CDParam.SetX(e, X) { modifies list(e); ensures xOf(lseq(e)) == cont(X); }
iface CDParam.SetActiveSet(e, active) { modifies list(e); ensures xOf(lseq(e)) == old(xOf(lseq(e))) && actOf(lseq(e)) == arr(active) && llen(e) == len(active); }
iface CDParam.C(e, y) (r) {
  ensures fresh(r) && rows(r) == llen(e) && cols(r) == 1;
  ensures forall k: int :: {cont(r)[k]} 0 <= k && k < llen(e) ==> cont(r)[k][0] == larsC(xOf(lseq(e)), actOf(lseq(e)), llen(e), cont(y))[k];
}
iface CDParam.D(e, signs) (r) {
  ensures fresh(r) && rows(r) == llen(e) && cols(r) == 1;
  ensures forall k: int :: {cont(r)[k]} 0 <= k && k < llen(e) ==> cont(r)[k][0] == larsD(xOf(lseq(e)), actOf(lseq(e)), llen(e), cont(signs))[k];
}
// where the entries of a sorted list come from, and where they go
uninterp sortFrom(a: seq int, n: int): seq int;
uninterp sortTo(a: seq int, n: int): seq int;
extern sort.Ints(a) {
  modifies elems(a);
  ensures forall i, j: int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) ==> a[i] <= a[j];
  ensures forall i: int :: {a[i]} 0 <= i && i < len(a) ==> 0 <= sortFrom(old(arr(a)), len(a))[i] && sortFrom(old(arr(a)), len(a))[i] < len(a)
    && old(arr(a))[sortFrom(old(arr(a)), len(a))[i]] == a[i] && sortTo(old(arr(a)), len(a))[sortFrom(old(arr(a)), len(a))[i]] == i;
  ensures forall k: int :: {old(arr(a))[k]} 0 <= k && k < len(a) ==> 0 <= sortTo(old(arr(a)), len(a))[k] && sortTo(old(arr(a)), len(a))[k] < len(a)
    && old(arr(a))[k] == a[sortTo(old(arr(a)), len(a))[k]] && sortFrom(old(arr(a)), len(a))[sortTo(old(arr(a)), len(a))[k]] == k;
  ensures distinctSorted: (forall i, j: int :: {old(arr(a))[i], old(arr(a))[j]} 0 <= i && i < j && j < len(a) ==> old(arr(a))[i] != old(arr(a))[j]) ==> ascending(a);
}
func NewLassoLarsNode(coeff, lamb, selection) (l) {
  panics when len(coeff) != len(selection);
  ensures new: fresh(l) && fresh(l.Coeff) && fresh(l.Selection) && len(l.Coeff) == len(coeff) && len(l.Selection) == len(selection) && l.Lamb == lamb;
  ensures coeff: forall k: int :: {l.Coeff[k]} 0 <= k && k < len(coeff) ==> l.Coeff[k] == coeff[k];
  ensures selection: forall k: int :: {l.Selection[k]} 0 <= k && k < len(selection) ==> l.Selection[k] == selection[k];
}
def isIn(active: []int, j: int) = exists k: int :: {active[k]} 0 <= k && k < len(active) && active[k] == j;
func maxJoinTime(v, active) (t, i) {
  requires v != nil && rows(v) > 0 && inRange(active, rows(v));
  modifies matc(v);
  ensures cleared: forall k: int :: {cont(v)[k]} 0 <= k && k < rows(v) ==> cont(v)[k][0] == (if isIn(active, k) then -1.0 else old(cont(v))[k][0]);
  ensures range: 0 <= i && i < rows(v);
  ensures largest: t >= 0.0 && (forall k: int :: {old(cont(v))[k]} 0 <= k && k < rows(v) && !isIn(active, k) ==> old(cont(v))[k][0] <= t);
  ensures inactive: t > 0.0 ==> !isIn(active, i) && old(cont(v))[i][0] == t;
  loop 1 {
    invariant forall k: int :: {cont(v)[k]} 0 <= k && k < rows(v) ==> cont(v)[k][0] == (if (exists l: int :: {active[l]} 0 <= l && l < $i && active[l] == k) then -1.0 else old(cont(v))[k][0]);
  }
  loop 2 {
    invariant 0 <= maxIndx && maxIndx < rows(v) && maxVal >= 0.0 && (maxVal > 0.0 ==> cont(v)[maxIndx][0] == maxVal);
    invariant forall k: int :: {cont(v)[k]} 0 <= k && k < i ==> cont(v)[k][0] <= maxVal;
  }
}
func maxCrossTime(v) (t, i) {
  requires v != nil && rows(v) > 0;
  ensures range: 0 <= i && i < rows(v);
  ensures largest: t >= 0.0 && (forall k: int :: {cont(v)[k]} 0 <= k && k < rows(v) ==> cont(v)[k][0] <= t);
  ensures found: t > 0.0 ==> cont(v)[i][0] == t;
  loop 1 {
    invariant 0 <= maxIndx && maxIndx < rows(v) && maxVal >= 0.0 && (maxVal > 0.0 ==> cont(v)[maxIndx][0] == maxVal);
    invariant forall j: int :: {cont(v)[j]} 0 <= j && j < k ==> cont(v)[j][0] <= maxVal;
  }
}
def paramsOk(p: *LassoLarsParams) = p != nil && p.c != nil && p.d != nil && rows(p.c) > 0 && rows(p.d) == rows(p.c) && cols(p.c) == 1 && cols(p.d) == 1;
func betaLARS(llp, lamb) (b) {
  requires paramsOk(llp);
  ensures shape: fresh(b) && rows(b) == rows(llp.c) && cols(b) == 1;
  ensures line: forall k: int :: {cont(b)[k]} 0 <= k && k < rows(b) ==> cont(b)[k][0] == cont(llp.c)[k][0] - lamb * cont(llp.d)[k][0];
  loop 1 {
    invariant rows(beta) == rows(llp.c) && cols(beta) == 1 && fresh(beta);
    invariant forall k: int :: {cont(beta)[k]} 0 <= k && k < i ==> cont(beta)[k][0] == cont(llp.c)[k][0] - lamb * cont(llp.d)[k][0];
  }
}
func tCross(llp, lamb) (t) {
  requires paramsOk(llp);
  ensures shape: fresh(t) && rows(t) == rows(llp.c) && cols(t) == 1;
  ensures crossing: forall k: int :: {cont(t)[k]} 0 <= k && k < rows(t) ==> cont(t)[k][0] == (if cont(llp.c)[k][0] / cont(llp.d)[k][0] + 1e-6 > lamb then 0.0 else cont(llp.c)[k][0] / cont(llp.d)[k][0]);
  loop 1 {
    invariant rows(cross) == rows(llp.c) && cols(cross) == 1 && fresh(cross);
    invariant forall k: int :: {cont(cross)[k]} 0 <= k && k < i ==> cont(cross)[k][0] == (if cont(llp.c)[k][0] / cont(llp.d)[k][0] + 1e-6 > lamb then 0.0 else cont(llp.c)[k][0] / cont(llp.d)[k][0]);
  }
}
// column j of X times the product Xe b (n entries), over nr rows
spec colTimes(X: seq seq real, j: int, Xe: seq seq real, b: seq seq real, n: int, nr: int): real = if nr <= 0 then 0.0 else colTimes(X, j, Xe, b, n, nr-1) + X[nr-1][j] * mm(Xe, nr-1, b, 0, n);
// column j of X times the vector y
spec colVec(X: seq seq real, j: int, y: seq seq real, nr: int): real = if nr <= 0 then 0.0 else colVec(X, j, y, nr-1) + X[nr-1][j] * y[nr-1][0];
lemma mmColTimes(T: seq seq real, X: seq seq real, j: int, Xe: seq seq real, b: seq seq real, t: seq seq real, n: int, nr: int) {
  requires nr >= 0;
  requires forall i: int :: {T[j][i]} 0 <= i && i < nr ==> T[j][i] == X[i][j];
  requires forall i: int :: {t[i]} 0 <= i && i < nr ==> t[i][0] == mm(Xe, i, b, 0, n);
  ensures mm(T, j, t, 0, nr) == colTimes(X, j, Xe, b, n, nr);
  induct nr; trigger {mm(T, j, t, 0, nr), colTimes(X, j, Xe, b, n, nr)};
}
lemma mmColVec(T: seq seq real, X: seq seq real, j: int, y: seq seq real, nr: int) {
  requires nr >= 0;
  requires forall i: int :: {T[j][i]} 0 <= i && i < nr ==> T[j][i] == X[i][j];
  ensures mm(T, j, y, 0, nr) == colVec(X, j, y, nr);
  induct nr; trigger {mm(T, j, y, 0, nr), colVec(X, j, y, nr)};
}
// the value at which feature i could join with sign s
def joinAt(X: seq seq real, Xe: seq seq real, y: seq seq real, c: seq seq real, d: seq seq real, n: int, nr: int, i: int, s: real) =
  (colVec(X, i, y, nr) - colTimes(X, i, Xe, c, n, nr)) / (s - colTimes(X, i, Xe, d, n, nr));
def inWindow(t: real, lamb: real) = t >= -1e-6 && t <= lamb + 1e-6;
// the feature that left last does not come back with the sign it had
def plusTime(X: seq seq real, Xe: seq seq real, y: seq seq real, c: seq seq real, d: seq seq real, n: int, nr: int, i: int, feat: int, co: real) =
  if feat == i && co > 0.0 then -10.0 else joinAt(X, Xe, y, c, d, n, nr, i, 1.0);
def minusTime(X: seq seq real, Xe: seq seq real, y: seq seq real, c: seq seq real, d: seq seq real, n: int, nr: int, i: int, feat: int, co: real) =
  if feat == i && co < 0.0 then -10.0 else joinAt(X, Xe, y, c, d, n, nr, i, -1.0);
def selHas(sel: seq int, n: int, j: int) = exists k: int :: {sel[k]} 0 <= k && k < n && sel[k] == j;
spec joinTimesOf(J: seq seq real, sel: seq int, X: seq seq real, nr: int, nc: int, y: seq seq real, Xe: seq seq real, n: int, c: seq seq real, d: seq seq real, lamb: real): bool =
  exists feat: int; co: real :: {featTag(feat, co)} featTag(feat, co) && (forall i: int :: {J[i]} 0 <= i && i < nc && !selHas(sel, n, i) ==> J[i][0] ==
    (if inWindow(plusTime(X, Xe, y, c, d, n, nr, i, feat, co), lamb) then plusTime(X, Xe, y, c, d, n, nr, i, feat, co) else minusTime(X, Xe, y, c, d, n, nr, i, feat, co)));
spec featTag(feat: int, co: real): bool = true;
func tJoin(X, Xe, y, llp, lamb, active, last) (t) {
  requires X != nil && Xe != nil && y != nil && rows(X) > 0 && cols(X) > 0 && rows(Xe) == rows(X) && rows(y) == rows(X);
  requires paramsOk(llp) && rows(llp.c) == cols(Xe) && inRange(active, cols(X)) && len(active) == cols(Xe);
  panics when exists i: int :: {tag(i)} tag(i) && 0 <= i && i < cols(X) && !inWindow(plusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), i, last.feat, last.coeff), lamb)
    && !inWindow(minusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), i, last.feat, last.coeff), lamb);
  ensures shape: fresh(t) && rows(t) == cols(X) && cols(t) == 1;
  ensures window: forall i: int :: {cont(t)[i]} 0 <= i && i < cols(X) ==> inWindow(cont(t)[i][0], lamb);
  ensures times: forall i: int :: {cont(t)[i]} 0 <= i && i < cols(X) ==> cont(t)[i][0] ==
    (if inWindow(plusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), i, last.feat, last.coeff), lamb)
     then plusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), i, last.feat, last.coeff)
     else minusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), i, last.feat, last.coeff));
  ensures event: featTag(last.feat, last.coeff) && joinTimesOf(cont(t), arr(active), cont(X), rows(X), cols(X), cont(y), cont(Xe), cols(Xe), cont(llp.c), cont(llp.d), lamb);
  loop 1 { invariant len(isActive) == cols(X) && fresh(isActive); }
  loop 2 {
    invariant rows(joinTime) == cols(X) && cols(joinTime) == 1 && fresh(joinTime) && tag(i);
    invariant window: forall k: int :: {cont(joinTime)[k]} {tag(k)} 0 <= k && k < i ==> inWindow(cont(joinTime)[k][0], lamb);
    invariant times: forall k: int :: {cont(joinTime)[k]} {tag(k)} 0 <= k && k < i ==> cont(joinTime)[k][0] ==
    (if inWindow(plusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), k, last.feat, last.coeff), lamb)
     then plusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), k, last.feat, last.coeff)
     else minusTime(cont(X), cont(Xe), cont(y), cont(llp.c), cont(llp.d), cols(Xe), rows(X), k, last.feat, last.coeff));
  }
}
// the correlation of column j with the residual of the fit b
spec corr(X: seq seq real, j: int, y: seq seq real, Xe: seq seq real, b: seq seq real, n: int, nr: int): real =
  if nr <= 0 then 0.0 else corr(X, j, y, Xe, b, n, nr-1) + X[nr-1][j] * (y[nr-1][0] - mm(Xe, nr-1, b, 0, n));
func joinFeatSign(jFeat, X, Xe, y, coeffVec) (s) {
  requires X != nil && Xe != nil && y != nil && coeffVec != nil && rows(y) > 0 && rows(X) == rows(y) && rows(Xe) == rows(y) && rows(coeffVec) == cols(Xe) && 0 <= jFeat && jFeat < cols(X);
  ensures sign: s == (if corr(cont(X), jFeat, cont(y), cont(Xe), cont(coeffVec), cols(Xe), rows(y)) > 0.0 then 1.0 else -1.0);
  loop 1 {
    invariant i <= rows(y);
    invariant dotProd == corr(cont(X), jFeat, cont(y), cont(Xe), cont(coeffVec), cols(Xe), i);
  }
}
def crossT(c: real, d: real, lamb: real) = if c / d + 1e-6 > lamb then 0.0 else c / d;
// Xe are the active columns, c and d the line of the back end for them, with signs of one and minus one
spec colsOf(X: seq seq real, nr: int, sel: seq int, n: int, Xe: seq seq real): bool = forall i, j: int :: {Xe[i][j]} 0 <= i && i < nr && 0 <= j && j < n ==> Xe[i][j] == X[i][sel[j]];
spec lineOf(X: seq seq real, y: seq seq real, sel: seq int, n: int, c: seq seq real, d: seq seq real): bool =
  exists act: seq int; s: seq seq real :: {larsC(X, act, n, y), larsD(X, act, n, s)}
     (forall j: int :: {act[j]} {sel[j]} 0 <= j && j < n ==> act[j] == sel[j])
     && (forall j: int :: {s[j]} 0 <= j && j < n ==> s[j][0] == 1.0 || s[j][0] == -1.0)
     && (forall j: int :: {c[j]} 0 <= j && j < n ==> c[j][0] == larsC(X, act, n, y)[j])
     && (forall j: int :: {d[j]} 0 <= j && j < n ==> d[j][0] == larsD(X, act, n, s)[j]);
// the coefficients are on the line of the back end at lamb
spec lineAt(X: seq seq real, y: seq seq real, sel: seq int, n: int, co: seq real, lamb: real): bool =
  exists c, d: seq seq real :: {lineOf(X, y, sel, n, c, d)} lineOf(X, y, sel, n, c, d) && (forall j: int :: {co[j]} 0 <= j && j < n ==> co[j] == c[j][0] - lamb * d[j][0]);
// next is the largest of the join times of the inactive and the crossing times of the active features
spec eventTag(J: seq seq real, Xe: seq seq real, c: seq seq real, d: seq seq real): bool = true;
spec eventAt(X: seq seq real, nr: int, nc: int, y: seq seq real, sel: seq int, n: int, lamb: real, next: real): bool =
  exists J, Xe, c, d: seq seq real :: {eventTag(J, Xe, c, d)} eventTag(J, Xe, c, d) && joinTimesOf(J, sel, X, nr, nc, y, Xe, n, c, d, lamb) && colsOf(X, nr, sel, n, Xe) && lineOf(X, y, sel, n, c, d)
    && (forall i: int :: {J[i]} 0 <= i && i < nc && !selHas(sel, n, i) ==> J[i][0] <= next)
    && (forall j: int :: {c[j]} 0 <= j && j < n ==> crossT(c[j][0], d[j][0], lamb) <= next)
    && (next == 0.0 || (exists i: int :: {J[i]} 0 <= i && i < nc && !selHas(sel, n, i) && J[i][0] == next) || (exists j: int :: {c[j]} 0 <= j && j < n && crossT(c[j][0], d[j][0], lamb) == next));
// one feature joins or leaves
def oneMore(a: seq int, n: int, b: seq int, m: int) = m == n + 1 && (forall i: int :: {a[i]} 0 <= i && i < n ==> selHas(b, m, a[i]));
spec neighbours(a: seq int, n: int, b: seq int, m: int): bool = oneMore(a, n, b, m) || oneMore(b, m, a, n);
lemma neighFrame(a: seq int, a2: seq int, n: int, b: seq int, b2: seq int, m: int) {
  requires forall i: int :: {a[i]} {a2[i]} 0 <= i && i < n ==> a[i] == a2[i];
  requires forall i: int :: {b[i]} {b2[i]} 0 <= i && i < m ==> b[i] == b2[i];
  ensures neighbours(a, n, b, m) ==> neighbours(a2, n, b2, m);
  trigger {neighbours(a, n, b, m), neighbours(a2, n, b2, m)};
}
lemma neighSorted(a: seq int, n: int, b: seq int, b2: seq int, m: int) {
  requires forall i: int :: {b2[i]} 0 <= i && i < m ==> 0 <= sortFrom(b, m)[i] && sortFrom(b, m)[i] < m && b[sortFrom(b, m)[i]] == b2[i];
  requires forall k: int :: {b[k]} 0 <= k && k < m ==> 0 <= sortTo(b, m)[k] && sortTo(b, m)[k] < m && b[k] == b2[sortTo(b, m)[k]];
  ensures neighbours(a, n, b, m) ==> neighbours(a, n, b2, m);
  trigger {neighbours(a, n, b, m), neighbours(a, n, b2, m), sortFrom(b, m)};
}
lemma neighJoin(a: seq int, n: int, b: seq int, m: int) {
  requires m == n + 1;
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i];
  ensures neighbours(a, n, b, m);
  trigger {neighbours(a, n, b, m)};
}
lemma neighLeave(a: seq int, n: int, b: seq int, m: int) {
  requires m == n - 1;
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < m ==> b[i] == a[m] || b[i] == a[i];
  ensures neighbours(a, n, b, m);
  trigger {neighbours(a, n, b, m)};
}
lemma lineFrame(X: seq seq real, y: seq seq real, sel: seq int, sel2: seq int, n: int, c: seq seq real, d: seq seq real) {
  requires forall i: int :: {sel[i]} {sel2[i]} 0 <= i && i < n ==> sel[i] == sel2[i];
  ensures lineOf(X, y, sel, n, c, d) ==> lineOf(X, y, sel2, n, c, d);
  trigger {lineOf(X, y, sel, n, c, d), lineOf(X, y, sel2, n, c, d)};
}
lemma lineIntro(X: seq seq real, y: seq seq real, sel: seq int, n: int, c: seq seq real, d: seq seq real, s: seq seq real) {
  requires forall j: int :: {s[j]} 0 <= j && j < n ==> s[j][0] == 1.0 || s[j][0] == -1.0;
  requires forall j: int :: {c[j]} 0 <= j && j < n ==> c[j][0] == larsC(X, sel, n, y)[j];
  requires forall j: int :: {d[j]} 0 <= j && j < n ==> d[j][0] == larsD(X, sel, n, s)[j];
  ensures lineOf(X, y, sel, n, c, d);
  noauto;
}
lemma lineAtIntro(X: seq seq real, y: seq seq real, sel: seq int, n: int, c: seq seq real, d: seq seq real, co: seq real, lamb: real) {
  requires lineOf(X, y, sel, n, c, d);
  requires forall j: int :: {co[j]} 0 <= j && j < n ==> co[j] == c[j][0] - lamb * d[j][0];
  ensures lineAt(X, y, sel, n, co, lamb);
  noauto;
}
lemma colsIntro(X: seq seq real, nr: int, sel: seq int, n: int, Xe: seq seq real) {
  requires forall i, j: int :: {Xe[i][j]} 0 <= i && i < nr && 0 <= j && j < n ==> Xe[i][j] == X[i][sel[j]];
  ensures colsOf(X, nr, sel, n, Xe);
  noauto;
}
lemma joinFrame(J: seq seq real, J2: seq seq real, sel: seq int, sel2: seq int, X: seq seq real, nr: int, nc: int, y: seq seq real, Xe: seq seq real, n: int, c: seq seq real, d: seq seq real, lamb: real) {
  requires forall i: int :: {J[i]} {J2[i]} 0 <= i && i < nc && !selHas(sel, n, i) ==> J[i][0] == J2[i][0];
  requires forall i: int :: {sel[i]} {sel2[i]} 0 <= i && i < n ==> sel[i] == sel2[i];
  ensures joinTimesOf(J, sel, X, nr, nc, y, Xe, n, c, d, lamb) ==> joinTimesOf(J2, sel2, X, nr, nc, y, Xe, n, c, d, lamb);
  trigger {joinTimesOf(J, sel, X, nr, nc, y, Xe, n, c, d, lamb), joinTimesOf(J2, sel2, X, nr, nc, y, Xe, n, c, d, lamb)};
}
lemma eventFrame(X: seq seq real, nr: int, nc: int, y: seq seq real, sel: seq int, sel2: seq int, n: int, lamb: real, next: real) {
  requires forall i: int :: {sel[i]} {sel2[i]} 0 <= i && i < n ==> sel[i] == sel2[i];
  ensures eventAt(X, nr, nc, y, sel, n, lamb, next) ==> eventAt(X, nr, nc, y, sel2, n, lamb, next);
  trigger {eventAt(X, nr, nc, y, sel, n, lamb, next), eventAt(X, nr, nc, y, sel2, n, lamb, next)};
}
lemma eventIntro(X: seq seq real, nr: int, nc: int, y: seq seq real, sel: seq int, n: int, lamb: real, J: seq seq real, Xe: seq seq real, c: seq seq real, d: seq seq real, next: real) {
  requires joinTimesOf(J, sel, X, nr, nc, y, Xe, n, c, d, lamb) && colsOf(X, nr, sel, n, Xe) && lineOf(X, y, sel, n, c, d);
  requires forall i: int :: {J[i]} 0 <= i && i < nc && !selHas(sel, n, i) ==> J[i][0] <= next;
  requires forall j: int :: {c[j]} 0 <= j && j < n ==> crossT(c[j][0], d[j][0], lamb) <= next;
  requires next == 0.0 || (exists i: int :: {J[i]} 0 <= i && i < nc && !selHas(sel, n, i) && J[i][0] == next) || (exists j: int :: {c[j]} 0 <= j && j < n && crossT(c[j][0], d[j][0], lamb) == next);
  ensures eventTag(J, Xe, c, d) && eventAt(X, nr, nc, y, sel, n, lamb, next);
  noauto;
}
spec vecTag(y: seq seq real): bool = true;
// strictly ascending features below nc
spec selOk(sel: seq int, n: int, nc: int): bool = (forall i, k: int :: {sel[i], sel[k]} 0 <= i && i < k && k < n ==> sel[i] < sel[k]) && (forall k: int :: {sel[k]} 0 <= k && k < n ==> 0 <= sel[k] && sel[k] < nc);
lemma selOkFrame(sel: seq int, sel2: seq int, n: int, nc: int) {
  requires forall i: int :: {sel[i]} {sel2[i]} 0 <= i && i < n ==> sel[i] == sel2[i];
  ensures selOk(sel, n, nc) ==> selOk(sel2, n, nc);
  trigger {selOk(sel, n, nc), selOk(sel2, n, nc)};
}
lemma selOkIntro(sel: seq int, n: int, nc: int) {
  requires forall i, k: int :: {sel[i], sel[k]} 0 <= i && i < k && k < n ==> sel[i] < sel[k];
  requires forall k: int :: {sel[k]} 0 <= k && k < n ==> 0 <= sel[k] && sel[k] < nc;
  ensures selOk(sel, n, nc);
  noauto;
}
def nodeOk(l: *LassoLarsNode, nc: int, lambMin: real) = l != nil && len(l.Coeff) == len(l.Selection) && selOk(arr(l.Selection), len(l.Selection), nc) && l.Lamb > lambMin;
func LassoLars(data, lambMin, estimator) (res) {
  requires data != nil && data.X != nil && estimator != nil && rows(data.X) > 0 && cols(data.X) > 0 && len(data.y) == rows(data.X);
  panics any;
  hide selOk, neighbours, lineOf, lineAt, colsOf, eventAt, joinTimesOf;
  modifies list(estimator);
  ensures nodes: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> nodeOk(res[k], cols(data.X), lambMin);
  ensures decreasing: forall i, k: int :: {res[i], res[k]} 0 <= i && i < k && k < len(res) ==> res[i].Lamb >= res[k].Lamb;
  ensures line: exists Y: seq seq real :: {vecTag(Y)} vecTag(Y) && (forall i: int :: {Y[i]} 0 <= i && i < rows(data.X) ==> Y[i][0] == data.y[i])
    && (forall k: int :: {res[k]} 0 <= k && k < len(res) ==> lineAt(cont(data.X), Y, arr(res[k].Selection), len(res[k].Selection), arr(res[k].Coeff), res[k].Lamb))
    && (forall k, l: int :: {res[k], res[l]} 0 <= k && l == k + 1 && l < len(res) ==> eventAt(cont(data.X), rows(data.X), cols(data.X), Y, arr(res[k].Selection), len(res[k].Selection), res[k].Lamb, res[l].Lamb));
  ensures one: forall k, l: int :: {res[k], res[l]} 0 <= k && l == k + 1 && l < len(res) ==> neighbours(arr(res[k].Selection), len(res[k].Selection), arr(res[l].Selection), len(res[l].Selection));
  loop 1 { invariant 0 <= feat && feat < cols(data.X); }
  loop 2 {
    invariant backend: xOf(lseq(estimator)) == cont(data.X);
    invariant active: fresh(activeSet) && inRange(activeSet, cols(data.X));
    invariant distinct: forall i, k: int :: {activeSet[i], activeSet[k]} 0 <= i && i < k && k < len(activeSet) ==> activeSet[i] != activeSet[k];
    invariant signs: rows(allSigns) == cols(data.X) && fresh(allSigns) && (forall k: int :: {activeSet[k]} 0 <= k && k < len(activeSet) ==> cont(allSigns)[activeSet[k]][0] == 1.0 || cont(allSigns)[activeSet[k]][0] == -1.0);
    invariant own0: newfrom(res);
    invariant own: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> res[k] != nil && fresh(res[k]) && fresh(res[k].Selection) && fresh(res[k].Coeff);
    invariant apart: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> ref(res[k].Selection) != ref(activeSet);
    invariant nodes: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> nodeOk(res[k], cols(data.X), lambMin);
    invariant above: forall k: int :: {res[k]} 0 <= k && k < len(res) ==> res[k].Lamb >= lamb;
    invariant decreasing: forall i, k: int :: {res[i], res[k]} 0 <= i && i < k && k < len(res) ==> res[i].Lamb >= res[k].Lamb;
    behind Ints use selOkIntro(arr(activeSet), len(activeSet), cols(data.X));
    behind Ints selection: selOk(arr(activeSet), len(activeSet), cols(data.X));
    behind D signs: forall j: int :: {cont(signs)[j]} 0 <= j && j < len(activeSet) ==> cont(signs)[j][0] == 1.0 || cont(signs)[j][0] == -1.0;
    behind D use lineIntro(cont(data.X), cont(yVec), arr(activeSet), len(activeSet), cont(llp.c), cont(llp.d), cont(signs));
    behind D lineOf: lineOf(cont(data.X), cont(yVec), arr(activeSet), len(activeSet), cont(llp.c), cont(llp.d));
    behind tJoin use colsIntro(cont(data.X), rows(data.X), arr(activeSet), len(activeSet), cont(Xe));
    behind tJoin colsOf: colsOf(cont(data.X), rows(data.X), arr(activeSet), len(activeSet), cont(Xe));
    behind D order: len(res) > 0 ==> neighbours(arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), arr(activeSet), len(activeSet));
    behind maxCrossTime times: joinTimesOf(cont(joinTimes), arr(activeSet), cont(data.X), rows(data.X), cols(data.X), cont(yVec), cont(Xe), len(activeSet), cont(llp.c), cont(llp.d), lamb);
    behind maxCrossTime joinMax: forall i: int :: {cont(joinTimes)[i]} 0 <= i && i < cols(data.X) && !selHas(arr(activeSet), len(activeSet), i) ==> cont(joinTimes)[i][0] <= maxr(jt, ct);
    behind maxCrossTime crossMax: forall j: int :: {cont(llp.c)[j]} {cont(crossTimes)[j]} 0 <= j && j < len(activeSet) ==> cont(crossTimes)[j][0] == crossT(cont(llp.c)[j][0], cont(llp.d)[j][0], lamb) && cont(crossTimes)[j][0] <= maxr(jt, ct);
    behind maxCrossTime joins: jt > 0.0 && jt >= ct ==> (exists i: int :: {cont(joinTimes)[i]} 0 <= i && i < cols(data.X) && !selHas(arr(activeSet), len(activeSet), i) && cont(joinTimes)[i][0] == maxr(jt, ct));
    behind maxCrossTime crosses: ct > 0.0 && ct >= jt ==> (exists j: int :: {cont(llp.c)[j]} {cont(crossTimes)[j]} 0 <= j && j < len(activeSet) && crossT(cont(llp.c)[j][0], cont(llp.d)[j][0], lamb) == maxr(jt, ct));
    behind maxCrossTime use eventIntro(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(activeSet), len(activeSet), lamb, cont(joinTimes), cont(Xe), cont(llp.c), cont(llp.d), maxr(jt, ct));
    behind maxCrossTime event: eventAt(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(activeSet), len(activeSet), lamb, maxr(jt, ct));
    behind NewLassoLarsNode use lineAtIntro(cont(data.X), cont(yVec), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), cont(llp.c), cont(llp.d), arr(res[len(res)-1].Coeff), res[len(res)-1].Lamb);
    behind NewLassoLarsNode line: lineAt(cont(data.X), cont(yVec), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), arr(res[len(res)-1].Coeff), res[len(res)-1].Lamb);
    behind NewLassoLarsNode event: eventAt(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), res[len(res)-1].Lamb, maxr(jt, ct));
    behind NewLassoLarsNode neighbours: len(res) > 1 ==> neighbours(arr(res[len(res)-2].Selection), len(res[len(res)-2].Selection), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection));
    step neighbours: neighbours(arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), arr(activeSet), len(activeSet));
    step event: eventAt(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), res[len(res)-1].Lamb, lamb);
    invariant line: vecTag(cont(yVec)) && (forall k: int :: {res[k]} 0 <= k && k < len(res) ==> lineAt(cont(data.X), cont(yVec), arr(res[k].Selection), len(res[k].Selection), arr(res[k].Coeff), res[k].Lamb));
    invariant events: forall k, l: int :: {res[k], res[l]} 0 <= k && l == k + 1 && l < len(res) ==> eventAt(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(res[k].Selection), len(res[k].Selection), res[k].Lamb, res[l].Lamb);
    invariant event: len(res) > 0 ==> eventAt(cont(data.X), rows(data.X), cols(data.X), cont(yVec), arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), res[len(res)-1].Lamb, lamb);
    invariant one: forall k, l: int :: {res[k], res[l]} 0 <= k && l == k + 1 && l < len(res) ==> neighbours(arr(res[k].Selection), len(res[k].Selection), arr(res[l].Selection), len(res[l].Selection));
    invariant next: len(res) > 0 ==> neighbours(arr(res[len(res)-1].Selection), len(res[len(res)-1].Selection), arr(activeSet), len(activeSet));
  }
}
func MorsePenroseCD.SetX(m, X) { modifies m.X; ensures set: m.X == X; }
func MorsePenroseCD.D(m, signs) (r) {
  requires m.invDesign != nil && signs != nil && rows(m.invDesign) > 0 && cols(m.invDesign) == rows(signs);
  ensures shape: fresh(r) && rows(r) == rows(m.invDesign) && cols(r) == 1;
  ensures product: forall i: int :: {cont(r)[i]} 0 <= i && i < rows(r) ==> cont(r)[i][0] == mm(cont(m.invDesign), i, cont(signs), 0, cols(m.invDesign));
}
func MorsePenroseCD.SetActiveSet(m, active) {
  requires m.X != nil && rows(m.X) > 0 && len(active) > 0 && inRange(active, cols(m.X));
  modifies m.active, mat(m.svd), m.invDesign;
  ensures active: m.active == active;
  ensures columns: rows(m.svd) == old(rows(m.X)) && cols(m.svd) == len(active) && (forall i, j: int :: {cont(m.svd)[i][j]} 0 <= i && i < old(rows(m.X)) && 0 <= j && j < len(active) ==> cont(m.svd)[i][j] == old(cont(m.X))[i][active[j]]);
  ensures inverse: fresh(m.invDesign) && rows(m.invDesign) == len(active) && cols(m.invDesign) == len(active);
}
// the product of a matrix, a diagonal matrix w and the transpose of d
spec vwu(v: seq real, w: seq real, u: seq real, n: int): real = if n <= 0 then 0.0 else vwu(v, w, u, n-1) + v[n-1] * w[n-1] * u[n-1];
lemma mmDiag(a: seq seq real, i: int, b: seq seq real, w: seq real, k: int, n: int, N: int) {
  requires n >= 0 && n <= N && 0 <= k && k < N;
  requires forall p, q: int :: {b[p][q]} 0 <= p && p < N && 0 <= q && q < N ==> b[p][q] == (if p == q then w[p] else 0.0);
  ensures mm(a, i, b, k, n) == (if k < n then a[i][k] * w[k] else 0.0);
  induct n; noauto;
}
lemma mm3Diag(a: seq seq real, i: int, b: seq seq real, w: seq real, c: seq seq real, d: seq seq real, j: int, m: int, n: int) {
  requires 0 <= m && m <= n;
  requires forall p, q: int :: {b[p][q]} 0 <= p && p < n && 0 <= q && q < n ==> b[p][q] == (if p == q then w[p] else 0.0);
  requires forall p: int :: {c[p][j]} 0 <= p && p < n ==> c[p][j] == d[j][p];
  use mmDiag(a, i, b, w, m - 1, n, n);
  ensures mm3(a, i, b, c, j, n, m) == vwu(a[i], w, d[j], m);
  induct m; noauto;
}
// the generalised inverse times y: the sum over the rows of U
spec vwuTimes(v: seq real, w: seq real, U: seq seq real, y: seq seq real, n: int, nr: int): real = if nr <= 0 then 0.0 else vwuTimes(v, w, U, y, n, nr-1) + vwu(v, w, U[nr-1], n) * y[nr-1][0];
lemma mm4Diag(a: seq seq real, i: int, b: seq seq real, w: seq real, c: seq seq real, U: seq seq real, y: seq seq real, n: int, nr: int) {
  requires nr >= 0 && n >= 0;
  requires forall p, q: int :: {b[p][q]} 0 <= p && p < n && 0 <= q && q < n ==> b[p][q] == (if p == q then w[p] else 0.0);
  requires forall p, q: int :: {c[p][q]} 0 <= p && p < n && 0 <= q && q < nr ==> c[p][q] == U[q][p];
  use mm3Diag(a, i, b, w, c, U, nr - 1, n, n);
  ensures mm4(a, i, b, c, y, 0, n, n, nr) == vwuTimes(a[i], w, U, y, n, nr);
  induct nr; trigger {mm4(a, i, b, c, y, 0, n, n, nr), vwuTimes(a[i], w, U, y, n, nr)};
}
lemma mm3DiagT(a: seq seq real, i: int, b: seq seq real, w: seq real, c: seq seq real, d: seq seq real, j: int, n: int) {
  requires n >= 0;
  requires forall p, q: int :: {b[p][q]} 0 <= p && p < n && 0 <= q && q < n ==> b[p][q] == (if p == q then w[p] else 0.0);
  requires forall p: int :: {c[p][j]} 0 <= p && p < n ==> c[p][j] == d[j][p];
  use mm3Diag(a, i, b, w, c, d, j, n, n);
  ensures mm3(a, i, b, c, j, n, n) == vwu(a[i], w, d[j], n);
  trigger {mm3(a, i, b, c, j, n, n), vwu(a[i], w, d[j], n)};
}
def svN(d: *mat.SVD) = mini(rows(d), cols(d));
func PseudoInverseXTX(svd, tol) (r) {
  requires svd != nil && rows(svd) > 0 && cols(svd) > 0 && tol >= 0.0;
  ensures shape: fresh(r) && rows(r) == cols(svd) && cols(r) == cols(svd);
  ensures inverse: exists w: seq real :: {seqTag(w)} seqTag(w) && (forall k: int :: {w[k]} 0 <= k && k < svN(svd) ==> w[k] == (if svdS(cont(svd), rows(svd), cols(svd))[k] * svdS(cont(svd), rows(svd), cols(svd))[k] > tol then 1.0 / (svdS(cont(svd), rows(svd), cols(svd))[k] * svdS(cont(svd), rows(svd), cols(svd))[k]) else 0.0))
    && (forall i, j: int :: {cont(r)[i][j]} 0 <= i && i < cols(svd) && 0 <= j && j < cols(svd) ==> cont(r)[i][j] == vwu(svdV(cont(svd), rows(svd), cols(svd))[i], w, svdV(cont(svd), rows(svd), cols(svd))[j], svN(svd)));
  loop 1 {
    invariant len(s) == svN(svd) && fresh(s) && seqTag(arr(s));
    invariant forall k: int :: {s[k]} 0 <= k && k < len(s) ==> s[k] == (if k < i then (if svdS(cont(svd), rows(svd), cols(svd))[k] * svdS(cont(svd), rows(svd), cols(svd))[k] > tol then 1.0 / (svdS(cont(svd), rows(svd), cols(svd))[k] * svdS(cont(svd), rows(svd), cols(svd))[k]) else 0.0) else svdS(cont(svd), rows(svd), cols(svd))[k]);
  }
}
spec seqTag(w: seq real): bool = true;
func MorsePenroseCD.C(m, y) (r) {
  requires y != nil && rows(m.svd) > 0 && cols(m.svd) > 0 && rows(y) == rows(m.svd) && cols(y) == 1;
  ensures shape: fresh(r) && rows(r) == cols(m.svd) && cols(r) == 1;
  ensures inverse: exists w: seq real :: {seqTag(w)} seqTag(w) && (forall k: int :: {w[k]} 0 <= k && k < mini(rows(m.svd), cols(m.svd)) && svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k] * svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k] > 1e-6
       ==> w[k] == 1.0 / svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k])
    && (forall i: int :: {cont(r)[i]} 0 <= i && i < cols(m.svd) ==> cont(r)[i][0] == vwuTimes(svdV(cont(m.svd), rows(m.svd), cols(m.svd))[i], w, svdU(cont(m.svd), rows(m.svd), cols(m.svd)), cont(y), mini(rows(m.svd), cols(m.svd)), rows(m.svd)));
  loop 1 {
    invariant len(s) == mini(rows(m.svd), cols(m.svd)) && fresh(s) && seqTag(arr(s));
    invariant forall k: int :: {s[k]} 0 <= k && k < len(s) ==> (k >= i ==> s[k] == svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k])
      && (k < i && svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k] * svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k] > 1e-6 ==> s[k] == 1.0 / svdS(cont(m.svd), rows(m.svd), cols(m.svd))[k]);
  }
  loop 2 {
    invariant forall k: int :: {cont(res)[k]} 0 <= k && k < i ==> cont(res)[k][0] == cont(cMat)[k][0];
    invariant rows(res) == cols(m.svd) && cols(res) == 1 && fresh(res);
  }
}

property C16 { verify NewLassoLarsNode, maxJoinTime, maxCrossTime, betaLARS, tCross, tJoin, joinFeatSign, LassoLars, MorsePenroseCD.SetX, MorsePenroseCD.SetActiveSet, MorsePenroseCD.C, MorsePenroseCD.D, PseudoInverseXTX;
  lemmas mmColTimes, mmColVec, neighFrame, neighSorted, neighJoin, neighLeave, lineFrame, lineIntro, lineAtIntro, colsIntro, joinFrame, eventFrame, eventIntro, selOkFrame, selOkIntro, mmDiag, mm3Diag, mm4Diag, mm3DiagT; }
