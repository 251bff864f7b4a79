// C18: polynomial features
// the product of x[k] to the power of val[k] over the first n marked k
spec mono(dom: seq bool, val: seq int, x: seq real, n: int): real = if n <= 0 then 1.0 else mono(dom, val, x, n-1) * (if dom[n-1] then powf(x[n-1], real(val[n-1])) else 1.0);
lemma monoSet(dom: seq bool, val: seq int, x: seq real, n: int, k: int) {
  requires n >= 0 && 0 <= k && !dom[k];
  ensures mono(set(dom, k, true), val, x, n) == mono(dom, val, x, n) * (if k < n then powf(x[k], real(val[k])) else 1.0);
  induct n; trigger {mono(set(dom, k, true), val, x, n)};
}
lemma monoFrame(dom: seq bool, val: seq int, x: seq real, d2: seq bool, v2: seq int, x2: seq real, n: int) {
  requires n >= 0 && (forall k: int :: {dom[k]} {d2[k]} 0 <= k && k < n ==> dom[k] == d2[k]);
  requires (forall k: int :: {val[k]} {v2[k]} 0 <= k && k < n && dom[k] ==> val[k] == v2[k]);
  requires (forall k: int :: {x[k]} {x2[k]} 0 <= k && k < n ==> x[k] == x2[k]);
  ensures mono(dom, val, x, n) == mono(d2, v2, x2, n);
  induct n; trigger {mono(dom, val, x, n), mono(d2, v2, x2, n)};
}
lemma monoNone(dom: seq bool, val: seq int, x: seq real, n: int) {
  requires forall k: int :: {dom[k]} 0 <= k && k < n ==> !dom[k];
  ensures mono(dom, val, x, n) == 1.0;
  induct n; noauto;
}
lemma monoFalse(val: seq int, x: seq real, n: int) { ensures mono(constseq(false), val, x, n) == 1.0; use monoNone(constseq(false), val, x, n); trigger {mono(constseq(false), val, x, n)}; }
// the powers stored for an added column refer to columns of the matrix
def powersWF(m: *LazyPowerMatrix) = m.X != nil && (forall p, k: int :: {mapdom(m.powers[p])[k]} 0 <= p && p < len(m.powers) && mapdom(m.powers[p])[k] ==> 0 <= k && k < cols(m.X));
func LazyPowerMatrix.NumCols(m) (n) {
  requires m.X != nil;
  ensures n == cols(m.X) + len(m.powers);
}
func LazyPowerMatrix.GetCol(m, col) (res) {
  requires powersWF(m) && 0 <= col && col < cols(m.X) + len(m.powers);
  ensures length: len(res) == rows(m.X) && newfrom(res);
  ensures original: col < cols(m.X) ==> (forall i: int :: {res[i]} 0 <= i && i < rows(m.X) ==> res[i] == cont(m.X)[i][col]);
  ensures product: col >= cols(m.X) ==> (forall i: int :: {res[i]} 0 <= i && i < rows(m.X) ==> res[i] == mono(mapdom(m.powers[col - cols(m.X)]), mapval(m.powers[col - cols(m.X)]), cont(m.X)[i], cols(m.X)));
  loop 1 {
    invariant len(res) == rows(m.X) && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < i ==> res[k] == cont(m.X)[k][col];
  }
  loop 2 {
    invariant len(res) == rows(m.X) && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < row ==> res[k] == mono(mapdom(m.powers[col - cols(m.X)]), mapval(m.powers[col - cols(m.X)]), cont(m.X)[k], cols(m.X));
  }
  loop 3 {
    invariant len(res) == rows(m.X) && fresh(res);
    invariant res[row] == mono($visited, mapval(m.powers[col - cols(m.X)]), cont(m.X)[row], cols(m.X));
    invariant forall k: int :: {res[k]} 0 <= k && k < row ==> res[k] == mono(mapdom(m.powers[col - cols(m.X)]), mapval(m.powers[col - cols(m.X)]), cont(m.X)[k], cols(m.X));
  }
}
func LazyPowerMatrix.AddPower(m, power) {
  modifies m.powers, elems(m.powers);
  ensures added: len(m.powers) == old(len(m.powers)) + 1 && m.powers[len(m.powers)-1] == power;
  ensures kept: forall p: int :: {m.powers[p]} 0 <= p && p < old(len(m.powers)) ==> m.powers[p] == old(arr(m.powers))[p];
}
func LazyPowerMatrix.FullMatrix(m) (F) {
  requires powersWF(m) && rows(m.X) > 0 && cols(m.X) > 0;
  ensures shape: fresh(F) && rows(F) == rows(m.X) && cols(F) == cols(m.X) + len(m.powers);
  ensures original: forall i, c: int :: {cont(F)[i][c]} 0 <= i && i < rows(m.X) && 0 <= c && c < cols(m.X) ==> cont(F)[i][c] == cont(m.X)[i][c];
  ensures product: forall i, c: int :: {cont(F)[i][c]} 0 <= i && i < rows(m.X) && cols(m.X) <= c && c < cols(F) ==> cont(F)[i][c] == mono(mapdom(m.powers[c - cols(m.X)]), mapval(m.powers[c - cols(m.X)]), cont(m.X)[i], cols(m.X));
  loop 1 {
    invariant rows(X) == rows(m.X) && cols(X) == cols(m.X) + len(m.powers) && fresh(X);
    invariant forall i, k: int :: {cont(X)[i][k]} 0 <= i && i < rows(m.X) && 0 <= k && k < c && k < cols(m.X) ==> cont(X)[i][k] == cont(m.X)[i][k];
    invariant forall i, k: int :: {cont(X)[i][k]} 0 <= i && i < rows(m.X) && cols(m.X) <= k && k < c ==> cont(X)[i][k] == mono(mapdom(m.powers[k - cols(m.X)]), mapval(m.powers[k - cols(m.X)]), cont(m.X)[i], cols(m.X));
  }
}
// total degree of the k-th tuple of r exponents below v
spec degree(v: int, r: int, k: int, n: int): int = if n <= 0 then 0 else degree(v, r, k, n-1) + dig(v, r, k, n-1);
lemma degreeSum(a: seq int, v: int, r: int, k: int, n: int) {
  requires forall d: int :: {a[d]} {dig(v, r, k, d)} 0 <= d && d < n ==> a[d] == dig(v, r, k, d);
  ensures sumi(a, n) == degree(v, r, k, n);
  induct n; trigger {sumi(a, n), degree(v, r, k, n)};
}
spec chosen(v: int, r: int, k: int): bool = 2 <= degree(v, r, k, r) && degree(v, r, k, r) < v;
spec countChosen(v: int, r: int, n: int): int = if n <= 0 then 0 else countChosen(v, r, n-1) + (if chosen(v, r, n-1) then 1 else 0);
lemma countChosenPos(v: int, r: int, n: int) { ensures countChosen(v, r, n) >= 0; induct n; trigger {countChosen(v, r, n)}; }
lemma countChosenStep(v: int, r: int, n: int, m: int) {
  requires 0 <= n && n < m;
  ensures countChosen(v, r, n) + (if chosen(v, r, n) then 1 else 0) <= countChosen(v, r, m);
  induct m; trigger {chosen(v, r, n), countChosen(v, r, m)};
}
lemma everyPlace(v: int, r: int, n: int, j: int) {
  requires 0 <= j && j < countChosen(v, r, n);
  requires forall k: int :: {chosen(v, r, k)} tag(k);
  ensures exists k: int :: {tag(k)} tag(k) && 0 <= k && k < n && chosen(v, r, k) && countChosen(v, r, k) == j;
  induct n; noauto;
}
spec keyAmong(c: seq int, n: int, e: int): bool = n > 0 && (c[n-1] == e || keyAmong(c, n-1, e));
lemma keyAmongNot(c: seq int, n: int, e: int) {
  requires forall i: int :: {c[i]} 0 <= i && i < n ==> c[i] != e;
  ensures !keyAmong(c, n, e);
  induct n; noauto;
}
lemma keyAmongRange(c: seq int, n: int, e: int) {
  requires keyAmong(c, n, e) && (forall i: int :: {c[i]} 0 <= i && i < n ==> c[i] == i);
  ensures 0 <= e && e < n;
  induct n; trigger {keyAmong(c, n, e)};
}
// a map with domain dom and values val holds the non-zero exponents of the k-th tuple of r exponents below v, among the first n columns c
spec term(dom: seq bool, val: seq int, c: seq int, n: int, v: int, r: int, k: int): bool = (forall i: int :: {c[i]} 0 <= i && i < n ==> dom[c[i]] == (dig(v, r, k, i) > 0) && (dom[c[i]] ==> val[c[i]] == dig(v, r, k, i))) && (forall e: int :: {dom[e]} dom[e] ==> keyAmong(c, n, e));
lemma termKeys(dom: seq bool, val: seq int, c: seq int, n: int, v: int, r: int, k: int, e: int) {
  requires term(dom, val, c, n, v, r, k) && dom[e]; ensures keyAmong(c, n, e);
  trigger {term(dom, val, c, n, v, r, k), dom[e]};
}
spec apart(c: seq int, n: int): bool = forall i, j: int :: {c[i], c[j]} 0 <= i && i < j && j < n ==> c[i] != c[j];
lemma termNone(dom: seq bool, val: seq int, c: seq int, n: int, v: int, r: int, k: int) {
  requires n == 0 && (forall e: int :: {dom[e]} !dom[e]);
  ensures term(dom, val, c, n, v, r, k);
  trigger {term(dom, val, c, n, v, r, k)};
}
lemma termSkip(dom: seq bool, val: seq int, c: seq int, L: int, n: int, m: int, v: int, r: int, k: int) {
  requires n >= 0 && m == n + 1 && m <= L && apart(c, L) && term(dom, val, c, n, v, r, k) && dig(v, r, k, n) <= 0;
  use keyAmongNot(c, n, c[n]);
  ensures term(dom, val, c, m, v, r, k);
  trigger {term(dom, val, c, n, v, r, k), term(dom, val, c, m, v, r, k), apart(c, L)};
}
lemma termAdd(dom: seq bool, val: seq int, d2: seq bool, v2: seq int, c: seq int, L: int, n: int, m: int, v: int, r: int, k: int) {
  requires n >= 0 && m == n + 1 && m <= L && apart(c, L) && term(dom, val, c, n, v, r, k) && dig(v, r, k, n) > 0;
  requires d2[c[n]] && v2[c[n]] == dig(v, r, k, n);
  requires forall e: int :: {d2[e]} {v2[e]} e != c[n] ==> d2[e] == dom[e] && v2[e] == val[e];
  ensures term(d2, v2, c, m, v, r, k);
  trigger {term(dom, val, c, n, v, r, k), term(d2, v2, c, m, v, r, k), apart(c, L)};
}
// map p holds the non-zero exponents of the k-th tuple, one for each of the columns c
def isTerm(p: map[int]int, c: []int, v: int, k: int) = term(mapdom(p), mapval(p), arr(c), len(c), v, len(c), k);
func LazyPowerMatrix.AddPowerSequence(m, c, maxPower) {
  hide term, apart, distinctRows;
  requires maxPower >= 0;
  requires apart(arr(c), len(c));
  modifies m.powers, elems(m.powers);
  ensures number: len(m.powers) == old(len(m.powers)) + countChosen(maxPower+1, len(c), ipw(maxPower+1, len(c)));
  ensures kept: forall p: int :: {m.powers[p]} 0 <= p && p < old(len(m.powers)) ==> m.powers[p] == old(arr(m.powers))[p];
  ensures terms: forall k: int :: {chosen(maxPower+1, len(c), k)} 0 <= k && k < ipw(maxPower+1, len(c)) && chosen(maxPower+1, len(c), k) ==> isTerm(m.powers[old(len(m.powers)) + countChosen(maxPower+1, len(c), k)], c, maxPower+1, k);
  ensures keys: forall p, e: int :: {mapdom(m.powers[p])[e]} old(len(m.powers)) <= p && p < len(m.powers) && mapdom(m.powers[p])[e] ==> keyAmong(arr(c), len(c), e);
  loop 1 { invariant forall k: int :: {powers[k]} 0 <= k && k < p ==> powers[k] == k; }
  loop 2 {
    invariant len(m.powers) == old(len(m.powers)) + countChosen(maxPower+1, len(c), $i);
    invariant forall p: int :: {m.powers[p]} 0 <= p && p < old(len(m.powers)) ==> m.powers[p] == old(arr(m.powers))[p];
    invariant forall p, e: int :: {mapdom(m.powers[p])[e]} old(len(m.powers)) <= p && p < len(m.powers) && mapdom(m.powers[p])[e] ==> keyAmong(arr(c), len(c), e);
    invariant ref(m.powers) == old(ref(m.powers)) || newfrom(m.powers);
    invariant forall p: int :: {m.powers[p]} old(len(m.powers)) <= p && p < len(m.powers) ==> newfrom(m.powers[p]);
    invariant forall k: int :: {chosen(maxPower+1, len(c), k)} 0 <= k && k < $i && chosen(maxPower+1, len(c), k) ==> isTerm(m.powers[old(len(m.powers)) + countChosen(maxPower+1, len(c), k)], c, maxPower+1, k);
  }
  loop 3 {
    invariant newfrom(p);
    invariant forall q, e: int :: {mapdom(m.powers[q])[e]} old(len(m.powers)) <= q && q < len(m.powers) && mapdom(m.powers[q])[e] ==> keyAmong(arr(c), len(c), e);
    after keys: forall e: int :: {mapdom(p)[e]} mapdom(p)[e] ==> keyAmong(arr(c), len(c), e);
    invariant term(mapdom(p), mapval(p), arr(c), i, maxPower+1, len(c), $i2);
    invariant forall k: int :: {chosen(maxPower+1, len(c), k)} 0 <= k && k < $i2 && chosen(maxPower+1, len(c), k) ==> isTerm(m.powers[old(len(m.powers)) + countChosen(maxPower+1, len(c), k)], c, maxPower+1, k);
  }
}
func NewLazyMatrix(X, maxPower) (res) {
  hide term, distinctRows;
  requires X != nil && maxPower >= 0;
  ensures matrix: fresh(res) && res.X == X && powersWF(res);
  ensures number: len(res.powers) == countChosen(maxPower+1, cols(X), ipw(maxPower+1, cols(X)));
  ensures terms: forall k: int :: {chosen(maxPower+1, cols(X), k)} 0 <= k && k < ipw(maxPower+1, cols(X)) && chosen(maxPower+1, cols(X), k) ==>
     (exists c: seq int :: {term(mapdom(res.powers[countChosen(maxPower+1, cols(X), k)]), mapval(res.powers[countChosen(maxPower+1, cols(X), k)]), c, cols(X), maxPower+1, cols(X), k)}
       (forall i: int :: {c[i]} 0 <= i && i < cols(X) ==> c[i] == i) && term(mapdom(res.powers[countChosen(maxPower+1, cols(X), k)]), mapval(res.powers[countChosen(maxPower+1, cols(X), k)]), c, cols(X), maxPower+1, cols(X), k));
  loop 1 { invariant forall k: int :: {cols[k]} 0 <= k && k < i ==> cols[k] == k; }
}
property C18 { verify IterProduct, Sum, LazyPowerMatrix.NumCols, LazyPowerMatrix.GetCol, LazyPowerMatrix.AddPower, LazyPowerMatrix.AddPowerSequence, LazyPowerMatrix.FullMatrix, NewLazyMatrix; lemmas rankRange, rankDigit, rankUnique, lexicographic, digRange, degreeSum, everyPlace, countChosenStep; }
