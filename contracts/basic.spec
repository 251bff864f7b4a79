// C08: encodings of a selection; C19: order and set helpers
// a term to instantiate quantifiers with
spec tag(k: int): bool = true;
spec sumr(a: seq real, n: int): real = if n <= 0 then 0.0 else sumr(a, n-1) + a[n-1];
lemma sumrFrame(a: seq real, b: seq real, n: int) {
  requires n >= 0;
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i];
  ensures sumr(a, n) == sumr(b, n);
  induct n; trigger {sumr(a, n), sumr(b, n)};
}
spec cnt(a: seq bool, n: int): int = if n <= 0 then 0 else cnt(a, n-1) + (if a[n-1] then 1 else 0);
lemma cntBounds(a: seq bool, n: int) { requires n >= 0; ensures 0 <= cnt(a, n) && cnt(a, n) <= n; induct n; trigger {cnt(a, n)}; }
lemma cntFrame(a: seq bool, b: seq bool, n: int) {
  requires n >= 0;
  requires forall i: int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == b[i];
  ensures cnt(a, n) == cnt(b, n);
  induct n; trigger {cnt(a, n), cnt(b, n)};
}
lemma cntMono(a: seq bool, m: int, n: int) {
  requires 0 <= m && m <= n;
  ensures cnt(a, m) <= cnt(a, n) && cnt(a, n) <= cnt(a, m) + (n - m);
  ensures m < n && a[m] ==> cnt(a, m) < cnt(a, n);
  ensures m < n && !a[m] ==> cnt(a, n) < cnt(a, m) + (n - m);
  induct n; trigger {cnt(a, m), cnt(a, n)};
}

// an ascending list of marked positions is the list of all marked positions
lemma selCount(m: seq bool, s: seq int, ls: int, j: int) {
  requires ls >= 0 && j >= 0;
  requires forall i, k: int :: {s[i], s[k]} 0 <= i && i < k && k < ls ==> s[i] < s[k];
  requires forall k: int :: {s[k]} 0 <= k && k < ls ==> 0 <= s[k];
  requires forall i: int :: {m[i]} 0 <= i && i < j ==> (m[i] <==> (exists k: int :: {s[k]} 0 <= k && k < ls && s[k] == i));
  ensures forall k: int :: {s[k]} 0 <= k && k <= ls && (k == 0 || s[k-1] < j) && (k == ls || s[k] >= j) ==> cnt(m, j) == k;
  ensures ls == 0 || s[ls-1] < j ==> cnt(m, j) == ls;
  induct j; noauto;
}
def ascending(s: []int) = forall i, k: int :: {s[i], s[k]} 0 <= i && i < k && k < len(s) ==> s[i] < s[k];
// the selected features in ascending order: position cnt(m, j) holds j
def indexList(s: []int, m: []bool) = len(s) == cnt(arr(m), len(m))
  && (forall j: int :: {m[j]} 0 <= j && j < len(m) && m[j] ==> s[cnt(arr(m), j)] == j)
  && (forall k: int :: {s[k]} 0 <= k && k < len(s) ==> 0 <= s[k] && s[k] < len(m) && m[s[k]] && cnt(arr(m), s[k]) == k);
func NumFeatures(model) (n) {
  ensures count: n == cnt(arr(model), len(model));
  ensures range: 0 <= n && n <= len(model);
  loop 1 {
    invariant num == cnt(arr(model), $i);
  }
}

func Selected2Model(selected, numFeatures) (model) {
  requires numFeatures >= 0;
  requires inRange: forall k: int :: {selected[k]} 0 <= k && k < len(selected) ==> 0 <= selected[k] && selected[k] < numFeatures;
  ensures length: len(model) == numFeatures && newfrom(model);
  ensures marked: forall j: int :: {model[j]} 0 <= j && j < numFeatures ==> (model[j] <==> (exists k: int :: {selected[k]} 0 <= k && k < len(selected) && selected[k] == j));
  use forall j: int :: {cnt(arr(model), j)} selCount(arr(model), arr(selected), len(selected), j);
  ensures rank: ascending(selected) ==> cnt(arr(model), numFeatures) == len(selected) && (forall k: int :: {selected[k]} 0 <= k && k < len(selected) ==> cnt(arr(model), selected[k]) == k);
  ensures list: ascending(selected) ==> indexList(selected, model);
  loop 1 {
    invariant len(model) == numFeatures && fresh(model);
    invariant forall j: int :: {model[j]} 0 <= j && j < numFeatures ==> (model[j] <==> (exists k: int :: {selected[k]} 0 <= k && k < $i && selected[k] == j));
  }
}

func ExistInt(a, value) (r) {
  ensures def: r <==> (exists k: int :: {a[k]} 0 <= k && k < len(a) && a[k] == value);
  loop 1 { invariant forall k: int :: {a[k]} 0 <= k && k < $i ==> a[k] != value; }
}

property C08 { verify NumFeatures, Selected2Model; }
property C19 { verify ExistInt; }
