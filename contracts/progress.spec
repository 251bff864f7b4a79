// C26: the search progress is one snapshot. isUpdate(sp, ..) holds of the initial state and of the arguments of each Set.
uninterp isUpdate(sp: ref, bs: real, ne: int, np: real): bool;
monitor SearchProgress(sp) by rwlock { BestScore, NumExplored, Log2NumPruned; invariant isUpdate(as(ref, sp), sp.BestScore, sp.NumExplored, sp.Log2NumPruned); }
func SearchProgress.Set(sp, bs, ne, np) {
  requires sp != nil && lockstate(sp.rwlock) == 0 && isUpdate(as(ref, sp), bs, ne, np);
  modifies sp.BestScore, sp.NumExplored, sp.Log2NumPruned, lock(sp.rwlock);
  ensures state: sp.BestScore == bs && sp.NumExplored == ne && sp.Log2NumPruned == np;
  ensures released: lockstate(sp.rwlock) == 0;
}
func SearchProgress.Get(sp) (bs, ne, np) {
  requires sp != nil && lockstate(sp.rwlock) == 0;
  modifies sp.BestScore, sp.NumExplored, sp.Log2NumPruned, lock(sp.rwlock);
  ensures snapshot: isUpdate(as(ref, sp), bs, ne, np) && bs == sp.BestScore && ne == sp.NumExplored && np == sp.Log2NumPruned;
  ensures released: lockstate(sp.rwlock) == 0;
}
property C26 { verify SearchProgress.Set, SearchProgress.Get; note "isUpdate is a ghost relation: the initial state and the arguments of each Set satisfy it, nothing else is known of it, so a mix of two updates cannot be proved to satisfy it"; }
