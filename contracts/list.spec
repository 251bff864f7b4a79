// container/list: assumed contracts (the package is the standard library's, documented behaviour)
extern list.New() (l) {
  ensures fresh(l) && llen(l) == 0;
}
extern list.List.Len(l) (n) {
  ensures n == llen(l);
}
extern list.List.Front(l) (e) {
  ensures llen(l) == 0 ==> e == nil;
  ensures llen(l) > 0 ==> e != nil && e == as(*list.Element, lseq(l)[0]) && eown(e) == l && epos(e) == 0;
}
extern list.List.Back(l) (e) {
  ensures llen(l) == 0 ==> e == nil;
  ensures llen(l) > 0 ==> e != nil && e == as(*list.Element, lseq(l)[llen(l)-1]) && eown(e) == l && epos(e) == llen(l) - 1;
}
extern list.Element.Next(e) (r) {
  requires e != nil;
  ensures eown(e) == nil || epos(e) + 1 >= llen(as(*list.List, eown(e))) ==> r == nil;
  ensures eown(e) != nil && epos(e) + 1 < llen(as(*list.List, eown(e))) ==>
     r != nil && r == as(*list.Element, lseq(as(*list.List, eown(e)))[epos(e)+1]) && eown(r) == eown(e) && epos(r) == epos(e) + 1;
}
extern list.List.PushBack(l, v) (e) {
  modifies list(l);
  ensures fresh(e) && eval(e) == v && eown(e) == l && epos(e) == old(llen(l));
  ensures llen(l) == old(llen(l)) + 1;
  ensures lseq(l) == set(old(lseq(l)), old(llen(l)), e);
  ensures lseq(l)[old(llen(l))] == as(ref, e);
  ensures forall i: int :: {old(lseq(l))[i]} 0 <= i && i < old(llen(l)) ==> lseq(l)[i] == old(lseq(l))[i];
}
extern list.List.InsertBefore(l, v, mark) (e) {
  requires mark != nil && eown(mark) == l;
  modifies list(l);
  ensures fresh(e) && eval(e) == v && eown(e) == l && epos(e) == old(epos(mark));
  ensures llen(l) == old(llen(l)) + 1;
  ensures forall i: int :: {lseq(l)[i]} 0 <= i && i < llen(l) ==>
     lseq(l)[i] == (if i < old(epos(mark)) then old(lseq(l))[i] else (if i == old(epos(mark)) then as(ref, e) else old(lseq(l))[i-1]));
  ensures forall i: int :: {old(lseq(l))[i]} 0 <= i && i < old(llen(l)) ==>
     old(lseq(l))[i] == lseq(l)[if i < old(epos(mark)) then i else i + 1];
}
extern list.List.Remove(l, e) (v) {
  requires e != nil && eown(e) == l;
  modifies list(l);
  ensures eown(e) == nil && v == eval(e);
  ensures llen(l) == old(llen(l)) - 1;
  ensures forall i: int :: {lseq(l)[i]} 0 <= i && i < llen(l) ==>
     lseq(l)[i] == (if i < old(epos(e)) then old(lseq(l))[i] else old(lseq(l))[i+1]);
  ensures forall i: int :: {old(lseq(l))[i]} 0 <= i && i < old(llen(l)) && i != old(epos(e)) ==>
     old(lseq(l))[i] == lseq(l)[if i < old(epos(e)) then i else i - 1];
}
