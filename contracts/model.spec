// C03: packed bit model
def mbit(m: *Model, i: int) = bvbit(m.bits[i / 8], i % 8);
def modelWF(m: *Model) = m.size >= 0 && len(m.bits) == m.size / 8 + 1;

func NewModel(size) (m) {
  requires size >= 0;
  ensures new: fresh(m) && fresh(m.bits);
  ensures wf: modelWF(m) && m.size == size;
  ensures empty: forall i: int :: 0 <= i && i < 8 * len(m.bits) ==> !mbit(m, i);
}

func Model.Get(m, index) (r) {
  requires 0 <= index && index < 8 * len(m.bits);
  ensures bit: r <==> mbit(m, index);
}

func Model.Set(m, index) {
  requires 0 <= index && index < 8 * len(m.bits);
  modifies elems(m.bits);
  ensures on: mbit(m, index);
  ensures others: forall i: int :: 0 <= i && i < 8 * len(m.bits) && i != index ==> (mbit(m, i) <==> old(mbit(m, i)));
}

func Model.Flip(m, index) {
  requires 0 <= index && index < 8 * len(m.bits);
  modifies elems(m.bits);
  ensures inverted: mbit(m, index) <==> !old(mbit(m, index));
  ensures others: forall i: int :: 0 <= i && i < 8 * len(m.bits) && i != index ==> (mbit(m, i) <==> old(mbit(m, i)));
}

func Model.ToBools(m) (res) {
  requires modelWF(m);
  ensures length: len(res) == m.size && newfrom(res);
  ensures bits: forall i: int :: {res[i]} 0 <= i && i < m.size ==> (res[i] <==> mbit(m, i));
  loop 1 {
    invariant len(res) == m.size && fresh(res);
    invariant forall k: int :: {res[k]} 0 <= k && k < i ==> (res[k] <==> mbit(m, k));
  }
}

property C03 { verify NewModel, Model.Get, Model.Set, Model.Flip, Model.ToBools; }
