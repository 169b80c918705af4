fn DataPtr::with_capacity -> r
  panics: !vx_fits::<T>($1 as nat)
  entry: vx_cell_axioms::<T>();
  ensures[C03,C04,C12]: r@.len() == $1
  ensures[C03,C04]: forall|i: int| 0 <= i < $1 ==> (#[trigger] r@[i]) is None
fn DataPtr::ptr_data -> r
  requires[C03,C06]: old(self)@.len() <= usize::MAX
  ensures[C03,C06]: final(self)@ == old(self)@ && r.cells() == old(self)@ && r.off() == 0
fn DataPtr::raw_data -> r
  requires[C03]: $1 <= old(self)@.len() <= usize::MAX
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  ensures[C03]: r@.len() == $1 && final(r)@.len() == $1 && final(self)@.len() == old(self)@.len()
  ensures[C03]: forall|i: int| 0 <= i < $1 ==> (#[trigger] r@[i]).o == old(self)@[i]
  ensures[C03]: forall|i: int| 0 <= i < $1 ==> (#[trigger] final(self)@[i]) == final(r)@[i].o
  ensures[C02,C03]: forall|i: int| $1 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]) == old(self)@[i]
fn DataPtr::grow
  panics: !vx_fits::<T>($2 as nat)
  requires[C03]: old(self)@.len() == $1 && $2 >= $1
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  zst: $2
  ensures[C03,C12]: final(self)@.len() == $2
  ensures[C02,C03,C04]: forall|i: int| 0 <= i < $1 ==> (#[trigger] final(self)@[i]) == old(self)@[i]
  ensures[C03,C04]: forall|i: int| $1 <= i < $2 ==> (#[trigger] final(self)@[i]) is None
fn DataPtr::dealloc
  requires[C03,C04]: old(self)@.len() == $1 && (vx_trivial_drop::<T>() || forall|i: int| 0 <= i < $1 ==> (#[trigger] old(self)@[i]) is None)
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  zst: 0
  ensures[C03,C04]: final(self)@.len() == 0
fn DataPtr::write
  requires[C03,C04]: $1 < old(self)@.len() <= usize::MAX && old(self)@[$1 as int] is None
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  ensures[C02,C03,C04]: final(self)@ == old(self)@.update($1 as int, Some($2))
fn DataPtr::slice -> r
  requires[C03]: $1 <= self@.len() <= usize::MAX && forall|i: int| 0 <= i < $1 ==> (#[trigger] self@[i]) is Some
  entry: vx_cell_axioms::<T>(); vx_view_facts(self);
  ensures[C02,C03]: r@.len() == $1
  ensures[C02,C03]: forall|i: int| 0 <= i < $1 ==> self@[i] == Some(#[trigger] r@[i])
fn DataPtr::slice_mut -> r
  requires[C03]: $1 <= old(self)@.len() <= usize::MAX && forall|i: int| 0 <= i < $1 ==> (#[trigger] old(self)@[i]) is Some
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  ensures[C02,C03]: r@.len() == $1 && final(r)@.len() == $1 && final(self)@.len() == old(self)@.len()
  ensures[C02,C03]: forall|i: int| 0 <= i < $1 ==> old(self)@[i] == Some(#[trigger] r@[i])
  ensures[C02,C03]: forall|i: int| 0 <= i < $1 ==> (#[trigger] final(self)@[i]) == Some(final(r)@[i])
  ensures[C02,C03]: forall|i: int| $1 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]) == old(self)@[i]
fn DataPtr::swap_remove -> r
  requires[C03]: $1 < $2 && $2 <= old(self)@.len() <= usize::MAX && forall|i: int| 0 <= i < $2 ==> (#[trigger] old(self)@[i]) is Some
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  ensures[C02,C03,C04]: old(self)@[$1 as int] == Some(r)
  ensures[C02,C03,C04]: final(self)@ == old(self)@.update($1 as int, old(self)@[$2 - 1]).update($2 - 1, None::<T>)
fn DataPtr::drop_to
  attr: #[verifier::loop_isolation(false)]
  requires[C03,C04]: $1 <= old(self)@.len() <= usize::MAX && forall|i: int| 0 <= i < $1 ==> (#[trigger] old(self)@[i]) is Some
  entry: vx_cell_axioms::<T>(); vx_view_facts(old(self));
  ensures[C03,C04]: final(self)@.len() == old(self)@.len()
  ensures[C03,C04]: forall|i: int| 0 <= i < $1 ==> (#[trigger] final(self)@[i]) is None
  ensures[C02,C03,C04]: forall|i: int| $1 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]) == old(self)@[i]
  loop 0 inv[C03,C04]: $i <= $hi && self.0.live() && self.0.id() == old(self).0.id() && vx_ok(&self.0) && self.0.cells().len() == old(self).0.cells().len() && self.0.blk() == old(self).0.blk()
  loop 0 inv[C03,C04]: forall|k: int| 0 <= k < $i ==> (#[trigger] self.0.cells()[k]).o is None
  loop 0 inv[C03,C04]: forall|k: int| $i <= k < self.0.cells().len() ==> (#[trigger] self.0.cells()[k]) == old(self).0.cells()[k]
fn new_layout -> r
  panics: !vx_fits::<T>($1 as nat)
  ensures[C03]: vx_fits::<T>($1 as nat) && r.esz() == vx_size::<T>() && r.align() == vx_align::<T>() && r.count() == $1 && r.bytes <= isize::MAX && (vx_size::<T>() > 0 ==> (r.bytes > 0 <==> $1 > 0) && vx_count::<T>(r.bytes as nat) == $1)
fn resolve_ptr -> r
  requires[C03]: $1.bytes().null || ($1.bytes().esz == vx_size::<T>() && $1.bytes().align == vx_align::<T>() && vx_fits::<T>($1.bytes().count))
  ensures[C03]: !$1.bytes().null && vx_from_bytes(&r, $1.bytes())
