//@ contracts of StorageN / BorrowN / IterN, templated over the components
fn $name::new -> r
  ensures[C03,C04,C12]: r.wf()
  ensures[C12]: r.s_len() == 0
  ensures[C01,C08,C09]: r.s_ver() == 1 && r.ents() =~= Seq::<Entity<A>>::empty()
  ensures[C17]: Self::no_events(r)
fn $name::with_capacity -> r
  panics: $1 > 0x100_0000
  entry: reveal($name::wf_shape); lemma_consts();
  exit: r.lemma_init(r.s_cap());
  ensures[C03,C04,C12]: r.wf()
  ensures[C12]: $1 <= 0x100_0000 && r.s_len() == 0 && r.s_cap() >= $1
  ensures[C01,C08,C09]: r.s_ver() == 1 && r.ents() =~= Seq::<Entity<A>>::empty() && forall|s: int| 0 <= s < r.s_cap() ==> (#[trigger] r.slot_free(s)) && r.slot_ver(s) == 1
  ensures[C17]: Self::no_events(r)
fn Default for $name::vx_default -> r
  ensures[C03,C04,C12]: r.wf() && r.s_len() == 0
  ensures[C17]: Self::no_events(r)
fn $name::len -> r
  ensures[C06,C12]: r == self.s_len()
fn $name::is_empty -> r
  ensures[C12]: r == (self.s_len() == 0)
fn $name::capacity -> r
  ensures[C12]: r == self.s_cap()
fn $name::version -> r
  ensures[C09]: r.sv() == self.s_ver()

fn $name::created -> r
  ensures[C17]: r@ == self.s_created()
fn $name::destroyed -> r
  ensures[C17]: r@ == self.s_destroyed()
fn $name::clear_events
  ensures[C17]: final(self).s_created() =~= Seq::<Entity<A>>::empty() && final(self).s_destroyed() =~= Seq::<Entity<A>>::empty()
  ensures[C17,C01,C02]: Self::same_but_events(*old(self), *final(self))

fn $name::push -> r
  panics: old(self).s_len() >= max_cap()
  requires[C03]: old(self).wf()
  ensures[C10,C12]: old(self).s_len() < max_cap()
  ensures[C03,C04,C10,C12]: final(self).wf()
  ensures[C01]: final(self).ents() =~= old(self).ents().push(r) && key_arch(r.k()) == A::ARCHETYPE_ID
  #(ensures[C02,C04]: final(self).col~I() =~= old(self).col~I().push($1.vx_c~I()) && final(self).cell~I() == old(self).cell~I()
  )*
  ensures[C12]: if old(self).s_len() < old(self).s_cap() { final(self).s_cap() == old(self).s_cap() } else { old(self).s_cap() < final(self).s_cap() <= max_cap() }
  ensures[C12,C09]: Self::created_meta(*old(self), *final(self))
  ensures[C01,C08]: Self::created_slots(*old(self), *final(self), r.any())
  ensures[C17]: Self::created_events(*old(self), *final(self), r)
  entry: lemma_consts(); reveal($name::wf_shape); if old(self).s_len() == old(self).s_cap() { old(self).lemma_full(); }
  exit: Self::lemma_push(*old(self), *self, r.any());
fn $name::push_within_capacity -> r
  requires[C03]: old(self).wf()
  entry: lemma_consts(); reveal($name::wf_shape); if old(self).s_len() == old(self).s_cap() { old(self).lemma_full(); }
  ensures[C03,C04,C10,C12]: final(self).wf()
  ensures[C12]: r is Err <==> old(self).s_len() == old(self).s_cap()
  ensures[C12,C04]: r is Err ==> *final(self) == *old(self) && r->Err_0 == $1
  ensures[C12]: final(self).s_cap() == old(self).s_cap()
  ensures[C01]: r is Ok ==> final(self).ents() =~= old(self).ents().push(r->Ok_0) && key_arch(r->Ok_0.k()) == A::ARCHETYPE_ID
  #(ensures[C02,C04]: r is Ok ==> final(self).col~I() =~= old(self).col~I().push($1.vx_c~I()) && final(self).cell~I() == old(self).cell~I()
  )*
  ensures[C12,C09]: r is Ok ==> Self::created_meta(*old(self), *final(self))
  ensures[C01,C08]: r is Ok ==> Self::created_slots(*old(self), *final(self), r->Ok_0.any())
  ensures[C17]: r is Ok ==> Self::created_events(*old(self), *final(self), r->Ok_0)
fn $name::grow -> r
  requires[C03]: old(self).wf()
  requires[C12]: old(self).s_len() == old(self).s_cap()
  entry: reveal($name::wf_shape); lemma_consts();
  exit: if r { self.lemma_grown(*old(self)); }
  ensures[C12]: r == (old(self).s_cap() < max_cap())
  ensures[C10,C12]: !r ==> *final(self) == *old(self)
  ensures[C03,C04,C12]: final(self).wf()
  ensures[C12]: r ==> old(self).s_cap() < final(self).s_cap() <= max_cap()
  ensures[C01,C09]: final(self).ents() =~= old(self).ents() && final(self).s_len() == old(self).s_len() && final(self).s_ver() == old(self).s_ver()
  ensures[C01,C08]: Self::grew(*old(self), *final(self))
  #(ensures[C02,C04]: final(self).col~I() =~= old(self).col~I() && final(self).cell~I() == old(self).cell~I()
  )*
  ensures[C17]: Self::same_events(*old(self), *final(self))
fn $name::force_create -> r
  requires[C03]: old(self).wf()
  requires[C12]: old(self).s_len() < old(self).s_cap()
  entry: lemma_consts(); reveal($name::wf_shape); old(self).lemma_head();
  exit: self.lemma_created(*old(self), r.any());
  ensures[C03,C04,C10,C12]: final(self).wf()
  ensures[C01]: final(self).ents() =~= old(self).ents().push(r) && key_arch(r.k()) == A::ARCHETYPE_ID
  #(ensures[C02,C04]: final(self).col~I() =~= old(self).col~I().push($1.vx_c~I()) && final(self).cell~I() == old(self).cell~I()
  )*
  ensures[C12]: final(self).s_cap() == old(self).s_cap()
  ensures[C12,C09]: Self::created_meta(*old(self), *final(self))
  ensures[C01,C08]: Self::created_slots(*old(self), *final(self), r.any())
  ensures[C17]: Self::created_events(*old(self), *final(self), r)
fn $name::force_destroy -> r
  panics: ver_overflow(old(self).slot_ver($1.0.sv())) || ver_overflow(old(self).s_ver())
  requires[C03]: old(self).wf()
  requires[C03]: $1.1.sv() < old(self).s_len() && key_idx(old(self).ents()[$1.1.sv()].k()) == $1.0.sv()
  entry: reveal($name::wf_shape); lemma_consts(); old(self).lemma_dense($1.1.sv()); old(self).lemma_dense(old(self).s_len() - 1);
  exit: self.lemma_removed(*old(self), $1.1.sv());
  ensures[C03,C04,C10,C12]: final(self).wf()
  ensures[C01,C07,C09]: Self::removed_ents(*old(self), *final(self), $1.1.sv())
  ensures[C02,C04]: Self::removed_cols(*old(self), *final(self), $1.1.sv())
  ensures[C09,C12]: Self::removed_meta(*old(self), *final(self))
  ensures[C01,C08]: Self::removed_slots(*old(self), *final(self), $1.1.sv())
  ensures[C17]: Self::removed_events(*old(self), *final(self), $1.1.sv())
  ensures[C10,C19]: !ver_overflow(old(self).slot_ver($1.0.sv())) && !ver_overflow(old(self).s_ver())
  #(ensures[C02,C04]: r.vx_c~I() == old(self).col~I()[$1.1.sv()]
  )*
fn $name::resolve_entity -> r
  panics: self.s_panic_entity($1.any())
  requires[C03]: self.wf()
  entry: reveal($name::wf_shape); lemma_consts(); if self.lookup($1.any()) is Some { self.lemma_slot_ok(key_idx($1.k())); self.lemma_lookup($1.any()); self.lemma_dense(self.lookup($1.any()).unwrap()); }
  ensures[C01,C03]: match r { Some((s, d)) => self.lookup($1.any()) == Some(d.sv()) && s.sv() == key_idx($1.k()), None => self.lookup($1.any()) is None }
fn $name::resolve_direct -> r
  panics: self.s_panic_direct($1.any())
  requires[C03]: self.wf()
  entry: reveal($name::wf_shape); lemma_consts(); if self.dlookup($1.any()) is Some { self.lemma_dense(self.dlookup($1.any()).unwrap()); }
  ensures[C03,C09]: match r { Some((s, d)) => self.dlookup($1.any()) == Some(d.sv()) && s.sv() == key_idx(self.ents()[d.sv()].k()), None => self.dlookup($1.any()) is None }
fn StorageCanResolve<Entity<A>> for $name::resolve_for -> r
  panics: self.s_panic_entity($1.any())
  entry: reveal($name::wf_shape); lemma_consts(); self.lemma_lookup($1.any());
fn StorageCanResolve<Entity<A>> for $name::resolve_direct -> r
  entry: reveal($name::wf_shape);
  panics: self.s_panic_entity($1.any())
fn StorageCanResolve<Entity<A>> for $name::resolve_destroy -> r
  panics: old(self).vx_panic_resolve($1) || old(self).vx_panic_destroy($1)
  entry: reveal($name::wf_shape); old(self).lemma_lookup($1.any());
fn StorageCanResolve<EntityDirect<A>> for $name::resolve_for -> r
  panics: self.s_panic_direct($1.any())
  entry: reveal($name::wf_shape); lemma_consts();
fn StorageCanResolve<EntityDirect<A>> for $name::resolve_direct -> r
  entry: reveal($name::wf_shape);
  panics: self.s_panic_direct($1.any())
fn StorageCanResolve<EntityDirect<A>> for $name::resolve_destroy -> r
  entry: reveal($name::wf_shape);
  panics: old(self).vx_panic_resolve($1) || old(self).vx_panic_destroy($1)

fn $name::destroy -> r
  panics: old(self).vx_panic_resolve($1) || old(self).vx_panic_destroy($1)
  requires[C03]: <Self as StorageCanResolve<K>>::vx_wf(old(self))
  ensures[C01,C02,C07,C09,C12,C17]: Self::vx_destroyed(*old(self), *final(self), $1, r)
fn $name::resolve -> r
  panics: self.vx_panic_resolve($1)
  requires[C03]: <Self as StorageCanResolve<K>>::vx_wf(self)
  ensures[C01,C02,C03]: match r { Some(i) => self.vx_pos($1) == Some(i as int) && i < self.vx_bound($1), None => self.vx_pos($1) is None }
fn $name::to_direct -> r
  panics: self.vx_panic_resolve($1)
  requires[C03]: <Self as StorageCanResolve<K>>::vx_wf(self)
  ensures[C01,C09]: self.vx_direct($1, r)
fn $name::begin_borrow -> r
  panics: self.vx_panic_resolve($1)
  requires[C03]: self.vx_bound($1) <= self.s_len() && self.wf() && <Self as StorageCanResolve<K>>::vx_wf(self)
  ensures[C01,C03]: match r { Some(b) => self.vx_pos($1) == Some(b.s_index()) && b.wf() && *b.s_source() == *self, None => self.vx_pos($1) is None }

fn $name::iter -> r
  entry: reveal($name::wf_shape);
  requires[C03]: old(self).wf()
  ensures[C03,C06]: r.ok() && r.s_remaining() == old(self).s_len() && r.s_off() == 0
  ensures[C06]: forall|i: int| 0 <= i < old(self).s_len() ==> (#[trigger] r.ent_at(i)) == old(self).ents()[i]
  #(ensures[C02,C06]: forall|i: int| 0 <= i < old(self).s_len() ==> (#[trigger] r.c~I_at(i)) == old(self).col~I()[i]
  )*
  ensures[C02,C06]: Self::same_all(*old(self), *final(self))
fn $name::iter_mut -> r
  entry: reveal($name::wf_shape);
  requires[C03]: old(self).wf()
  ensures[C03,C06]: r.ok() && r.s_remaining() == old(self).s_len() && r.s_off() == 0
  ensures[C06]: forall|i: int| 0 <= i < old(self).s_len() ==> (#[trigger] r.ent_at(i)) == old(self).ents()[i]
  #(ensures[C02,C06]: forall|i: int| 0 <= i < old(self).s_len() ==> (#[trigger] r.c~I_at(i)) == old(self).col~I()[i]
  )*
fn $iter::vx_next -> r
  requires[C03]: old(self).ok()
  ensures[C03,C06]: final(self).ok()
  ensures[C06]: r is None <==> old(self).s_remaining() == 0
  ensures[C06]: r is None ==> *final(self) == *old(self)
  ensures[C06]: r is Some ==> final(self).s_remaining() == old(self).s_remaining() - 1 && final(self).s_off() == old(self).s_off() + 1 && final(self).same_cells(*old(self))
  ensures[C06]: r is Some ==> *r.unwrap().0 == old(self).ent_at(old(self).s_off())
  #(ensures[C02,C06]: r is Some ==> *r.unwrap().$I1 == old(self).c~I_at(old(self).s_off())
  )*
fn $iter_mut::vx_next -> r
  requires[C03]: old(self).ok()
  ensures[C03,C06]: final(self).ok()
  ensures[C06]: r is None <==> old(self).s_remaining() == 0
  ensures[C06]: r is None ==> *final(self) == *old(self)
  ensures[C06]: r is Some ==> final(self).s_remaining() == old(self).s_remaining() - 1 && final(self).s_off() == old(self).s_off() + 1 && final(self).same_cells(*old(self))
  ensures[C06]: r is Some ==> *r.unwrap().0 == old(self).ent_at(old(self).s_off())
  #(ensures[C02,C06]: r is Some ==> *r.unwrap().$I1 == old(self).c~I_at(old(self).s_off())
  )*

fn $name::get_view_mut -> r
  entry: reveal($name::wf_shape);
  panics: old(self).vx_panic_resolve($1)
  requires[C03]: old(self).wf() && <Self as StorageCanResolve<K>>::vx_wf(old(self)) && old(self).vx_bound($1) <= old(self).s_len()
  ensures[C01]: match r { Some(w) => old(self).vx_pos($1) == Some(w.vx_index() as int), None => old(self).vx_pos($1) is None }
  ensures[C01,C02]: r is None ==> *final(self) == *old(self)
  ensures[C01,C02]: r is Some ==> *r.unwrap().vx_entity() == old(self).ents()[r.unwrap().vx_index() as int]
  #(ensures[C02]: r is Some ==> *r.unwrap().vx_e~I() == old(self).col~I()[r.unwrap().vx_index() as int] && final(self).col~I() =~= old(self).col~I().update(r.unwrap().vx_index() as int, *final(r.unwrap().vx_e~I()))
  )*
  ensures[C01,C02,C09,C12]: Self::same_but_cols(*old(self), *final(self)) && final(self).wf_shape()
fn $name::get_all_slices_mut -> r
  requires[C03]: old(self).wf()
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C06]: r.vx_entities()@ == old(self).ents()
  #(ensures[C02,C06]: r.vx_s~I()@ == old(self).col~I() && final(self).col~I() =~= final(r.vx_s~I())@
  )*
  ensures[C01,C02,C09,C12]: Self::same_but_cols(*old(self), *final(self)) && final(self).wf_shape()
fn $name::get_slice_entities -> r
  requires[C03]: self.wf()
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C06]: r@ =~= self.ents()
#(
fn $name::get_slice_~I -> r
  requires[C03]: old(self).wf()
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C02,C06]: r@ =~= old(self).col~I()
  ensures[C02]: Self::same_all(*old(self), *final(self))
fn $name::get_slice_mut_~I -> r
  requires[C03]: old(self).wf()
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C02,C06]: r@ =~= old(self).col~I() && final(self).col~I() =~= final(r)@
  ensures[C02]: Self::same_but_col~I(*old(self), *final(self)) && final(self).wf_shape()
fn $name::borrow_slice_~I -> r
  requires[C03]: self.wf()
  requires[C11]: vx_may(self.cell~I(), false)
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C02,C06]: (*r.tgt())@ =~= self.col~I()
  ensures[C11]: r.guard() == (self.cell~I(), false)
fn $name::borrow_slice_mut_~I -> r
  requires[C03]: self.wf()
  requires[C11]: vx_may(self.cell~I(), true)
  entry: reveal($name::wf_shape); lemma_consts();
  ensures[C02,C06]: (*r.tgt())@ =~= self.col~I()
  ensures[C11]: r.guard() == (self.cell~I(), true)
fn $borrow::borrow_component_~I -> r
  entry: reveal($name::wf_shape);
  requires[C03]: self.wf()
  requires[C11]: vx_may(self.s_source().cell~I(), false)
  ensures[C02]: *r.tgt() == self.s_source().col~I()[self.s_index()]
  ensures[C11]: r.guard() == (self.s_source().cell~I(), false)
fn $borrow::borrow_component_mut_~I -> r
  entry: reveal($name::wf_shape);
  requires[C03]: self.wf()
  requires[C11]: vx_may(self.s_source().cell~I(), true)
  ensures[C02]: *r.tgt() == self.s_source().col~I()[self.s_index()]
  ensures[C11]: r.guard() == (self.s_source().cell~I(), true)
)*
fn $borrow::index -> r
  ensures[C02]: r == self.s_index()
fn $borrow::entity -> r
  entry: reveal($name::wf_shape);
  requires[C03]: self.wf()
  ensures[C01,C02]: *r == self.s_source().ents()[self.s_index()]
fn Clone for $borrow::clone -> r
  ensures[C02]: r == *self

fn Drop for $name::vx_drop
  requires[C04]: old(self).wf()
  entry: reveal($name::wf_shape); axiom_trivial_drop::<A>();
  ensures[C04]: final(self).slots@.len() == 0 && final(self).entities@.len() == 0 #( && final(self).d~I@@.len() == 0 )*
fn Clone for $name::vx_clone -> r
  attr: #[verifier::loop_isolation(false)]
  entry: reveal($name::wf_shape);
  requires[C03]: self.wf()
  #(requires[C11]: vx_may(self.cell~I(), false)
  )*
  exit: r.lemma_clone_wf(*self);
  #(ensures[C11]: vx_took(self.cell~I(), false)
  )*
  ensures[C03,C04,C13]: r.wf()
  ensures[C13,C01,C08,C12]: Self::same_meta(*self, r) && r.ents() =~= self.ents() && forall|s: int| 0 <= s < self.s_cap() ==> (#[trigger] r.slot(s)) == self.slot(s)
  ensures[C13]: Self::same_events(*self, r)
  #(ensures[C04,C13]: r.col~I().len() == self.s_len() && forall|i: int| 0 <= i < self.s_len() ==> cloned(#[trigger] self.col~I()[i], r.col~I()[i])
  )*
  loop 0 inv: new_slots@.len() == self.s_cap()
  loop 0 inv: forall|k: int| 0 <= k < self.s_cap() ==> (#[trigger] new_slots@[k]) == if k < $i { Some(self.slot(k)) } else { None }
  loop 1 inv: new_entities@.len() == self.s_cap()
  loop 1 inv: forall|k: int| 0 <= k < self.s_cap() ==> (#[trigger] new_entities@[k]) == if k < $i { Some(self.ents()[k]) } else { None }
  #(loop 1 inv: new_d~I@.len() == self.s_cap() && forall|k: int| 0 <= k < self.s_cap() ==> ((#[trigger] new_d~I@[k]) is Some <==> k < $i)
  )*
  #(loop 1 inv: forall|k: int| 0 <= k < $i ==> cloned(self.col~I()[k], (#[trigger] new_d~I@[k]).unwrap())
  )*
