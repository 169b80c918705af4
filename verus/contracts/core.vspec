fn SlotVersion::new -> r
  ensures[C14]: r.sv() == $1.sv()
fn SlotVersion::start -> r
  ensures[C08]: r.sv() == 1
fn SlotVersion::get -> r
  ensures[C14]: r.sv() == self.sv()
fn SlotVersion::next -> r
  panics: ver_overflow(self.sv())
  ensures[C01,C08,C10,C19]: !ver_overflow(self.sv()) && r.sv() == next_ver(self.sv())
fn ArchetypeVersion::start -> r
  ensures[C09]: r.sv() == 1
fn ArchetypeVersion::get -> r
  ensures[C09]: r.sv() == self.sv()
fn ArchetypeVersion::next -> r
  panics: ver_overflow(self.sv())
  ensures[C09,C10,C19]: !ver_overflow(self.sv()) && r.sv() == next_ver(self.sv())

fn TrimmedIndex::zero -> r
  ensures[C12]: r.sv() == 0
fn TrimmedIndex::new_u32 -> r
  entry: lemma_consts();
  ensures[C03,C12]: match r { Some(x) => x.sv() == $1 && $1 < 0x100_0000, None => $1 >= 0x100_0000 }
fn TrimmedIndex::new_usize -> r
  entry: lemma_consts();
  ensures[C03,C12]: match r { Some(x) => x.sv() == $1 && $1 < 0x100_0000, None => $1 >= 0x100_0000 }
fn From<TrimmedIndex> for u32::from -> r
  entry: lemma_consts(); use_type_invariant($1);
  ensures[C03]: r == $1.sv() && r < 0x100_0000
fn From<TrimmedIndex> for usize::from -> r
  entry: lemma_consts(); use_type_invariant($1);
  ensures[C03]: r == $1.sv() && r < 0x100_0000

fn SlotIndex::new_data -> r
  entry: use_type_invariant($1);
  ensures[C01,C03]: r.raw() == $1.sv() && !r.free() && r.ok()
fn SlotIndex::new_free -> r
  entry: use_type_invariant($1); lemma_consts(); lemma_free_bits($1.sv() as u32);
  ensures[C03,C12]: r.raw() == 0x8000_0000 + $1.sv() && r.free() && !r.end() && r.ok()
fn SlotIndex::free_end -> r
  entry: lemma_consts();
  ensures[C12]: r.end()
fn SlotIndex::is_free -> r
  entry: lemma_consts(); lemma_free_bits(self.0);
  ensures[C01,C03]: r == self.free()
fn SlotIndex::is_free_end -> r
  entry: lemma_consts();
  ensures[C12]: r == self.end()
fn SlotIndex::index_data -> r
  requires[C03]: self.ok() && !self.free()
  entry: lemma_consts(); lemma_free_bits(self.0);
  ensures[C01,C03]: r is Some && r.unwrap().sv() == self.raw()
fn SlotIndex::index_free -> r
  requires[C03]: self.ok() && self.free()
  entry: lemma_consts(); lemma_free_bits(self.0);
  ensures[C12]: match r { Some(x) => !self.end() && x.sv() == self.raw() - 0x8000_0000, None => self.end() }

fn Slot::populate_free_list -> r
  attr: #[verifier::loop_isolation(false)]
  requires[C12]: old($2)@.len() <= 0x100_0000 && $1.sv() <= old($2)@.len() && (old($2)@.len() > 0 ==> $1.sv() < old($2)@.len())
  entry: use_type_invariant($1);
  ensures[C12]: final($2)@.len() == old($2)@.len()
  ensures[C01,C12]: forall|k: int| 0 <= k < $1.sv() && k < old($2)@.len() ==> (#[trigger] final($2)@[k]) == old($2)@[k]
  ensures[C08,C12]: forall|k: int| $1.sv() <= k < old($2)@.len() ==> (#[trigger] final($2)@[k]).o is Some && final($2)@[k].o.unwrap().ver() == 1
      && final($2)@[k].o.unwrap().idx().raw() == if k + 1 < old($2)@.len() { 0x8000_0001 + k } else { 0xffff_ffff }
  ensures[C12]: r.raw() == if old($2)@.len() > 0 { 0x8000_0000 + $1.sv() } else { 0xffff_ffff }
  loop 0 let: let ghost vx_l0 = $2@;
  loop 0 inv: $2@.len() == old($2)@.len() && 0 < $2@.len() <= 0x100_0000 && $1.sv() <= $i
  loop 0 inv: forall|k: int| 0 <= k < $1.sv() ==> (#[trigger] $2@[k]) == old($2)@[k]
  loop 0 inv: forall|k: int| $1.sv() <= k < $i ==> (#[trigger] $2@[k]).o is Some && $2@[k].o.unwrap().ver() == 1 && $2@[k].o.unwrap().idx().raw() == 0x8000_0001 + k
  loop 0 inv: forall|k: int| $i <= k < $2@.len() ==> (#[trigger] $2@[k]) == vx_l0[k]

fn Slot::new_free -> r
  requires[C12]: $1.free()
  ensures[C08,C12]: r.idx() == $1 && r.ver() == 1
fn Slot::index -> r
  ensures[C01]: r == self.idx()
fn Slot::is_free -> r
  ensures[C01,C03]: r == self.idx().free()
fn Slot::version -> r
  ensures[C01]: r.sv() == self.ver()
fn Slot::assign
  ensures[C01]: final(self).idx().raw() == $1.sv() && !final(self).idx().free() && final(self).idx().ok()
  ensures[C01,C08]: final(self).ver() == old(self).ver()
fn Slot::release
  requires[C10]: !ver_overflow(old(self).ver())
  requires[C01]: !old(self).idx().free()
  ensures[C01,C12]: final(self).idx() == $1
  ensures[C01,C08]: final(self).ver() == next_ver(old(self).ver())

fn Entity::new -> r
  ensures[C14,C01,C08]: key_idx(r.k()) == $1.sv() && key_arch(r.k()) == A::ARCHETYPE_ID && r.v() == $2.sv()
fn Entity::from_any -> r
  panics: key_arch($1.k()) != A::ARCHETYPE_ID
  ensures[C14]: r.any() == $1 && key_arch($1.k()) == A::ARCHETYPE_ID
fn Entity::from_any_unchecked -> r
  panics: key_arch($1.k()) != A::ARCHETYPE_ID
  ensures[C14]: r.any() == $1
fn Entity::archetype_id -> r
  ensures[C14]: r == A::ARCHETYPE_ID
fn Entity::into_any -> r
  ensures[C14]: r == self.any()
fn Entity::version -> r
  ensures[C14,C01,C03]: r.sv() == self.v()
fn Entity::slot_index -> r
  ensures[C14,C01,C03]: r.sv() == key_idx(self.k())

fn EntityAny::new -> r
  entry: lemma_consts(); use_type_invariant($1); lemma_pack($1.sv() as u32, $2);
  ensures[C14,C01,C08]: key_idx(r.k()) == $1.sv() && key_arch(r.k()) == $2 && r.v() == $3.sv()
fn EntityAny::from_raw -> r
  ensures[C14]: match r { Ok(e) => $1.1 != 0 && e.k() == $1.0 && e.v() == $1.1, Err(_) => $1.1 == 0 }
fn EntityAny::raw -> r
  ensures[C14]: r.0 == self.k() && r.1 == self.v()
fn EntityAny::archetype_id -> r
  entry: lemma_unpack(self.key);
  ensures[C14,C01,C03]: r == key_arch(self.k())
fn EntityAny::into_any -> r
  ensures[C14]: r == self
fn EntityAny::version -> r
  ensures[C14,C01,C03]: r.sv() == self.v()
fn EntityAny::slot_index -> r
  entry: lemma_consts(); lemma_unpack(self.key);
  ensures[C14,C01,C03]: r.sv() == key_idx(self.k())

fn EntityDirect::new -> r
  ensures[C14,C09]: key_idx(r.k()) == $1.sv() && key_arch(r.k()) == A::ARCHETYPE_ID && r.v() == $2.sv()
fn EntityDirect::from_any -> r
  panics: key_arch($1.k()) != A::ARCHETYPE_ID
  ensures[C14]: r.any() == $1 && key_arch($1.k()) == A::ARCHETYPE_ID
fn EntityDirect::from_any_unchecked -> r
  panics: key_arch($1.k()) != A::ARCHETYPE_ID
  ensures[C14]: r.any() == $1
fn EntityDirect::archetype_id -> r
  ensures[C14]: r == A::ARCHETYPE_ID
fn EntityDirect::into_any -> r
  ensures[C14]: r == self.any()
fn EntityDirect::version -> r
  ensures[C14,C09]: r.sv() == self.v()
fn EntityDirect::dense_index -> r
  ensures[C14,C09,C03]: r.sv() == key_idx(self.k())

fn EntityDirectAny::new -> r
  entry: lemma_consts(); use_type_invariant($1); lemma_pack($1.sv() as u32, $2);
  ensures[C14,C09]: key_idx(r.k()) == $1.sv() && key_arch(r.k()) == $2 && r.v() == $3.sv()
fn EntityDirectAny::archetype_id -> r
  entry: lemma_unpack(self.key);
  ensures[C14,C09,C03]: r == key_arch(self.k())
fn EntityDirectAny::into_any -> r
  ensures[C14]: r == self
fn EntityDirectAny::version -> r
  ensures[C14,C09]: r.sv() == self.v()
fn EntityDirectAny::dense_index -> r
  entry: lemma_consts(); lemma_unpack(self.key);
  ensures[C14,C09,C03]: r.sv() == key_idx(self.k())

fn Hash for EntityAny::hash
fn Hash for EntityDirectAny::hash
fn Hash for Entity::hash
fn Hash for EntityDirect::hash
fn From<Entity<A>> for EntityAny::from -> r
  ensures[C14]: r == $1.any()
fn From<EntityDirect<A>> for EntityDirectAny::from -> r
  ensures[C14]: r == $1.any()
fn TryFrom<EntityAny> for Entity::try_from -> r
  ensures[C14]: match r { Ok(e) => key_arch($1.k()) == A::ARCHETYPE_ID && e.any() == $1, Err(x) => key_arch($1.k()) != A::ARCHETYPE_ID && x is InvalidEntityType }
fn TryFrom<EntityDirectAny> for EntityDirect::try_from -> r
  ensures[C14]: match r { Ok(e) => key_arch($1.k()) == A::ARCHETYPE_ID && e.any() == $1, Err(x) => key_arch($1.k()) != A::ARCHETYPE_ID && x is InvalidEntityType }
fn Clone for Entity::clone -> r
  ensures[C14]: r == *self
fn Clone for EntityDirect::clone -> r
  ensures[C14]: r == *self
fn PartialEq for Entity::eq -> r
  ensures[C14]: r == (self.any() == $1.any())
fn PartialEq for EntityDirect::eq -> r
  ensures[C14]: r == (self.any() == $1.any())
fn __internal::new_entity_direct -> r
  panics: $1 >= 0x100_0000
  ensures[C09,C14]: key_idx(r.k()) == $1 && key_arch(r.k()) == A::ARCHETYPE_ID && r.v() == $2.sv()
