// ---- specification vocabulary (hand-written, no executable code)
pub open spec fn key_idx(k: u32) -> int { (k / 256) as int }
pub open spec fn key_arch(k: u32) -> u8 { (k % 256) as u8 }
pub open spec fn pack(i: int, a: u8) -> int { i * 256 + a as int }
pub open spec fn swap_rm<X>(s: Seq<X>, p: int) -> Seq<X> { s.update(p, s.last()).drop_last() }
pub open spec fn next_ver(v: u32) -> u32 { if v == VX_MAX { 1u32 } else { (v + 1) as u32 } }
pub open spec fn ver_overflow(v: u32) -> bool { !VX_WRAPPING && v == VX_MAX }
pub open spec fn max_cap() -> int { 0x100_0000 }

proof fn lemma_pack(s: u32, a: u8)
    requires s < 0x100_0000
    ensures ((s << 8u32) | (a as u32)) / 256 == s, ((s << 8u32) | (a as u32)) % 256 == a as u32,
            ((s << 8u32) | (a as u32)) == s * 256 + a, ((a as u32) | (s << 8u32)) == s * 256 + a, ((s << 8u32) ^ (a as u32)) == s * 256 + a,
            ((a as u32) ^ (s << 8u32)) == s * 256 + a, (s << 8u32) == s * 256, ((s * 256) as u32 | (a as u32)) == s * 256 + a
{
    assert(((s << 8u32) | (a as u32)) / 256 == s && ((s << 8u32) | (a as u32)) % 256 == (a as u32)) by (bit_vector) requires s < 0x100_0000u32;
    assert(((a as u32) | (s << 8u32)) == ((s << 8u32) | (a as u32)) && ((a as u32) ^ (s << 8u32)) == ((s << 8u32) | (a as u32))
        && ((s << 8u32) ^ (a as u32)) == ((s << 8u32) | (a as u32)) && (s << 8u32) == mul(s, 256u32)) by (bit_vector) requires s < 0x100_0000u32;
}
proof fn lemma_unpack(k: u32)
    ensures k >> 8u32 == k / 256, (k >> 8u32) < 0x100_0000, (k as u8) as u32 == k % 256, k & 0xff == k % 256, ((k & 0xff) as u8) as u32 == k % 256,
            ((k % 256) as u8) as u32 == k % 256
{
    assert(k >> 8u32 == k / 256 && (k >> 8u32) < 0x100_0000u32 && (k as u8) as u32 == k % 256 && (k & 0xffu32) == k % 256 && ((k & 0xffu32) as u8) as u32 == k % 256) by (bit_vector);
}
// putting a new element in front of a duplicate-free list
proof fn lemma_cons(t: int, f: Seq<int>, fl: Seq<int>)
    requires f.no_duplicates(), !f.contains(t), fl == seq![t] + f
    ensures fl.no_duplicates(), fl.len() == f.len() + 1, fl[0] == t, forall|k: int| 1 <= k < fl.len() ==> (#[trigger] fl[k]) == f[k - 1],
        fl.contains(t), forall|s: int| #[trigger] f.contains(s) ==> fl.contains(s)
{
    assert(fl.len() == f.len() + 1 && fl[0] == t);
    assert forall|k: int| 1 <= k < fl.len() implies (#[trigger] fl[k]) == f[k - 1] by { }
    assert forall|i: int, j: int| 0 <= i < fl.len() && 0 <= j < fl.len() && i != j implies fl[i] != fl[j] by {
        if i > 0 { assert(fl[i] == f[i - 1]); } if j > 0 { assert(fl[j] == f[j - 1]); }
    }
    assert forall|s: int| #[trigger] f.contains(s) implies fl.contains(s) by { let k = choose|k: int| 0 <= k < f.len() && f[k] == s; assert(fl[k + 1] == s); }
}
proof fn lemma_consts()
    ensures ARCHETYPE_ID_BITS == 8, MAX_DATA_CAPACITY == 0x100_0000, MAX_DATA_INDEX == 0xff_ffff,
        FREE_BIT == 0x8000_0000, FREE_LIST_END == 0xffff_ffff
{
    assert(ARCHETYPE_ID_BITS == 8) by (compute);
    assert(MAX_DATA_CAPACITY == 0x100_0000) by (compute);
    assert(MAX_DATA_INDEX == 0xff_ffff) by (compute);
    assert(FREE_BIT == 0x8000_0000) by (compute);
    assert(FREE_LIST_END == 0xffff_ffff) by (compute);
}
proof fn lemma_free_bits(i: u32)
    ensures (0x8000_0000u32 & i != 0) == (i >= 0x8000_0000),
        i < 0x8000_0000 ==> (i | 0x8000_0000) == i + 0x8000_0000,
        i >= 0x8000_0000 ==> (i & !0x8000_0000u32) == i - 0x8000_0000,
        (i & 0x8000_0000u32) == (0x8000_0000u32 & i), (0x8000_0000u32 | i) == (i | 0x8000_0000u32), (i >> 31u32 == 1) == (i >= 0x8000_0000), (i >> 31u32 != 0) == (i >= 0x8000_0000),
        (i & 0x8000_0000u32 == 0x8000_0000u32) == (i >= 0x8000_0000), (i ^ 0x8000_0000u32) == (if i >= 0x8000_0000 { i - 0x8000_0000 } else { i + 0x8000_0000 }),
        i >= 0x8000_0000 ==> (!0x8000_0000u32 & i) == i - 0x8000_0000, i >= 0x8000_0000 ==> (i & 0x7fff_ffffu32) == i - 0x8000_0000,
{
    assert((i & 0x8000_0000u32) == (0x8000_0000u32 & i) && (0x8000_0000u32 | i) == (i | 0x8000_0000u32) && (i >> 31u32 == 1) == (i >= 0x8000_0000) && (i >> 31u32 != 0) == (i >= 0x8000_0000)) by (bit_vector);
    assert((i & 0x8000_0000u32 == 0x8000_0000u32) == (i >= 0x8000_0000)) by (bit_vector);
    assert(i >= 0x8000_0000 ==> (i ^ 0x8000_0000u32) == (i - 0x8000_0000) as u32) by (bit_vector);
    assert(i < 0x8000_0000 ==> (i ^ 0x8000_0000u32) == (i + 0x8000_0000) as u32) by (bit_vector);
    assert(i >= 0x8000_0000 ==> (!0x8000_0000u32 & i) == (i - 0x8000_0000) as u32) by (bit_vector);
    assert(i >= 0x8000_0000 ==> (i & 0x7fff_ffffu32) == (i - 0x8000_0000) as u32) by (bit_vector);
    assert((0x8000_0000u32 & i != 0) == (i >= 0x8000_0000)) by (bit_vector);
    assert(i < 0x8000_0000 ==> (i | 0x8000_0000) == (i + 0x8000_0000) as u32) by (bit_vector);
    assert(i >= 0x8000_0000 ==> (i & !0x8000_0000u32) == (i - 0x8000_0000) as u32) by (bit_vector);
}

impl NonZeroU32 { pub open spec fn sv(self) -> u32 { self.v } }
impl SlotVersion { pub closed spec fn sv(self) -> u32 { self.version.v } }
impl ArchetypeVersion { pub closed spec fn sv(self) -> u32 { self.version.v } }
impl TrimmedIndex {
    pub closed spec fn sv(self) -> int { self.0 as int }
    #[verifier::type_invariant]
    closed spec fn vx_inv(self) -> bool { self.0 < 0x100_0000 }
}
impl SlotIndex {
    pub closed spec fn raw(self) -> u32 { self.0 }
    pub open spec fn free(self) -> bool { self.raw() >= 0x8000_0000 }
    pub open spec fn end(self) -> bool { self.raw() == 0xffff_ffff }
    pub open spec fn ok(self) -> bool {
        if self.free() { self.end() || self.raw() < 0x8100_0000 } else { self.raw() < 0x100_0000 }
    }
}
impl Slot {
    pub closed spec fn idx(self) -> SlotIndex { self.index }
    pub closed spec fn ver(self) -> u32 { self.version.version.v }
}
impl EntityAny {
    pub closed spec fn k(self) -> u32 { self.key }
    pub closed spec fn v(self) -> u32 { self.version.version.v }
}
impl EntityDirectAny {
    pub closed spec fn k(self) -> u32 { self.key }
    pub closed spec fn v(self) -> u32 { self.version.version.v }
}
impl<A: Archetype> Entity<A> {
    pub closed spec fn any(self) -> EntityAny { self.inner }
    pub open spec fn k(self) -> u32 { self.any().k() }
    pub open spec fn v(self) -> u32 { self.any().v() }
}
impl<A: Archetype> EntityDirect<A> {
    pub closed spec fn any(self) -> EntityDirectAny { self.inner }
    pub open spec fn k(self) -> u32 { self.any().k() }
    pub open spec fn v(self) -> u32 { self.any().v() }
}
pub open spec fn any_eq(a: EntityAny, b: EntityAny) -> bool { a.k() == b.k() && a.v() == b.v() }
proof fn lemma_any_eq(a: EntityAny, b: EntityAny) ensures any_eq(a, b) <==> a == b { }
proof fn lemma_dany_eq(a: EntityDirectAny, b: EntityDirectAny) ensures (a.k() == b.k() && a.v() == b.v()) <==> a == b { }
proof fn lemma_ent_eq<A: Archetype>(a: Entity<A>, b: Entity<A>) ensures any_eq(a.any(), b.any()) <==> a == b { }

impl vstd::std_specs::convert::FromSpecImpl<TrimmedIndex> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TrimmedIndex) -> u32 { v.sv() as u32 }
}
impl vstd::std_specs::convert::FromSpecImpl<TrimmedIndex> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TrimmedIndex) -> usize { v.sv() as usize }
}

impl<A: Archetype> vstd::std_specs::convert::FromSpecImpl<Entity<A>> for EntityAny {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Entity<A>) -> EntityAny { v.any() }
}
impl<A: Archetype> vstd::std_specs::convert::FromSpecImpl<EntityDirect<A>> for EntityDirectAny {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: EntityDirect<A>) -> EntityDirectAny { v.any() }
}
impl<A: Archetype> vstd::std_specs::convert::TryFromSpecImpl<EntityAny> for Entity<A> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: EntityAny) -> Result<Self, EcsError>;
}
impl<A: Archetype> vstd::std_specs::convert::TryFromSpecImpl<EntityDirectAny> for EntityDirect<A> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: EntityDirectAny) -> Result<Self, EcsError>;
}
impl<A: Archetype> vstd::std_specs::cmp::PartialEqSpecImpl for Entity<A> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.any() == o.any() }
}
impl<A: Archetype> vstd::std_specs::cmp::PartialEqSpecImpl for EntityDirect<A> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.any() == o.any() }
}

// ---- traits of gecs used by the storage (only the members the storage uses)
pub trait Archetype: Sized { const ARCHETYPE_ID: ArchetypeId; type Components; }
pub trait EntityKey: Clone + Copy { type DestroyOutput; type DirectOutput; }
impl<A: Archetype> EntityKey for Entity<A> { type DestroyOutput = Option<A::Components>; type DirectOutput = EntityDirect<A>; }
impl<A: Archetype> EntityKey for EntityDirect<A> { type DestroyOutput = Option<A::Components>; type DirectOutput = EntityDirect<A>; }
impl EntityKey for EntityAny { type DestroyOutput = Option<()>; type DirectOutput = EntityDirectAny; }
impl EntityKey for EntityDirectAny { type DestroyOutput = Option<()>; type DirectOutput = EntityDirectAny; }
pub enum EcsError { InvalidEntityType, InvalidRawEntity }

pub trait Hasher: Sized {
    spec fn log(&self) -> Seq<u64>;
    fn write_u64(&mut self, x: u64) ensures final(self).log() == old(self).log().push(x);
}
pub trait Hash {
    spec fn hv(&self) -> Seq<u64>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).log() == old(state).log() + self.hv();
}
impl Hash for u64 {
    open spec fn hv(&self) -> Seq<u64> { seq![*self] }
    fn hash<H: Hasher>(&self, state: &mut H) { state.write_u64(*self); assert(state.log() == old(state).log() + self.hv()); }
}
pub open spec fn hash_of(k: u32, v: u32) -> Seq<u64> { seq![(((k as u64) << 32u64) | (v as u64)) as u64] }

pub trait StorageCanResolve<K: EntityKey>: Sized {
    spec fn vx_wf(&self) -> bool;
    // Some(i): the key designates the entity at dense position i; None: absent
    spec fn vx_pos(&self, k: K) -> Option<int>;
    spec fn vx_bound(&self, k: K) -> int;
    spec fn vx_panic_resolve(&self, k: K) -> bool;
    spec fn vx_panic_destroy(&self, k: K) -> bool;
    spec fn vx_destroyed(pre: Self, post: Self, k: K, out: K::DestroyOutput) -> bool;
    spec fn vx_direct(&self, k: K, out: Option<K::DirectOutput>) -> bool;
    fn resolve_for(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<usize>)
        requires
/*@resolve_for|C03*/ self.vx_wf(),
/*@resolve_for|C10*/ self.vx_panic_resolve(k) ==> vx_ok@
        ensures
/*@resolve_for|C01,C02,C03,C09*/ match r { Some(i) => self.vx_pos(k) == Some(i as int) && i < self.vx_bound(k), None => self.vx_pos(k) is None };
    fn resolve_direct(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<K::DirectOutput>)
        requires
/*@resolve_direct|C03*/ self.vx_wf(),
/*@resolve_direct|C10*/ self.vx_panic_resolve(k) ==> vx_ok@
        ensures
/*@resolve_direct|C01,C09*/ self.vx_direct(k, r);
    fn resolve_destroy(&mut self, k: K, vx_ok: Ghost<bool>) -> (r: K::DestroyOutput)
        requires
/*@resolve_destroy|C03*/ old(self).vx_wf(),
/*@resolve_destroy|C10*/ (old(self).vx_panic_resolve(k) || old(self).vx_panic_destroy(k)) ==> vx_ok@
        ensures
/*@resolve_destroy|C01,C02,C04,C07,C09,C12,C17*/ Self::vx_destroyed(*old(self), *final(self), k, r);
}

// ---- per-N storage specification (template)
pub axiom fn axiom_trivial_drop<A: Archetype>() ensures vx_trivial_drop::<Slot>(), vx_trivial_drop::<Entity<A>>();

@template
pub trait $components<#(T~I,)*>: Sized {
    #( spec fn vx_c~I(&self) -> T~I; )*
    fn raw_new(#(c~I: T~I,)*) -> (r: Self) ensures #( r.vx_c~I() == c~I, )*;
    fn raw_get(self) -> (r: (#(T~I,)*)) ensures #( r.I == self.vx_c~I(), )*;
}

impl<A: Archetype, #(T~I,)*> $name<A, #(T~I,)*> {
    pub closed spec fn s_len(self) -> int { self.len as int }
    pub closed spec fn s_cap(self) -> int { self.capacity as int }
    pub closed spec fn s_ver(self) -> u32 { self.version.sv() }
    pub closed spec fn ents(self) -> Seq<Entity<A>> { Seq::new(self.len as nat, |i: int| self.entities@[i].unwrap()) }
    pub closed spec fn slot(self, s: int) -> Slot { self.slots@[s].unwrap() }
    pub open spec fn slot_free(self, s: int) -> bool { self.slot(s).idx().free() }
    pub open spec fn slot_ver(self, s: int) -> u32 { self.slot(s).ver() }
    #( pub closed spec fn col~I(self) -> Seq<T~I> { Seq::new(self.len as nat, |i: int| self.d~I@@[i].unwrap()) } )*
    #( pub closed spec fn cell~I(self) -> int { self.d~I.id() } )*
    #[cfg(feature = "events")]
    pub closed spec fn s_created(self) -> Seq<Entity<A>> { self.created@ }
    #[cfg(feature = "events")]
    pub closed spec fn s_destroyed(self) -> Seq<Entity<A>> { self.destroyed@ }

    pub closed spec fn ent(self, i: int) -> EntityAny { self.entities@[i].unwrap().any() }

    // allocation / initialisation shape: exactly the cells 0..len of every column are live (C03, C04, C12)
    #[verifier::opaque]
    pub closed spec fn wf_shape(self) -> bool {
        &&& self.len <= self.capacity && self.capacity <= 0x100_0000
        &&& self.slots@.len() == self.capacity
        &&& forall|s: int| 0 <= s < self.capacity ==> (#[trigger] self.slots@[s]) is Some
        &&& self.entities@.len() == self.capacity
        &&& forall|i: int| 0 <= i < self.capacity ==> ((#[trigger] self.entities@[i]) is Some <==> i < self.len)
        #( &&& self.d~I@@.len() == self.capacity
           &&& forall|i: int| 0 <= i < self.capacity ==> ((#[trigger] self.d~I@@[i]) is Some <==> i < self.len) )*
    }
    // every dense handle points to a live slot that points back with the same version (C01, C08)
    #[verifier::opaque]
    pub closed spec fn wf_dense(self) -> bool {
        forall|i: int| 0 <= i < self.len ==> {
            let e = #[trigger] self.ent(i);
            &&& key_arch(e.k()) == A::ARCHETYPE_ID
            &&& key_idx(e.k()) < self.capacity
            &&& self.slot(key_idx(e.k())).idx().raw() == i
            &&& self.slot_ver(key_idx(e.k())) == e.v()
        }
    }
    // every live slot is the slot of the dense entity it points to; every slot index is in range (C01, C03)
    #[verifier::opaque]
    pub closed spec fn wf_slots(self) -> bool {
        forall|s: int| 0 <= s < self.capacity ==> {
            let x = (#[trigger] self.slot(s)).idx();
            &&& x.ok()
            &&& !x.free() ==> x.raw() < self.len && key_idx(self.ent(x.raw() as int).k()) == s
        }
    }
    // fl is the free list: every free position exactly once, ending in the end marker (C12)
    pub closed spec fn freelist(self, fl: Seq<int>) -> bool {
        &&& fl.len() + self.len == self.capacity
        &&& fl.no_duplicates()
        &&& self.free_head.raw() == Self::link(fl, 0)
        &&& forall|k: int| 0 <= k < fl.len() ==> 0 <= (#[trigger] fl[k]) < self.capacity
                && self.slot(fl[k]).idx().raw() == Self::link(fl, k + 1)
        &&& forall|s: int| 0 <= s < self.capacity && #[trigger] self.slot_free(s) ==> fl.contains(s)
    }
    // the word that links to the k-th element of the list (opaque: unfolding it in the quantifier above loops)
    #[verifier::opaque]
    pub open spec fn link(fl: Seq<int>, k: int) -> int { if 0 <= k < fl.len() { 0x8000_0000 + fl[k] } else { 0xffff_ffff } }
    proof fn lemma_link(fl: Seq<int>, k: int) ensures Self::link(fl, k) == if 0 <= k < fl.len() { 0x8000_0000 + fl[k] } else { 0xffff_ffff } { reveal($name::link); }
    #[verifier::opaque]
    pub closed spec fn wf_free(self) -> bool { exists|fl: Seq<int>| self.freelist(fl) }
    pub open spec fn wf(self) -> bool { self.wf_shape() && self.wf_dense() && self.wf_slots() && self.wf_free() }

    // the entity a handle designates
    pub closed spec fn lookup(self, e: EntityAny) -> Option<int> {
        let s = key_idx(e.k());
        if self.len > 0 && key_arch(e.k()) == A::ARCHETYPE_ID && s < self.capacity && self.slot_ver(s) == e.v() && !self.slot_free(s) {
            Some(self.slot(s).idx().raw() as int)
        } else { None }
    }
    pub closed spec fn dlookup(self, e: EntityDirectAny) -> Option<int> {
        if self.len > 0 && key_arch(e.k()) == A::ARCHETYPE_ID && e.v() == self.version.sv() && key_idx(e.k()) < self.len {
            Some(key_idx(e.k()))
        } else { None }
    }
    // the effect of removing the entity at dense position p (C01 C02 C07 C08 C09 C12)
    pub open spec fn removed_ents(pre: Self, post: Self, p: int) -> bool { post.ents() =~= swap_rm(pre.ents(), p) }
    pub open spec fn removed_cols(pre: Self, post: Self, p: int) -> bool { true #( && post.col~I() =~= swap_rm(pre.col~I(), p) && post.cell~I() == pre.cell~I() )* }
    pub open spec fn removed_meta(pre: Self, post: Self) -> bool {
        post.s_cap() == pre.s_cap() && post.s_len() == pre.s_len() - 1 && post.s_ver() == next_ver(pre.s_ver()) && !ver_overflow(pre.s_ver())
    }
    pub open spec fn removed_slots(pre: Self, post: Self, p: int) -> bool {
        let t = key_idx(pre.ents()[p].k());
        &&& post.slot_free(t) && post.slot_ver(t) == next_ver(pre.slot_ver(t)) && !ver_overflow(pre.slot_ver(t))
        &&& forall|s: int| 0 <= s < pre.s_cap() && s != t ==> (#[trigger] post.slot_ver(s)) == pre.slot_ver(s) && post.slot_free(s) == pre.slot_free(s)
    }
    #[cfg(feature = "events")]
    pub open spec fn removed_events(pre: Self, post: Self, p: int) -> bool {
        post.s_created() == pre.s_created() && post.s_destroyed() == pre.s_destroyed().push(pre.ents()[p])
    }
    #[cfg(not(feature = "events"))]
    pub open spec fn removed_events(pre: Self, post: Self, p: int) -> bool { true }
    pub open spec fn removed(pre: Self, post: Self, p: int) -> bool {
        Self::removed_ents(pre, post, p) && Self::removed_cols(pre, post, p) && Self::removed_meta(pre, post)
            && Self::removed_slots(pre, post, p) && Self::removed_events(pre, post, p)
    }
    // the effect of creating e
    pub open spec fn created_slots(pre: Self, post: Self, e: EntityAny) -> bool {
        let t = key_idx(e.k());
        &&& 0 <= t < post.s_cap() && !post.slot_free(t) && post.slot_ver(t) == e.v()
        &&& if t < pre.s_cap() { pre.slot_free(t) && pre.slot_ver(t) == e.v() } else { e.v() == 1 }
        &&& forall|s: int| 0 <= s < pre.s_cap() && s != t ==> (#[trigger] post.slot_ver(s)) == pre.slot_ver(s) && post.slot_free(s) == pre.slot_free(s)
        &&& forall|s: int| pre.s_cap() <= s < post.s_cap() && s != t ==> (#[trigger] post.slot_ver(s)) == 1 && post.slot_free(s)
    }
    // the effect of growing on the slot table: old positions kept, new positions fresh and free
    pub open spec fn grew(pre: Self, post: Self) -> bool {
        &&& pre.s_cap() <= post.s_cap()
        &&& forall|s: int| 0 <= s < pre.s_cap() ==> (#[trigger] post.slot_ver(s)) == pre.slot_ver(s) && post.slot_free(s) == pre.slot_free(s)
        &&& forall|s: int| pre.s_cap() <= s < post.s_cap() ==> (#[trigger] post.slot_ver(s)) == 1 && post.slot_free(s)
    }
    proof fn lemma_push(pre: Self, post: Self, e: EntityAny)
        ensures forall|mid: Self| #[trigger] Self::grew(pre, mid) && mid.s_cap() == post.s_cap() && #[trigger] Self::created_slots(mid, post, e) ==> Self::created_slots(pre, post, e)
    {
        let t = key_idx(e.k());
        assert forall|mid: Self| #[trigger] Self::grew(pre, mid) && mid.s_cap() == post.s_cap() && #[trigger] Self::created_slots(mid, post, e) implies Self::created_slots(pre, post, e) by {
            assert(t < pre.s_cap() ==> mid.slot_ver(t) == pre.slot_ver(t)); assert(t >= pre.s_cap() ==> mid.slot_ver(t) == 1); assert(t < pre.s_cap() ==> pre.slot_free(t) && pre.slot_ver(t) == e.v());
            assert forall|s: int| 0 <= s < pre.s_cap() && s != t implies (#[trigger] post.slot_ver(s)) == pre.slot_ver(s) && post.slot_free(s) == pre.slot_free(s) by { assert(mid.slot_ver(s) == pre.slot_ver(s)); assert(post.slot_ver(s) == mid.slot_ver(s)); assert(post.slot_free(s) == mid.slot_free(s)); }
            assert forall|s: int| pre.s_cap() <= s < post.s_cap() && s != t implies (#[trigger] post.slot_ver(s)) == 1 && post.slot_free(s) by { assert(mid.slot_ver(s) == 1); assert(post.slot_ver(s) == mid.slot_ver(s)); }
            assert(0 <= t < post.s_cap()); assert(!post.slot_free(t)); assert(post.slot_ver(t) == e.v());
            assert(if t < pre.s_cap() { pre.slot_free(t) && pre.slot_ver(t) == e.v() } else { e.v() == 1 });
            assert(forall|s: int| 0 <= s < pre.s_cap() && s != t ==> (#[trigger] post.slot_ver(s)) == pre.slot_ver(s) && post.slot_free(s) == pre.slot_free(s));
            assert(forall|s: int| pre.s_cap() <= s < post.s_cap() && s != t ==> (#[trigger] post.slot_ver(s)) == 1 && post.slot_free(s));
            assert(Self::created_slots(pre, post, e));
        }
    }
    pub open spec fn created_meta(pre: Self, post: Self) -> bool {
        post.s_len() == pre.s_len() + 1 && post.s_ver() == pre.s_ver()
    }
    #[cfg(feature = "events")]
    pub open spec fn created_events(pre: Self, post: Self, e: Entity<A>) -> bool {
        post.s_created() == pre.s_created().push(e) && post.s_destroyed() == pre.s_destroyed()
    }
    #[cfg(not(feature = "events"))]
    pub open spec fn created_events(pre: Self, post: Self, e: Entity<A>) -> bool { true }

    proof fn lemma_lookup(self, e: EntityAny)
        requires self.wf()
        ensures
            match self.lookup(e) {
                Some(i) => 0 <= i < self.s_len() && self.ents()[i].any() == e,
                None => forall|i: int| 0 <= i < self.s_len() ==> self.ents()[i].any() != e,
            },
    { reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free);
        assert forall|i: int| 0 <= i < self.s_len() && self.ents()[i].any() == e implies self.lookup(e) == Some(i) by {
            assert(self.ent(i) == e);
        }
        if self.lookup(e) is Some {
            let i = self.lookup(e).unwrap();
            let s = key_idx(e.k());
            assert(self.slot(s).idx().raw() == i);
            assert(self.ents()[i].any() == self.ent(i));
            lemma_any_eq(self.ent(i), e);
        }
    }

    pub open spec fn s_panic_entity(self, e: EntityAny) -> bool { VX_DEBUG && key_arch(e.k()) == A::ARCHETYPE_ID && key_idx(e.k()) >= self.s_cap() }
    pub open spec fn s_panic_direct(self, e: EntityDirectAny) -> bool { VX_DEBUG && key_arch(e.k()) == A::ARCHETYPE_ID && e.v() == self.s_ver() && key_idx(e.k()) >= self.s_len() }

    #[cfg(feature = "events")]
    pub open spec fn no_events(s: Self) -> bool { s.s_created() =~= Seq::<Entity<A>>::empty() && s.s_destroyed() =~= Seq::<Entity<A>>::empty() }
    #[cfg(not(feature = "events"))]
    pub open spec fn no_events(s: Self) -> bool { true }
    #[cfg(feature = "events")]
    pub open spec fn same_events(a: Self, b: Self) -> bool { a.s_created() =~= b.s_created() && a.s_destroyed() =~= b.s_destroyed() }
    #[cfg(not(feature = "events"))]
    pub open spec fn same_events(a: Self, b: Self) -> bool { true }
    pub closed spec fn same_slots(a: Self, b: Self) -> bool { a.slots@ =~= b.slots@ && a.free_head == b.free_head }
    pub open spec fn same_meta(a: Self, b: Self) -> bool { a.s_len() == b.s_len() && a.s_cap() == b.s_cap() && a.s_ver() == b.s_ver() }
    pub closed spec fn same_but_cols(a: Self, b: Self) -> bool {
        &&& Self::same_meta(a, b) && Self::same_slots(a, b) && Self::same_events(a, b)
        &&& a.entities@ =~= b.entities@ && a.ents() =~= b.ents()
        #( &&& a.cell~I() == b.cell~I() )*
    }
    pub closed spec fn same_cols(a: Self, b: Self) -> bool { true #( && a.d~I@@ =~= b.d~I@@ && a.col~I() =~= b.col~I() )* }
    pub open spec fn same_all(a: Self, b: Self) -> bool { Self::same_but_cols(a, b) && Self::same_cols(a, b) }
    pub closed spec fn same_but_events(a: Self, b: Self) -> bool {
        &&& Self::same_meta(a, b) && Self::same_slots(a, b) && a.entities@ =~= b.entities@ && a.ents() =~= b.ents() && Self::same_cols(a, b)
        #( &&& a.cell~I() == b.cell~I() )*
    }

    // initial state: all positions free, in order
    proof fn lemma_init(self, cap: int)
        requires
/*@lemma_init|C03,C04,C12*/ self.wf_shape(),
/*@lemma_init|C12*/ self.s_len() == 0 && self.s_cap() == cap && 0 <= cap <= 0x100_0000,
/*@lemma_init|C01,C12*/ forall|k: int| 0 <= k < cap ==> (#[trigger] self.slot(k)).idx().raw() == (if k + 1 < cap { 0x8000_0001 + k } else { 0xffff_ffff }),
/*@lemma_init|C12*/ self.free_head.raw() == (if cap > 0 { 0x8000_0000int } else { 0xffff_ffff }),
        ensures self.wf()
    { reveal($name::wf_shape); reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free);
        let fl = Seq::new(cap as nat, |k: int| k);
        Self::lemma_link(fl, 0);
        assert forall|k: int| 0 <= k < fl.len() implies 0 <= (#[trigger] fl[k]) < self.s_cap() && self.slot(fl[k]).idx().raw() == Self::link(fl, k + 1) by { Self::lemma_link(fl, k + 1); assert(fl[k] == k); }
        assert forall|s: int| 0 <= s < cap && #[trigger] self.slot_free(s) implies fl.contains(s) by { assert(fl[s] == s); }
        assert(self.freelist(fl));
    }
    // growth: all old positions live, all new positions free in order
    proof fn lemma_grown(self, old: Self)
        requires
            old.wf(), old.s_len() == old.s_cap(),
/*@lemma_grown|C03,C04,C12*/ self.wf_shape(),
/*@lemma_grown|C12*/ self.s_len() == old.s_len() && old.s_cap() < self.s_cap() <= 0x100_0000,
/*@lemma_grown|C01*/ forall|i: int| 0 <= i < self.s_len() ==> (#[trigger] self.ent(i)) == old.ent(i),
/*@lemma_grown|C01,C08*/ forall|s: int| 0 <= s < old.s_cap() ==> (#[trigger] self.slot(s)) == old.slot(s),
/*@lemma_grown|C12*/ forall|k: int| old.s_cap() <= k < self.s_cap() ==> (#[trigger] self.slot(k)).idx().raw() == (if k + 1 < self.s_cap() { 0x8000_0001 + k } else { 0xffff_ffff }),
/*@lemma_grown|C12*/ self.free_head.raw() == 0x8000_0000 + old.s_cap(),
        ensures self.wf()
    { reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free);
        let c = old.s_cap();
        let fl = Seq::new((self.s_cap() - c) as nat, |k: int| c + k);
        Self::lemma_link(fl, 0);
        assert forall|k: int| 0 <= k < fl.len() implies 0 <= (#[trigger] fl[k]) < self.s_cap() && self.slot(fl[k]).idx().raw() == Self::link(fl, k + 1) by { Self::lemma_link(fl, k + 1); assert(fl[k] == c + k); }
        let ofl = choose|f: Seq<int>| old.freelist(f);
        assert(old.freelist(ofl) && ofl.len() == 0);
        assert forall|s: int| 0 <= s < self.s_cap() && #[trigger] self.slot_free(s) implies fl.contains(s) by {
            if s < c { assert(self.slot(s) == old.slot(s)); assert(old.slot_free(s)); assert(ofl.contains(s)); } else { assert(fl[s - c] == s); }
        }
        assert(self.freelist(fl));
        assert forall|i: int| 0 <= i < self.s_len() implies { let e = #[trigger] self.ent(i); key_arch(e.k()) == A::ARCHETYPE_ID && key_idx(e.k()) < self.s_cap()
            && self.slot(key_idx(e.k())).idx().raw() == i && self.slot_ver(key_idx(e.k())) == e.v() } by { let e = old.ent(i); assert(self.slot(key_idx(e.k())) == old.slot(key_idx(e.k()))); }
        assert forall|s: int| 0 <= s < self.s_cap() implies { let x = (#[trigger] self.slot(s)).idx(); x.ok() && (!x.free() ==> x.raw() < self.s_len() && key_idx(self.ent(x.raw() as int).k()) == s) } by {
            if s < c { assert(old.slot(s).idx().ok()); }
        }
    }
    proof fn lemma_head(self)
        requires self.wf(), self.s_len() < self.s_cap()
        ensures self.free_head.free(), self.free_head.ok(), !self.free_head.end(), self.free_head.raw() - 0x8000_0000 < self.s_cap(),
            self.slot_free(self.free_head.raw() - 0x8000_0000), self.slot(self.free_head.raw() - 0x8000_0000).idx().ok()
    { reveal($name::wf_shape); reveal($name::wf_slots); reveal($name::wf_free);
        let fl = choose|fl: Seq<int>| self.freelist(fl);
        assert(self.freelist(fl)); assert(fl.len() > 0); assert(0 <= fl[0] < self.s_cap()); Self::lemma_link(fl, 0); Self::lemma_link(fl, 1);
        assert(self.slot(fl[0]).idx().raw() == Self::link(fl, 1)); assert(self.slot(fl[0]).idx().ok());
        if fl.len() > 1 { assert(0 <= fl[1] < self.s_cap()); }
    }
    proof fn lemma_full(self)
        requires self.wf(), self.s_len() == self.s_cap()
        ensures self.free_head.end(), self.free_head.free()
    { reveal($name::wf_free); let fl = choose|fl: Seq<int>| self.freelist(fl); assert(self.freelist(fl)); assert(fl.len() == 0); Self::lemma_link(fl, 0); }
    // access through mutable column references cannot break the representation
    proof fn lemma_same_wf(a: Self, b: Self)
        requires a.wf(), Self::same_but_cols(a, b), b.wf_shape()
        ensures b.wf()
    {
        assert forall|i: int| 0 <= i < b.s_len() implies (#[trigger] b.ent(i)) == a.ent(i) by { }
        b.lemma_clone_wf(a);
    }
    proof fn lemma_slot_ok(self, s: int)
        requires self.wf(), 0 <= s < self.s_cap()
        ensures self.slot(s).idx().ok(), !self.slot_free(s) ==> self.slot(s).idx().raw() < self.s_len()
    { reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free); assert(self.slot(s).idx().ok()); }
    proof fn lemma_dense(self, i: int)
        requires self.wf(), 0 <= i < self.s_len()
        ensures self.ents()[i].any() == self.ent(i), key_arch(self.ent(i).k()) == A::ARCHETYPE_ID, key_idx(self.ent(i).k()) < self.s_cap(),
            self.slot(key_idx(self.ent(i).k())).idx().raw() == i, self.slot_ver(key_idx(self.ent(i).k())) == self.ent(i).v(),
            !self.slot_free(key_idx(self.ent(i).k()))
    { reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free); let e = self.ent(i); assert(key_idx(e.k()) < self.s_cap()); }
    // creation at the head of the free list
    #[verifier::opaque]
    closed spec fn cre_pre(self, old: Self, e: EntityAny) -> bool {
        let t = key_idx(e.k());
        &&& old.s_len() < old.s_cap() && self.s_len() == old.s_len() + 1 && self.s_cap() == old.s_cap()
        &&& key_arch(e.k()) == A::ARCHETYPE_ID && old.free_head.raw() == 0x8000_0000 + t && 0 <= t < old.s_cap() && e.v() == old.slot_ver(t)
        &&& self.ent(old.s_len()) == e && forall|i: int| 0 <= i < old.s_len() ==> (#[trigger] self.ent(i)) == old.ent(i)
        &&& forall|s: int| 0 <= s < old.s_cap() && s != t ==> (#[trigger] self.slot(s)) == old.slot(s)
        &&& self.slot(t).idx().raw() == old.s_len() && self.slot_ver(t) == e.v()
        &&& self.free_head == old.slot(t).idx()
    }
    proof fn lemma_cre_free(self, old: Self, e: EntityAny)
        requires old.wf(), self.cre_pre(old, e)
        ensures self.wf_free()
    {
        reveal($name::cre_pre); reveal($name::wf_free); reveal($name::wf_shape);
        let t = key_idx(e.k());
        old.lemma_head();
        let ofl = choose|f: Seq<int>| old.freelist(f);
        assert(old.freelist(ofl));
        let fl = ofl.drop_first();
        Self::lemma_link(ofl, 0); Self::lemma_link(ofl, 1); Self::lemma_link(fl, 0);
        assert(ofl[0] == t);
        assert forall|k: int| 0 <= k < fl.len() implies 0 <= (#[trigger] fl[k]) < self.s_cap() && self.slot(fl[k]).idx().raw() == Self::link(fl, k + 1) by {
            Self::lemma_link(fl, k + 1); Self::lemma_link(ofl, k + 2);
            assert(fl[k] == ofl[k + 1]); assert(ofl[k + 1] != ofl[0]); assert(self.slot(ofl[k + 1]) == old.slot(ofl[k + 1]));
        }
        assert(fl.no_duplicates());
        assert forall|s: int| 0 <= s < self.s_cap() && #[trigger] self.slot_free(s) implies fl.contains(s) by {
            assert(s != t); assert(self.slot(s) == old.slot(s)); assert(old.slot_free(s)); assert(ofl.contains(s));
            let k = choose|k: int| 0 <= k < ofl.len() && ofl[k] == s; assert(fl[k - 1] == s);
        }
        assert(old.slot(ofl[0]).idx().raw() == Self::link(ofl, 1));
        assert(self.free_head.raw() == Self::link(fl, 0));
        assert(self.freelist(fl));
    }
    proof fn lemma_cre_dense(self, old: Self, e: EntityAny)
        requires old.wf(), self.cre_pre(old, e)
        ensures self.wf_dense(), self.wf_slots(), Self::created_slots(old, self, e)
    {
        reveal($name::cre_pre); reveal($name::wf_shape);
        let t = key_idx(e.k());
        old.lemma_head(); old.lemma_slot_ok(t);
        reveal($name::wf_dense); reveal($name::wf_slots);
        assert forall|i: int| 0 <= i < self.s_len() implies { let x = #[trigger] self.ent(i); key_arch(x.k()) == A::ARCHETYPE_ID && key_idx(x.k()) < self.s_cap()
            && self.slot(key_idx(x.k())).idx().raw() == i && self.slot_ver(key_idx(x.k())) == x.v() } by {
            if i < old.s_len() { old.lemma_dense(i); let u = key_idx(old.ent(i).k()); assert(u != t); assert(self.slot(u) == old.slot(u)); }
        }
        assert forall|s: int| 0 <= s < self.s_cap() implies { let x = (#[trigger] self.slot(s)).idx(); x.ok() && (!x.free() ==> x.raw() < self.s_len() && key_idx(self.ent(x.raw() as int).k()) == s) } by {
            if s != t { assert(self.slot(s) == old.slot(s)); assert(old.slot(s).idx().ok()); }
        }
        assert forall|s: int| 0 <= s < old.s_cap() && s != t implies (#[trigger] self.slot_ver(s)) == old.slot_ver(s) && self.slot_free(s) == old.slot_free(s) by { assert(self.slot(s) == old.slot(s)); }
    }
    proof fn lemma_created(self, old: Self, e: EntityAny)
        requires
            old.wf(), old.s_len() < old.s_cap(),
/*@lemma_created|C03,C04,C12*/ self.wf_shape(),
/*@lemma_created|C12*/ self.s_len() == old.s_len() + 1 && self.s_cap() == old.s_cap(),
/*@lemma_created|C14,C01*/ key_arch(e.k()) == A::ARCHETYPE_ID,
/*@lemma_created|C01,C08*/ old.free_head.raw() == 0x8000_0000 + key_idx(e.k()) && 0 <= key_idx(e.k()) < old.s_cap(),
/*@lemma_created|C01,C08*/ e.v() == old.slot_ver(key_idx(e.k())),
/*@lemma_created|C01*/ self.ent(old.s_len()) == e && forall|i: int| 0 <= i < old.s_len() ==> (#[trigger] self.ent(i)) == old.ent(i),
/*@lemma_created|C01,C08*/ forall|s: int| 0 <= s < old.s_cap() && s != key_idx(e.k()) ==> (#[trigger] self.slot(s)) == old.slot(s),
/*@lemma_created|C01*/ self.slot(key_idx(e.k())).idx().raw() == old.s_len(),
/*@lemma_created|C01,C08*/ self.slot_ver(key_idx(e.k())) == e.v(),
/*@lemma_created|C12*/ self.free_head == old.slot(key_idx(e.k())).idx(),
        ensures self.wf(), Self::created_slots(old, self, e)
    {
        assert(self.cre_pre(old, e)) by { reveal($name::cre_pre); }
        self.lemma_cre_free(old, e); self.lemma_cre_dense(old, e);
    }
    #[verifier::opaque]
    closed spec fn rem_pre(self, old: Self, p: int) -> bool {
        let t = key_idx(old.ent(p).k()); let l = key_idx(old.ent(old.s_len() - 1).k());
        &&& 0 <= p < old.s_len() && self.s_len() == old.s_len() - 1 && self.s_cap() == old.s_cap()
        &&& forall|i: int| 0 <= i < self.s_len() ==> (#[trigger] self.ent(i)) == (if i == p { old.ent(old.s_len() - 1) } else { old.ent(i) })
        &&& self.free_head.raw() == 0x8000_0000 + t
        &&& self.slot(t).idx() == old.free_head && self.slot_ver(t) == next_ver(old.slot_ver(t)) && !ver_overflow(old.slot_ver(t))
        &&& l != t ==> self.slot(l).idx().raw() == p && self.slot_ver(l) == old.slot_ver(l)
        &&& forall|s: int| 0 <= s < old.s_cap() && s != t && s != l ==> (#[trigger] self.slot(s)) == old.slot(s)
    }
    // the part of the frame of a removal that the free list needs
    proof fn lemma_rem_frame(self, old: Self, p: int, f: Seq<int>)
        requires old.wf(), self.rem_pre(old, p), old.freelist(f)
        ensures
            forall|k: int| 0 <= k < f.len() ==> 0 <= (#[trigger] f[k]) < old.s_cap() && f[k] != key_idx(old.ent(p).k())
                && self.slot(f[k]).idx().raw() == Self::link(f, k + 1),
            forall|s: int| 0 <= s < self.s_cap() && s != key_idx(old.ent(p).k()) && #[trigger] self.slot_free(s) ==> f.contains(s),
            0 <= key_idx(old.ent(p).k()) < self.s_cap(), self.free_head.raw() == 0x8000_0000 + key_idx(old.ent(p).k()),
            self.slot(key_idx(old.ent(p).k())).idx().raw() == Self::link(f, 0), f.no_duplicates(), !f.contains(key_idx(old.ent(p).k())),
            f.len() + 1 + self.s_len() == self.s_cap(), self.s_cap() == old.s_cap(),
    {
        reveal($name::rem_pre); reveal($name::wf_shape);
        let last = old.s_len() - 1; let t = key_idx(old.ent(p).k()); let l = key_idx(old.ent(last).k());
        old.lemma_dense(p); old.lemma_dense(last);
        assert forall|k: int| 0 <= k < f.len() implies 0 <= (#[trigger] f[k]) < old.s_cap() && f[k] != t && self.slot(f[k]).idx().raw() == Self::link(f, k + 1) by {
            assert(old.slot(f[k]).idx().raw() == Self::link(f, k + 1));
            Self::lemma_link(f, k + 1);
            if k + 1 < f.len() { assert(0 <= f[k + 1]); }
            assert(old.slot(f[k]).idx().free());
            assert(f[k] != t && f[k] != l);
            assert(self.slot(f[k]) == old.slot(f[k]));
        }
        assert forall|s: int| 0 <= s < self.s_cap() && s != t && #[trigger] self.slot_free(s) implies f.contains(s) by {
            if s != l { assert(self.slot(s) == old.slot(s)); assert(old.slot_free(s)); } else { assert(self.slot(s).idx().raw() == p); }
        }
    }
    proof fn lemma_rem_list(self, old: Self, p: int, f: Seq<int>, fl: Seq<int>)
        requires old.wf(), self.rem_pre(old, p), old.freelist(f), fl == seq![key_idx(old.ent(p).k())] + f
        ensures self.freelist(fl)
    {
        let t = key_idx(old.ent(p).k());
        self.lemma_rem_frame(old, p, f);
        lemma_cons(t, f, fl);
        assert forall|k: int| 0 <= k < fl.len() implies 0 <= (#[trigger] fl[k]) < self.s_cap() && self.slot(fl[k]).idx().raw() == Self::link(fl, k + 1) by {
            Self::lemma_link(fl, k + 1); Self::lemma_link(f, k);
            if k < f.len() { assert(fl[k + 1] == f[k]); }
            assert(Self::link(fl, k + 1) == Self::link(f, k));
            if k > 0 { assert(fl[k] == f[k - 1]); assert(self.slot(f[k - 1]).idx().raw() == Self::link(f, k - 1 + 1)); assert(k - 1 + 1 == k); assert(0 <= f[k - 1] < self.s_cap()); }
            else { assert(fl[0] == t); }
        }
        assert forall|s: int| 0 <= s < self.s_cap() && #[trigger] self.slot_free(s) implies fl.contains(s) by {
            if s != t { assert(f.contains(s)); }
        }
        assert(fl.len() + self.s_len() == self.s_cap());
        Self::lemma_link(fl, 0);
    }
    proof fn lemma_rem_free(self, old: Self, p: int)
        requires old.wf(), self.rem_pre(old, p)
        ensures self.wf_free(), old.free_head.free(), old.free_head.ok()
    {
        assert(old.free_head.free() && old.free_head.ok()) by {
            reveal($name::wf_free); let f = choose|f: Seq<int>| old.freelist(f); assert(old.freelist(f)); Self::lemma_link(f, 0);
            reveal($name::rem_pre); reveal($name::wf_shape); if f.len() > 0 { assert(0 <= f[0] < old.s_cap()); }
        }
        reveal($name::wf_free);
        let f = choose|f: Seq<int>| old.freelist(f);
        assert(old.freelist(f));
        self.lemma_rem_list(old, p, f, seq![key_idx(old.ent(p).k())] + f);
    }
    proof fn lemma_rem_dense(self, old: Self, p: int)
        requires old.wf(), self.rem_pre(old, p)
        ensures self.wf_dense()
    {
        reveal($name::rem_pre);
        let last = old.s_len() - 1; let t = key_idx(old.ent(p).k()); let l = key_idx(old.ent(last).k());
        old.lemma_dense(p); old.lemma_dense(last);
        reveal($name::wf_dense);
        assert forall|i: int| 0 <= i < self.s_len() implies { let x = #[trigger] self.ent(i); key_arch(x.k()) == A::ARCHETYPE_ID && key_idx(x.k()) < self.s_cap()
            && self.slot(key_idx(x.k())).idx().raw() == i && self.slot_ver(key_idx(x.k())) == x.v() } by {
            let j = if i == p { last } else { i };
            old.lemma_dense(j);
            let u = key_idx(old.ent(j).k());
            assert(u != t);
            if u != l { assert(self.slot(u) == old.slot(u)); }
        }
    }
    proof fn lemma_rem_slots(self, old: Self, p: int)
        requires old.wf(), self.rem_pre(old, p)
        ensures self.wf_slots(), Self::removed_slots(old, self, p)
    {
        self.lemma_rem_free(old, p);
        reveal($name::rem_pre);
        let last = old.s_len() - 1; let t = key_idx(old.ent(p).k()); let l = key_idx(old.ent(last).k());
        old.lemma_dense(p); old.lemma_dense(last);
        reveal($name::wf_slots); reveal($name::wf_shape);
        assert forall|s: int| 0 <= s < self.s_cap() implies { let x = (#[trigger] self.slot(s)).idx(); x.ok() && (!x.free() ==> x.raw() < self.s_len() && key_idx(self.ent(x.raw() as int).k()) == s) } by {
            if s == t { }
            else if s == l { assert(old.slot(s).idx().ok()); }
            else { assert(self.slot(s) == old.slot(s)); assert(old.slot(s).idx().ok()); let x = old.slot(s).idx(); if !x.free() { assert(key_idx(old.ent(x.raw() as int).k()) == s); assert(x.raw() != p && x.raw() != last); } }
        }
        assert forall|s: int| 0 <= s < old.s_cap() && s != t implies (#[trigger] self.slot_ver(s)) == old.slot_ver(s) && self.slot_free(s) == old.slot_free(s) by {
            if s != l { assert(self.slot(s) == old.slot(s)); }
        }
    }
    proof fn lemma_removed(self, old: Self, p: int)
        requires
            old.wf(), 0 <= p < old.s_len(),
/*@lemma_removed|C03,C04,C12*/ self.wf_shape(),
/*@lemma_removed|C12*/ self.s_len() == old.s_len() - 1 && self.s_cap() == old.s_cap(),
/*@lemma_removed|C01,C07*/ forall|i: int| 0 <= i < self.s_len() ==> (#[trigger] self.ent(i)) == (if i == p { old.ent(old.s_len() - 1) } else { old.ent(i) }),
/*@lemma_removed|C12*/ self.free_head.raw() == 0x8000_0000 + key_idx(old.ent(p).k()),
/*@lemma_removed|C12,C01*/ self.slot(key_idx(old.ent(p).k())).idx() == old.free_head,
/*@lemma_removed|C01,C08*/ self.slot_ver(key_idx(old.ent(p).k())) == next_ver(old.slot_ver(key_idx(old.ent(p).k()))),
/*@lemma_removed|C01,C08,C10*/ !ver_overflow(old.slot_ver(key_idx(old.ent(p).k()))),
/*@lemma_removed|C01*/ key_idx(old.ent(old.s_len() - 1).k()) != key_idx(old.ent(p).k()) ==> self.slot(key_idx(old.ent(old.s_len() - 1).k())).idx().raw() == p,
/*@lemma_removed|C01,C08*/ key_idx(old.ent(old.s_len() - 1).k()) != key_idx(old.ent(p).k()) ==> self.slot_ver(key_idx(old.ent(old.s_len() - 1).k())) == old.slot_ver(key_idx(old.ent(old.s_len() - 1).k())),
/*@lemma_removed|C01,C08*/ forall|s: int| 0 <= s < old.s_cap() && s != key_idx(old.ent(p).k()) && s != key_idx(old.ent(old.s_len() - 1).k()) ==> (#[trigger] self.slot(s)) == old.slot(s),
        ensures self.wf(), Self::removed_slots(old, self, p)
    {
        assert(self.rem_pre(old, p)) by { reveal($name::rem_pre); }
        self.lemma_rem_free(old, p); self.lemma_rem_dense(old, p); self.lemma_rem_slots(old, p);
    }
    proof fn lemma_clone_wf(self, old: Self)
        requires
            old.wf(),
/*@lemma_clone_wf|C03,C04,C13*/ self.wf_shape(),
/*@lemma_clone_wf|C13*/ Self::same_meta(old, self),
/*@lemma_clone_wf|C13*/ self.free_head == old.free_head,
/*@lemma_clone_wf|C13*/ forall|i: int| 0 <= i < self.s_len() ==> (#[trigger] self.ent(i)) == old.ent(i),
/*@lemma_clone_wf|C13*/ forall|s: int| 0 <= s < self.s_cap() ==> (#[trigger] self.slot(s)) == old.slot(s),
        ensures self.wf()
    { reveal($name::wf_shape); reveal($name::wf_dense); reveal($name::wf_slots); reveal($name::wf_free);
        let ofl = choose|f: Seq<int>| old.freelist(f);
        assert(old.freelist(ofl));
        assert forall|k: int| 0 <= k < ofl.len() implies 0 <= (#[trigger] ofl[k]) < self.s_cap() && self.slot(ofl[k]).idx().raw() == Self::link(ofl, k + 1) by { assert(self.slot(ofl[k]) == old.slot(ofl[k])); }
        assert forall|s: int| 0 <= s < self.s_cap() && #[trigger] self.slot_free(s) implies ofl.contains(s) by { assert(self.slot(s) == old.slot(s)); assert(old.slot_free(s)); }
        assert(self.freelist(ofl));
        assert forall|i: int| 0 <= i < self.s_len() implies { let x = #[trigger] self.ent(i); key_arch(x.k()) == A::ARCHETYPE_ID && key_idx(x.k()) < self.s_cap()
            && self.slot(key_idx(x.k())).idx().raw() == i && self.slot_ver(key_idx(x.k())) == x.v() } by { old.lemma_dense(i); let u = key_idx(old.ent(i).k()); assert(self.slot(u) == old.slot(u)); }
        assert forall|s: int| 0 <= s < self.s_cap() implies { let x = (#[trigger] self.slot(s)).idx(); x.ok() && (!x.free() ==> x.raw() < self.s_len() && key_idx(self.ent(x.raw() as int).k()) == s) } by { assert(self.slot(s) == old.slot(s)); old.lemma_slot_ok(s); assert(old.slot(s).idx().ok()); }
    }
    // ---- facts the generated code's contracts use
    proof fn lemma_len(self) requires self.wf() ensures 0 <= self.s_len() <= self.s_cap() <= 0x100_0000, self.ents().len() == self.s_len() #(, self.col~I().len() == self.s_len() )* { reveal($name::wf_shape); }
    proof fn lemma_dlookup(self, e: EntityDirectAny)
        ensures match self.dlookup(e) { Some(p) => p == key_idx(e.k()) && key_arch(e.k()) == A::ARCHETYPE_ID && e.v() == self.s_ver() && 0 <= p < self.s_len(),
            None => !(key_arch(e.k()) == A::ARCHETYPE_ID && e.v() == self.s_ver() && key_idx(e.k()) < self.s_len()) }
    { }
    proof fn lemma_at(self, i: int) requires self.wf(), 0 <= i < self.s_len() ensures self.lookup(self.ents()[i].any()) == Some(i) { self.lemma_dense(i); reveal($name::wf_shape); }
    proof fn lemma_lookup_arch(self, e: EntityAny) ensures self.lookup(e) is Some ==> key_arch(e.k()) == A::ARCHETYPE_ID { }
    proof fn lemma_all_same_wf(a: Self)
        requires a.wf()
        ensures forall|b: Self| #[trigger] Self::same_but_cols(a, b) && b.wf_shape() ==> b.wf(), forall|b: Self| #[trigger] Self::same_all(a, b) ==> b.wf()
    {
        assert forall|b: Self| #[trigger] Self::same_but_cols(a, b) && b.wf_shape() implies b.wf() by { Self::lemma_same_wf(a, b); }
        assert forall|b: Self| #[trigger] Self::same_all(a, b) implies b.wf() by { reveal($name::wf_shape); assert(b.wf_shape()); Self::lemma_same_wf(a, b); }
    }
    proof fn lemma_same_all(a: Self, b: Self) requires Self::same_all(a, b) ensures Self::same_but_cols(a, b), b.ents() == a.ents(), Self::same_meta(a, b), Self::same_events(a, b) #(, b.col~I() == a.col~I(), b.cell~I() == a.cell~I() )* { }
    proof fn lemma_but_cols(a: Self, b: Self) requires Self::same_but_cols(a, b) ensures b.ents() == a.ents(), Self::same_meta(a, b), Self::same_events(a, b) #(, b.cell~I() == a.cell~I() )* { }
    // ---- histories: sequences of states in which each step is one the contracts allow (a creation, a removal, or neither)
    pub open spec fn h_create(pre: Self, post: Self, e: Entity<A>) -> bool {
        &&& pre.wf() && post.wf() && pre.s_cap() <= post.s_cap() && key_arch(e.k()) == A::ARCHETYPE_ID
        &&& Self::created_slots(pre, post, e.any()) && Self::created_meta(pre, post) && post.ents() =~= pre.ents().push(e)
        #( &&& post.col~I().len() == pre.col~I().len() + 1 && forall|i: int| 0 <= i < pre.col~I().len() ==> (#[trigger] post.col~I()[i]) == pre.col~I()[i] )*
    }
    pub open spec fn h_remove(pre: Self, post: Self, p: int) -> bool { pre.wf() && post.wf() && 0 <= p < pre.s_len() && Self::removed(pre, post, p) }
    pub open spec fn h_keep(pre: Self, post: Self) -> bool { pre.wf() && post.wf() && (Self::same_but_cols(pre, post) || Self::same_but_events(pre, post)) }
    pub open spec fn h_step(pre: Self, post: Self) -> bool { Self::h_keep(pre, post) || (exists|e: Entity<A>| Self::h_create(pre, post, e)) || (exists|p: int| Self::h_remove(pre, post, p)) }
    pub open spec fn h_hist(h: Seq<Self>) -> bool { h.len() > 0 && h[0].wf() && forall|i: int| 0 <= i < h.len() - 1 ==> Self::h_step(#[trigger] h[i], h[i + 1]) }
    // a handle this storage has issued; one whose entity is gone
    pub open spec fn h_known(self, e: EntityAny) -> bool {
        let t = key_idx(e.k());
        key_arch(e.k()) == A::ARCHETYPE_ID && t < self.s_cap() && (e.v() < self.slot_ver(t) || (e.v() == self.slot_ver(t) && !self.slot_free(t)))
    }
    pub open spec fn h_dead(self, e: EntityAny) -> bool { key_idx(e.k()) < self.s_cap() && e.v() < self.slot_ver(key_idx(e.k())) }
    pub proof fn lemma_h_live(self, e: EntityAny)
        requires self.wf()
        ensures
/*@lemma_h_live|C01*/ self.h_known(e) ==> (self.lookup(e) is Some <==> !self.h_dead(e)),
/*@lemma_h_live|C01*/ self.lookup(e) is Some ==> self.h_known(e),
    { reveal($name::wf_shape); reveal($name::wf_slots); let t = key_idx(e.k()); assert(0 <= t); if t < self.s_cap() { assert(self.slot(t).idx().ok()); assert(!self.slot_free(t) ==> self.slot(t).idx().raw() < self.s_len()); } }
    proof fn lemma_h_wf(a: Self, b: Self) requires Self::h_step(a, b) ensures a.wf(), b.wf() {
        if !Self::h_keep(a, b) { if exists|c: Entity<A>| Self::h_create(a, b, c) { let c = choose|c: Entity<A>| Self::h_create(a, b, c); } else { let p = choose|p: int| Self::h_remove(a, b, p); } } }
    proof fn lemma_h_slots(pre: Self, post: Self) requires Self::same_but_cols(pre, post) || Self::same_but_events(pre, post) ensures pre.s_cap() == post.s_cap(), forall|s: int| post.slot(s) == pre.slot(s), post.ents() == pre.ents(), pre.s_ver() == post.s_ver(), pre.s_len() == post.s_len() { }
    pub proof fn lemma_h_step(pre: Self, post: Self, e: EntityAny)
        requires Self::h_step(pre, post), !VX_WRAPPING
        ensures
/*@lemma_h_step|C01,C08*/ pre.h_known(e) ==> post.h_known(e),
/*@lemma_h_step|C01,C08*/ pre.h_dead(e) ==> post.h_dead(e),
/*@lemma_h_step|C12*/ pre.s_cap() <= post.s_cap(),
/*@lemma_h_step|C09*/ pre.s_ver() <= post.s_ver(),
    {
        let t = key_idx(e.k());
        if Self::h_keep(pre, post) { Self::lemma_h_slots(pre, post); }
        else if exists|c: Entity<A>| Self::h_create(pre, post, c) {
            let c = choose|c: Entity<A>| Self::h_create(pre, post, c);
            if t < pre.s_cap() && t != key_idx(c.k()) { assert(post.slot_ver(t) == pre.slot_ver(t)); }
        } else {
            let p = choose|p: int| Self::h_remove(pre, post, p);
            let u = key_idx(pre.ents()[p].k());
            if t < pre.s_cap() && t != u { assert(post.slot_ver(t) == pre.slot_ver(t)); }
        }
    }
    // a creation issues a handle that was not known before, and that designates the new entity
    pub proof fn lemma_h_create(pre: Self, post: Self, e: Entity<A>)
        requires Self::h_create(pre, post, e)
        ensures
/*@lemma_h_create|C08*/ !pre.h_known(e.any()),
/*@lemma_h_create|C01*/ post.h_known(e.any()) && post.lookup(e.any()) == Some(pre.s_len()),
/*@lemma_h_create|C01,C02*/ forall|o: EntityAny| (#[trigger] pre.lookup(o)) is Some ==> post.lookup(o) == pre.lookup(o),
    {
        reveal($name::wf_shape);
        post.lemma_lookup(e.any()); post.lemma_at(pre.s_len()); assert(post.ents()[pre.s_len()] == e);
        assert forall|o: EntityAny| (#[trigger] pre.lookup(o)) is Some implies post.lookup(o) == pre.lookup(o) by {
            pre.lemma_lookup(o); let q = pre.lookup(o).unwrap(); assert(post.ents()[q] == pre.ents()[q]); post.lemma_at(q);
        }
    }
    // a removal kills exactly the removed entity; every other one keeps its handle and its values
    pub proof fn lemma_h_remove(pre: Self, post: Self, p: int)
        requires Self::h_remove(pre, post, p), !VX_WRAPPING
        ensures
/*@lemma_h_remove|C01*/ post.h_dead(pre.ents()[p].any()) && post.lookup(pre.ents()[p].any()) is None,
/*@lemma_h_remove|C01,C02,C07*/ forall|o: EntityAny| (#[trigger] pre.lookup(o)) is Some && pre.lookup(o) != Some(p) ==> { let q = pre.lookup(o).unwrap(); let r = post.lookup(o); r is Some && 0 <= r.unwrap() < post.s_len() #( && post.col~I()[r.unwrap()] == pre.col~I()[q] )* },
/*@lemma_h_remove|C09*/ pre.s_ver() < post.s_ver(),
    {
        reveal($name::wf_shape);
        pre.lemma_dense(p); pre.lemma_len(); post.lemma_len();
        let x = pre.ents()[p].any();
        assert(pre.ent(p) == x);
        assert(post.slot_ver(key_idx(x.k())) == x.v() + 1);
        assert forall|o: EntityAny| (#[trigger] pre.lookup(o)) is Some && pre.lookup(o) != Some(p) implies { let q = pre.lookup(o).unwrap(); let r = post.lookup(o); r is Some && 0 <= r.unwrap() < post.s_len() #( && post.col~I()[r.unwrap()] == pre.col~I()[q] )* } by {
            pre.lemma_lookup(o); let q = pre.lookup(o).unwrap(); let r = if q == pre.s_len() - 1 { p } else { q };
            assert(post.ents()[r] == pre.ents()[q]); post.lemma_at(r);
        }
    }
    // C01, C08 over whole histories
    pub proof fn lemma_h_hist(h: Seq<Self>, i: int, j: int, e: EntityAny)
        requires Self::h_hist(h), 0 <= i <= j < h.len(), !VX_WRAPPING
        ensures
/*@lemma_h_hist|C01,C08*/ h[i].h_known(e) ==> h[j].h_known(e),
/*@lemma_h_hist|C01*/ h[i].h_dead(e) ==> h[j].h_dead(e),
/*@lemma_h_hist|C01*/ h[i].h_known(e) && h[i].lookup(e) is None ==> h[j].lookup(e) is None,
/*@lemma_h_hist|C12*/ h[i].s_cap() <= h[j].s_cap(),
/*@lemma_h_hist|C09*/ h[i].s_ver() <= h[j].s_ver(),
            h[j].wf(),
        decreases j - i
    {
        if i < j { Self::lemma_h_hist(h, i, j - 1, e); assert(Self::h_step(h[j - 1], h[j - 1 + 1])); Self::lemma_h_step(h[j - 1], h[j], e);
            Self::lemma_h_wf(h[j - 1], h[j]); }
        else { if i > 0 { assert(Self::h_step(h[i - 1], h[i - 1 + 1])); Self::lemma_h_wf(h[i - 1], h[i]); } }
        h[i].lemma_h_live(e); h[j].lemma_h_live(e);
    }
    pub proof fn theorem_handles_unique(h: Seq<Self>, i: int, j: int, e: Entity<A>, f: Entity<A>)
        requires Self::h_hist(h), 0 <= i < j < h.len() - 1, Self::h_create(h[i], h[i + 1], e), Self::h_create(h[j], h[j + 1], f), !VX_WRAPPING
        ensures
/*@theorem_handles_unique|C08*/ e.any() != f.any()
    { Self::lemma_h_create(h[i], h[i + 1], e); Self::lemma_h_hist(h, i + 1, j, e.any()); Self::lemma_h_create(h[j], h[j + 1], f); }
    // C09: a direct handle taken at i and accepted at j: no removal in between, and it designates the same entity
    pub proof fn theorem_direct(h: Seq<Self>, i: int, j: int, d: EntityDirectAny)
        requires Self::h_hist(h), 0 <= i <= j < h.len(), h[i].dlookup(d) is Some, !VX_WRAPPING
        ensures
/*@theorem_direct|C09*/ h[j].dlookup(d) is Some <==> h[j].s_ver() == h[i].s_ver(),
/*@theorem_direct|C09*/ h[j].dlookup(d) is Some ==> h[j].dlookup(d) == h[i].dlookup(d) && h[j].ents()[h[i].dlookup(d).unwrap()] == h[i].ents()[h[i].dlookup(d).unwrap()],
/*@theorem_direct|C09*/ forall|k: int, p: int| i <= k < j && #[trigger] Self::h_remove(h[k], h[k + 1], p) ==> h[j].dlookup(d) is None,
/*@theorem_direct|C09*/ h[j].s_ver() == h[i].s_ver() ==> h[i].s_len() <= h[j].s_len(),
        decreases j - i
    {
        let e: EntityAny = arbitrary();
        assert forall|k: int, p: int| i <= k < j && #[trigger] Self::h_remove(h[k], h[k + 1], p) implies h[j].s_ver() > h[i].s_ver() by {
            Self::lemma_h_hist(h, i, k, e); Self::lemma_h_hist(h, k + 1, j, e); Self::lemma_h_remove(h[k], h[k + 1], p);
        }
        if i < j {
            Self::theorem_direct(h, i, j - 1, d);
            Self::lemma_h_hist(h, i, j - 1, e); Self::lemma_h_hist(h, j - 1, j, e);
            assert(Self::h_step(h[j - 1], h[j - 1 + 1]));
            let (a, b) = (h[j - 1], h[j]);
            if Self::h_keep(a, b) { Self::lemma_h_slots(a, b); }
            else if exists|c: Entity<A>| Self::h_create(a, b, c) { let c = choose|c: Entity<A>| Self::h_create(a, b, c); a.lemma_len();
                assert(forall|q: int| 0 <= q < a.s_len() ==> b.ents()[q] == a.ents()[q]); }
            else { let p = choose|p: int| Self::h_remove(a, b, p); Self::lemma_h_remove(a, b, p); }
        }
    }

}
@othercols

impl<'a, A: Archetype, #(T~I,)*> $borrow<'a, A, #(T~I,)*> {
    pub closed spec fn s_index(self) -> int { self.index as int }
    pub closed spec fn s_source(self) -> &'a $name<A, #(T~I,)*> { self.source }
    pub open spec fn wf(self) -> bool { self.s_source().wf() && 0 <= self.s_index() < self.s_source().s_len() }
}
impl<'a, A: Archetype, #(T~I,)*> $iter<'a, A, #(T~I,)*> {
    pub closed spec fn s_remaining(self) -> int { self.remaining as int }
    pub closed spec fn s_off(self) -> int { self.ptr_entity.off() }
    pub closed spec fn ent_at(self, i: int) -> Entity<A> { self.ptr_entity.cells()[i].unwrap() }
    #( pub closed spec fn c~I_at(self, i: int) -> T~I { self.ptr_d~I.cells()[i].unwrap() } )*
    pub closed spec fn same_cells(self, o: Self) -> bool { self.ptr_entity.cells() == o.ptr_entity.cells() #( && self.ptr_d~I.cells() == o.ptr_d~I.cells() )* }
    pub closed spec fn ok(self) -> bool {
        let o = self.ptr_entity.off();
        &&& 0 <= o && o + self.remaining <= self.ptr_entity.cells().len()
        &&& forall|i: int| o <= i < o + self.remaining ==> (#[trigger] self.ptr_entity.cells()[i]) is Some
        #( &&& self.ptr_d~I.off() == o && o + self.remaining <= self.ptr_d~I.cells().len()
           &&& forall|i: int| o <= i < o + self.remaining ==> (#[trigger] self.ptr_d~I.cells()[i]) is Some )*
    }
}
impl<'a, A: Archetype, #(T~I,)*> $iter_mut<'a, A, #(T~I,)*> {
    pub closed spec fn s_remaining(self) -> int { self.remaining as int }
    pub closed spec fn s_off(self) -> int { self.ptr_entity.off() }
    pub closed spec fn ent_at(self, i: int) -> Entity<A> { self.ptr_entity.cells()[i].unwrap() }
    #( pub closed spec fn c~I_at(self, i: int) -> T~I { self.ptr_d~I.cells()[i].unwrap() } )*
    pub closed spec fn same_cells(self, o: Self) -> bool { self.ptr_entity.cells() == o.ptr_entity.cells() #( && self.ptr_d~I.cells() == o.ptr_d~I.cells() )* }
    pub closed spec fn ok(self) -> bool {
        let o = self.ptr_entity.off();
        &&& 0 <= o && o + self.remaining <= self.ptr_entity.cells().len()
        &&& forall|i: int| o <= i < o + self.remaining ==> (#[trigger] self.ptr_entity.cells()[i]) is Some
        #( &&& self.ptr_d~I.off() == o && o + self.remaining <= self.ptr_d~I.cells().len()
           &&& forall|i: int| o <= i < o + self.remaining ==> (#[trigger] self.ptr_d~I.cells()[i]) is Some )*
    }
}
pub trait $view<'a, A: Archetype, #(T~I,)*>: Sized {
    spec fn vx_index(self) -> usize;
    spec fn vx_entity(self) -> &'a Entity<A>;
    #( spec fn vx_e~I(self) -> &'a mut T~I; )*
    fn new(index: usize, entity: &'a Entity<A>, #(e~I: &'a mut T~I,)*) -> (r: Self)
        ensures r.vx_index() == index, r.vx_entity() == entity, #( *r.vx_e~I() == *old(e~I), *final(r.vx_e~I()) == *final(e~I), )*;
}
pub trait $slices<'a, A: Archetype, #(T~I,)*>: Sized {
    spec fn vx_entities(self) -> &'a [Entity<A>];
    #( spec fn vx_s~I(self) -> &'a mut [T~I]; )*
    fn new(entities: &'a [Entity<A>], #(s~I: &'a mut [T~I],)*) -> (r: Self)
        ensures r.vx_entities() == entities, #( r.vx_s~I()@ == old(s~I)@, final(r.vx_s~I())@ == final(s~I)@, )*;
}
@impl StorageCanResolve<Entity<A>> for $name
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_pos(&self, k: Entity<A>) -> Option<int> { self.lookup(k.any()) }
    open spec fn vx_bound(&self, k: Entity<A>) -> int { self.s_len() }
    open spec fn vx_panic_resolve(&self, k: Entity<A>) -> bool { self.s_panic_entity(k.any()) }
    open spec fn vx_panic_destroy(&self, k: Entity<A>) -> bool { self.lookup(k.any()) is Some && (ver_overflow(k.v()) || ver_overflow(self.s_ver())) }
    open spec fn vx_direct(&self, k: Entity<A>, out: Option<EntityDirect<A>>) -> bool {
        match out {
            Some(d) => self.lookup(k.any()) is Some && key_idx(d.k()) == self.lookup(k.any()).unwrap() && key_arch(d.k()) == A::ARCHETYPE_ID && d.v() == self.s_ver(),
            None => self.lookup(k.any()) is None,
        }
    }
    open spec fn vx_destroyed(pre: Self, post: Self, k: Entity<A>, out: Option<A::Components>) -> bool {
        &&& post.wf()
        &&& match pre.lookup(k.any()) {
            Some(p) => Self::removed(pre, post, p) && out is Some #( && out.unwrap().vx_c~I() == pre.col~I()[p] )*,
            None => out is None && post == pre,
        }
    }
@endimpl
@impl StorageCanResolve<EntityDirect<A>> for $name
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_pos(&self, k: EntityDirect<A>) -> Option<int> { self.dlookup(k.any()) }
    open spec fn vx_bound(&self, k: EntityDirect<A>) -> int { self.s_len() }
    open spec fn vx_panic_resolve(&self, k: EntityDirect<A>) -> bool { self.s_panic_direct(k.any()) }
    open spec fn vx_panic_destroy(&self, k: EntityDirect<A>) -> bool { self.dlookup(k.any()) is Some && (ver_overflow(self.slot_ver(key_idx(self.ents()[self.dlookup(k.any()).unwrap()].k()))) || ver_overflow(self.s_ver())) }
    open spec fn vx_direct(&self, k: EntityDirect<A>, out: Option<EntityDirect<A>>) -> bool {
        match out { Some(d) => self.dlookup(k.any()) is Some && d == k, None => self.dlookup(k.any()) is None }
    }
    open spec fn vx_destroyed(pre: Self, post: Self, k: EntityDirect<A>, out: Option<A::Components>) -> bool {
        &&& post.wf()
        &&& match pre.dlookup(k.any()) {
            Some(p) => Self::removed(pre, post, p) && out is Some #( && out.unwrap().vx_c~I() == pre.col~I()[p] )*,
            None => out is None && post == pre,
        }
    }
@endimpl
@end
