// ---- gecs' public traits (traits.rs): the members with a body are extracted below; the required ones carry these contracts
// a key handed to the API, as the handle it holds
pub enum VxKey { E(EntityAny), D(EntityDirectAny) }
pub trait EntityKey: Clone + Copy {
    type DestroyOutput; type DirectOutput;
    spec fn vx_key(self) -> VxKey;
    spec fn vx_dk(d: Self::DirectOutput) -> EntityDirectAny;
}
impl<A: Archetype> EntityKey for Entity<A> { type DestroyOutput = Option<A::Components>; type DirectOutput = EntityDirect<A>;
    open spec fn vx_key(self) -> VxKey { VxKey::E(self.any()) } open spec fn vx_dk(d: EntityDirect<A>) -> EntityDirectAny { d.any() } }
impl<A: Archetype> EntityKey for EntityDirect<A> { type DestroyOutput = Option<A::Components>; type DirectOutput = EntityDirect<A>;
    open spec fn vx_key(self) -> VxKey { VxKey::D(self.any()) } open spec fn vx_dk(d: EntityDirect<A>) -> EntityDirectAny { d.any() } }
impl EntityKey for EntityAny { type DestroyOutput = Option<()>; type DirectOutput = EntityDirectAny;
    open spec fn vx_key(self) -> VxKey { VxKey::E(self) } open spec fn vx_dk(d: EntityDirectAny) -> EntityDirectAny { d } }
impl EntityKey for EntityDirectAny { type DestroyOutput = Option<()>; type DirectOutput = EntityDirectAny;
    open spec fn vx_key(self) -> VxKey { VxKey::D(self) } open spec fn vx_dk(d: EntityDirectAny) -> EntityDirectAny { d } }
pub trait EntityKeyTyped<A: Archetype>: EntityKey { }
impl<A: Archetype> EntityKeyTyped<A> for Entity<A> { }
impl<A: Archetype> EntityKeyTyped<A> for EntityDirect<A> { }

pub trait Archetype: Sized {
    const ARCHETYPE_ID: ArchetypeId;
    type Components;
    type Slices<'a> where Self: 'a;
    type View<'a> where Self: 'a;
    type Borrow<'a> where Self: 'a;
}
// what the contracts below say about an archetype, in the vocabulary of its storage
pub trait ArchSpec: Archetype {
    spec fn a_wf(self) -> bool;
    spec fn a_len(self) -> int;
    spec fn a_ver(self) -> u32;
    spec fn a_ent(self, i: int) -> EntityAny;
    spec fn a_pos(self, k: VxKey) -> Option<int>;           // the dense position a handle designates
    spec fn a_panic(self, k: VxKey) -> bool;                // debug builds: a forged handle of this archetype
    spec fn a_over(self, k: VxKey) -> bool;                 // version overflow when destroying
    spec fn a_removed(pre: Self, post: Self, p: int) -> bool;
    spec fn a_out(self, p: int, out: Self::Components) -> bool;
    #[verifier::prophetic]
    spec fn a_viewed<'a>(pre: Self, post: Self, p: int, v: Self::View<'a>) -> bool;
    spec fn a_borrowed<'a>(self, p: int, b: Self::Borrow<'a>) -> bool;
}
pub open spec fn a_dead<A: ArchSpec>(a: A, k: VxKey) -> bool { a.a_pos(k) is Some && a.a_over(k) }
// the direct handle of the entity at p, as of now
pub open spec fn a_direct_of<A: ArchSpec>(a: A, p: int, d: EntityDirectAny) -> bool { key_idx(d.k()) == p && key_arch(d.k()) == A::ARCHETYPE_ID && d.v() == a.a_ver() }

pub trait ArchetypeCanResolve<K: EntityKey>: ArchSpec {
    fn resolve_for(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<usize>)
        requires
/*@resolve_for|C03*/ self.a_wf(),
/*@resolve_for|C10*/ self.a_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_for|C01,C03,C14*/ match r { Some(i) => self.a_pos(k.vx_key()) == Some(i as int) && i < self.a_len(), None => self.a_pos(k.vx_key()) is None };
    fn resolve_direct(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<K::DirectOutput>)
        requires
/*@resolve_direct|C03*/ self.a_wf(),
/*@resolve_direct|C10*/ self.a_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_direct|C01,C09,C14*/ match r { Some(d) => self.a_pos(k.vx_key()) is Some && a_direct_of(*self, self.a_pos(k.vx_key()).unwrap(), K::vx_dk(d)), None => self.a_pos(k.vx_key()) is None };
    fn resolve_view(&mut self, k: K, vx_ok: Ghost<bool>) -> (r: Option<Self::View<'_>>)
        requires
/*@resolve_view|C03*/ old(self).a_wf(),
/*@resolve_view|C10*/ old(self).a_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_view|C01,C02*/ match r { Some(v) => old(self).a_pos(k.vx_key()) is Some && Self::a_viewed(*old(self), *final(self), old(self).a_pos(k.vx_key()).unwrap(), v), None => old(self).a_pos(k.vx_key()) is None && *final(self) == *old(self) },
/*@resolve_view|C03*/ final(self).a_wf();
    fn resolve_borrow(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<Self::Borrow<'_>>)
        requires
/*@resolve_borrow|C03*/ self.a_wf(),
/*@resolve_borrow|C10*/ self.a_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_borrow|C01,C02*/ match r { Some(b) => self.a_pos(k.vx_key()) is Some && self.a_borrowed(self.a_pos(k.vx_key()).unwrap(), b), None => self.a_pos(k.vx_key()) is None };
    fn resolve_destroy(&mut self, k: K, vx_ok: Ghost<bool>) -> (r: Option<Self::Components>)
        requires
/*@resolve_destroy|C03*/ old(self).a_wf(),
/*@resolve_destroy|C10*/ (old(self).a_panic(k.vx_key()) || a_dead(*old(self), k.vx_key())) ==> vx_ok@
        ensures
/*@resolve_destroy|C03*/ final(self).a_wf(),
/*@resolve_destroy|C01,C02,C04,C09,C12*/ match r { Some(c) => old(self).a_pos(k.vx_key()) is Some && Self::a_removed(*old(self), *final(self), old(self).a_pos(k.vx_key()).unwrap()) && old(self).a_out(old(self).a_pos(k.vx_key()).unwrap(), c), None => old(self).a_pos(k.vx_key()) is None && *final(self) == *old(self) };
}
pub trait ArchetypeHas<C>: ArchSpec {
    const COMPONENT_ID: u8;
    spec fn h_col(self) -> Seq<C>;
    spec fn h_cell(self) -> int;
    spec fn h_comp(c: Self::Components) -> C;
    spec fn h_view<'a>(v: Self::View<'a>) -> C;
    spec fn h_bval<'a>(b: Self::Borrow<'a>) -> C;
    spec fn h_bcell<'a>(b: Self::Borrow<'a>) -> int;
    spec fn h_bok<'a>(b: Self::Borrow<'a>) -> bool;
    spec fn h_only(pre: Self, post: Self) -> bool;        // nothing but this column differs
    spec fn h_same(pre: Self, post: Self) -> bool;
    fn resolve_get_slice(&mut self) -> (r: &[C])
        requires
/*@resolve_get_slice|C03*/ old(self).a_wf()
        ensures
/*@resolve_get_slice|C02,C05*/ r@ =~= old(self).h_col() && Self::h_same(*old(self), *final(self)),
/*@resolve_get_slice|C03*/ final(self).a_wf();
    fn resolve_get_slice_mut(&mut self) -> (r: &mut [C])
        requires
/*@resolve_get_slice_mut|C03*/ old(self).a_wf()
        ensures
/*@resolve_get_slice_mut|C02,C05*/ r@ =~= old(self).h_col() && final(self).h_col() =~= final(r)@ && Self::h_only(*old(self), *final(self)),
/*@resolve_get_slice_mut|C03*/ final(self).a_wf();
    fn resolve_borrow_slice(&self) -> (r: Ref<[C]>)
        requires
/*@resolve_borrow_slice|C03*/ self.a_wf(),
/*@resolve_borrow_slice|C11*/ vx_may(self.h_cell(), false)
        ensures
/*@resolve_borrow_slice|C02,C05*/ (*r.tgt())@ =~= self.h_col(),
/*@resolve_borrow_slice|C11*/ r.guard() == (self.h_cell(), false);
    fn resolve_borrow_slice_mut(&self) -> (r: RefMut<[C]>)
        requires
/*@resolve_borrow_slice_mut|C03*/ self.a_wf(),
/*@resolve_borrow_slice_mut|C11*/ vx_may(self.h_cell(), true)
        ensures
/*@resolve_borrow_slice_mut|C02,C05*/ (*r.tgt())@ =~= self.h_col(),
/*@resolve_borrow_slice_mut|C11*/ r.guard() == (self.h_cell(), true);
    fn resolve_extract_components(c: &Self::Components) -> (r: &C)
        ensures
/*@resolve_extract_components|C02,C05*/ *r == Self::h_comp(*c);
    fn resolve_extract_components_mut(c: &mut Self::Components) -> (r: &mut C)
        ensures
/*@resolve_extract_components_mut|C02,C05*/ *r == Self::h_comp(*old(c)) && Self::h_comp(*final(c)) == *final(r);
    fn resolve_extract_view<'a>(v: &'a Self::View<'_>) -> (r: &'a C)
        ensures
/*@resolve_extract_view|C02,C05*/ *r == Self::h_view(*v);
    fn resolve_extract_view_mut<'a>(v: &'a mut Self::View<'_>) -> (r: &'a mut C)
        ensures
/*@resolve_extract_view_mut|C02,C05*/ *r == Self::h_view(*old(v)) && Self::h_view(*final(v)) == *final(r);
    fn resolve_extract_borrow<'a>(b: &'a Self::Borrow<'_>) -> (r: Ref<'a, C>)
        requires
/*@resolve_extract_borrow|C03*/ Self::h_bok(*b),
/*@resolve_extract_borrow|C11*/ vx_may(Self::h_bcell(*b), false)
        ensures
/*@resolve_extract_borrow|C02,C05*/ *r.tgt() == Self::h_bval(*b),
/*@resolve_extract_borrow|C11*/ r.guard() == (Self::h_bcell(*b), false);
    fn resolve_extract_borrow_mut<'a>(b: &'a Self::Borrow<'_>) -> (r: RefMut<'a, C>)
        requires
/*@resolve_extract_borrow_mut|C03*/ Self::h_bok(*b),
/*@resolve_extract_borrow_mut|C11*/ vx_may(Self::h_bcell(*b), true)
        ensures
/*@resolve_extract_borrow_mut|C02,C05*/ *r.tgt() == Self::h_bval(*b),
/*@resolve_extract_borrow_mut|C11*/ r.guard() == (Self::h_bcell(*b), true);
}
pub trait World: Sized { const NUM_ARCHETYPES: usize; type Capacities; }
pub trait WorldSpec: World { spec fn w_wf(self) -> bool; }
pub trait WorldHas<A: ArchSpec>: WorldSpec {
    spec fn w_arch(self) -> A;
    spec fn w_only(pre: Self, post: Self) -> bool;        // no other archetype differs
    spec fn w_full(self) -> bool;
    spec fn w_room(pre: A) -> bool;
    spec fn w_created(pre: A, post: A, c: A::Components, e: Entity<A>) -> bool;
    spec fn w_refused(pre: A, c: A::Components, back: A::Components) -> bool;
    fn resolve_create(&mut self, data: A::Components, vx_ok: Ghost<bool>) -> (r: Entity<A>)
        requires
/*@resolve_create|C03*/ old(self).w_wf(),
/*@resolve_create|C10*/ old(self).w_full() ==> vx_ok@
        ensures
/*@resolve_create|C01,C02,C12*/ Self::w_created(old(self).w_arch(), final(self).w_arch(), data, r) ,
/*@resolve_create|C03*/ final(self).w_wf(),
/*@resolve_create|C01,C02*/ Self::w_only(*old(self), *final(self));
    fn resolve_create_within_capacity(&mut self, data: A::Components) -> (r: Result<Entity<A>, A::Components>)
        requires
/*@resolve_create_within_capacity|C03*/ old(self).w_wf()
        ensures
/*@resolve_create_within_capacity|C01,C02,C12*/ match r { Ok(e) => Self::w_created(old(self).w_arch(), final(self).w_arch(), data, e) && Self::w_room(old(self).w_arch()), Err(c) => Self::w_refused(old(self).w_arch(), data, c) && *final(self) == *old(self) },
/*@resolve_create_within_capacity|C03*/ final(self).w_wf(),
/*@resolve_create_within_capacity|C01,C02*/ Self::w_only(*old(self), *final(self));
    fn resolve_destroy(&mut self, k: Entity<A>, vx_ok: Ghost<bool>) -> (r: Option<A::Components>)
        requires
/*@resolve_destroy|C03*/ old(self).w_wf(),
/*@resolve_destroy|C10*/ (old(self).w_arch().a_panic(k.vx_key()) || a_dead(old(self).w_arch(), k.vx_key())) ==> vx_ok@
        ensures
/*@resolve_destroy|C01,C02,C04,C09,C12*/ match r { Some(c) => old(self).w_arch().a_pos(k.vx_key()) is Some && A::a_removed(old(self).w_arch(), final(self).w_arch(), old(self).w_arch().a_pos(k.vx_key()).unwrap()) && old(self).w_arch().a_out(old(self).w_arch().a_pos(k.vx_key()).unwrap(), c),
            None => old(self).w_arch().a_pos(k.vx_key()) is None && *final(self) == *old(self) },
/*@resolve_destroy|C03*/ final(self).w_wf(),
/*@resolve_destroy|C01,C02*/ Self::w_only(*old(self), *final(self));
    fn resolve_archetype(&self) -> (r: &A)
        ensures
/*@resolve_archetype|C01,C02*/ *r == self.w_arch();
    fn resolve_archetype_mut(&mut self) -> (r: &mut A)
        ensures
/*@resolve_archetype_mut|C01,C02*/ *r == old(self).w_arch() && final(self).w_arch() == *final(r) && Self::w_only(*old(self), *final(self));
}
pub trait WorldCanResolve<K: EntityKey>: WorldSpec {
    spec fn w_known(k: K) -> bool;
    spec fn w_pos(self, k: VxKey) -> Option<int>;
    spec fn w_panic(self, k: VxKey) -> bool;
    spec fn w_over(self, k: VxKey) -> bool;
    spec fn w_direct(self, k: VxKey, d: EntityDirectAny) -> bool;
    spec fn w_destroyed(pre: Self, post: Self, k: VxKey, out: K::DestroyOutput) -> bool;
    fn resolve_contains(&self, k: K, vx_ok: Ghost<bool>) -> (r: bool)
        requires
/*@resolve_contains|C03*/ self.w_wf(),
/*@resolve_contains|C10,C14*/ self.w_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_contains|C01,C14*/ Self::w_known(k) && r == (self.w_pos(k.vx_key()) is Some);
    fn resolve_direct(&self, k: K, vx_ok: Ghost<bool>) -> (r: Option<K::DirectOutput>)
        requires
/*@resolve_direct|C03*/ self.w_wf(),
/*@resolve_direct|C10,C14*/ self.w_panic(k.vx_key()) ==> vx_ok@
        ensures
/*@resolve_direct|C01,C09,C14*/ Self::w_known(k) && match r { Some(d) => self.w_pos(k.vx_key()) is Some && self.w_direct(k.vx_key(), K::vx_dk(d)), None => self.w_pos(k.vx_key()) is None };
    fn resolve_destroy(&mut self, k: K, vx_ok: Ghost<bool>) -> (r: K::DestroyOutput)
        requires
/*@resolve_destroy|C03*/ old(self).w_wf(),
/*@resolve_destroy|C10,C14*/ (old(self).w_panic(k.vx_key()) || old(self).w_over(k.vx_key())) ==> vx_ok@
        ensures
/*@resolve_destroy|C01,C02,C04,C09,C14*/ Self::w_known(k) && Self::w_destroyed(*old(self), *final(self), k.vx_key(), r),
/*@resolve_destroy|C03*/ final(self).w_wf();
}

// ---- the provided methods of gecs::traits (bodies extracted below, for every archetype and world)
pub trait ArchetypeX: ArchSpec {
    fn contains<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: bool) where Self: ArchetypeCanResolve<K>
        requires
/*@contains|C03*/ self.a_wf(),
/*@contains|C10*/ self.a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@contains|C01,C14*/ r == (self.a_pos(entity.vx_key()) is Some);
    fn resolve<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<usize>) where Self: ArchetypeCanResolve<K>
        requires
/*@resolve|C03*/ self.a_wf(),
/*@resolve|C10*/ self.a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@resolve|C01,C03,C14*/ match r { Some(i) => self.a_pos(entity.vx_key()) == Some(i as int) && i < self.a_len(), None => self.a_pos(entity.vx_key()) is None };
    fn to_direct<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<K::DirectOutput>) where Self: ArchetypeCanResolve<K>
        requires
/*@to_direct|C03*/ self.a_wf(),
/*@to_direct|C10*/ self.a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@to_direct|C01,C09,C14*/ match r { Some(d) => self.a_pos(entity.vx_key()) is Some && a_direct_of(*self, self.a_pos(entity.vx_key()).unwrap(), K::vx_dk(d)), None => self.a_pos(entity.vx_key()) is None };
    fn view<K: EntityKey>(&mut self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<Self::View<'_>>) where Self: ArchetypeCanResolve<K>
        requires
/*@view|C03*/ old(self).a_wf(),
/*@view|C10*/ old(self).a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@view|C01,C02,C05*/ match r { Some(v) => old(self).a_pos(entity.vx_key()) is Some && Self::a_viewed(*old(self), *final(self), old(self).a_pos(entity.vx_key()).unwrap(), v), None => old(self).a_pos(entity.vx_key()) is None && *final(self) == *old(self) },
/*@view|C03*/ final(self).a_wf();
    fn borrow<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<Self::Borrow<'_>>) where Self: ArchetypeCanResolve<K>
        requires
/*@borrow|C03*/ self.a_wf(),
/*@borrow|C10*/ self.a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@borrow|C01,C02,C05*/ match r { Some(b) => self.a_pos(entity.vx_key()) is Some && self.a_borrowed(self.a_pos(entity.vx_key()).unwrap(), b), None => self.a_pos(entity.vx_key()) is None };
    fn destroy<K: EntityKey>(&mut self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<Self::Components>) where Self: ArchetypeCanResolve<K>
        requires
/*@destroy|C03*/ old(self).a_wf(),
/*@destroy|C10*/ (old(self).a_panic(entity.vx_key()) || a_dead(*old(self), entity.vx_key())) ==> vx_ok@
        ensures
/*@destroy|C03*/ final(self).a_wf(),
/*@destroy|C01,C02,C04,C07,C09,C12*/ match r { Some(c) => old(self).a_pos(entity.vx_key()) is Some && Self::a_removed(*old(self), *final(self), old(self).a_pos(entity.vx_key()).unwrap()) && old(self).a_out(old(self).a_pos(entity.vx_key()).unwrap(), c), None => old(self).a_pos(entity.vx_key()) is None && *final(self) == *old(self) };
    fn get_slice<C>(&mut self) -> (r: &[C]) where Self: ArchetypeHas<C>
        requires
/*@get_slice|C03*/ old(self).a_wf()
        ensures
/*@get_slice|C02,C05*/ r@ =~= old(self).h_col() && Self::h_same(*old(self), *final(self)),
/*@get_slice|C03*/ final(self).a_wf();
    fn get_slice_mut<C>(&mut self) -> (r: &mut [C]) where Self: ArchetypeHas<C>
        requires
/*@get_slice_mut|C03*/ old(self).a_wf()
        ensures
/*@get_slice_mut|C02,C05*/ r@ =~= old(self).h_col() && final(self).h_col() =~= final(r)@ && Self::h_only(*old(self), *final(self)),
/*@get_slice_mut|C03*/ final(self).a_wf();
    fn borrow_slice<C>(&self) -> (r: Ref<[C]>) where Self: ArchetypeHas<C>
        requires
/*@borrow_slice|C03*/ self.a_wf(),
/*@borrow_slice|C11*/ vx_may(self.h_cell(), false)
        ensures
/*@borrow_slice|C02,C05*/ (*r.tgt())@ =~= self.h_col(),
/*@borrow_slice|C11*/ r.guard() == (self.h_cell(), false);
    fn borrow_slice_mut<C>(&self) -> (r: RefMut<[C]>) where Self: ArchetypeHas<C>
        requires
/*@borrow_slice_mut|C03*/ self.a_wf(),
/*@borrow_slice_mut|C11*/ vx_may(self.h_cell(), true)
        ensures
/*@borrow_slice_mut|C02,C05*/ (*r.tgt())@ =~= self.h_col(),
/*@borrow_slice_mut|C11*/ r.guard() == (self.h_cell(), true);
}
pub trait WorldX: WorldSpec {
    fn create<A: ArchSpec>(&mut self, components: A::Components, vx_ok: Ghost<bool>) -> (r: Entity<A>) where Self: WorldHas<A>
        requires
/*@create|C03*/ old(self).w_wf(),
/*@create|C10*/ old(self).w_full() ==> vx_ok@
        ensures
/*@create|C01,C02,C12*/ Self::w_created(old(self).w_arch(), final(self).w_arch(), components, r),
/*@create|C03*/ final(self).w_wf(),
/*@create|C01,C02*/ Self::w_only(*old(self), *final(self));
    fn create_within_capacity<A: ArchSpec>(&mut self, components: A::Components) -> (r: Result<Entity<A>, A::Components>) where Self: WorldHas<A>
        requires
/*@create_within_capacity|C03*/ old(self).w_wf()
        ensures
/*@create_within_capacity|C01,C02,C12*/ match r { Ok(e) => Self::w_created(old(self).w_arch(), final(self).w_arch(), components, e) && Self::w_room(old(self).w_arch()), Err(c) => Self::w_refused(old(self).w_arch(), components, c) && *final(self) == *old(self) },
/*@create_within_capacity|C03*/ final(self).w_wf(),
/*@create_within_capacity|C01,C02*/ Self::w_only(*old(self), *final(self));
    fn contains<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: bool) where Self: WorldCanResolve<K>
        requires
/*@contains|C03*/ self.w_wf(),
/*@contains|C10,C14*/ self.w_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@contains|C01,C14*/ Self::w_known(entity) && r == (self.w_pos(entity.vx_key()) is Some);
    fn to_direct<K: EntityKey>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<K::DirectOutput>) where Self: WorldCanResolve<K>
        requires
/*@to_direct|C03*/ self.w_wf(),
/*@to_direct|C10,C14*/ self.w_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@to_direct|C01,C09,C14*/ Self::w_known(entity) && match r { Some(d) => self.w_pos(entity.vx_key()) is Some && self.w_direct(entity.vx_key(), K::vx_dk(d)), None => self.w_pos(entity.vx_key()) is None };
    fn view<A: ArchSpec, K: EntityKeyTyped<A>>(&mut self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<A::View<'_>>) where Self: WorldHas<A>, A: ArchetypeCanResolve<K>
        requires
/*@view|C03*/ old(self).w_arch().a_wf(),
/*@view|C10*/ old(self).w_arch().a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@view|C01,C02*/ match r { Some(v) => old(self).w_arch().a_pos(entity.vx_key()) is Some && A::a_viewed(old(self).w_arch(), final(self).w_arch(), old(self).w_arch().a_pos(entity.vx_key()).unwrap(), v), None => old(self).w_arch().a_pos(entity.vx_key()) is None && final(self).w_arch() == old(self).w_arch() },
/*@view|C01,C02*/ Self::w_only(*old(self), *final(self)) && final(self).w_arch().a_wf();
    fn borrow<A: ArchSpec, K: EntityKeyTyped<A>>(&self, entity: K, vx_ok: Ghost<bool>) -> (r: Option<A::Borrow<'_>>) where Self: WorldHas<A>, A: ArchetypeCanResolve<K>
        requires
/*@borrow|C03*/ self.w_arch().a_wf(),
/*@borrow|C10*/ self.w_arch().a_panic(entity.vx_key()) ==> vx_ok@
        ensures
/*@borrow|C01,C02*/ match r { Some(b) => self.w_arch().a_pos(entity.vx_key()) is Some && self.w_arch().a_borrowed(self.w_arch().a_pos(entity.vx_key()).unwrap(), b), None => self.w_arch().a_pos(entity.vx_key()) is None };
    fn destroy<K: EntityKey>(&mut self, entity: K, vx_ok: Ghost<bool>) -> (r: K::DestroyOutput) where Self: WorldCanResolve<K>
        requires
/*@destroy|C03*/ old(self).w_wf(),
/*@destroy|C10,C14*/ (old(self).w_panic(entity.vx_key()) || old(self).w_over(entity.vx_key())) ==> vx_ok@
        ensures
/*@destroy|C01,C02,C04,C09,C14*/ Self::w_known(entity) && Self::w_destroyed(*old(self), *final(self), entity.vx_key(), r),
/*@destroy|C03*/ final(self).w_wf();
    fn archetype<A: ArchSpec>(&self) -> (r: &A) where Self: WorldHas<A>
        ensures
/*@archetype|C01,C02*/ *r == self.w_arch();
    fn archetype_mut<A: ArchSpec>(&mut self) -> (r: &mut A) where Self: WorldHas<A>
        ensures
/*@archetype_mut|C01,C02*/ *r == old(self).w_arch() && final(self).w_arch() == *final(r) && Self::w_only(*old(self), *final(self));
}
