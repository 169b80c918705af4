// ---- shims for the raw allocation of a column (std::alloc, std::ptr, NonNull, slice::from_raw_parts). TRUSTED.
// NonNull<U> stands for the pointer together with the block it owns: cells() is the content of the block, cell by cell.
// Values move: ptr::read takes the value out of its cell, ptr::copy moves it, and a cell may only be overwritten or freed
// when it holds nothing (or a value whose drop does nothing).
pub uninterp spec fn vx_size<T>() -> nat;
pub uninterp spec fn vx_align<T>() -> nat;
pub uninterp spec fn vx_fits<T>(n: nat) -> bool;      // n * size_of::<T>() is a valid allocation size
pub uninterp spec fn vx_count<T>(bytes: nat) -> nat;   // how many T a block of that size holds
pub uninterp spec fn vx_fresh<U>(u: U) -> bool;       // the cell holds no value
pub uninterp spec fn vx_forget<U>(u: U) -> bool;      // the cell holds nothing that must be dropped
pub uninterp spec fn vx_old_cells<U>(id: int) -> Seq<U>;
#[verifier::external_body]
pub proof fn vx_cell_axioms<T>()
    ensures vx_size::<MaybeUninit<T>>() == vx_size::<T>(), vx_align::<MaybeUninit<T>>() == vx_align::<T>(),
        forall|n: nat| #![trigger vx_fits::<MaybeUninit<T>>(n)] #![trigger vx_fits::<T>(n)] vx_fits::<MaybeUninit<T>>(n) == vx_fits::<T>(n),
        forall|n: nat| #![trigger vx_count::<MaybeUninit<T>>(n)] #![trigger vx_count::<T>(n)] vx_count::<MaybeUninit<T>>(n) == vx_count::<T>(n),
        vx_fits::<T>(0),
        forall|u: MaybeUninit<T>| #[trigger] vx_fresh(u) <==> u.o is None,
        forall|u: MaybeUninit<T>| #[trigger] vx_forget(u) <==> (u.o is None || vx_trivial_drop::<T>()),
{}
pub struct VxBytes { pub null: bool, pub id: int, pub esz: nat, pub align: nat, pub count: nat, pub keep: nat }
pub open spec fn vx_from_bytes<U>(n: &NonNull<U>, b: VxBytes) -> bool {
    n.live() && n.id() == b.id && n.blk() == b.count && n.cells().len() == b.count
    && (forall|i: int| 0 <= i < b.keep && i < b.count ==> (#[trigger] n.cells()[i]) == vx_old_cells::<U>(b.id)[i])
    && (forall|i: int| b.keep <= i < b.count ==> vx_fresh(#[trigger] n.cells()[i]))
}
#[verifier::external_body]
#[verifier::reject_recursive_types(U)]
pub struct NonNull<U> { t: PhantomData<U> }
pub open spec fn vx_ok<U>(n: &NonNull<U>) -> bool {
    n.live() && vx_fits::<U>(n.blk()) && (if vx_size::<U>() == 0 { n.blk() == 0 } else { n.cells().len() == n.blk() })
}
impl<U> NonNull<U> {
    pub uninterp spec fn cells(&self) -> Seq<U>;
    pub uninterp spec fn blk(&self) -> nat;
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn live(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_dangling(n: Ghost<int>) -> (r: Self)
        requires n@ == 0 || (vx_size::<U>() == 0 && n@ >= 0)
        ensures r.live(), r.blk() == 0, r.cells().len() == n@, forall|i: int| 0 <= i < n@ ==> vx_fresh(#[trigger] r.cells()[i])
    { unimplemented!() }
    // a block of zero-sized cells has any number of them
    #[verifier::external_body]
    pub fn vx_zst_resize(&mut self, n: Ghost<int>)
        requires n@ >= 0, vx_size::<U>() == 0 ==> forall|i: int| n@ <= i < old(self).cells().len() ==> vx_forget(#[trigger] old(self).cells()[i])
        ensures vx_size::<U>() != 0 ==> *final(self) == *old(self),
            vx_size::<U>() == 0 ==> final(self).live() == old(self).live() && final(self).blk() == old(self).blk() && final(self).id() == old(self).id() && final(self).cells().len() == n@
                && (forall|i: int| 0 <= i < n@ && i < old(self).cells().len() ==> (#[trigger] final(self).cells()[i]) == old(self).cells()[i])
                && (forall|i: int| old(self).cells().len() <= i < n@ ==> vx_fresh(#[trigger] final(self).cells()[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_assign(&mut self, v: Self)
        requires !old(self).live() || old(self).blk() == 0
        ensures *final(self) == v
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(p: VxPtr<U>) -> (r: Option<NonNull<U>>)
        requires p.bytes().null || (p.bytes().esz == vx_size::<U>() && p.bytes().align == vx_align::<U>())
        ensures match r { Some(n) => !p.bytes().null && vx_from_bytes(&n, p.bytes()), None => p.bytes().null }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: VxPtr<U>)
        ensures r.id() == self.id(), r.off() == 0, r.cells().len() == self.cells().len()
    { unimplemented!() }
}
pub open spec fn vx_seq<T>(s: Seq<MaybeUninit<T>>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| s[i].o) }
impl<T> NonNull<MaybeUninit<T>> {
    #[verifier::external_body]
    pub fn vx_cast_t(&self) -> (r: VxNN<T>) ensures r.id() == self.id(), r.cells() == vx_seq(self.cells())
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxNN<T> { t: PhantomData<T> }
impl<T> VxNN<T> {
    pub uninterp spec fn cells(&self) -> Seq<Option<T>>;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: VxPtr<T>) ensures r.id() == self.id(), r.off() == 0, r.cells() == self.cells() { unimplemented!() }
}
impl<T> VxPtr<MaybeUninit<T>> {
    // `p as *mut T`
    #[verifier::external_body]
    pub fn vx_as_t(self) -> (r: VxPtr<T>) ensures r.id() == self.id(), r.off() == self.off(), r.cells().len() == self.cells().len() { unimplemented!() }
    // `p as *mut u8`
    #[verifier::external_body]
    pub fn vx_as_u8(self) -> (r: VxPtr<u8>) ensures r.id() == self.id(), r.off() == self.off() { unimplemented!() }
}
impl<U> VxPtr<U> { pub uninterp spec fn bytes(&self) -> VxBytes; }
impl VxPtr<u8> {
    #[verifier::external_body]
    pub fn vx_as_t<U>(self) -> (r: VxPtr<U>) ensures r.id() == self.id(), r.off() == self.off(), r.bytes() == self.bytes() { unimplemented!() }
}
pub open spec fn vx_in<U, V>(p: VxPtr<V>, m: &NonNull<U>) -> bool { m.live() && p.id() == m.id() && 0 <= p.off() < m.cells().len() }

pub struct LayoutError {}
#[derive(Clone, Copy)]
pub struct Layout { pub bytes: usize, pub g: Ghost<(nat, nat, nat)> }
impl Layout {
    pub open spec fn esz(&self) -> nat { self.g@.0 }
    pub open spec fn align(&self) -> nat { self.g@.1 }
    pub open spec fn count(&self) -> nat { self.g@.2 }
    #[verifier::external_body]
    pub fn array<T>(n: usize) -> (r: Result<Layout, LayoutError>)
        ensures match r {
            Ok(l) => vx_fits::<T>(n as nat) && l.esz() == vx_size::<T>() && l.align() == vx_align::<T>() && l.count() == n && l.bytes == n * vx_size::<T>() && l.bytes <= isize::MAX
                && (vx_size::<T>() > 0 ==> (l.bytes > 0 <==> n > 0) && vx_count::<T>(l.bytes as nat) == n),
            Err(_) => !vx_fits::<T>(n as nat) }
    { unimplemented!() }
    pub fn size(&self) -> (r: usize) ensures r == self.bytes { self.bytes }
}
pub mod mem {
    use super::*;
    pub fn drop<V>(v: V) {}
    #[verifier::external_body]
    pub fn size_of<T>() -> (r: usize) ensures r == vx_size::<T>() { unimplemented!() }
}
pub mod alloc {
    use super::*;
    #[verifier::external_body]
    pub unsafe fn alloc(l: Layout) -> (r: VxPtr<u8>)
        requires l.bytes > 0
        ensures r.off() == 0, r.bytes().null || r.bytes() == (VxBytes { null: false, id: r.id(), esz: l.esz(), align: l.align(), count: l.count(), keep: 0 })
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn realloc<U>(m: &mut NonNull<U>, p: VxPtr<u8>, l: Layout, size: usize) -> (r: VxPtr<u8>)
        requires old(m).live(), p.id() == old(m).id(), p.off() == 0, l.esz() == vx_size::<U>(), l.align() == vx_align::<U>(), l.count() == old(m).blk(), l.bytes > 0, size > 0,
            forall|i: int| vx_count::<U>(size as nat) <= i < old(m).cells().len() ==> vx_forget(#[trigger] old(m).cells()[i])
        ensures r.off() == 0,
            r.bytes().null ==> *final(m) == *old(m),
            !r.bytes().null ==> !final(m).live() && r.bytes().id == r.id() && r.bytes().esz == l.esz() && r.bytes().align == l.align() && r.bytes().keep == old(m).cells().len()
                && vx_old_cells::<U>(r.id()) == old(m).cells()
                && r.bytes().count == vx_count::<U>(size as nat)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn dealloc<U>(m: &mut NonNull<U>, p: VxPtr<u8>, l: Layout)
        requires old(m).live(), p.id() == old(m).id(), p.off() == 0, l.esz() == vx_size::<U>(), l.align() == vx_align::<U>(), l.count() == old(m).blk(), l.bytes > 0,
            forall|i: int| 0 <= i < old(m).cells().len() ==> vx_forget(#[trigger] old(m).cells()[i])
        ensures !final(m).live()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_alloc_error(l: Layout) -> ! { unimplemented!() }
}
pub mod ptr {
    use super::*;
    pub unsafe fn read<T, P: VxPlace<T>>(m: &mut NonNull<MaybeUninit<T>>, p: P) -> (r: P::Val)
        requires p.readable(old(m))
        ensures vx_same_block(old(m), final(m)), p.taken(old(m), final(m), r)
    { p.vx_read(m) }
    pub unsafe fn write<T, P: VxPlace<T>>(m: &mut NonNull<MaybeUninit<T>>, p: P, v: P::Val)
        requires p.writable(old(m))
        ensures vx_same_block(old(m), final(m)), p.put(old(m), final(m), v)
    { p.vx_write(m, v) }
    // `*p = v`: the old value of a T is dropped; that of a MaybeUninit<T> is forgotten
    pub unsafe fn vx_assign_place<T, P: VxPlace<T>>(m: &mut NonNull<MaybeUninit<T>>, p: P, v: P::Val)
        requires p.assignable(old(m))
        ensures vx_same_block(old(m), final(m)), p.put(old(m), final(m), v)
    { p.vx_assign(m, v) }
    #[verifier::external_body]
    pub unsafe fn copy<U>(m: &mut NonNull<U>, src: VxPtr<U>, dst: VxPtr<U>, n: usize)
        requires n == 1, vx_in(src, old(m)), vx_in(dst, old(m)), src.off() == dst.off() || vx_forget(old(m).cells()[dst.off()])
        ensures vx_same_block(old(m), final(m)), src.off() == dst.off() ==> final(m).cells() == old(m).cells(),
            src.off() != dst.off() ==> exists|u: U| vx_fresh(u) && (#[trigger] final(m).cells()) == old(m).cells().update(dst.off(), old(m).cells()[src.off()]).update(src.off(), u)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn copy_nonoverlapping<U>(m: &mut NonNull<U>, src: VxPtr<U>, dst: VxPtr<U>, n: usize)
        requires n == 1, vx_in(src, old(m)), vx_in(dst, old(m)), src.off() != dst.off(), vx_forget(old(m).cells()[dst.off()])
        ensures vx_same_block(old(m), final(m)),
            exists|u: U| vx_fresh(u) && (#[trigger] final(m).cells()) == old(m).cells().update(dst.off(), old(m).cells()[src.off()]).update(src.off(), u)
    { unimplemented!() }
    // `(*p).write(v)` on a MaybeUninit cell: the old value is not dropped
    #[verifier::external_body]
    pub unsafe fn vx_cell_write<T>(m: &mut NonNull<MaybeUninit<T>>, p: VxPtr<MaybeUninit<T>>, v: T)
        requires vx_in(p, old(m)), vx_forget(old(m).cells()[p.off()])
        ensures vx_same_block(old(m), final(m)), final(m).cells() == old(m).cells().update(p.off(), MaybeUninit { o: Some(v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn drop_in_place<T>(m: &mut NonNull<MaybeUninit<T>>, p: VxPtr<T>)
        requires vx_in(p, old(m)), old(m).cells()[p.off()].o is Some
        ensures vx_same_block(old(m), final(m)), final(m).cells() == old(m).cells().update(p.off(), MaybeUninit { o: None::<T> })
    { unimplemented!() }
}
// a pointer to a cell (*mut MaybeUninit<T>) or to the value in it (*mut T)
pub trait VxPlace<T>: Sized {
    type Val;
    spec fn readable(&self, m: &NonNull<MaybeUninit<T>>) -> bool;
    spec fn writable(&self, m: &NonNull<MaybeUninit<T>>) -> bool;
    spec fn assignable(&self, m: &NonNull<MaybeUninit<T>>) -> bool;
    spec fn taken(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: Self::Val) -> bool;
    spec fn put(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: Self::Val) -> bool;
    unsafe fn vx_read(self, m: &mut NonNull<MaybeUninit<T>>) -> (r: Self::Val)
        requires self.readable(old(m)) ensures vx_same_block(old(m), final(m)), self.taken(old(m), final(m), r);
    unsafe fn vx_write(self, m: &mut NonNull<MaybeUninit<T>>, v: Self::Val)
        requires self.writable(old(m)) ensures vx_same_block(old(m), final(m)), self.put(old(m), final(m), v);
    unsafe fn vx_assign(self, m: &mut NonNull<MaybeUninit<T>>, v: Self::Val)
        requires self.assignable(old(m)) ensures vx_same_block(old(m), final(m)), self.put(old(m), final(m), v);
}
impl<T> VxPlace<T> for VxPtr<MaybeUninit<T>> {
    type Val = MaybeUninit<T>;
    open spec fn readable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { vx_in(*self, m) }
    open spec fn writable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { vx_in(*self, m) && vx_forget(m.cells()[self.off()]) }
    open spec fn assignable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { self.writable(m) }
    open spec fn taken(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: MaybeUninit<T>) -> bool { v == a.cells()[self.off()] && b.cells() == a.cells().update(self.off(), MaybeUninit { o: None::<T> }) }
    open spec fn put(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: MaybeUninit<T>) -> bool { b.cells() == a.cells().update(self.off(), v) }
    #[verifier::external_body]
    unsafe fn vx_read(self, m: &mut NonNull<MaybeUninit<T>>) -> (r: MaybeUninit<T>) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_write(self, m: &mut NonNull<MaybeUninit<T>>, v: MaybeUninit<T>) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_assign(self, m: &mut NonNull<MaybeUninit<T>>, v: MaybeUninit<T>) { unimplemented!() }
}
impl<T> VxPlace<T> for VxPtr<T> {
    type Val = T;
    open spec fn readable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { vx_in(*self, m) && m.cells()[self.off()].o is Some }
    open spec fn writable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { vx_in(*self, m) && vx_forget(m.cells()[self.off()]) }
    open spec fn assignable(&self, m: &NonNull<MaybeUninit<T>>) -> bool { vx_in(*self, m) && (m.cells()[self.off()].o is Some || vx_trivial_drop::<T>()) }
    open spec fn taken(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: T) -> bool { a.cells()[self.off()].o == Some(v) && b.cells() == a.cells().update(self.off(), MaybeUninit { o: None::<T> }) }
    open spec fn put(&self, a: &NonNull<MaybeUninit<T>>, b: &NonNull<MaybeUninit<T>>, v: T) -> bool { b.cells() == a.cells().update(self.off(), MaybeUninit { o: Some(v) }) }
    #[verifier::external_body]
    unsafe fn vx_read(self, m: &mut NonNull<MaybeUninit<T>>) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_write(self, m: &mut NonNull<MaybeUninit<T>>, v: T) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_assign(self, m: &mut NonNull<MaybeUninit<T>>, v: T) { unimplemented!() }
}
pub open spec fn vx_same_block<U>(a: &NonNull<U>, b: &NonNull<U>) -> bool { b.live() == a.live() && b.id() == a.id() && b.blk() == a.blk() }
pub trait VxRawSlice<T>: Sized {
    type Out;
    spec fn pre(&self, m: &NonNull<MaybeUninit<T>>, n: usize) -> bool;
    spec fn post(&self, m: &NonNull<MaybeUninit<T>>, n: usize, s: Seq<Self::Out>) -> bool;
    unsafe fn vx_from_raw<'a>(self, m: &'a NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a [Self::Out])
        requires self.pre(m, n)
        ensures self.post(m, n, r@);
    unsafe fn vx_from_raw_mut<'a>(self, m: &'a mut NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a mut [Self::Out])
        requires self.pre(old(m), n)
        ensures self.post(old(m), n, r@), self.post(final(m), n, final(r)@), final(r)@.len() == n, vx_same_block(old(m), final(m)), final(m).cells().len() == old(m).cells().len(),
            forall|i: int| n <= i < old(m).cells().len() ==> (#[trigger] final(m).cells()[i]) == old(m).cells()[i];
}
impl<T> VxRawSlice<T> for VxPtr<MaybeUninit<T>> {
    type Out = MaybeUninit<T>;
    open spec fn pre(&self, m: &NonNull<MaybeUninit<T>>, n: usize) -> bool { m.live() && self.id() == m.id() && self.off() == 0 && n <= m.cells().len() }
    open spec fn post(&self, m: &NonNull<MaybeUninit<T>>, n: usize, s: Seq<MaybeUninit<T>>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) == m.cells()[i] }
    #[verifier::external_body]
    unsafe fn vx_from_raw<'a>(self, m: &'a NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a [MaybeUninit<T>]) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_from_raw_mut<'a>(self, m: &'a mut NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a mut [MaybeUninit<T>]) { unimplemented!() }
}
impl<T> VxRawSlice<T> for VxPtr<T> {
    type Out = T;
    open spec fn pre(&self, m: &NonNull<MaybeUninit<T>>, n: usize) -> bool { m.live() && self.id() == m.id() && self.off() == 0 && n <= m.cells().len() && forall|i: int| 0 <= i < n ==> (#[trigger] m.cells()[i]).o is Some }
    open spec fn post(&self, m: &NonNull<MaybeUninit<T>>, n: usize, s: Seq<T>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m.cells()[i]).o == Some(s[i]) }
    #[verifier::external_body]
    unsafe fn vx_from_raw<'a>(self, m: &'a NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a [T]) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_from_raw_mut<'a>(self, m: &'a mut NonNull<MaybeUninit<T>>, n: usize) -> (r: &'a mut [T]) { unimplemented!() }
}
pub mod slice {
    use super::*;
    pub unsafe fn from_raw_parts<'a, T, P: VxRawSlice<T>>(m: &'a NonNull<MaybeUninit<T>>, p: P, n: usize) -> (r: &'a [P::Out])
        requires p.pre(m, n) ensures p.post(m, n, r@)
    { p.vx_from_raw(m, n) }
    pub unsafe fn from_raw_parts_mut<'a, T, P: VxRawSlice<T>>(m: &'a mut NonNull<MaybeUninit<T>>, p: P, n: usize) -> (r: &'a mut [P::Out])
        requires p.pre(old(m), n)
        ensures p.post(old(m), n, r@), p.post(final(m), n, final(r)@), final(r)@.len() == n, vx_same_block(old(m), final(m)), final(m).cells().len() == old(m).cells().len(),
            forall|i: int| n <= i < old(m).cells().len() ==> (#[trigger] final(m).cells()[i]) == old(m).cells()[i]
    { p.vx_from_raw_mut(m, n) }
}
impl<T> MaybeUninit<T> {
    pub fn new(v: T) -> (r: Self) ensures r.o == Some(v) { MaybeUninit { o: Some(v) } }
    pub fn uninit() -> (r: Self) ensures r.o is None { MaybeUninit { o: None } }
    pub unsafe fn assume_init(self) -> (r: T) requires self.o is Some ensures self.o == Some(r) { match self.o { Some(x) => x, None => vx_panic(Ghost(false)) } }
}
impl<T> DataPtr<T> {
    pub open spec fn view(&self) -> Seq<Option<T>> {
        if vx_ok(&self.0) { vx_seq(self.0.cells()) } else { Seq::new(0x1_0000_0000_0000_0000, |i: int| None::<T>) }
    }
}

pub proof fn vx_view_facts<T>(d: &DataPtr<T>)
    ensures vx_ok(&d.0) ==> d@.len() == d.0.cells().len() && forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d.0.cells()[i]).o == d@[i],
        !vx_ok(&d.0) ==> d@.len() == 0x1_0000_0000_0000_0000 && forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]) is None,
{}
