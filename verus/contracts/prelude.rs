// ---- shims: models of std items used by the extracted code. TRUSTED unless they have a body.
pub open spec fn vx_pok<X>(p: bool, now: &X, pre: &X) -> bool { p && *now == *pre }
pub const VX_MAX: u32 = 0xffff_ffff;

#[verifier::external_body]
pub fn vx_panic(ok: Ghost<bool>) -> ! requires ok@ { panic!() }
pub fn vx_assume_checked(b: bool) requires b {}

pub trait VxOption<T>: Sized {
    spec fn vx_sp(self) -> Option<T>;
    fn vx_unwrap(self, ok: Ghost<bool>) -> (r: T)
        requires self.vx_sp() is None ==> ok@
        ensures self.vx_sp() == Some(r);
    unsafe fn vx_unwrap_unchecked(self) -> (r: T)
        requires self.vx_sp() is Some
        ensures self.vx_sp() == Some(r);
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_sp(self) -> Option<T> { self }
    fn vx_unwrap(self, ok: Ghost<bool>) -> (r: T) { match self { Some(x) => x, None => vx_panic(ok) } }
    unsafe fn vx_unwrap_unchecked(self) -> (r: T) { match self { Some(x) => x, None => vx_panic(Ghost(false)) } }
}
impl<T, E> VxOption<T> for Result<T, E> {
    open spec fn vx_sp(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn vx_unwrap(self, ok: Ghost<bool>) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_panic(ok) } }
    unsafe fn vx_unwrap_unchecked(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_panic(Ghost(false)) } }
}

// std functions vstd gives no specification for: their documented meaning
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T>[ core::mem::replace::<T> ](d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None::<T> });
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None::<T> });
pub assume_specification[ u32::overflowing_add ](a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a + b > u32::MAX), r.0 as int == (if a + b > u32::MAX { a + b - 0x1_0000_0000 } else { a + b });
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r as int == (if a > b { a - b } else { b - a });
pub assume_specification[ u32::rotate_left ](a: u32, n: u32) -> (r: u32) ensures n < 32 && n > 0 ==> r == (a << n) | (a >> ((32 - n) as u32)), n == 0 ==> r == a;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == (a as int + b as int - 1) / b as int;
pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T) ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { b } else { a });
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T) ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { a } else { b });

pub trait VxSlice<T> {
    spec fn vx_sv(&self) -> Seq<T>;
    unsafe fn vx_get_unchecked(&self, i: usize) -> (r: &T)
        requires 0 <= i < self.vx_sv().len()
        ensures *r == self.vx_sv()[i as int];
    unsafe fn vx_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T)
        requires 0 <= i < old(self).vx_sv().len()
        ensures *r == old(self).vx_sv()[i as int], final(self).vx_sv() == old(self).vx_sv().update(i as int, *final(r));
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(p) => i < old(self).vx_sv().len() && *p == old(self).vx_sv()[i as int] && final(self).vx_sv() == old(self).vx_sv().update(i as int, *final(p)),
            None => i >= old(self).vx_sv().len() && final(self).vx_sv() == old(self).vx_sv(),
        };
}
impl<T> VxSlice<T> for [T] {
    open spec fn vx_sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    unsafe fn vx_get_unchecked(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn vx_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    pub const MIN: NonZeroU32 = NonZeroU32 { v: 1 };
    pub fn get(self) -> (r: u32) ensures r == self.v { self.v }
    pub fn checked_add(self, o: u32) -> (r: Option<NonZeroU32>)
        ensures match r { Some(x) => x.v == self.v + o, None => self.v + o > u32::MAX }
    { match self.v.checked_add(o) { Some(v) => Some(NonZeroU32 { v }), None => None } }
    pub const MAX: NonZeroU32 = NonZeroU32 { v: 0xffff_ffff };
    pub fn saturating_add(self, o: u32) -> (r: NonZeroU32)
        ensures r.v == if self.v + o > 0xffff_ffff { 0xffff_ffffu32 } else { (self.v + o) as u32 }
    { match self.v.checked_add(o) { Some(v) => NonZeroU32 { v }, None => NonZeroU32 { v: 0xffff_ffff } } }
    pub unsafe fn new_unchecked(v: u32) -> (r: NonZeroU32)
        requires v != 0,
        ensures r.v == v
    { NonZeroU32 { v } }
    pub fn new(v: u32) -> (r: Option<NonZeroU32>)
        ensures r == if v == 0 { None::<NonZeroU32> } else { Some(NonZeroU32 { v }) }
    { if v == 0 { None } else { Some(NonZeroU32 { v }) } }
}

pub struct MaybeUninit<T> { pub o: Option<T> }
impl<T> MaybeUninit<T> {
    pub fn write(&mut self, v: T) ensures final(self).o == Some(v) { self.o = Some(v); }
}

// RefCell: contents + cell identity. A runtime borrow needs the permission vx_may(id, is_mut);
// contracts state exactly which permissions a function may use.
pub uninterp spec fn vx_trivial_drop<T>() -> bool;
pub uninterp spec fn vx_may(id: int, is_mut: bool) -> bool;
// only a borrow() / borrow_mut() call that returned gives this: the runtime check was made
pub uninterp spec fn vx_took(id: int, is_mut: bool) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { t: std::cell::RefCell<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ref<'b, T: ?Sized> { t: &'b T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefMut<'b, T: ?Sized> { t: &'b mut T }
impl<T> RefCell<T> {
    pub uninterp spec fn view(&self) -> T;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r@ == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self)@, final(self)@ == *final(r), final(self).id() == old(self).id() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: Ref<'_, T>)
        requires vx_may(self.id(), false)
        ensures *r.tgt() == self@, r.guard() == (self.id(), false), vx_took(self.id(), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> (r: RefMut<'_, T>)
        requires vx_may(self.id(), true)
        ensures *r.tgt() == self@, r.guard() == (self.id(), true), vx_took(self.id(), true) { unimplemented!() }
}
impl<'b, T: ?Sized> Ref<'b, T> {
    pub uninterp spec fn tgt(&self) -> &'b T;
    pub uninterp spec fn guard(&self) -> (int, bool);
    #[verifier::external_body]
    pub fn vx_target(&self) -> (r: &'b T) ensures r == self.tgt() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_guard(&self) -> (r: Ghost<(int, bool)>) ensures r@ == self.guard() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mapped(g: Ghost<(int, bool)>, t: &'b T) -> (r: Self) ensures r.tgt() == t, r.guard() == g@ { unimplemented!() }
}
impl<'b, T: ?Sized> RefMut<'b, T> {
    pub uninterp spec fn tgt(&self) -> &'b mut T;
    pub uninterp spec fn guard(&self) -> (int, bool);
    #[verifier::external_body]
    pub fn vx_target(&self) -> (r: &'b mut T) ensures r == self.tgt() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_guard(&self) -> (r: Ghost<(int, bool)>) ensures r@ == self.guard() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mapped(g: Ghost<(int, bool)>, t: &'b mut T) -> (r: Self) ensures r.tgt() == t, r.guard() == g@ { unimplemented!() }
}
impl<T> std::ops::Deref for Ref<'_, T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures r == self.tgt() { unimplemented!() }
}

// DataPtr: `view()[i]` is Some(v) iff cell i is allocated and holds the live value v.
// Its functions carry the contracts of contracts/dataptr.vspec; their bodies are verified in the unit `dataptr`.
@dataptr
// Raw pointers walked by the iterators: a position in a snapshot of a column's cells.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPtr<T> { p: *mut T }
impl<T> Copy for VxPtr<T> {}
impl<T> Clone for VxPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T> VxPtr<T> {
    pub uninterp spec fn cells(&self) -> Seq<Option<T>>;
    pub uninterp spec fn off(&self) -> int;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub unsafe fn vx_ref<'x>(&self) -> (r: &'x T)
        requires 0 <= self.off() < self.cells().len(), self.cells()[self.off()] is Some
        ensures self.cells()[self.off()] == Some(*r)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn vx_mut<'x>(&self) -> (r: &'x mut T)
        requires 0 <= self.off() < self.cells().len(), self.cells()[self.off()] is Some
        ensures self.cells()[self.off()] == Some(*r)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn add(&self, n: usize) -> (r: VxPtr<T>)
        requires 0 <= self.off() + n <= self.cells().len()
        ensures r.cells() == self.cells(), r.off() == self.off() + n, r.id() == self.id()
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn offset(&self, n: isize) -> (r: VxPtr<T>)
        requires 0 <= self.off() + n <= self.cells().len()
        ensures r.cells() == self.cells(), r.off() == self.off() + n, r.id() == self.id()
    { unimplemented!() }
}
