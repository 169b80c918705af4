// ---- shims for syn / proc_macro2 / std collections (TRUSTED: documented behaviour of the dependency)
pub trait VxKey { type V; spec fn kv(&self) -> Self::V; }
impl VxKey for u8 { type V = u8; open spec fn kv(&self) -> u8 { *self } }
impl VxKey for String { type V = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K: VxKey, V> { k: K, v: V }
impl<K: VxKey, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::V, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k.kv(), v),
            match r { Some(o) => old(self).m().dom().contains(k.kv()) && o == old(self).m()[k.kv()], None => !old(self).m().dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(o) => self.m().dom().contains(k.kv()) && *o == self.m()[k.kv()], None => !self.m().dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(k.kv()) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K: VxKey> { k: K }
impl<K: VxKey> HashSet<K> {
    pub uninterp spec fn m(&self) -> Set<K::V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).m() == old(self).m().insert(k.kv()), r == !old(self).m().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.m().contains(k.kv()) { unimplemented!() }
}
#[verifier::external_body] pub struct Span { x: u8 }
impl Clone for Span { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Copy for Span {}
#[verifier::external_body] pub struct Ident { x: u8 }
impl Ident {
    pub uninterp spec fn tx(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.tx() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
    #[verifier::external_body] pub fn new(s: &str, p: Span) -> (r: Self) ensures r.tx() == s@ { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.tx() == o.tx() } }
impl PartialEq for Ident { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct TokenStream { x: u8 }
impl TokenStream {
    pub uninterp spec fn tx(&self) -> Seq<char>;
    pub uninterp spec fn arms(&self) -> Seq<(Seq<char>, Seq<ParseQueryParam>)>;   // the per-archetype blocks of a generated query: archetype, bound parameters
    pub uninterp spec fn is_error(&self) -> bool;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.tx() { unimplemented!() }
    pub fn into(self) -> (r: Self) ensures r == self { self }
}
impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_tokens() -> TokenStream { unimplemented!() }
#[verifier::external_body] pub fn vx_tokens_of(q: &Vec<TokenStream>) -> (r: TokenStream) ensures r.arms() == arms_of(q@) && !r.is_error() { unimplemented!() }
/// the block of one archetype: its name and the parameters whose types it interpolates
#[verifier::external_body] pub fn vx_arm(a: &Ident, ty: &Vec<TokenStream>) -> (r: TokenStream) ensures r.arms() == seq![(a.tx(), vx_src(ty@))] { unimplemented!() }
pub uninterp spec fn vx_src(t: Seq<TokenStream>) -> Seq<ParseQueryParam>;
pub open spec fn arms_of(q: Seq<TokenStream>) -> Seq<(Seq<char>, Seq<ParseQueryParam>)> decreases q.len() { if q.len() == 0 { seq![] } else { arms_of(q.drop_last()) + q.last().arms() } }
pub trait VxText { spec fn tt(&self) -> Seq<char>; }
impl VxText for String { open spec fn tt(&self) -> Seq<char> { self@ } }
impl VxText for Ident { open spec fn tt(&self) -> Seq<char> { self.tx() } }
#[verifier::external_body] pub fn vx_ident_of<X: VxText>(x: &X) -> (r: Ident) ensures r.tx() == x.tt() { unimplemented!() }
pub open spec fn all_plain(b: Seq<ParseQueryParam>) -> bool { forall|i: int| 0 <= i < b.len() ==> plain(#[trigger] b[i]) }
pub open spec fn plain(p: ParseQueryParam) -> bool { !(p.param_type is OneOf) && !reserved(p.param_type) }
impl<'a> VxIter<'a, ParseQueryParam> {
    #[verifier::external_body] pub fn vx_map_tokens(self) -> Vec<TokenStream> { unimplemented!() }
    #[verifier::external_body] pub fn vx_map_bind(self) -> Vec<TokenStream> requires self.pos() == 0, all_plain(self.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_map_types(self) -> (r: Vec<TokenStream>) requires self.pos() == 0, all_plain(self.seq()) ensures vx_src(r@) == self.seq() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_text() -> String { unimplemented!() }
#[verifier::external_body] pub fn vx_ident() -> Ident { unimplemented!() }
#[verifier::external_body] pub struct Expr { x: u8 }
#[verifier::external_body] pub struct Type { x: u8 }
pub mod syn {
    use super::*;
    #[verifier::external_body] pub struct Error { x: u8 }
    pub type Result<T> = std::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body] pub fn new<X>(span: Span, m: X) -> Error { unimplemented!() }
        #[verifier::external_body] pub fn new_spanned<S, X>(s: S, m: X) -> Error { unimplemented!() }
        #[verifier::external_body] pub fn into_compile_error(self) -> (r: TokenStream) ensures r.is_error() { unimplemented!() }
    }
}
// a syn parse buffer: `id` names its content
#[verifier::external_body] pub struct ParseBuffer { x: u8 }
pub type ParseStream<'a> = &'a ParseBuffer;
/// q is a position (or a group's buffer) reached while reading buffer id: results of parsing are only known up to that position,
/// so nothing is assumed about reading the same buffer twice
pub uninterp spec fn vx_at(id: int, q: int) -> bool;
pub uninterp spec fn vx_parsed<T>(id: int) -> T;
pub uninterp spec fn vx_items<T>(id: int) -> Seq<T>;
/// the attributes read from buffer id: each one parsed there, up to a point where no `#` follows
pub open spec fn vx_attrs(id: int, s: Seq<ParseAttribute>) -> bool { attrs_ok(s) && lacks::<VxPound>(id) }
pub open spec fn attrs_ok(s: Seq<ParseAttribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> attr_ok(#[trigger] s[i]) }
pub open spec fn attr_ok(a: ParseAttribute) -> bool { exists|q: int| #[trigger] ParseAttribute::vx_ok(q, a) }
pub open spec fn saw<T>(id: int) -> bool { exists|q: int| #[trigger] vx_at(id, q) && vx_peek::<T>(q) }
pub open spec fn lacks<T>(id: int) -> bool { exists|q: int| #[trigger] vx_at(id, q) && !vx_peek::<T>(q) }
pub open spec fn named(id: int, n: Ident) -> bool { exists|q: int| #[trigger] vx_at(id, q) && n == vx_parsed::<Ident>(q) }
pub open spec fn keyword(q: int) -> bool { vx_peek::<kw::Entity>(q) || vx_peek::<kw::EntityDirect>(q) || vx_peek::<kw::EntityAny>(q) || vx_peek::<kw::EntityDirectAny>(q) || vx_peek::<kw::OneOf>(q) || vx_peek::<kw::Option>(q) || vx_peek::<kw::With>(q) || vx_peek::<kw::Without>(q) }

impl ParseBuffer {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn parse<T: Parse>(&self) -> (r: syn::Result<T>) ensures r is Ok ==> exists|q: int| vx_at(self.id(), q) && #[trigger] T::vx_ok(q, r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn lookahead1(&self) -> (r: VxLook) ensures vx_at(self.id(), r.id()) { unimplemented!() }
    #[verifier::external_body] pub fn peek<T>(&self) -> (r: bool) ensures exists|q: int| #[trigger] vx_at(self.id(), q) && r == vx_peek::<T>(q) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
    #[verifier::external_body] pub fn vx_parenthesized(&self) -> (r: syn::Result<ParseBuffer>) ensures r is Ok ==> vx_at(self.id(), r->Ok_0.id()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_braced(&self) -> (r: syn::Result<ParseBuffer>) ensures r is Ok ==> vx_at(self.id(), r->Ok_0.id()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_bracketed(&self) -> (r: syn::Result<ParseBuffer>) ensures r is Ok ==> vx_at(self.id(), r->Ok_0.id()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_parse_input<T: Parse>(a: TokenStream) -> (r: syn::Result<T>) ensures r is Ok ==> r->Ok_0 == vx_input::<T>(a) && exists|q: int| #[trigger] T::vx_ok(q, r->Ok_0) { unimplemented!() }
/// what a macro's argument parses to (when it does)
pub uninterp spec fn vx_input<T>(a: TokenStream) -> T;
/// the archetypes (with their ids and components) a generated world declares
pub uninterp spec fn vx_declares(t: TokenStream) -> Seq<DataArchetype>;
#[verifier::external_body] pub fn generate_world(w: &DataWorld, raw: &String) -> (r: TokenStream) ensures vx_declares(r) == w.archetypes@ { unimplemented!() }
pub trait Parse: Sized { spec fn vx_ok(id: int, r: Self) -> bool;
    fn parse(input: ParseStream) -> (r: syn::Result<Self>) ensures
/*@Parse|C05,C15,C16*/ r is Ok ==> Self::vx_ok(input.id(), r->Ok_0); }
pub uninterp spec fn vx_peek<T>(id: int) -> bool;
#[verifier::external_body] pub struct VxLook { x: u8 }
impl VxLook {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn peek<T>(&self) -> (r: bool) ensures r == vx_peek::<T>(self.id()) { unimplemented!() }
    #[verifier::external_body] pub fn error(self) -> syn::Error { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(P)] pub struct Punctuated<T, P> { t: T, p: P }
impl<T, P> Punctuated<T, P> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body] pub fn parse_terminated(b: &ParseBuffer) -> (r: syn::Result<Self>) ensures r is Ok ==> exists|q: int| #[trigger] vx_at(b.id(), q) && r->Ok_0.seq() == vx_items::<T>(q) { unimplemented!() }
}
pub struct Comma; pub struct Semi; pub struct Colon; pub struct Mut; pub struct VxTok; pub struct Lt; pub struct Gt; pub struct VxPound; pub struct VxBar; pub struct VxUnder { pub span: Span }
pub struct LitBool { pub value: bool }
#[verifier::external_body] pub struct LitStr { x: u8 }
impl LitStr { pub uninterp spec fn sv(&self) -> Seq<char>; #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.sv() { unimplemented!() } }
#[verifier::external_body] pub struct LitInt { x: u8 }
impl LitInt { pub uninterp spec fn iv(&self) -> int; #[verifier::external_body] pub fn base10_parse(&self) -> (r: syn::Result<u8>) ensures r is Ok ==> r->Ok_0 as int == self.iv() { unimplemented!() } }
pub mod kw { pub struct ecs_archetype; pub struct ecs_name; pub struct cfg; pub struct archetype_id; pub struct component_id; pub struct Entity; pub struct EntityAny; pub struct EntityDirect; pub struct EntityDirectAny; pub struct OneOf; pub struct Option; pub struct With; pub struct Without; }
impl Parse for Ident { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for TokenStream { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Expr { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Type { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for LitStr { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for LitBool { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for LitInt { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Comma { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Semi { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Colon { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Mut { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for VxTok { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Lt { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for Gt { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for VxPound { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for VxBar { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for VxUnder { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::Entity { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::EntityAny { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::EntityDirect { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::EntityDirectAny { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::OneOf { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::Option { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::With { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::Without { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::ecs_archetype { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::ecs_name { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::cfg { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::archetype_id { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl Parse for kw::component_id { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }
impl<T> Parse for Option<T> { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }

// ---- iterators (TRUSTED): a std iterator over a known sequence
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxIter<'a, T> { x: &'a T }
impl<'a, T> VxIter<'a, T> {
    pub uninterp spec fn seq(&self) -> Seq<T>; pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn vx_next(&mut self) -> (r: Option<&'a T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r { Some(x) => old(self).pos() < old(self).seq().len() && *x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                      None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() } { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxDrain<T> { x: T }
impl<T> VxDrain<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>; pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn vx_next(&mut self) -> (r: Option<T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r { Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                      None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() } { unimplemented!() }
    #[verifier::external_body] pub fn vx_collect(self) -> (r: Vec<T>) requires self.pos() == 0 ensures r@ == self.seq() { unimplemented!() }
    #[verifier::external_body] pub fn vx_zip<U>(self, o: Vec<U>) -> (r: VxDrain<(T, U)>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == Seq::new(if self.seq().len() <= o@.len() { self.seq().len() } else { o@.len() }, |i: int| (self.seq()[i], o@[i])) { unimplemented!() }
}
impl VxDrain<LitBool> {
    #[verifier::external_body] pub fn vx_map_value(self) -> (r: VxDrain<bool>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().map_values(|b: LitBool| b.value) { unimplemented!() }
}
pub trait VxInto: Sized { type It; spec fn vx_post(self, r: Self::It) -> bool; fn vx_into(self) -> (r: Self::It) ensures self.vx_post(r); }
impl<'a, T> VxInto for VxIter<'a, T> { type It = VxIter<'a, T>; open spec fn vx_post(self, r: Self::It) -> bool { r == self } fn vx_into(self) -> (r: Self::It) { self } }
impl<T> VxInto for VxDrain<T> { type It = VxDrain<T>; open spec fn vx_post(self, r: Self::It) -> bool { r == self } fn vx_into(self) -> (r: Self::It) { self } }
impl<'a, T> VxInto for &'a [T] { type It = VxIter<'a, T>; open spec fn vx_post(self, r: Self::It) -> bool { r.seq() == self@ && r.pos() == 0 } #[verifier::external_body] fn vx_into(self) -> (r: Self::It) { unimplemented!() } }
impl<'a, T> VxInto for &'a Vec<T> { type It = VxIter<'a, T>; open spec fn vx_post(self, r: Self::It) -> bool { r.seq() == self@ && r.pos() == 0 } #[verifier::external_body] fn vx_into(self) -> (r: Self::It) { unimplemented!() } }
impl<'a, T> VxInto for &'a Box<[T]> { type It = VxIter<'a, T>; open spec fn vx_post(self, r: Self::It) -> bool { r.seq() == self@ && r.pos() == 0 } #[verifier::external_body] fn vx_into(self) -> (r: Self::It) { unimplemented!() } }
impl<T, P> VxInto for Punctuated<T, P> { type It = VxDrain<T>; open spec fn vx_post(self, r: Self::It) -> bool { r.seq() == self.seq() && r.pos() == 0 } #[verifier::external_body] fn vx_into(self) -> (r: Self::It) { unimplemented!() } }
impl<T> VxInto for Vec<T> { type It = VxDrain<T>; open spec fn vx_post(self, r: Self::It) -> bool { r.seq() == self@ && r.pos() == 0 } #[verifier::external_body] fn vx_into(self) -> (r: Self::It) { unimplemented!() } }
pub trait VxIterExt<T> { spec fn es(&self) -> Seq<T>; fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) ensures r.seq() == self.es() && r.pos() == 0; }
impl<T> VxIterExt<T> for Vec<T> { open spec fn es(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { unimplemented!() } }
impl<T> VxIterExt<T> for [T] { open spec fn es(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { unimplemented!() } }
pub trait VxVec<T>: Sized { spec fn vs(&self) -> Seq<T>;
    fn vx_boxed(self) -> (r: Box<[T]>) ensures r@ == self.vs();
    fn vx_drain(&mut self) -> (r: VxDrain<T>) ensures r.seq() == old(self).vs() && r.pos() == 0 && final(self).vs().len() == 0; }
impl<T> VxVec<T> for Vec<T> { open spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_boxed(self) -> (r: Box<[T]>) { unimplemented!() } #[verifier::external_body] fn vx_drain(&mut self) -> (r: VxDrain<T>) { unimplemented!() } }

// ---- specification vocabulary
pub type Tx = Seq<char>;
pub open spec fn cfg_txs(c: Seq<ParseAttributeCfg>) -> Seq<Tx> { c.map_values(|a: ParseAttributeCfg| a.predicate.tx()) }
pub open spec fn tok_txs(c: Seq<TokenStream>) -> Seq<Tx> { c.map_values(|a: TokenStream| a.tx()) }
/// every predicate of `c` has been evaluated
pub open spec fn covered(lk: Map<Tx, bool>, c: Seq<ParseAttributeCfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> lk.dom().contains((#[trigger] c[i]).predicate.tx()) }
/// an item decorated with `c` is present
pub open spec fn enabled(lk: Map<Tx, bool>, c: Seq<ParseAttributeCfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> lk[(#[trigger] c[i]).predicate.tx()] }
/// first-appearance order without repetitions
pub open spec fn dd(s: Seq<Tx>) -> Seq<Tx> decreases s.len() {
    if s.len() == 0 { seq![] } else { let d = dd(s.drop_last()); if d.contains(s.last()) { d } else { d.push(s.last()) } }
}
pub proof fn lemma_dd(s: Seq<Tx>) ensures dd(s).no_duplicates(), forall|x: Tx| dd(s).contains(x) <==> s.contains(x) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last(); let l = s.last(); lemma_dd(t); let d = dd(t); let e = dd(s);
        assert(e == if d.contains(l) { d } else { d.push(l) });
        assert forall|x: Tx| s.contains(x) implies e.contains(x) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
            if k < s.len() - 1 { assert(t[k] == x); assert(t.contains(x)); let q = choose|q: int| 0 <= q < d.len() && d[q] == x; assert(e[q] == x); }
            else if !d.contains(l) { assert(e[d.len() as int] == x); }
        }
        assert forall|x: Tx| e.contains(x) implies s.contains(x) by {
            let k = choose|k: int| 0 <= k < e.len() && e[k] == x;
            if d.contains(l) || k < d.len() { assert(e[k] == d[k]); assert(d[k] == x); assert(d.contains(x)); assert(t.contains(x)); let q = choose|q: int| 0 <= q < t.len() && t[q] == x; assert(s[q] == t[q]); assert(s[q] == x); } else { assert(e[k] == l); assert(x == l); assert(s[s.len() - 1] == x); }
        }
        assert(e.no_duplicates()) by { if !d.contains(l) { assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by { if i < d.len() { assert(d.contains(d[i])); } if j < d.len() { assert(d.contains(d[j])); } } } }
    }
}
pub proof fn lemma_dd_push(s: Seq<Tx>, x: Tx) ensures dd(s.push(x)) == if dd(s).contains(x) { dd(s) } else { dd(s).push(x) } { assert(s.push(x).drop_last() =~= s); }
pub open spec fn flat_params(p: Seq<ParseQueryParam>) -> Seq<Tx> decreases p.len() { if p.len() == 0 { seq![] } else { flat_params(p.drop_last()) + cfg_txs(p.last().cfgs@) } }
pub open spec fn flat_comps(p: Seq<ParseComponent>) -> Seq<Tx> decreases p.len() { if p.len() == 0 { seq![] } else { flat_comps(p.drop_last()) + cfg_txs(p.last().cfgs@) } }
pub open spec fn flat_archs(p: Seq<ParseArchetype>) -> Seq<Tx> decreases p.len() { if p.len() == 0 { seq![] } else { flat_archs(p.drop_last()) + cfg_txs(p.last().cfgs@) + flat_comps(p.last().components@) } }
pub proof fn lemma_flat_params(p: Seq<ParseQueryParam>, n: int) requires 0 <= n < p.len() ensures flat_params(p.take(n + 1)) == flat_params(p.take(n)) + cfg_txs(p[n].cfgs@) { assert(p.take(n + 1).drop_last() =~= p.take(n)); }
pub proof fn lemma_flat_comps(p: Seq<ParseComponent>, n: int) requires 0 <= n < p.len() ensures flat_comps(p.take(n + 1)) == flat_comps(p.take(n)) + cfg_txs(p[n].cfgs@) { assert(p.take(n + 1).drop_last() =~= p.take(n)); }
pub proof fn lemma_flat_archs(p: Seq<ParseArchetype>, n: int) requires 0 <= n < p.len() ensures flat_archs(p.take(n + 1)) == flat_archs(p.take(n)) + cfg_txs(p[n].cfgs@) + flat_comps(p[n].components@) { assert(p.take(n + 1).drop_last() =~= p.take(n)); }
pub proof fn lemma_in_comps(p: Seq<ParseComponent>, n: int, k: int) requires 0 <= n < p.len(), 0 <= k < p[n].cfgs@.len() ensures flat_comps(p).contains(p[n].cfgs@[k].predicate.tx()) decreases p.len() {
    let x = p[n].cfgs@[k].predicate.tx(); let a = flat_comps(p.drop_last()); let b = cfg_txs(p.last().cfgs@);
    if n == p.len() - 1 { assert(b[k] == x); assert((a + b)[a.len() + k] == x); } else { lemma_in_comps(p.drop_last(), n, k); let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert((a + b)[q] == x); }
}
pub proof fn lemma_in_params(p: Seq<ParseQueryParam>, n: int, k: int) requires 0 <= n < p.len(), 0 <= k < p[n].cfgs@.len() ensures flat_params(p).contains(p[n].cfgs@[k].predicate.tx()) decreases p.len() {
    let x = p[n].cfgs@[k].predicate.tx(); let a = flat_params(p.drop_last()); let b = cfg_txs(p.last().cfgs@);
    if n == p.len() - 1 { assert(b[k] == x); assert((a + b)[a.len() + k] == x); } else { lemma_in_params(p.drop_last(), n, k); let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert((a + b)[q] == x); }
}
pub proof fn lemma_in_archs(p: Seq<ParseArchetype>, n: int) requires 0 <= n < p.len()
    ensures forall|k: int| 0 <= k < p[n].cfgs@.len() ==> flat_archs(p).contains((#[trigger] p[n].cfgs@[k]).predicate.tx()), forall|x: Tx| flat_comps(p[n].components@).contains(x) ==> flat_archs(p).contains(x) decreases p.len() {
    let a = flat_archs(p.drop_last()); let b = cfg_txs(p.last().cfgs@); let c = flat_comps(p.last().components@); let s = a + b + c;
    if n == p.len() - 1 {
        assert forall|k: int| 0 <= k < p[n].cfgs@.len() implies flat_archs(p).contains((#[trigger] p[n].cfgs@[k]).predicate.tx()) by { assert(b[k] == p[n].cfgs@[k].predicate.tx()); assert(s[a.len() + k] == b[k]); }
        assert forall|x: Tx| flat_comps(p[n].components@).contains(x) implies flat_archs(p).contains(x) by { let q = choose|q: int| 0 <= q < c.len() && c[q] == x; assert(s[a.len() + b.len() + q] == x); }
    } else {
        lemma_in_archs(p.drop_last(), n);
        assert forall|x: Tx| a.contains(x) implies s.contains(x) by { let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert(s[q] == x); }
    }
}
/// the lookup built by ParseCfgDecorated covers everything that is later looked up
pub open spec fn covered_all(lk: Map<Tx, bool>, p: Seq<Tx>) -> bool { forall|x: Tx| p.contains(x) ==> lk.dom().contains(x) }
pub open spec fn covered_world(lk: Map<Tx, bool>, s: Seq<ParseArchetype>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> covered(lk, (#[trigger] s[i]).cfgs@) && forall|j: int| 0 <= j < s[i].components@.len() ==> covered(lk, (#[trigger] s[i].components@[j]).cfgs@)
}
pub open spec fn covered_params(lk: Map<Tx, bool>, s: Seq<ParseQueryParam>) -> bool { forall|i: int| 0 <= i < s.len() ==> covered(lk, (#[trigger] s[i]).cfgs@) }
pub proof fn lemma_covered_world(lk: Map<Tx, bool>, w: ParseEcsWorld) requires covered_all(lk, w.vx_preds()) ensures covered_world(lk, w.archetypes@) {
    let s = w.archetypes@; lemma_dd(flat_archs(s));
    assert forall|i: int| 0 <= i < s.len() implies covered(lk, (#[trigger] s[i]).cfgs@) && forall|j: int| 0 <= j < s[i].components@.len() ==> covered(lk, (#[trigger] s[i].components@[j]).cfgs@) by {
        lemma_in_archs(s, i);
        assert forall|j: int| 0 <= j < s[i].components@.len() implies covered(lk, (#[trigger] s[i].components@[j]).cfgs@) by {
            assert forall|k: int| 0 <= k < s[i].components@[j].cfgs@.len() implies lk.dom().contains((#[trigger] s[i].components@[j].cfgs@[k]).predicate.tx()) by { lemma_in_comps(s[i].components@, j, k); let x = s[i].components@[j].cfgs@[k].predicate.tx(); assert(flat_comps(s[i].components@).contains(x)); assert(flat_archs(s).contains(x)); assert(dd(flat_archs(s)).contains(x)); assert(w.vx_preds().contains(x)); }
        }
    }
}
pub proof fn lemma_covered_params(lk: Map<Tx, bool>, s: Seq<ParseQueryParam>) requires covered_all(lk, dd(flat_params(s))) ensures covered_params(lk, s) {
    lemma_dd(flat_params(s));
    assert forall|i: int| 0 <= i < s.len() implies covered(lk, (#[trigger] s[i]).cfgs@) by {
        assert forall|k: int| 0 <= k < s[i].cfgs@.len() implies lk.dom().contains((#[trigger] s[i].cfgs@[k]).predicate.tx()) by { lemma_in_params(s, i, k); }
    }
}

// ---- ids: the enum-discriminant rule
pub open spec fn id_rule(explicit: Option<u8>, last: Option<u8>) -> int { match explicit { Some(x) => x as int, None => match last { Some(l) => l + 1, None => 0 } } }
pub open spec fn opt_last(s: Seq<u8>) -> Option<u8> { if s.len() == 0 { None } else { Some(s.last()) } }
/// `ids` follows the rule for `explicit` and has no repetition
#[verifier::opaque] pub open spec fn ids_ok(explicit: Seq<Option<u8>>, ids: Seq<u8>) -> bool {
    &&& explicit.len() == ids.len()
    &&& forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]) as int == id_rule(explicit[i], if i == 0 { None } else { Some(ids[i - 1]) })
    &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> ids[i] != ids[j]
}
/// a valid prefix whose next id is taken or exceeds 255
pub open spec fn ids_stuck(explicit: Seq<Option<u8>>, ids: Seq<u8>, next: Option<u8>) -> bool {
    ids_ok(explicit, ids) && { let n = id_rule(next, opt_last(ids)); n > 255 || exists|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]) as int == n }
}
pub proof fn lemma_ids_push(e: Seq<Option<u8>>, ids: Seq<u8>, x: Option<u8>, n: u8)
    requires ids_ok(e, ids), n as int == id_rule(x, opt_last(ids)), forall|j: int| 0 <= j < ids.len() ==> (#[trigger] ids[j]) != n ensures ids_ok(e.push(x), ids.push(n)) {
    reveal(ids_ok);
    let t = ids.push(n); let f = e.push(x);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as int == id_rule(f[i], if i == 0 { None } else { Some(t[i - 1]) }) by { if i < ids.len() { assert(t[i] == ids[i]); if i > 0 { assert(t[i - 1] == ids[i - 1]); } } else { if i > 0 { assert(t[i - 1] == ids[i - 1]); } } }
}
pub proof fn lemma_ids_nil(e: Seq<Option<u8>>, i: Seq<u8>) requires e.len() == 0, i.len() == 0 ensures ids_ok(e, i) { reveal(ids_ok); }
// what is left after removing the disabled items
pub open spec fn en_comps(lk: Map<Tx, bool>, s: Seq<ParseComponent>) -> Seq<ParseComponent> decreases s.len() { if s.len() == 0 { seq![] } else { let d = en_comps(lk, s.drop_last()); if enabled(lk, s.last().cfgs@) { d.push(s.last()) } else { d } } }
pub open spec fn en_archs(lk: Map<Tx, bool>, s: Seq<ParseArchetype>) -> Seq<ParseArchetype> decreases s.len() { if s.len() == 0 { seq![] } else { let d = en_archs(lk, s.drop_last()); if enabled(lk, s.last().cfgs@) { d.push(s.last()) } else { d } } }
pub proof fn lemma_en_comps(lk: Map<Tx, bool>, s: Seq<ParseComponent>, n: int) requires 0 <= n < s.len() ensures en_comps(lk, s.take(n + 1)) == if enabled(lk, s[n].cfgs@) { en_comps(lk, s.take(n)).push(s[n]) } else { en_comps(lk, s.take(n)) } { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_en_archs(lk: Map<Tx, bool>, s: Seq<ParseArchetype>, n: int) requires 0 <= n < s.len() ensures en_archs(lk, s.take(n + 1)) == if enabled(lk, s[n].cfgs@) { en_archs(lk, s.take(n)).push(s[n]) } else { en_archs(lk, s.take(n)) } { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub open spec fn c_ids(s: Seq<ParseComponent>) -> Seq<Option<u8>> { s.map_values(|c: ParseComponent| c.id) }
pub open spec fn a_ids(s: Seq<ParseArchetype>) -> Seq<Option<u8>> { s.map_values(|c: ParseArchetype| c.id) }
pub open spec fn dc_ids(s: Seq<DataComponent>) -> Seq<u8> { s.map_values(|c: DataComponent| c.id) }
pub open spec fn da_ids(s: Seq<DataArchetype>) -> Seq<u8> { s.map_values(|c: DataArchetype| c.id) }
pub open spec fn comps_data(lk: Map<Tx, bool>, p: Seq<ParseComponent>, d: Seq<DataComponent>) -> bool {
    let e = en_comps(lk, p);
    d.len() == e.len() && ids_ok(c_ids(e), dc_ids(d)) && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).name@ == e[i].name.tx()
}
pub open spec fn arch_data(lk: Map<Tx, bool>, a: ParseArchetype, d: DataArchetype) -> bool { d.name@ == a.name.tx() && comps_data(lk, a.components@, d.components@) }
pub open spec fn archs_data(lk: Map<Tx, bool>, p: Seq<ParseArchetype>, d: Seq<DataArchetype>) -> bool {
    let e = en_archs(lk, p);
    d.len() == e.len() && ids_ok(a_ids(e), da_ids(d)) && forall|i: int| 0 <= i < d.len() ==> arch_data(lk, e[i], #[trigger] d[i])
}
pub open spec fn comps_bad(lk: Map<Tx, bool>, p: Seq<ParseComponent>) -> bool {
    exists|k: int, ids: Seq<u8>| 0 <= k < p.len() && enabled(lk, p[k].cfgs@) && #[trigger] ids_stuck(c_ids(en_comps(lk, p.take(k))), ids, p[k].id)
}
pub open spec fn archs_bad(lk: Map<Tx, bool>, p: Seq<ParseArchetype>) -> bool {
    ||| exists|k: int, ids: Seq<u8>| 0 <= k < p.len() && enabled(lk, p[k].cfgs@) && #[trigger] ids_stuck(a_ids(en_archs(lk, p.take(k))), ids, p[k].id)
    ||| exists|k: int| 0 <= k < p.len() && enabled(lk, p[k].cfgs@) && comps_bad(lk, (#[trigger] p[k]).components@)
}

// ---- attributes of parsed items
pub open spec fn attr_cfgs(a: Seq<ParseAttribute>) -> Seq<ParseAttributeCfg> decreases a.len() { if a.len() == 0 { seq![] } else { let d = attr_cfgs(a.drop_last()); match a.last().data { ParseAttributeData::Cfg(c) => d.push(c), _ => d } } }
pub open spec fn is_cfg(a: ParseAttribute) -> bool { a.data is Cfg }
/// the explicit id given by the attributes: (how many, last value); kind 0 = archetype_id, 1 = component_id
pub open spec fn attr_id(a: Seq<ParseAttribute>, comp: bool) -> Seq<u8> decreases a.len() {
    if a.len() == 0 { seq![] } else { let d = attr_id(a.drop_last(), comp); match a.last().data { ParseAttributeData::ArchetypeId(i) => if comp { d } else { d.push(i.value) }, ParseAttributeData::ComponentId(i) => if comp { d.push(i.value) } else { d }, _ => d } }
}
pub open spec fn attr_allowed(a: ParseAttribute, comp: bool) -> bool { match a.data { ParseAttributeData::Cfg(_) => true, ParseAttributeData::ArchetypeId(_) => !comp, ParseAttributeData::ComponentId(_) => comp } }
pub open spec fn attrs_allowed(a: Seq<ParseAttribute>, comp: bool) -> bool { (forall|i: int| 0 <= i < a.len() ==> attr_allowed(#[trigger] a[i], comp)) && attr_id(a, comp).len() <= 1 }
pub open spec fn opt_of(s: Seq<u8>) -> Option<u8> { if s.len() == 0 { None } else { Some(s[0]) } }
pub proof fn lemma_attr(a: Seq<ParseAttribute>, n: int, comp: bool) requires 0 <= n < a.len()
    ensures attr_cfgs(a.take(n + 1)) == (match a[n].data { ParseAttributeData::Cfg(c) => attr_cfgs(a.take(n)).push(c), _ => attr_cfgs(a.take(n)) }),
        attr_id(a.take(n + 1), comp) == (match a[n].data { ParseAttributeData::ArchetypeId(i) => if comp { attr_id(a.take(n), comp) } else { attr_id(a.take(n), comp).push(i.value) }, ParseAttributeData::ComponentId(i) => if comp { attr_id(a.take(n), comp).push(i.value) } else { attr_id(a.take(n), comp) }, _ => attr_id(a.take(n), comp) })
{ assert(a.take(n + 1).drop_last() =~= a.take(n)); }
pub proof fn lemma_attr_mono(a: Seq<ParseAttribute>, n: int, comp: bool) requires 0 <= n <= a.len() ensures attr_id(a.take(n), comp).len() <= attr_id(a, comp).len() decreases a.len() - n {
    if n < a.len() { lemma_attr(a, n, comp); lemma_attr_mono(a, n + 1, comp); } else { assert(a.take(n) =~= a); }
}
pub open spec fn item_archs(s: Seq<ParseItem>) -> Seq<ParseArchetype> decreases s.len() { if s.len() == 0 { seq![] } else { let d = item_archs(s.drop_last()); match s.last() { ParseItem::ParseArchetype(a) => d.push(a), _ => d } } }
pub proof fn lemma_item_archs(s: Seq<ParseItem>, n: int) requires 0 <= n < s.len() ensures item_archs(s.take(n + 1)) == (match s[n] { ParseItem::ParseArchetype(a) => item_archs(s.take(n)).push(a), _ => item_archs(s.take(n)) }) { assert(s.take(n + 1).drop_last() =~= s.take(n)); }

// ---- query matching
pub open spec fn has_c(a: DataArchetype, n: Tx) -> bool { exists|i: int| 0 <= i < a.components@.len() && (#[trigger] a.components@[i]).name@ == n }
/// argument k of a OneOf is the only one the archetype contains
pub open spec fn only(a: DataArchetype, g: Seq<Ident>, k: int) -> bool { 0 <= k < g.len() && has_c(a, g[k].tx()) && forall|j: int| 0 <= j < g.len() && j != k ==> !has_c(a, (#[trigger] g[j]).tx()) }
pub open spec fn two(a: DataArchetype, g: Seq<Ident>) -> bool { exists|i: int, j: int| 0 <= i < j < g.len() && has_c(a, (#[trigger] g[i]).tx()) && has_c(a, (#[trigger] g[j]).tx()) }
pub open spec fn none_of(a: DataArchetype, g: Seq<Ident>) -> bool { forall|j: int| 0 <= j < g.len() ==> !has_c(a, (#[trigger] g[j]).tx()) }
pub open spec fn reserved(t: ParseQueryParamType) -> bool { t is Option || t is With || t is Without }
pub open spec fn no_reserved(p: Seq<ParseQueryParam>) -> bool { forall|j: int| 0 <= j < p.len() ==> !reserved((#[trigger] p[j]).param_type) }
/// archetype `a` satisfies parameter `p` (a disabled parameter is satisfied by every archetype)
pub open spec fn p_match(a: DataArchetype, p: ParseQueryParam) -> bool {
    !p.is_cfg_enabled || match p.param_type {
        ParseQueryParamType::Component(n) => has_c(a, n.tx()),
        ParseQueryParamType::Entity(n) => a.name@ == n.tx(),
        ParseQueryParamType::EntityDirect(n) => a.name@ == n.tx(),
        ParseQueryParamType::OneOf(g) => exists|k: int| #[trigger] only(a, g@, k),
        _ => true,
    }
}
pub open spec fn ambiguous(a: DataArchetype, p: ParseQueryParam) -> bool { p.is_cfg_enabled && match p.param_type { ParseQueryParamType::OneOf(g) => two(a, g@), _ => false } }
/// what parameter `p` is bound to in archetype `a`
pub open spec fn p_bound(a: DataArchetype, p: ParseQueryParam, b: ParseQueryParam) -> bool {
    &&& b.name == p.name && b.is_mut == p.is_mut && b.is_cfg_enabled == p.is_cfg_enabled && b.cfgs@ == p.cfgs@
    &&& !(b.param_type is OneOf) && !reserved(b.param_type)
    &&& p.is_cfg_enabled ==> match p.param_type {
            ParseQueryParamType::OneOf(g) => exists|k: int| #[trigger] only(a, g@, k) && b.param_type == ParseQueryParamType::Component(g@[k]),
            t => b.param_type == t,
        }
}
pub open spec fn matched(a: DataArchetype, p: Seq<ParseQueryParam>) -> bool { forall|j: int| 0 <= j < p.len() ==> p_match(a, #[trigger] p[j]) }
pub open spec fn bound_to(a: DataArchetype, p: Seq<ParseQueryParam>, b: Seq<ParseQueryParam>) -> bool { b.len() == p.len() && forall|j: int| 0 <= j < p.len() ==> p_bound(a, #[trigger] p[j], b[j]) }
pub open spec fn any_ambiguous(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>) -> bool { exists|i: int, j: int| 0 <= i < w.len() && 0 <= j < p.len() && ambiguous(#[trigger] w[i], #[trigger] p[j]) }
pub open spec fn name_matched(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, k: Tx) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name@ == k && matched(w[i], p) }
pub open spec fn none_matched(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>) -> bool { forall|i: int| 0 <= i < w.len() ==> !matched(#[trigger] w[i], p) }
/// number of archetypes the query acts on
pub open spec fn n_named(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, n: int) -> int decreases n { if n <= 0 { 0 } else { n_named(w, p, n - 1) + if name_matched(w, p, w[n - 1].name@) { 1int } else { 0 } } }
pub proof fn lemma_n_named(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, n: int) requires 0 <= n <= w.len() ensures n_named(w, p, n) >= 0, n == w.len() ==> (n_named(w, p, n) == 0 <==> none_matched(w, p)), n_named(w, p, n) == 0 <==> forall|i: int| 0 <= i < n ==> !name_matched(w, p, (#[trigger] w[i]).name@) decreases n {
    if n > 0 { lemma_n_named(w, p, n - 1); }
    if n == w.len() {
        if none_matched(w, p) { } else { let i = choose|i: int| 0 <= i < w.len() && matched(#[trigger] w[i], p); assert(name_matched(w, p, w[i].name@)); }
    }
}
/// the parameters after their cfg state was computed
pub open spec fn with_cfg(lk: Map<Tx, bool>, p: Seq<ParseQueryParam>) -> Seq<ParseQueryParam> { p.map_values(|x: ParseQueryParam| ParseQueryParam { is_cfg_enabled: enabled(lk, x.cfgs@), ..x }) }
pub uninterp spec fn vx_world(b64: Tx) -> Seq<DataArchetype>;

/// one block per archetype acted on, in declaration order, each with parameters bound in an archetype of that name
pub open spec fn arm_ok(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, name: Tx, arm: (Tx, Seq<ParseQueryParam>)) -> bool {
    arm.0 == name && exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name@ == name && matched(w[i], p) && bound_to(w[i], p, arm.1)
}
pub open spec fn arms_ok(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, n: int, arms: Seq<(Tx, Seq<ParseQueryParam>)>) -> bool decreases n {
    if n <= 0 { arms.len() == 0 }
    else if name_matched(w, p, w[n - 1].name@) { arms.len() > 0 && arm_ok(w, p, w[n - 1].name@, arms.last()) && arms_ok(w, p, n - 1, arms.drop_last()) }
    else { arms_ok(w, p, n - 1, arms) }
}
pub proof fn lemma_arms(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, n: int, arms: Seq<(Tx, Seq<ParseQueryParam>)>) requires 0 <= n <= w.len(), arms_ok(w, p, n, arms)
    ensures arms.len() == 0 <==> forall|i: int| 0 <= i < n ==> !name_matched(w, p, (#[trigger] w[i]).name@) decreases n {
    if n > 0 { if name_matched(w, p, w[n - 1].name@) { } else { lemma_arms(w, p, n - 1, arms); } }
}
pub proof fn lemma_none(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>) ensures none_matched(w, p) <==> forall|i: int| 0 <= i < w.len() ==> !name_matched(w, p, (#[trigger] w[i]).name@) {
    if !none_matched(w, p) { let i = choose|i: int| 0 <= i < w.len() && matched(#[trigger] w[i], p); assert(name_matched(w, p, w[i].name@)); }
}
pub proof fn lemma_all_plain(w: Seq<DataArchetype>, p: Seq<ParseQueryParam>, m: Map<Tx, Vec<ParseQueryParam>>) requires forall|k: Tx| #[trigger] m.dom().contains(k) ==> arm_ok(w, p, k, (k, m[k]@)) ensures forall|k: Tx| #[trigger] m.dom().contains(k) ==> all_plain(m[k]@) {
    assert forall|k: Tx| #[trigger] m.dom().contains(k) implies all_plain(m[k]@) by {
        let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name@ == k && matched(w[i], p) && bound_to(w[i], p, m[k]@);
        assert forall|j: int| 0 <= j < m[k]@.len() implies plain(#[trigger] m[k]@[j]) by { assert(p_bound(w[i], p[j], m[k]@[j])); }
    }
}
pub proof fn lemma_arms_of(q: Seq<TokenStream>, t: TokenStream) ensures arms_of(q.push(t)) == arms_of(q) + t.arms() { assert(q.push(t).drop_last() =~= q); }
pub proof fn lemma_dd_step(x: Seq<Tx>, s: Seq<ParseAttributeCfg>, n: int) requires 0 <= n < s.len()
    ensures ({ let d = dd(x + cfg_txs(s.take(n))); let t = s[n].predicate.tx(); dd(x + cfg_txs(s.take(n + 1))) == if d.contains(t) { d } else { d.push(t) } }) {
    lemma_dd_push(x + cfg_txs(s.take(n)), s[n].predicate.tx());
    assert(x + cfg_txs(s.take(n + 1)) =~= (x + cfg_txs(s.take(n))).push(s[n].predicate.tx()));
}
pub open spec fn is_set(s: Set<Tx>, d: Seq<Tx>) -> bool { forall|x: Tx| s.contains(x) <==> d.contains(x) }
pub proof fn lemma_set_push(s: Set<Tx>, d: Seq<Tx>, x: Tx) requires is_set(s, d) ensures is_set(s.insert(x), d.push(x)), d.contains(x) ==> is_set(s.insert(x), d) {
    assert forall|y: Tx| s.insert(x).contains(y) <==> d.push(x).contains(y) by {
        if d.contains(y) { let q = choose|q: int| 0 <= q < d.len() && d[q] == y; assert(d.push(x)[q] == y); }
        if y == x { assert(d.push(x)[d.len() as int] == y); }
        if d.push(x).contains(y) && y != x { let q = choose|q: int| 0 <= q < d.push(x).len() && d.push(x)[q] == y; assert(d[q] == y); }
    }
}
pub proof fn lemma_archs_push(lk: Map<Tx, bool>, s: Seq<ParseArchetype>, n: int, d: Seq<DataArchetype>)
    requires 0 <= n < s.len(), d.len() > 0, archs_data(lk, s.take(n), d.drop_last()), enabled(lk, s[n].cfgs@), arch_data(lk, s[n], d.last()),
        d.last().id as int == id_rule(s[n].id, opt_last(da_ids(d.drop_last()))), forall|j: int| 0 <= j < d.len() - 1 ==> (#[trigger] da_ids(d.drop_last())[j]) != d.last().id
    ensures archs_data(lk, s.take(n + 1), d) {
    lemma_en_archs(lk, s, n); let e = en_archs(lk, s.take(n)); let f = en_archs(lk, s.take(n + 1));
    lemma_ids_push(a_ids(e), da_ids(d.drop_last()), s[n].id, d.last().id);
    assert(a_ids(f) =~= a_ids(e).push(s[n].id)); assert(da_ids(d) =~= da_ids(d.drop_last()).push(d.last().id));
    assert forall|i: int| 0 <= i < d.len() implies arch_data(lk, f[i], #[trigger] d[i]) by { if i < d.len() - 1 { assert(d[i] == d.drop_last()[i]); } }
}
pub proof fn lemma_comps_push(lk: Map<Tx, bool>, s: Seq<ParseComponent>, n: int, d: Seq<DataComponent>)
    requires 0 <= n < s.len(), d.len() > 0, comps_data(lk, s.take(n), d.drop_last()), enabled(lk, s[n].cfgs@), d.last().name@ == s[n].name.tx(),
        d.last().id as int == id_rule(s[n].id, opt_last(dc_ids(d.drop_last()))), forall|j: int| 0 <= j < d.len() - 1 ==> (#[trigger] dc_ids(d.drop_last())[j]) != d.last().id
    ensures comps_data(lk, s.take(n + 1), d) {
    lemma_en_comps(lk, s, n); let e = en_comps(lk, s.take(n)); let f = en_comps(lk, s.take(n + 1));
    lemma_ids_push(c_ids(e), dc_ids(d.drop_last()), s[n].id, d.last().id);
    assert(c_ids(f) =~= c_ids(e).push(s[n].id)); assert(dc_ids(d) =~= dc_ids(d.drop_last()).push(d.last().id));
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).name@ == f[i].name.tx() by { if i < d.len() - 1 { assert(d[i] == d.drop_last()[i]); } }
}
@impl trait HasCfgPredicates
    spec fn vx_preds(&self) -> Seq<Tx>;
@endimpl
@impl HasCfgPredicates for ParseEcsWorld
    open spec fn vx_preds(&self) -> Seq<Tx> { dd(flat_archs(self.archetypes@)) }
@endimpl
@impl HasCfgPredicates for ParseQueryFind
    open spec fn vx_preds(&self) -> Seq<Tx> { dd(flat_params(self.params@)) }
@endimpl
@impl HasCfgPredicates for ParseQueryIter
    open spec fn vx_preds(&self) -> Seq<Tx> { dd(flat_params(self.params@)) }
@endimpl
@impl HasCfgPredicates for ParseQueryIterDestroy
    open spec fn vx_preds(&self) -> Seq<Tx> { dd(flat_params(self.params@)) }
@endimpl
@impl trait HasAttributeId
    spec fn s_id(&self) -> Option<u8>; spec fn s_name(&self) -> Tx;
@endimpl
@impl HasAttributeId for ParseArchetype
    open spec fn s_id(&self) -> Option<u8> { self.id } open spec fn s_name(&self) -> Tx { self.name.tx() }
@endimpl
@impl HasAttributeId for ParseComponent
    open spec fn s_id(&self) -> Option<u8> { self.id } open spec fn s_name(&self) -> Tx { self.name.tx() }
@endimpl
@impl Parse for ParseAttribute
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|g: int, q: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && match r.data { ParseAttributeData::Cfg(_) => vx_peek::<kw::cfg>(q), ParseAttributeData::ArchetypeId(_) => vx_peek::<kw::archetype_id>(q), ParseAttributeData::ComponentId(_) => vx_peek::<kw::component_id>(q) } }
@endimpl
@impl Parse for ParseAttributeId
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|g: int, q: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && r.value as int == vx_parsed::<LitInt>(q).iv() }
@endimpl
@impl Parse for ParseAttributeCfg
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|g: int, q: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && r.predicate == vx_parsed::<TokenStream>(q) }
@endimpl
@impl Parse for ParseEcsWorld
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|q: int| #[trigger] vx_at(id, q) && r.archetypes@ == item_archs(vx_items::<ParseItem>(q)) && r.archetypes@.len() > 0 }
@endimpl
@impl Parse for ParseItem
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|at: Seq<ParseAttribute>| #[trigger] vx_attrs(id, at) && match r { ParseItem::ParseArchetype(a) => arch_item(id, at, a), ParseItem::ParseName(_) => at.len() == 0 } }
@endimpl
@impl Parse for ParseArchetype
    open spec fn vx_ok(id: int, r: Self) -> bool { r.cfgs@.len() == 0 && r.id is None && exists|g: int, q: int, p: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && #[trigger] vx_at(g, p) && r.name == vx_parsed::<Ident>(q) && r.components@ == vx_items::<ParseComponent>(p) }
@endimpl
@impl Parse for ParseComponent
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|a: Seq<ParseAttribute>, p: int| #[trigger] vx_attrs(id, a) && #[trigger] vx_at(id, p) && { attrs_allowed(a, true) && r.cfgs@ == attr_cfgs(a) && r.id == opt_of(attr_id(a, true)) && r.name == vx_parsed::<Ident>(p) } }
@endimpl
@impl Parse for ParseName
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|g: int, q: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && r.name == vx_parsed::<Ident>(q) }
@endimpl
@impl Parse for ParseQueryParam
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|a: Seq<ParseAttribute>, m: int, t: int| #[trigger] vx_attrs(id, a) && #[trigger] vx_at(id, m) && #[trigger] vx_at(id, t) && {
        (forall|i: int| 0 <= i < a.len() ==> is_cfg(#[trigger] a[i])) && r.cfgs@ == attr_cfgs(a) && vx_name(id, r.name) && r.is_mut == (vx_parsed::<Option<Mut>>(m) is Some)
        && ParseQueryParamType::vx_ok(t, r.param_type) && (r.is_mut ==> r.param_type is Component || r.param_type is OneOf) } }
@endimpl
@impl Parse for ParseQueryParamType
    /// Entity<_> / Entity<A> / EntityAny / ... by the keyword seen; OneOf with the names read; a component otherwise; the reserved forms are refused
    open spec fn vx_ok(id: int, r: Self) -> bool { match r {
        ParseQueryParamType::EntityWild => saw::<kw::Entity>(id) && saw::<VxUnder>(id),
        ParseQueryParamType::Entity(n) => saw::<kw::Entity>(id) && saw::<Ident>(id) && named(id, n),
        ParseQueryParamType::EntityDirectWild => saw::<kw::EntityDirect>(id) && saw::<VxUnder>(id),
        ParseQueryParamType::EntityDirect(n) => saw::<kw::EntityDirect>(id) && saw::<Ident>(id) && named(id, n),
        ParseQueryParamType::EntityAny => saw::<kw::EntityAny>(id),
        ParseQueryParamType::EntityDirectAny => saw::<kw::EntityDirectAny>(id),
        ParseQueryParamType::OneOf(g) => saw::<kw::OneOf>(id) && saw::<Gt>(id) && forall|i: int| 0 <= i < g@.len() ==> named(id, #[trigger] g@[i]),
        ParseQueryParamType::Component(n) => named(id, n) && exists|q: int| #[trigger] vx_at(id, q) && vx_peek::<Ident>(q) && !keyword(q),
        _ => false } }
@endimpl
@impl Parse for ParseCfgDecorated
    /// the lookup maps the i-th distinct predicate (in order of first appearance) to the i-th boolean and covers all of them
    open spec fn vx_ok(id: int, r: Self) -> bool { exists|g: int, q: int, h: int, p: int| #[trigger] vx_at(id, g) && #[trigger] vx_at(g, q) && #[trigger] vx_at(id, h) && #[trigger] vx_at(h, p) && T::vx_ok(p, r.inner) && lookup_ok(r.inner.vx_preds(), vx_items::<LitBool>(q), r.cfg_lookup.m()) }
@endimpl
@impl Parse for ParseQueryFind
    open spec fn vx_ok(id: int, r: Self) -> bool { (exists|q: int| #[trigger] vx_at(id, q) && r.world_data@ == vx_parsed::<LitStr>(q).sv()) && params_ok(r.params@) }
@endimpl
@impl Parse for ParseQueryIter
    open spec fn vx_ok(id: int, r: Self) -> bool { (exists|q: int| #[trigger] vx_at(id, q) && r.world_data@ == vx_parsed::<LitStr>(q).sv()) && params_ok(r.params@) }
@endimpl
@impl Parse for ParseQueryIterDestroy
    open spec fn vx_ok(id: int, r: Self) -> bool { (exists|q: int| #[trigger] vx_at(id, q) && r.world_data@ == vx_parsed::<LitStr>(q).sv()) && params_ok(r.params@) }
@endimpl
pub open spec fn lookup_ok(p: Seq<Tx>, b: Seq<LitBool>, m: Map<Tx, bool>) -> bool { p.len() == b.len() && m.dom() =~= p.to_set() && forall|i: int| 0 <= i < p.len() ==> m[#[trigger] p[i]] == b[i].value }
pub open spec fn params_ok(p: Seq<ParseQueryParam>) -> bool { forall|j: int| 0 <= j < p.len() ==> param_ok(#[trigger] p[j]) }
pub open spec fn param_ok(p: ParseQueryParam) -> bool { exists|q: int| #[trigger] ParseQueryParam::vx_ok(q, p) }
pub open spec fn arch_item(id: int, at: Seq<ParseAttribute>, a: ParseArchetype) -> bool {
    attrs_allowed(at, false) && a.cfgs@ == attr_cfgs(at) && a.id == opt_of(attr_id(at, false)) && exists|p: int, b: ParseArchetype| #[trigger] vx_at(id, p) && #[trigger] ParseArchetype::vx_ok(p, b) && a.name == b.name && a.components@ == b.components@
}
pub proof fn lemma_entry_world(x: ParseCfgDecorated<ParseEcsWorld>, id: int) requires ParseCfgDecorated::<ParseEcsWorld>::vx_ok(id, x) ensures
/*@lemma_entry_world|C15,C16*/ covered_world(x.cfg_lookup.m(), x.inner.archetypes@) { lemma_covered_world(x.cfg_lookup.m(), x.inner); }
pub proof fn lemma_params_ok(p: Seq<ParseQueryParam>) requires params_ok(p) ensures
/*@lemma_params_ok|C05*/ no_reserved(p) {
    assert forall|j: int| 0 <= j < p.len() implies !reserved((#[trigger] p[j]).param_type) by { assert(param_ok(p[j])); }
}
pub proof fn lemma_entry_params(lk: Map<Tx, bool>, b: Seq<LitBool>, p: Seq<ParseQueryParam>) requires lookup_ok(dd(flat_params(p)), b, lk), params_ok(p) ensures
/*@lemma_entry_params|C05,C16*/ covered_params(lk, p) && no_reserved(p) { lemma_params_ok(p); lemma_covered_params(lk, p); }
pub open spec fn at(m: Map<Tx, Vec<ParseQueryParam>>, k: Tx) -> Seq<ParseQueryParam> { m[k]@ }
pub open spec fn vx_name(id: int, n: Ident) -> bool { (named(id, n) && saw::<Ident>(id)) || (n.tx() =~= "_"@ && saw::<VxUnder>(id)) }
#[verifier::external_body] pub fn to_snake_ident(i: &Ident) -> Ident { unimplemented!() }
#[verifier::external_body] pub fn to_snake(n: &String) -> String { unimplemented!() }
pub open spec fn acts(w: Seq<DataArchetype>, ps: Seq<ParseQueryParam>, r: TokenStream) -> bool { !any_ambiguous(w, ps) && !none_matched(w, ps) && arms_ok(w, ps, w.len() as int, r.arms()) }
pub open spec fn query_Find(p: ParseCfgDecorated<ParseQueryFind>, r: TokenStream) -> bool { (exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryFind>::vx_ok(q, p)) && acts(vx_world(p.inner.world_data@), with_cfg(p.cfg_lookup.m(), p.inner.params@), r) }
pub open spec fn query_Iter(p: ParseCfgDecorated<ParseQueryIter>, r: TokenStream) -> bool { (exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIter>::vx_ok(q, p)) && acts(vx_world(p.inner.world_data@), with_cfg(p.cfg_lookup.m(), p.inner.params@), r) }
pub open spec fn query_IterDestroy(p: ParseCfgDecorated<ParseQueryIterDestroy>, r: TokenStream) -> bool { (exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIterDestroy>::vx_ok(q, p)) && acts(vx_world(p.inner.world_data@), with_cfg(p.cfg_lookup.m(), p.inner.params@), r) }
pub open spec fn world_built(p: ParseCfgDecorated<ParseEcsWorld>, r: TokenStream) -> bool { (exists|q: int| #[trigger] ParseCfgDecorated::<ParseEcsWorld>::vx_ok(q, p)) && archs_data(p.cfg_lookup.m(), p.inner.archetypes@, vx_declares(r)) }
