//! The harness world and every access path to it.
use crate::comps::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(W1);
    ecs_archetype!(ArchA, CX);
    #[archetype_id(7)]
    ecs_archetype!(ArchB, CX, CT);
    ecs_archetype!(ArchC, CT, #[component_id(4)] CX, CZ);
    #[archetype_id(2)]
    ecs_archetype!(ArchD, CB, CX, CT, CS, CY);
    ecs_archetype!(ArchE, CZ);
}
pub const NA: usize = 5;
pub const IDS: [u8; NA] = [0, 7, 8, 2, 3];
pub const NAMES: [&str; NA] = ["ArchA", "ArchB", "ArchC", "ArchD", "ArchE"];
/// component kinds per archetype
pub const COMPS: [&[char]; NA] = [&['X'], &['X', 'T'], &['T', 'X', 'Z'], &['B', 'X', 'T', 'S', 'Y'], &['Z']];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { T(EntityAny), A(EntityAny), D(EntityDirectAny), DA(EntityDirectAny) }
impl K {
    pub fn kind(&self) -> &'static str { match self { K::T(_) => "Entity<A>", K::A(_) => "EntityAny", K::D(_) => "EntityDirect<A>", K::DA(_) => "EntityDirectAny" } }
    pub fn arch_id(&self) -> u8 { match self { K::T(e) | K::A(e) => e.archetype_id(), K::D(e) | K::DA(e) => e.archetype_id() } }
}

#[derive(Clone, Debug)]
pub struct Got { pub path: &'static str, pub found: bool, pub ent: Option<EntityAny>, pub idx: Option<usize>, pub vals: Option<Vec<u64>>, pub directs: Vec<EntityDirectAny> }
fn g(path: &'static str, found: bool) -> Got { Got { path, found, ent: None, idx: None, vals: None, directs: vec![] } }

pub type Row = (EntityAny, Vec<u64>);

macro_rules! arch_impl { ($m:ident, $A:ident, $AC:ident, $f:ident, $SE:ident, [$($C:ident $c:ident),*]) => { pub mod $m {
    use super::*;
    #[allow(unused)]
    pub fn mk(base: u64) -> $AC { let mut i = 0; $( let $c = <$C as Cv>::mk(base + i); i += 1; )* $AC { $($c),* } }
    #[allow(unused)]
    pub fn norm(base: u64) -> Vec<u64> { let mut i = 0; let mut v = vec![]; $( v.push(<$C as Cv>::norm(base + i)); i += 1; )* v }
    #[allow(unused)]
    pub fn norms(vals: &[u64]) -> Vec<u64> { let mut i = 0; let mut v = vec![]; $( v.push(<$C as Cv>::norm(vals[i])); i += 1; )* v }
    pub fn vals(c: &$AC) -> Vec<u64> { vec![$( c.get::<$C>().val() ),*] }
    pub fn create(w: &mut W1, base: u64, via: u8) -> Result<EntityAny, Vec<u64>> {
        match via {
            0 => Ok(w.create::<$A>(mk(base)).into_any()),
            1 => Ok(w.$f.create(mk(base).into_tuple()).into()),
            2 => w.create_within_capacity::<$A>(mk(base)).map(|e| e.into()).map_err(|c| vals(&c)),
            _ => w.$f.create_within_capacity(mk(base)).map(|e| e.into_any()).map_err(|c| vals(&c)),
        }
    }
    pub fn lens(w: &W1) -> (usize, bool, usize) { (w.$f.len(), w.archetype::<$A>().is_empty(), w.$f.capacity()) }

    macro_rules! key_paths { ($w:expr, $k:expr, $out:expr) => {{
        let w: &mut W1 = $w; let k = $k; let out: &mut Vec<Got> = $out;
        out.push(g("World::contains", w.contains(k)));
        out.push(g("Archetype::contains", w.$f.contains(k)));
        let d = w.to_direct(k); let mut x = g("World::to_direct", d.is_some()); if let Some(d) = d { x.directs.push(d.into()); } out.push(x);
        let d = w.$f.to_direct(k); let mut x = g("Archetype::to_direct", d.is_some()); if let Some(d) = d { x.directs.push(d.into()); } out.push(x);
        let r = w.$f.resolve(k);
        let mut x = g("Archetype::resolve + entities/get_slice", r.is_some());
        if let Some(i) = r { x.idx = Some(i); x.ent = w.$f.entities().get(i).map(|e| e.into_any()); x.vals = Some(vec![$( w.$f.get_slice::<$C>().get(i).map(|c| c.val()).unwrap_or(u64::MAX - 2) ),*]); }
        out.push(x);
        if let Some(i) = r {
            let mut x = g("Archetype::resolve + get_slice_mut", true); x.idx = Some(i); x.vals = Some(vec![$( w.$f.get_slice_mut::<$C>().get(i).map(|c| c.val()).unwrap_or(u64::MAX - 2) ),*]); out.push(x);
            let mut x = g("Archetype::resolve + borrow_slice", true); x.idx = Some(i); x.vals = Some(vec![$( w.$f.borrow_slice::<$C>().get(i).map(|c| c.val()).unwrap_or(u64::MAX - 2) ),*]); out.push(x);
            let mut x = g("Archetype::resolve + borrow_slice_mut", true); x.idx = Some(i); x.vals = Some(vec![$( w.$f.borrow_slice_mut::<$C>().get(i).map(|c| c.val()).unwrap_or(u64::MAX - 2) ),*]); out.push(x);
            let mut x = g("Archetype::resolve + get_all_slices_mut", true); x.idx = Some(i); let s = w.$f.get_all_slices_mut(); x.ent = s.entity.get(i).map(|e| e.into_any());
            x.vals = Some(vec![$( s.$c.get(i).map(|c| c.val()).unwrap_or(u64::MAX - 2) ),*]); out.push(x);
        }
        let mut x = g("Archetype::view", false);
        if let Some(v) = w.$f.view(k) { x.found = true; x.idx = Some(v.index()); x.ent = Some(v.entity.into_any()); x.vals = Some(vec![$( v.component::<$C>().val() ),*]); }
        out.push(x);
        let mut x = g("Archetype::view (component_mut)", false);
        #[allow(unused_mut)]
        if let Some(mut v) = w.$f.view(k) { x.found = true; x.idx = Some(v.index()); x.vals = Some(vec![$( v.component_mut::<$C>().val() ),*]); }
        out.push(x);
        let mut x = g("Archetype::borrow", false);
        if let Some(b) = w.$f.borrow(k) { x.found = true; x.idx = Some(b.index()); x.ent = Some(b.entity().into_any()); x.vals = Some(vec![$( b.component::<$C>().val() ),*]); }
        out.push(x);
        let mut x = g("Archetype::borrow (component_mut)", false);
        if let Some(b) = w.$f.borrow(k) { x.found = true; x.vals = Some(vec![$( b.component_mut::<$C>().val() ),*]); }
        out.push(x);
        let r = ecs_find!(w, k, |e: &Entity<$A>, a: &EntityAny, wld: &Entity<_>, d: &EntityDirect<$A>, da: &EntityDirectAny, dw: &EntityDirect<_>, $($c: &$C),*| {
            let mut x = g("ecs_find!", true); x.ent = Some(e.into_any()); x.vals = Some(vec![$( $c.val() ),*]); x.directs = vec![d.into_any(), *da, dw.into_any()];
            if e.into_any() != *a || e != wld { x.ent = None; x.path = "ecs_find! (entity parameters disagree)"; } x });
        out.push(r.unwrap_or(g("ecs_find!", false)));
        let r = ecs_find!(w, k, |$($c: &mut $C),*, e: &EntityAny| { let mut x = g("ecs_find! (mut)", true); x.ent = Some(*e); x.vals = Some(vec![$( $c.val() ),*]); x });
        out.push(r.unwrap_or(g("ecs_find! (mut)", false)));
        let r = ecs_find_borrow!(w, k, |e: &Entity<$A>, a: &EntityAny, wld: &Entity<_>, d: &EntityDirect<$A>, da: &EntityDirectAny, dw: &EntityDirect<_>, $($c: &$C),*| {
            let mut x = g("ecs_find_borrow!", true); x.ent = Some(e.into_any()); x.vals = Some(vec![$( $c.val() ),*]); x.directs = vec![d.into_any(), *da, dw.into_any()];
            if e.into_any() != *a || e != wld { x.ent = None; x.path = "ecs_find_borrow! (entity parameters disagree)"; } x });
        out.push(r.unwrap_or(g("ecs_find_borrow!", false)));
        let r = ecs_find_borrow!(w, k, |$($c: &mut $C),*, e: &EntityAny| { let mut x = g("ecs_find_borrow! (mut)", true); x.ent = Some(*e); x.vals = Some(vec![$( $c.val() ),*]); x });
        out.push(r.unwrap_or(g("ecs_find_borrow! (mut)", false)));
    }} }
    /// Every lookup path with the given key.
    pub fn lookup(w: &mut W1, k: K) -> Vec<Got> {
        let mut out = vec![];
        match k {
            K::T(e) => { let e = Entity::<$A>::from_any(e); key_paths!(w, e, &mut out);
                let mut x = g("World::view", false); if let Some(v) = w.view(e) { x.found = true; x.ent = Some(v.entity.into_any()); x.vals = Some(vec![$( v.$c.val() ),*]); } out.push(x);
                let mut x = g("World::borrow", false); if let Some(b) = w.borrow(e) { x.found = true; x.ent = Some(b.entity().into_any()); x.vals = Some(vec![$( b.component::<$C>().val() ),*]); } out.push(x); }
            K::A(e) => key_paths!(w, e, &mut out),
            K::D(e) => { let e = EntityDirect::<$A>::from_any(e); key_paths!(w, e, &mut out);
                let mut x = g("World::view", false); if let Some(v) = w.view(e) { x.found = true; x.ent = Some(v.entity.into_any()); x.vals = Some(vec![$( v.$c.val() ),*]); } out.push(x);
                let mut x = g("World::borrow", false); if let Some(b) = w.borrow(e) { x.found = true; x.ent = Some(b.entity().into_any()); x.vals = Some(vec![$( b.component::<$C>().val() ),*]); } out.push(x); }
            K::DA(e) => key_paths!(w, e, &mut out),
        }
        out
    }
    /// The quick subset of the lookups, also for keys of another archetype: archetype-level paths never panic.
    pub fn foreign(w: &mut W1, k: K) -> Vec<Got> {
        let mut out = vec![];
        macro_rules! f { ($k:expr) => {{ let k = $k;
            out.push(g("Archetype::contains", w.$f.contains(k)));
            out.push(g("Archetype::to_direct", w.$f.to_direct(k).is_some()));
            out.push(g("Archetype::resolve", w.$f.resolve(k).is_some()));
            out.push(g("Archetype::view", w.$f.view(k).is_some()));
            out.push(g("Archetype::borrow", w.$f.borrow(k).is_some()));
        }} }
        match k { K::A(e) | K::T(e) => f!(e), K::D(e) | K::DA(e) => f!(e) }
        out
    }
    /// Typed handle obtained without a check; in debug builds the conversion itself panics.
    pub fn unchecked(w: &mut W1, k: K) -> Vec<Got> {
        let mut out = vec![];
        match k {
            K::T(e) | K::A(e) => { let e = Entity::<$A>::from_any_unchecked(e); key_paths!(w, e, &mut out); }
            K::D(e) | K::DA(e) => { let e = EntityDirect::<$A>::from_any_unchecked(e); key_paths!(w, e, &mut out); }
        }
        out
    }
    pub fn unchecked_destroy(w: &mut W1, k: K) -> bool {
        match k { K::T(e) | K::A(e) => { let e = Entity::<$A>::from_any_unchecked(e); w.destroy(e).is_some() }
                  K::D(e) | K::DA(e) => { let e = EntityDirect::<$A>::from_any_unchecked(e); w.$f.destroy(e).is_some() } }
    }
    pub fn destroy(w: &mut W1, k: K, via: u8) -> Option<Option<Vec<u64>>> {
        match (k, via) {
            (K::T(e), 0) => w.destroy(Entity::<$A>::from_any(e)).map(|c| Some(vals(&c))),
            (K::T(e), _) => w.$f.destroy(Entity::<$A>::from_any(e)).map(|c| { let t = c.into_tuple(); let c: $AC = t.into(); Some(vals(&c)) }),
            (K::A(e), 0) => w.destroy(e).map(|()| None),
            (K::A(e), _) => w.$f.destroy(e).map(|c| Some(vals(&c))),
            (K::D(e), 0) => w.destroy(EntityDirect::<$A>::from_any(e)).map(|c| Some(vals(&c))),
            (K::D(e), _) => w.$f.destroy(EntityDirect::<$A>::from_any(e)).map(|c| Some(vals(&c))),
            (K::DA(e), 0) => w.destroy(e).map(|()| None),
            (K::DA(e), _) => w.$f.destroy(e).map(|c| Some(vals(&c))),
        }
    }
    pub const NWRITE: u8 = 11;
    /// Writes the values to the entity through one of the mutable paths; true if the path accepted the key.
    #[allow(unused_assignments)]
    pub fn write(w: &mut W1, e: EntityAny, via: u8, v: &[u64]) -> bool {
        let t = Entity::<$A>::from_any(e);
        let mut i = 0usize;
        macro_rules! s { ($x:expr) => {{ $x.set(v[i]); i += 1; }} }
        match via {
            0 => if let Some(mut x) = w.view(t) { $( s!(x.component_mut::<$C>()); )* true } else { false },
            1 => if let Some(x) = w.$f.view(e) { $( s!(x.$c); )* true } else { false },
            2 => if let Some(x) = w.borrow(t) { $( s!(x.component_mut::<$C>()); )* true } else { false },
            3 => if let Some(n) = w.$f.resolve(t) { $( s!(w.$f.get_slice_mut::<$C>()[n]); )* true } else { false },
            4 => if let Some(n) = w.$f.resolve(e) { $( s!(w.$f.borrow_slice_mut::<$C>()[n]); )* true } else { false },
            5 => if let Some(n) = w.$f.resolve(t) { let x = w.$f.get_all_slices_mut(); $( s!(x.$c[n]); )* true } else { false },
            6 => ecs_find!(w, t, |$($c: &mut $C),*| { $( s!($c); )* }).is_some(),
            7 => ecs_find_borrow!(w, e, |$($c: &mut $C),*| { $( s!($c); )* }).is_some(),
            8 => { let mut hit = false; ecs_iter!(w, |x: &Entity<$A>, $($c: &mut $C),*| { if *x == t { i = 0; $( s!($c); )* hit = true; } }); hit }
            9 => { let mut hit = false; ecs_iter_borrow!(w, |x: &Entity<$A>, $($c: &mut $C),*| { if *x == t { i = 0; $( s!($c); )* hit = true; } }); hit }
            _ => { let mut hit = false; for (x, $($c),*) in w.$f.iter_mut() { if *x == t { i = 0; $( s!($c); )* hit = true; } } hit }
        }
    }
    /// Every way of enumerating this archetype.
    pub fn scan(w: &mut W1) -> Vec<(&'static str, Vec<Row>)> {
        let mut out: Vec<(&'static str, Vec<Row>)> = vec![];
        out.push(("Archetype::iter", w.$f.iter().map(|(e, $($c),*)| (e.into_any(), vec![$( $c.val() ),*])).collect()));
        out.push(("Archetype::iter_mut", w.$f.iter_mut().map(|(e, $($c),*)| (e.into_any(), vec![$( $c.val() ),*])).collect()));
        let ents: Vec<EntityAny> = w.$f.entities().iter().map(|e| e.into_any()).collect();
        let n = ents.len();
        let cols: Vec<Vec<u64>> = vec![$( w.$f.get_slice::<$C>().iter().map(|c| c.val()).collect() ),*];
        out.push(("entities + get_slice", zip(&ents, &cols, n)));
        let cols: Vec<Vec<u64>> = vec![$( w.$f.get_slice_mut::<$C>().iter().map(|c| c.val()).collect() ),*];
        out.push(("entities + get_slice_mut", zip(&ents, &cols, n)));
        let cols: Vec<Vec<u64>> = vec![$( w.$f.borrow_slice::<$C>().iter().map(|c| c.val()).collect() ),*];
        out.push(("entities + borrow_slice", zip(&ents, &cols, n)));
        let cols: Vec<Vec<u64>> = vec![$( w.$f.borrow_slice_mut::<$C>().iter().map(|c| c.val()).collect() ),*];
        out.push(("entities + borrow_slice_mut", zip(&ents, &cols, n)));
        { let s = w.$f.get_all_slices_mut(); let e: Vec<EntityAny> = s.entity.iter().map(|e| e.into_any()).collect(); let cols: Vec<Vec<u64>> = vec![$( s.$c.iter().map(|c| c.val()).collect() ),*];
          let n = e.len(); out.push(("get_all_slices_mut", zip(&e, &cols, n))); }
        let mut r = vec![]; ecs_iter!(w, |e: &Entity<$A>, $($c: &$C),*| { r.push((e.into_any(), vec![$( $c.val() ),*])); }); out.push(("ecs_iter!", r));
        let mut r = vec![]; ecs_iter!(w, |e: &Entity<$A>, $($c: &mut $C),*| { r.push((e.into_any(), vec![$( $c.val() ),*])); }); out.push(("ecs_iter! (mut)", r));
        let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<$A>, $($c: &$C),*| { r.push((e.into_any(), vec![$( $c.val() ),*])); }); out.push(("ecs_iter_borrow!", r));
        let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<$A>, $($c: &mut $C),*| { r.push((e.into_any(), vec![$( $c.val() ),*])); }); out.push(("ecs_iter_borrow! (mut)", r));
        let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<$A>, $($c: &$C),*| { r.push((e.into_any(), vec![$( $c.val() ),*])); }); out.push(("ecs_iter_destroy! (nothing destroyed)", r));
        out
    }
    /// Direct handles that the queries hand out, with the entity each was handed out for.
    pub fn query_directs(w: &mut W1) -> Vec<(&'static str, EntityDirectAny, EntityAny)> {
        let mut r = vec![];
        ecs_iter!(w, |e: &Entity<$A>, d: &EntityDirect<$A>, a: &EntityDirectAny, x: &EntityDirect<_>| { for d in [d.into_any(), *a, x.into_any()] { r.push(("ecs_iter!", d, e.into_any())); } });
        ecs_iter_borrow!(w, |e: &Entity<$A>, d: &EntityDirect<$A>, a: &EntityDirectAny, x: &EntityDirect<_>| { for d in [d.into_any(), *a, x.into_any()] { r.push(("ecs_iter_borrow!", d, e.into_any())); } });
        ecs_iter_destroy!(w, |e: &Entity<$A>, d: &EntityDirect<$A>, a: &EntityDirectAny, x: &EntityDirect<_>| { for d in [d.into_any(), *a, x.into_any()] { r.push(("ecs_iter_destroy!", d, e.into_any())); } });
        r
    }
    /// What a resolved direct handle designates.
    pub fn designates(w: &mut W1, d: EntityDirectAny) -> Option<EntityAny> { let i = w.$f.resolve(d)?; w.$f.entities().get(i).map(|e| e.into_any()) }
    pub fn entities(w: &W1) -> Vec<EntityAny> { w.$f.entities().iter().map(|e| e.into_any()).collect() }
    pub fn designates_vals(w: &mut W1, h: EntityAny) -> Option<Vec<u64>> { let b = w.$f.borrow(h)?; if b.entity().into_any() != h { return None; } let r = vec![$( b.component::<$C>().val() ),*]; Some(r) }
    /// ecs_iter_destroy! with a scripted closure: step(visit number, handle, values, direct) -> 0 continue 1 break 2 destroy 3 break+destroy 4 panic
    pub fn iter_destroy(w: &mut W1, step: &mut dyn FnMut(EntityAny, Vec<u64>, Vec<EntityDirectAny>) -> u8) {
        ecs_iter_destroy!(w, |e: &Entity<$A>, d: &EntityDirect<$A>, a: &EntityDirectAny, x: &EntityDirect<_>, $($c: &mut $C),*| {
            match step(e.into_any(), vec![$( $c.val() ),*], vec![d.into_any(), *a, x.into_any()]) { 0 => EcsStepDestroy::Continue, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, _ => std::panic::panic_any(Boom) }
        });
    }
    /// queries with a closure that panics at the n-th call; returns nothing
    pub fn panicking(w: &mut W1, via: u8, n: usize, key: Option<EntityAny>) {
        let mut i = 0usize;
        macro_rules! p { () => { if i == n { std::panic::panic_any(Boom); } i += 1; } }
        match (via, key) {
            (0, Some(k)) => { ecs_find!(w, k, |_e: &Entity<$A>, $(_ : &mut $C),*| { if true { std::panic::panic_any(Boom); } }); }
            (1, Some(k)) => { ecs_find_borrow!(w, k, |_e: &Entity<$A>, $(_ : &mut $C),*| { if true { std::panic::panic_any(Boom); } }); }
            (2, _) => { ecs_iter!(w, |_e: &Entity<$A>, $(_ : &mut $C),*| { p!(); }); }
            (3, _) => { ecs_iter_borrow!(w, |_e: &Entity<$A>, $(_ : &mut $C),*| { p!(); }); }
            _ => { ecs_iter!(w, |_e: &Entity<$A>, $(_ : &$C),*| { p!(); }); }
        }
    }
    pub fn iter_break(w: &mut W1, n: usize, borrow: bool) -> usize {
        let mut i = 0usize;
        if borrow { ecs_iter_borrow!(w, |_e: &Entity<$A>| { i += 1; if i == n { EcsStep::Break } else { EcsStep::Continue } }); }
        else { ecs_iter!(w, |_e: &Entity<$A>| { i += 1; if i == n { EcsStep::Break } else { EcsStep::Continue } }); }
        i
    }
    #[cfg(feature = "events")]
    pub fn events(w: &W1) -> (Vec<EntityAny>, Vec<EntityAny>) { (w.$f.iter_created().map(|e| e.into_any()).collect(), w.$f.iter_destroyed().map(|e| e.into_any()).collect()) }
    #[cfg(feature = "events")]
    pub fn clear(w: &mut W1) { w.$f.clear_events(); }
    #[cfg(gecs_verif)]
    pub fn preset(w: &mut W1, s: u32, a: u32) { w.$f.data.verif_preset_versions(s, a); }
    pub fn id() -> u8 { $A::ARCHETYPE_ID }
    pub fn select_ok(e: EntityAny) -> bool { matches!(SelectEntity::try_from(e), Ok(SelectEntity::$SE(x)) if x.into_any() == e) && matches!(SelectArchetype::try_from(e), Ok(SelectArchetype::$SE)) && SelectArchetype::try_from(e).ok().map(|s| s.archetype_id()) == Some($A::ARCHETYPE_ID) }
    pub fn select_direct_ok(e: EntityDirectAny) -> bool { matches!(SelectEntityDirect::try_from(e), Ok(SelectEntityDirect::$SE(x)) if x.into_any() == e) }
} } }
fn zip(e: &[EntityAny], cols: &[Vec<u64>], n: usize) -> Vec<Row> {
    let m = cols.iter().map(|c| c.len()).max().unwrap_or(0).max(n);
    (0..m).map(|i| (e.get(i).copied().unwrap_or(EntityAny::from_raw((u32::MAX, 1)).ok().unwrap()), cols.iter().map(|c| c.get(i).copied().unwrap_or(u64::MAX - 3)).collect())).collect()
}
arch_impl!(a0, ArchA, ArchAComponents, arch_a, ArchA, [CX cx]);
arch_impl!(a1, ArchB, ArchBComponents, arch_b, ArchB, [CX cx, CT ct]);
arch_impl!(a2, ArchC, ArchCComponents, arch_c, ArchC, [CT ct, CX cx, CZ cz]);
arch_impl!(a3, ArchD, ArchDComponents, arch_d, ArchD, [CB cb, CX cx, CT ct, CS cs, CY cy]);
arch_impl!(a4, ArchE, ArchEComponents, arch_e, ArchE, [CZ cz]);

#[macro_export]
macro_rules! on { ($a:expr, $f:ident ( $($x:expr),* )) => { match $a { 0 => $crate::w1::a0::$f($($x),*), 1 => $crate::w1::a1::$f($($x),*), 2 => $crate::w1::a2::$f($($x),*), 3 => $crate::w1::a3::$f($($x),*), _ => $crate::w1::a4::$f($($x),*) } } }

/// Multi-archetype queries: (name, archetypes expected, component kinds read)
pub const MULTI: [(&str, &[usize], &[char]); 8] = [
    ("|&EntityAny, &CX|", &[0, 1, 2, 3], &['X']),
    ("|&Entity<_>, &mut CT|", &[1, 2, 3], &['T']),
    ("|&CX, &Entity<ArchC>, &CT|", &[2], &['X', 'T']),
    ("|&OneOf<CZ, CB>, &EntityAny|", &[2, 3, 4], &['?']),
    ("|&EntityAny|", &[0, 1, 2, 3, 4], &[]),
    ("|&CT, &CX, &EntityDirect<_>|", &[1, 2, 3], &['T', 'X']),
    ("|&EntityDirectAny, &CZ|", &[2, 4], &['Z']),
    ("|&mut OneOf<CS, CZ>, &mut CX|", &[2, 3], &['?', 'X']),
];
/// mode 0: ecs_iter, 1: ecs_iter_borrow, 2: ecs_iter_destroy (step decides)
pub fn multi(w: &mut W1, q: usize, mode: u8, step: &mut dyn FnMut(EntityAny, Vec<u64>, u8) -> u8) {
    macro_rules! st { ($x:expr) => { match $x { 0 | 2 => EcsStep::Continue, 1 | 3 => EcsStep::Break, _ => std::panic::panic_any(Boom) } } }
    macro_rules! sd { ($x:expr) => { match $x { 0 => EcsStepDestroy::Continue, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, _ => std::panic::panic_any(Boom) } } }
    macro_rules! all { ($c:ident, $m:ident) => { match q {
        0 => $c!(w, |e: &EntityAny, x: &CX| { $m!(step(*e, vec![x.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        1 => $c!(w, |e: &Entity<_>, t: &mut CT| { $m!(step(e.into_any(), vec![t.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        2 => $c!(w, |x: &CX, e: &Entity<ArchC>, t: &CT| { $m!(step(e.into_any(), vec![x.val(), t.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        3 => $c!(w, |o: &OneOf<CZ, CB>, e: &EntityAny| { $m!(step(*e, vec![o.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        4 => $c!(w, |e: &EntityAny| { $m!(step(*e, vec![], MatchedArchetype::ARCHETYPE_ID)) }),
        5 => $c!(w, |t: &CT, x: &CX, e: &Entity<_>, _d: &EntityDirect<_>| { $m!(step(e.into_any(), vec![t.val(), x.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        6 => $c!(w, |_d: &EntityDirectAny, z: &CZ, e: &EntityAny| { $m!(step(*e, vec![z.val()], MatchedArchetype::ARCHETYPE_ID)) }),
        _ => $c!(w, |o: &mut OneOf<CS, CZ>, x: &mut CX, e: &EntityAny| { $m!(step(*e, vec![o.val(), x.val()], MatchedArchetype::ARCHETYPE_ID)) }),
    } } }
    match mode { 0 => all!(ecs_iter, st), 1 => all!(ecs_iter_borrow, st), _ => all!(ecs_iter_destroy, sd) }
}
/// the same queries as find: Some(values) if the closure ran
pub fn multi_find(w: &mut W1, q: usize, borrow: bool, k: EntityAny) -> Option<(EntityAny, Vec<u64>)> {
    macro_rules! all { ($c:ident) => { match q {
        0 => $c!(w, k, |e: &EntityAny, x: &CX| { (*e, vec![x.val()]) }),
        1 => $c!(w, k, |e: &Entity<_>, t: &mut CT| { (e.into_any(), vec![t.val()]) }),
        2 => $c!(w, k, |x: &CX, e: &Entity<ArchC>, t: &CT| { (e.into_any(), vec![x.val(), t.val()]) }),
        3 => $c!(w, k, |o: &OneOf<CZ, CB>, e: &EntityAny| { (*e, vec![o.val()]) }),
        4 => $c!(w, k, |e: &EntityAny| { (*e, vec![]) }),
        5 => $c!(w, k, |t: &CT, x: &CX, e: &Entity<_>, _d: &EntityDirect<_>| { (e.into_any(), vec![t.val(), x.val()]) }),
        6 => $c!(w, k, |_d: &EntityDirectAny, z: &CZ, e: &EntityAny| { (*e, vec![z.val()]) }),
        _ => $c!(w, k, |o: &mut OneOf<CS, CZ>, x: &mut CX, e: &EntityAny| { (*e, vec![o.val(), x.val()]) }),
    } } }
    if borrow { all!(ecs_find_borrow) } else { all!(ecs_find) }
}
/// index of the component that a multi query reads for the given column letter in the given archetype
pub fn col_of(a: usize, q: usize, letter: char) -> usize {
    COMPS[a].iter().position(|c| *c == letter || (letter == '?' && match q { 3 => *c == 'Z' || *c == 'B', _ => *c == 'S' || *c == 'Z' })).unwrap()
}
