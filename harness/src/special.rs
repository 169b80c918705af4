//! Drivers for what random histories do not reach: limits, borrow conflicts, conversions, wide archetypes, panicking drops.
use crate::comps::*;
use crate::engine::*;
use crate::on;
use crate::w1::*;
use gecs::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub type Driver = fn(&mut Vec<Fail>);
pub const LIST: &[(&str, &str, Driver)] = &[
    ("limit", "C12 C10 C19 C01 C08", limit),
    ("limit_grow", "C12 C19", limit_grow),
    ("many", "C12 C01 C02 C08 C19", many),
    ("huge", "C01 C02 C04 C06 C07 C09 C12", huge),
    ("old_handles", "C01 C03 C08 C09", old_handles),
    ("lots", "C01 C02 C04 C05 C06 C07 C08 C09 C12 C13 C14 C15 C17 C19", crate::lots::lots),
    ("sizes", "C02 C03 C04 C12 C13", sizes),
    ("foreign_direct", "C03 C09", foreign_direct),
    ("borrow_pairs", "C11 C10 C19", borrow_pairs),
    ("borrow_triples", "C11", borrow_triples),
    ("borrow_guards", "C11 C10", borrow_guards),
    ("convert", "C14 C03 C19", convert),
    ("ids", "C15 C14 C19", ids),
    ("wide", "C02 C04 C06 C13 C19 C12 C07 C01", crate::wide::wide),
    ("drop_panics", "C10 C04", drop_panics),
    ("clone_panics", "C10 C13 C04", clone_panics),
    ("real_overflow", "C08 C19 C10", real_overflow),
    ("find_panics", "C10 C11", find_panics),
];
macro_rules! f { ($o:expr, $p:expr, $($t:tt)*) => { $o.push(Fail { props: $p, msg: format!($($t)*) }) } }

mod lim {
    use super::CY;
    use gecs::prelude::*;
    pub struct Z0; 
    ecs_world! { ecs_name!(WL); ecs_archetype!(ArchZ, Z0); ecs_archetype!(ArchO, Z0, CY); }
}
use lim::{ArchO, ArchZ, ArchZComponents, WLCapacity, Z0, WL};
pub const LIM: usize = 1 << 24;

fn at_limit(o: &mut Vec<Fail>, w: &mut WL, first: Entity<ArchZ>, last: Entity<ArchZ>, how: &str) {
    if w.arch_z.len() != LIM || w.arch_z.capacity() != LIM { f!(o, "C12", "{how}: len {} capacity {} after 2^24 creations", w.arch_z.len(), w.arch_z.capacity()); return; }
    match quiet(|| w.create::<ArchZ>((Z0,))) { Ok(h) => f!(o, "C12", "{how}: create beyond 2^24 entities returned {h:?}"), Err(e) => if !e.contains("capacity") { f!(o, "C12 C10", "{how}: create at the limit panicked with {e:?}") } }
    match quiet(|| w.create_within_capacity::<ArchZ>((Z0,)).is_err()) { Ok(true) => {} , x => f!(o, "C12", "{how}: create_within_capacity at the limit: {x:?}") }
    if w.arch_z.len() != LIM || w.arch_z.capacity() != LIM { f!(o, "C12 C10", "{how}: failed creations at the limit changed len/capacity to {}/{}", w.arch_z.len(), w.arch_z.capacity()); }
    if !w.contains(first) || !w.contains(last) { f!(o, "C12 C10 C01", "{how}: entities lost at the limit"); }
    if w.destroy(first).is_none() { f!(o, "C12 C01", "{how}: destroy at the limit refused a live handle"); }
    if w.contains(first) || !w.contains(last) || w.arch_z.len() != LIM - 1 { f!(o, "C12 C01", "{how}: destroy at the limit had the wrong effect"); }
    match quiet(|| w.create::<ArchZ>((Z0,))) { Ok(h) => if h == first || !w.contains(h) || w.contains(first) { f!(o, "C12 C08 C01", "{how}: the freed position was reissued as {h:?} (freed {first:?})") }, Err(e) => f!(o, "C12", "{how}: the freed position is not reusable at the limit: {e}") }
    if w.arch_z.len() != LIM { f!(o, "C12", "{how}: len {} after refilling", w.arch_z.len()); }
}
fn limit(o: &mut Vec<Fail>) {
    for n in [LIM + 1, LIM + 2, LIM * 2, u32::MAX as usize, 1 << 32, (1 << 32) + 3] {
        match quiet(|| WL::with_capacity(WLCapacity { arch_z: n, arch_o: 0 }).arch_z.capacity()) { Ok(c) => f!(o, "C12", "with_capacity({n}) did not panic (capacity {c})"), Err(_) => {} }
    }
    let mut w = WL::with_capacity(WLCapacity { arch_z: LIM, arch_o: 0 });
    if w.arch_z.capacity() != LIM { f!(o, "C12", "with_capacity(2^24) gave {}", w.arch_z.capacity()); return; }
    let first = w.create::<ArchZ>((Z0,)); let mut last = first;
    for _ in 1..LIM { last = match w.create_within_capacity::<ArchZ>((Z0,)) { Ok(h) => h, Err(_) => { f!(o, "C12", "create_within_capacity failed below the capacity"); return; } }; }
    let (mut n, mut bad) = (0usize, 0usize);
    { let mut prev = u64::MAX; for e in w.arch_z.entities() { let k = e.into_any().raw().0 as u64; n += 1; if k == prev { bad += 1; } prev = k; } }
    let mut seen = HashSet::with_capacity(LIM); for e in w.arch_z.entities() { let r = e.into_any().raw(); if !seen.insert((r.0 as u64) << 32 | r.1 as u64) { f!(o, "C08 C01 C14", "two live entities have the handle {e:?}"); break; } }
    drop(seen);
    if n != LIM || bad > 0 { f!(o, "C12 C06 C08", "entities() at the limit: {n} handles, {bad} equal neighbours"); }
    at_limit(o, &mut w, first, last, "with_capacity(2^24)");
}
fn limit_grow(o: &mut Vec<Fail>) {
    for start in [LIM / 2 + 5, LIM - 1, LIM / 2 - 1] {
        let mut w = WL::with_capacity(WLCapacity { arch_z: start, arch_o: 0 });
        let first = w.create::<ArchZ>((Z0,)); let mut last = first;
        let mut cap = w.arch_z.capacity();
        for i in 1..LIM {
            match quiet(|| w.create::<ArchZ>((Z0,))) { Ok(h) => last = h, Err(e) => { f!(o, "C12", "create number {} of 2^24 panicked below the limit ({e}), capacity {cap}", i + 1); return; } }
            let c = w.arch_z.capacity();
            if c < cap || (c != cap && i < cap) || c > LIM { f!(o, "C12", "capacity {cap} -> {c} at {i} entities"); return; }
            cap = c;
        }
        at_limit(o, &mut w, first, last, "growth to 2^24");
        if !o.is_empty() { return; }
    }
}
fn many(o: &mut Vec<Fail>) {
    let mut w = W1::new();
    let mut live: Vec<(EntityAny, u64)> = vec![];
    let mut dead: Vec<EntityAny> = vec![];
    let mut g = Rng(99);
    let mut issued = HashSet::new();
    let mut next = 0u64;
    for round in 0..6 {
        for _ in 0..4000 { next += 16; let h = match a2::create(&mut w, next, (next % 2) as u8) { Ok(h) => h, Err(_) => unreachable!() }; if !issued.insert(h.raw()) { f!(o, "C08 C01", "{h:?} issued twice"); return; } live.push((h, next)); }
        for (h, v) in &live { let r = a2::designates_vals(&mut w, *h); if r != Some(a2::norm(*v)) { f!(o, "C01 C02", "{h:?} shows {r:?}"); return; } }
        for _ in 0..(1000 + round * 700) { let i = g.below(live.len()); let (h, v) = live.swap_remove(i); match a2::destroy(&mut w, if i % 2 == 0 { K::T(h) } else { K::A(h) }, 1) { Some(Some(c)) => if c != a2::norm(v) { f!(o, "C02 C04", "destroy of {h:?} returned {c:?}"); return; }, _ => { f!(o, "C01", "destroy of {h:?} refused"); return; } } dead.push(h); }
        if w.arch_c.len() != live.len() { f!(o, "C12", "len {} with {} live entities", w.arch_c.len(), live.len()); return; }
        for (h, v) in &live { let r = a2::designates_vals(&mut w, *h); if r != Some(a2::norm(*v)) { f!(o, "C01 C02", "{h:?} shows {r:?}"); return; } }
        for h in &dead { if w.contains(*h) { f!(o, "C01", "dead {h:?} accepted"); return; } }
        let n = w.arch_c.iter().count(); if n != live.len() { f!(o, "C06", "iter presents {n} of {}", live.len()); return; }
        let cap = w.arch_c.capacity(); let mut k = 0; 
        { let mut c = w.clone(); while c.arch_c.len() < c.arch_c.capacity() { next += 16; match a2::create(&mut c, next, 2) { Ok(h) => { if issued.contains(&h.raw()) && live.iter().any(|l| l.0 == h) { f!(o, "C08 C13", "clone reissued {h:?}"); return; } k += 1 } Err(_) => { f!(o, "C12 C13", "clone not refillable"); return; } } } let _ = k; if c.arch_c.capacity() != cap { f!(o, "C13 C12", "refilling a clone changed its capacity"); return; } }
    }
    drop(w);
    reg(|r| if !r.alive.is_empty() || r.z_alive != 0 || !r.errors.is_empty() { let e = r.errors.first().cloned(); f!(o, "C04", "{} values leaked, {} zero-sized, {e:?}", r.alive.len(), r.z_alive) });
}

/// more entities than 16 bits of position, every kind of key and level, at both ends and around 2^16
fn huge(o: &mut Vec<Fail>) {
    let n = 70_000u64;
    let mut w = W1::new();
    let mut live: Vec<(EntityAny, u64)> = vec![];
    for i in 0..n { let b = 16 * (i + 1); match a0::create(&mut w, b, (i % 2) as u8) { Ok(h) => live.push((h, b)), Err(_) => unreachable!() } }
    let mut gone: Vec<EntityAny> = vec![];
    let mut pos: Vec<usize> = vec![69_999, 65_535, 65_536, 65_537, 65_538, 66_000, 67_001, 68_002, 69_003, 69_990, 0, 1, 255, 256, 257, 40_000];
    pos.sort(); pos.reverse();
    for (j, p) in pos.into_iter().enumerate() { for lvl in 0..4u8 {
        if p + 1 + lvl as usize >= live.len() { continue; }
        let (h, b) = live[p + lvl as usize];
        let r = a0::designates_vals(&mut w, h); if r != Some(a0::norm(b)) { f!(o, "C01 C02", "{h:?} shows {r:?} with {} entities", live.len()); return; }
        for x in a0::lookup(&mut w, if j % 2 == 0 { K::T(h) } else { K::A(h) }) { if !x.found || x.vals.as_ref().is_some_and(|v| *v != a0::norm(b)) { f!(o, "C01 C02", "{h:?} by {}: found {} {:?} with {} entities", x.path, x.found, x.vals, live.len()); return; } }
        let k = match (j + lvl as usize) % 2 { 0 => K::A(h), _ => K::T(h) };
        match a0::destroy(&mut w, k, (lvl + j as u8) % 4) { Some(Some(c)) => if c != a0::norm(b) { f!(o, "C01 C02 C04", "destroy of {h:?} returned {c:?} with {} entities", live.len()); return; }, Some(None) => {}, _ => { f!(o, "C01", "destroy of {h:?} refused with {} entities", live.len()); return; } }
        live.swap_remove(p + lvl as usize); gone.push(h);
        if w.arch_a.len() != live.len() { f!(o, "C12", "len {} with {} live entities", w.arch_a.len(), live.len()); return; }
        for h in &gone { if w.contains(*h) || w.arch_a.contains(*h) { f!(o, "C01 C07", "{h:?} is still there after its destruction ({} entities)", live.len()); return; } }
        for q in [0, 1, p, p + 1, live.len() - 1] { if let Some((h, b)) = live.get(q) { let r = a0::designates_vals(&mut w, *h); if r != Some(a0::norm(*b)) { f!(o, "C01 C02", "{h:?} shows {r:?} after the destruction of another ({} entities)", live.len()); return; } } }
    } }
    for (h, b) in &live { let r = a0::designates_vals(&mut w, *h); if r != Some(a0::norm(*b)) { f!(o, "C01 C02", "{h:?} shows {r:?}"); return; } }
    // every way to visit all of them pairs each handle with its own value, once
    let want: std::collections::HashMap<EntityAny, u64> = live.iter().map(|(h, b)| (*h, a0::norm(*b)[0])).collect();
    macro_rules! visit { ($name:expr, $seen:ident, $body:block) => {{ let mut $seen: Vec<(EntityAny, u64)> = vec![]; $body
        if $seen.len() != want.len() || $seen.iter().map(|x| x.0).collect::<HashSet<_>>().len() != want.len() { f!(o, "C06", "{} presents {} items, {} live", $name, $seen.len(), want.len()); return; }
        for (h, v) in &$seen { if want.get(h) != Some(v) { f!(o, "C06 C02", "{} presents {h:?} with {v} instead of {:?}", $name, want.get(h)); return; } } }} }
    visit!("Archetype::iter", seen, { for (e, c) in w.arch_a.iter() { seen.push((e.into_any(), c.0)); } });
    visit!("Archetype::iter_mut", seen, { for (e, c) in w.arch_a.iter_mut() { seen.push((e.into_any(), c.0)); } });
    visit!("ecs_iter!", seen, { ecs_iter!(w, |e: &Entity<ArchA>, c: &CX| { seen.push((e.into_any(), c.0)); }); });
    visit!("ecs_iter_borrow!", seen, { ecs_iter_borrow!(w, |e: &Entity<ArchA>, c: &mut CX| { seen.push((e.into_any(), c.0)); }); });
    visit!("ecs_iter_destroy!", seen, { ecs_iter_destroy!(w, |e: &Entity<ArchA>, c: &CX| { seen.push((e.into_any(), c.0)); EcsStepDestroy::Continue }); });
    for (h, d) in w.arch_a.entities().to_vec().iter().map(|e| (e.into_any(), w.arch_a.to_direct(*e))).step_by(997) { let i = d.and_then(|d| w.arch_a.resolve(d)); if i.is_none() || i != w.arch_a.resolve(h) { f!(o, "C09", "to_direct of {h:?}: {i:?}"); return; } }
}
/// handles and direct handles of an entity removed up to 2^24 removals ago, its position reused ever since
fn old_handles(o: &mut Vec<Fail>) {
    let n = if cfg!(debug_assertions) || cfg!(feature = "events") { (1u32 << 16) + 300 } else { (1 << 24) + 300 };
    for keep in 0..2 {
        let mut w = W1::new();
        for i in 0..keep { w.create::<ArchA>((CX(1_000_000_000 + i),)); }
        let e0 = w.create::<ArchA>((CX(0),)); let d0 = w.to_direct(e0).unwrap(); let (a0, da0) = (e0.into_any(), d0.into_any());
        if !w.contains(d0) || !w.contains(da0) || !w.contains(e0) { f!(o, "C09 C01", "fresh handle not accepted"); return; }
        let mut e = e0;
        for i in 1..=n {
            if w.destroy(e).is_none() { f!(o, "C01", "destroy refused the live {e:?}"); return; }
            e = w.create::<ArchA>((CX(i as u64),));
            if e == e0 { f!(o, "C08", "{e:?} issued a second time after {i} removals"); return; }
            if w.contains(e0) || w.contains(a0) || w.arch_a.contains(e0) { f!(o, "C01", "{e0:?} is accepted again {i} removals after its entity was destroyed"); return; }
            if w.contains(d0) || w.contains(da0) || w.arch_a.contains(d0) || w.arch_a.contains(da0) { f!(o, "C09 C01", "{d0:?} is accepted {i} removals after it was issued"); return; }
        }
        if ecs_find!(w, e, |x: &CX| x.0) != Some(n as u64) { f!(o, "C02", "the last entity shows a wrong value"); return; }
    }
}
/// direct handles minted by another world, at the same archetype version, with positions below, at and past the length
fn foreign_direct(o: &mut Vec<Fail>) {
    for small in 0..4usize { for spare in 0..2usize { for churn in 0..2usize {
        let mut big = W1::new(); let mut ds: Vec<(usize, EntityDirectAny)> = vec![];
        let mut w = W1::new(); let mut hs: Vec<(usize, EntityAny, u64)> = vec![];
        for a in 0..NA {
            for i in 0..8u64 { let _ = on!(a, create(&mut big, 16 + 16 * i, 0)); }
            let mut tmp = vec![];
            for i in 0..(small + 3 * spare + churn) as u64 { if let Ok(h) = on!(a, create(&mut w, 1600 + 16 * i, 0)) { tmp.push((a, h, 1600 + 16 * i)); } }
            for _ in 0..(3 * spare + churn) { let (_, h, _) = tmp.pop().unwrap(); w.destroy(h); }
            if spare + churn > 0 { for _ in 0..(3 * spare + churn) { if let Ok(h) = on!(a, create(&mut big, 16, 0)) { big.destroy(h); } } }
            hs.extend(tmp);
            for (_, d, _) in on!(a, query_directs(&mut big)) { if !ds.contains(&(a, d)) { ds.push((a, d)); } }
        }
        for (a, d) in ds {
            let id = IDS[a]; let len = on!(a, lens(&w)).0;
            // which position it names: the one it designates in its own world
            let of = on!(a, designates(&mut big, d)); let at = on!(a, entities(&big)).iter().position(|h| Some(*h) == of);
            let Some(at) = at else { f!(o, "C09 C03", "{d:?} designates nothing in its own world"); return; };
            let mine = hs.iter().filter(|h| h.0 == a).map(|h| w.to_direct(h.1)).any(|x| x == Some(d));
            let want = at < len && mine;
            macro_rules! t { ($A:ident, $f:ident) => {{ let t = EntityDirect::<$A>::from_any(d);
                let got = [quiet(|| w.contains(d)).ok(), quiet(|| w.contains(t)).ok(), quiet(|| w.$f.contains(d)).ok(), quiet(|| w.$f.contains(t)).ok(), quiet(|| w.$f.resolve(d).is_some()).ok(), quiet(|| w.$f.resolve(t).is_some()).ok(), quiet(|| w.to_direct(d).is_some()).ok(), quiet(|| w.view(t).is_some()).ok(), quiet(|| w.borrow(t).is_some()).ok(), quiet(|| w.$f.view(d).is_some()).ok(), quiet(|| w.$f.borrow(d).is_some()).ok(), quiet(|| ecs_find!(w, d, |_e: &EntityAny| {}).is_some()).ok(), quiet(|| ecs_find!(w, t, |_e: &Entity<$A>| {}).is_some()).ok(), quiet(|| ecs_find_borrow!(w, d, |_e: &EntityAny| {}).is_some()).ok()];
                if got.iter().any(|g| if want { *g != Some(true) } else { *g == Some(true) }) { f!(o, "C03 C09", "{d:?} of another world (position {at}, archetype {id}) against {len} entities: expected {want}, accepted by [contains, typed contains, archetype contains x2, resolve x2, to_direct, view, borrow, archetype view, borrow, find x3] {got:?}"); return; }
                if !want { if [quiet(|| w.destroy(d).is_some()), quiet(|| w.destroy(t).is_some()), quiet(|| w.$f.destroy(d).is_some()), quiet(|| w.$f.destroy(t).is_some())].contains(&Ok(true)) { f!(o, "C03", "{d:?} of another world destroyed an entity"); return; } }
            }} }
            match a { 0 => t!(ArchA, arch_a), 1 => t!(ArchB, arch_b), 2 => t!(ArchC, arch_c), 3 => t!(ArchD, arch_d), _ => t!(ArchE, arch_e) }
        }
    } } }
}
/// tracked components of many sizes and alignments: growth, removal at every position, clone, drop
mod sz {
    use super::{Cv, CT};
    use gecs::prelude::*;
    macro_rules! t { ($($n:ident $len:expr, $al:literal);*) => { $( #[repr(align($al))] #[derive(Clone)] pub struct $n { pub pre: [u8; $len], pub t: CT, pub post: [u8; 3] }
        impl $n { pub fn mk(v: u64) -> Self { $n { pre: [v as u8 ^ 0x5a; $len], t: CT::mk(v), post: [!(v as u8); 3] } }
                  pub fn val(&self) -> u64 { let v = self.t.val(); if self as *const _ as usize % $al != 0 || self.pre.iter().any(|b| *b != v as u8 ^ 0x5a) || self.post != [!(v as u8); 3] { u64::MAX } else { v } } } )* } }
    t!(S0 0, 1; S1 1, 2; S2 100, 1; S3 112, 16; S4 250, 1; S5 1000, 32; S6 4070, 128; S7 66000, 1);
    // byte arrays: sizes that are no multiple of a word
    macro_rules! p { ($($n:ident $len:expr);*) => { $( #[derive(Clone)] pub struct $n(pub [u8; $len]);
        impl $n { pub fn mk(v: u64) -> Self { let mut b = [0u8; $len]; for i in 0..$len { b[i] = if i < 3 { (v >> (8 * i)) as u8 } else { (v as u8).wrapping_mul(31) ^ i as u8 } } $n(b) }
                  pub fn val(&self) -> u64 { let v = self.0[0] as u64 | (self.0[1] as u64) << 8 | (self.0[2] as u64) << 16; if self.0 == Self::mk(v).0 { v } else { u64::MAX } } } )* } }
    p!(P0 3; P1 5; P2 17; P3 27; P4 131; P5 1021; P6 66003);
    ecs_world! { ecs_name!(WS);
        ecs_archetype!(Ap0, P0); ecs_archetype!(Ap1, P1); ecs_archetype!(Ap2, P2, P0); ecs_archetype!(Ap3, P3); ecs_archetype!(Ap4, P4); ecs_archetype!(Ap5, P5); ecs_archetype!(Ap6, P6);
        ecs_archetype!(As0, S0); ecs_archetype!(As1, S1); ecs_archetype!(As2, S2); ecs_archetype!(As3, S3); ecs_archetype!(As4, S4); ecs_archetype!(As5, S5, S0); ecs_archetype!(As6, S6, S3); ecs_archetype!(As7, S7); }
}
fn sizes(o: &mut Vec<Fail>) {
    use sz::*;
    macro_rules! run { ($A:ident, $f:ident, $C:ident, $n:expr, $mk:expr) => {{
        reg_reset();
        let mut w = WS::new(); let mut live: Vec<(Entity<$A>, u64)> = vec![]; let mut next = 1u64; let name = stringify!($C);
        macro_rules! all { ($w:expr, $when:expr) => { for (i, (h, v)) in live.iter().enumerate() { let r = $w.$f.borrow(*h).map(|b| b.component::<$C>().val()); if r != Some(*v) { f!(o, "C02 C03 C04 C13", "{name}: {} of {} shows {r:?} instead of {v} {}", i, live.len(), $when); return; } } } }
        for round in 0..3 {
            for _ in 0..$n { let v = next; next += 1; let h = if v % 3 == 0 && w.$f.len() < w.$f.capacity() { match w.$f.create_within_capacity($mk(v)) { Ok(h) => h, Err(_) => { f!(o, "C12", "{name}: create_within_capacity failed below the capacity"); return; } } } else { w.$f.create($mk(v)) }; live.push((h, v)); if live.len() <= 8 || live.len().is_power_of_two() || (live.len() - 1).is_power_of_two() { all!(w, "after a creation") } }
            all!(w, "after growth");
            for k in 0..($n / 2) { let i = match k % 4 { 0 => 0, 1 => live.len() - 1, 2 => live.len() / 2, _ => (k * 7 + round) % live.len() }; let (h, v) = live.swap_remove(i); match w.$f.destroy(h) { Some(c) => if c.get::<$C>().val() != v { f!(o, "C02 C04", "{name}: destroy returned {} instead of {v}", c.get::<$C>().val()); return; }, None => { f!(o, "C01 C02", "{name}: destroy refused"); return; } } if k < 20 { all!(w, "after a removal"); } }
            all!(w, "after removals");
            let alive = reg(|r| r.alive.len());
            { let c = w.clone(); all!(c, "in a clone"); let (h, v) = live[live.len() / 3]; let mut c = c; if c.$f.destroy(h).map(|x| x.get::<$C>().val()) != Some(v) { f!(o, "C13 C02", "{name}: destroy in a clone"); return; } all!(w, "in the original of a changed clone"); }
            if reg(|r| r.alive.len()) != alive { f!(o, "C04 C13", "{name}: a dropped clone leaves {} values, {alive} before", reg(|r| r.alive.len())); return; }
        }
        drop(w);
        reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { let e = r.errors.first().cloned(); f!(o, "C04 C03", "{name}: {} values leaked, {e:?}", r.alive.len()) });
        if !o.is_empty() { return; }
    }} }
    run!(As0, as_0, S0, 300usize, |v| (S0::mk(v),)); run!(As1, as_1, S1, 300usize, |v| (S1::mk(v),)); run!(As2, as_2, S2, 900usize, |v| (S2::mk(v),)); run!(As3, as_3, S3, 700usize, |v| (S3::mk(v),));
    run!(As4, as_4, S4, 400usize, |v| (S4::mk(v),)); run!(As5, as_5, S5, 150usize, |v| (S5::mk(v), S0::mk(v + 100_000))); run!(As6, as_6, S6, 60usize, |v| (S6::mk(v), S3::mk(v + 100_000))); run!(As7, as_7, S7, 12usize, |v| (S7::mk(v),));
    run!(Ap0, ap_0, P0, 300usize, |v| (P0::mk(v),)); run!(Ap1, ap_1, P1, 300usize, |v| (P1::mk(v),)); run!(Ap2, ap_2, P2, 300usize, |v| (P2::mk(v), P0::mk(v + 100_000))); run!(Ap3, ap_3, P3, 300usize, |v| (P3::mk(v),));
    run!(Ap4, ap_4, P4, 300usize, |v| (P4::mk(v),)); run!(Ap5, ap_5, P5, 150usize, |v| (P5::mk(v),)); run!(Ap6, ap_6, P6, 12usize, |v| (P6::mk(v),));
}
// ------------------------------------------------------------------ C11
type Acc<'a> = &'a mut dyn FnMut();
/// one runtime-borrowed access of column `col` (0: CX, 1: CT) of archetype `a` (0: ArchB, 1: ArchD), nested `inner` runs while it is held
fn acc(w: &W1, h: &[Entity<ArchB>; 2], d: &[Entity<ArchD>; 2], kind: u8, a: u8, col: u8, inner: Acc) {
    macro_rules! go { ($A:ident, $f:ident, $e:expr, $C:ident) => { match kind {
        0 => { ecs_find_borrow!(w, $e[0], |_c: &$C| { inner() }); }
        1 => { ecs_find_borrow!(w, $e[0], |_c: &mut $C| { inner() }); }
        2 => { ecs_iter_borrow!(w, |_e: &Entity<$A>, _c: &$C| { if *_e == $e[0] { inner() } }); }
        3 => { ecs_iter_borrow!(w, |_e: &Entity<$A>, _c: &mut $C| { if *_e == $e[1] { inner() } }); }
        4 => { let b = w.borrow($e[1]).unwrap(); let _c = b.component::<$C>(); inner() }
        5 => { let b = w.borrow($e[1]).unwrap(); let _c = b.component_mut::<$C>(); inner() }
        6 => { let _c = w.$f.borrow_slice::<$C>(); inner() }
        7 => { let _c = w.$f.borrow_slice_mut::<$C>(); inner() }
        8 => { let _c = w.archetype::<$A>().borrow($e[0].into_any()).unwrap(); let _x = _c.component::<$C>(); inner() }
        _ => { ecs_find_borrow!(w, $e[1].into_any(), |_e: &EntityAny, _c: &mut OneOf<CW, $C>| { inner() }); }
    } } }
    match (a, col) { (0, 0) => go!(ArchB, arch_b, h, CX), (0, _) => go!(ArchB, arch_b, h, CT), (_, 0) => go!(ArchD, arch_d, d, CX), (_, _) => go!(ArchD, arch_d, d, CT) }
}
const KINDS: u8 = 10;
fn is_mut(k: u8) -> bool { matches!(k, 1 | 3 | 5 | 7 | 9) }
fn world_bd() -> (W1, [Entity<ArchB>; 2], [Entity<ArchD>; 2]) {
    let mut w = W1::new();
    let h = [w.create::<ArchB>(a1::mk(16)), w.create::<ArchB>(a1::mk(32))];
    let d = [w.create::<ArchD>(a3::mk(48)), w.create::<ArchD>(a3::mk(64))];
    (w, h, d)
}
fn all_free(o: &mut Vec<Fail>, w: &W1, h: &[Entity<ArchB>; 2], d: &[Entity<ArchD>; 2], after: &str) {
    for a in 0..2 { for c in 0..2 { for k in [7u8, 1] { let mut ran = false; if let Err(e) = quiet(|| acc(w, h, d, k, a, c, &mut || ran = true)) { f!(o, "C11 C10", "after {after}: mutable access (kind {k}) to column {c} of archetype {a} refused: {e}"); return; } if !ran { f!(o, "C11", "after {after}: access {k} did not run"); return; } } } }
}
fn borrow_pairs(o: &mut Vec<Fail>) {
    let (w, h, d) = world_bd();
    for k1 in 0..KINDS { for a1 in 0..2u8 { for c1 in 0..2u8 { for k2 in 0..KINDS { for a2 in 0..2u8 { for c2 in 0..2u8 {
        let conflict = a1 == a2 && c1 == c2 && (is_mut(k1) || is_mut(k2));
        let mut got = None;
        let what = format!("access kind {k1} to column {c1} of archetype {a1}, then kind {k2} to column {c2} of archetype {a2}");
        let r = quiet(|| acc(&w, &h, &d, k1, a1, c1, &mut || { let mut n = false; let r = quiet(|| acc(&w, &h, &d, k2, a2, c2, &mut || n = true)); got = Some((r, n)); }));
        if let Err(e) = r { f!(o, "C11", "{what}: the outer access alone panicked: {e}"); return; }
        match got { None => { f!(o, "C11 C06", "{what}: the outer access did not run"); return; }
            Some((Ok(()), n)) => if conflict || !n { f!(o, "C11", "{what}: {}", if conflict { "granted although it aliases" } else { "did not run" }); return; },
            Some((Err(e), n)) => if !conflict || n { f!(o, "C11", "{what}: {} ({e})", if n { "ran and panicked" } else { "refused although nothing conflicts" }); return; } }
        all_free(o, &w, &h, &d, &what); if !o.is_empty() { return; }
        // clone while the outer access is held
        let mut cl = None;
        let _ = quiet(|| acc(&w, &h, &d, k1, a1, c1, &mut || { cl = Some(quiet(|| drop(w.clone())).is_ok()); }));
        if cl != Some(!is_mut(k1)) { f!(o, "C11 C13", "clone while an access of kind {k1} to column {c1} of archetype {a1} is held: completed {cl:?}"); return; }
        // unwinding out of the inner access ends both
        let r = quiet(|| acc(&w, &h, &d, k1, a1, c1, &mut || acc(&w, &h, &d, k2, a2, c2, &mut || std::panic::panic_any(Boom))));
        if r.is_ok() { f!(o, "C11", "{what}: a panic inside was swallowed"); return; }
        all_free(o, &w, &h, &d, &format!("unwinding out of: {what}")); if !o.is_empty() { return; }
    } } } } } }
}
fn borrow_triples(o: &mut Vec<Fail>) {
    let (w, h, d) = world_bd();
    let acs: Vec<(u8, u8, u8)> = (0..KINDS).flat_map(|k| (0..2).flat_map(move |a| (0..2).map(move |c| (k, a, c)))).collect();
    let cf = |x: &(u8, u8, u8), y: &(u8, u8, u8)| x.1 == y.1 && x.2 == y.2 && (is_mut(x.0) || is_mut(y.0));
    for x in &acs { for y in &acs { if cf(x, y) { continue; } for z in &acs {
        let want = !cf(x, z) && !cf(y, z);
        let mut got = None;
        let r = quiet(|| acc(&w, &h, &d, x.0, x.1, x.2, &mut || acc(&w, &h, &d, y.0, y.1, y.2, &mut || { got = Some(quiet(|| acc(&w, &h, &d, z.0, z.1, z.2, &mut || ())).is_ok()); })));
        if r.is_err() || got != Some(want) { f!(o, "C11", "accesses (kind, archetype, column) {x:?}, {y:?}, {z:?} nested: third granted {got:?}, expected {want}"); return; }
    } } }
    all_free(o, &w, &h, &d, "nested accesses");
}
fn borrow_guards(o: &mut Vec<Fail>) {
    let (w, h, d) = world_bd();
    // two guards of one Borrow at once: different columns and shared-shared granted, values seen by both
    let b = w.borrow(h[0]).unwrap();
    { let x = b.component::<CX>(); let y = b.component::<CX>(); let t = b.component_mut::<CT>(); if x.val() != y.val() || x.val() != 16 { f!(o, "C11 C02", "two shared guards disagree"); } drop(t); }
    { let mut t = b.component_mut::<CT>(); t.set(777); let r = quiet(|| b.component::<CT>().val()); if r.is_ok() { f!(o, "C11", "shared access granted while a mutable guard is held"); } }
    if b.component::<CT>().val() != 777 { f!(o, "C11 C02", "write through a guard is not seen"); }
    { let s = w.arch_b.borrow_slice::<CT>(); if s[0].val() != 777 || s.len() != 2 { f!(o, "C11 C02", "borrow_slice does not see the write"); } let s2 = w.arch_b.borrow_slice::<CT>(); if s2[1].val() != s[1].val() { f!(o, "C11", "two shared slices disagree"); } if quiet(|| w.arch_b.borrow_slice_mut::<CT>().len()).is_ok() { f!(o, "C11", "borrow_slice_mut granted while borrow_slice is held"); } }
    // query with several columns while unrelated ones are held; an empty archetype takes no borrow
    { let _g = w.arch_d.borrow_slice_mut::<CX>(); let mut n = 0; ecs_iter_borrow!(w, |_t: &mut CT, _e: &Entity<ArchD>| { n += 1; }); if n != 2 { f!(o, "C11 C06", "iteration over another column visited {n}"); }
      let mut m = 0; let r = quiet(|| ecs_iter_borrow!(w, |_x: &CX, _e: &Entity<_>| { m += 1; })); if r.is_ok() { f!(o, "C11", "iteration over a mutably borrowed column was granted"); } if m > 2 { f!(o, "C11", "visited {m} before the conflict"); }
      let mut n = 0; if let Err(e) = quiet(|| ecs_iter_borrow!(w, |_x: &mut CX, _e: &Entity<ArchB>| { n += 1; })) { f!(o, "C11", "another archetype's column refused: {e}"); } if n != 2 { f!(o, "C11", "visited {n} of 2"); } }
    all_free(o, &w, &h, &d, "guards");
    // mem::forget-free early returns and closures returning values
    let r = ecs_find_borrow!(w, d[0], |x: &mut CX, t: &CT| { x.set(5); t.val() }); if r.is_none() { f!(o, "C11", "find_borrow refused"); }
    all_free(o, &w, &h, &d, "find_borrow with a value");
    // same column, different entities: still conflicting (column granularity), and released afterwards
    let mut inner = None;
    ecs_find_borrow!(w, h[0], |_x: &mut CX| { inner = Some(quiet(|| ecs_find_borrow!(w, h[1], |y: &CX| y.val())).is_ok()); });
    if inner != Some(false) { f!(o, "C11", "shared access to another row of a mutably borrowed column: {inner:?}"); }
    let mut inner = None;
    ecs_find_borrow!(w, h[0], |_x: &CX| { inner = Some(quiet(|| ecs_find_borrow!(w, h[1], |y: &CX| y.val())).ok().flatten()); });
    if inner != Some(Some(32)) { f!(o, "C11", "shared with shared access: {inner:?}"); }
    // clone takes a shared borrow of every column whatever the length and the capacity
    for (cap, n, gone) in [(0usize, 0usize, 0usize), (4, 0, 0), (0, 2, 2), (0, 1, 0), (4, 3, 1)] {
        let mut w = W1::with_capacity(W1Capacity { arch_b: cap, ..Default::default() }); let mut hs = vec![];
        for i in 0..n { hs.push(w.create::<ArchB>(a1::mk(16 + 16 * i as u64))); } for h in hs.into_iter().take(gone) { w.destroy(h); }
        { let _g = w.arch_b.borrow_slice_mut::<CX>(); if quiet(|| drop(w.arch_b.clone())).is_ok() || quiet(|| drop(w.clone())).is_ok() { f!(o, "C11 C13", "clone of an archetype (capacity {cap}, {n} created, {gone} destroyed) completed while its first column is mutably borrowed"); } }
        { let _g = w.arch_b.borrow_slice_mut::<CT>(); if quiet(|| drop(w.arch_b.clone())).is_ok() || quiet(|| drop(w.clone())).is_ok() { f!(o, "C11 C13", "clone of an archetype (capacity {cap}, {n} created, {gone} destroyed) completed while its second column is mutably borrowed"); } }
        { let _g = (w.arch_b.borrow_slice::<CT>(), w.arch_d.borrow_slice::<CT>()); if quiet(|| drop(w.clone())).is_err() { f!(o, "C11 C13", "clone refused while a column is borrowed shared"); } }
        { let _g = w.arch_d.borrow_slice_mut::<CT>(); if quiet(|| drop(w.arch_b.clone())).is_err() { f!(o, "C11 C13", "clone refused while a column of another archetype is borrowed"); } }
        if quiet(|| drop(w.clone())).is_err() { f!(o, "C11 C13", "clone refused after the borrows ended"); }
    }
    // views of rejected handles take no borrow
    let mut w = w; let dead = h[1]; w.destroy(dead);
    if ecs_find_borrow!(w, dead, |_x: &mut CX| 1).is_some() { f!(o, "C01", "dead handle found"); }
    let g = w.arch_b.borrow_slice_mut::<CX>();
    match quiet(|| ecs_find_borrow!(w, dead, |_x: &mut CX| 1).is_some()) { Ok(false) => {}, x => f!(o, "C11", "find_borrow of a dead handle while its column is borrowed: {x:?}") }
    match quiet(|| w.borrow(h[0]).is_some()) { Ok(true) => {}, x => f!(o, "C11", "World::borrow alone takes a borrow: {x:?}") }
    drop(g);
}
/// a panic in a borrow-mode or mut-mode closure leaves everything accessible
fn find_panics(o: &mut Vec<Fail>) {
    let (mut w, h, d) = world_bd();
    for k in 0..KINDS { for a in 0..2 { for c in 0..2 {
        if quiet(|| acc(&w, &h, &d, k, a, c, &mut || std::panic::panic_any(Boom))).is_ok() { f!(o, "C10", "panic swallowed"); }
        all_free(o, &w, &h, &d, "a panicking closure");
    } } }
    let _ = quiet(|| ecs_find!(w, h[0], |x: &mut CX, _t: &mut CT| { x.set(3); if true { std::panic::panic_any(Boom); } }));
    let _ = quiet(|| { let mut v = w.view(h[1]).unwrap(); v.component_mut::<CX>().set(4); std::panic::panic_any(Boom) });
    all_free(o, &w, &h, &d, "a panicking find");
    let v: Vec<u64> = w.arch_b.iter().map(|(_, x, _)| x.val()).collect();
    if v != [3, 4] { f!(o, "C10 C02", "values after panicking closures: {v:?}"); }
}

// ------------------------------------------------------------------ C14, C15
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn convert(o: &mut Vec<Fail>) {
    let mut g = Rng(5);
    let keys: Vec<u32> = [0u32, 1, 7, 8, 2, 3, 255, 256, 0x107, 0xffff_ff07, 0xffff_ffff, 0x8000_0002, 0x0100_0000].into_iter().chain((0..200).map(|i| { let k = (g.next() as u32) << 5; (k & !0xff) | if i % 2 == 0 { IDS[i % NA] as u32 } else { g.next() as u32 & 0xff } })).collect();
    let vers: Vec<u32> = vec![1, 2, 3, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
    let mut all: Vec<EntityAny> = vec![];
    for &k in &keys {
        if EntityAny::from_raw((k, 0)).is_ok() { f!(o, "C14", "from_raw(({k:#x}, 0)) accepted a zero generation"); }
        if !matches!(EntityAny::from_raw((k, 0)), Err(gecs::error::EcsError::InvalidRawEntity)) { f!(o, "C14", "from_raw with zero generation returns another error"); }
        for &v in &vers {
            let e = match EntityAny::from_raw((k, v)) { Ok(e) => e, Err(_) => { f!(o, "C14", "from_raw(({k:#x}, {v})) rejected"); return; } };
            if e.raw() != (k, v) { f!(o, "C14", "from_raw(({k:#x}, {v})).raw() == {:?}", e.raw()); }
            if EntityAny::from_raw(e.raw()).ok() != Some(e) { f!(o, "C14", "from_raw(raw(h)) != h for {e:?}"); }
            if e.archetype_id() != k as u8 { f!(o, "C14", "archetype_id of key {k:#x} is {}", e.archetype_id()); }
            if e.into_any() != e { f!(o, "C14", "into_any changed {e:?}"); }
            all.push(e);
            let known = IDS.iter().position(|i| *i == k as u8);
            for a in 0..NA { check_typed(o, a, e, known == Some(a)); }
            if SelectArchetype::try_from(e).is_ok() != known.is_some() || SelectEntity::try_from(e).is_ok() != known.is_some() { f!(o, "C14 C15", "Select*::try_from({e:?}) accepted although known is {known:?}, or refused"); }
            if let Some(a) = known { if !on!(a, select_ok(e)) { f!(o, "C14 C15", "Select* of {e:?} chose the wrong variant"); } }
            if !o.is_empty() { return; }
        }
    }
    for id in 0..=255u8 { let k = IDS.iter().position(|i| *i == id); match SelectArchetype::try_from(id) { Ok(s) => if k.is_none() || s.archetype_id() != id { f!(o, "C14 C15", "SelectArchetype::try_from({id}) wrong"); }, Err(_) => if k.is_some() { f!(o, "C14 C15", "SelectArchetype::try_from({id}) refused"); } } }
    // Eq / Hash
    for (i, x) in all.iter().enumerate() { let y = EntityAny::from_raw(x.raw()).ok().unwrap(); if *x != y || hash(x) != hash(&y) { f!(o, "C14", "equal handles {x:?} compare or hash differently"); } 
        for z in all.iter().skip(i + 1).step_by(37) { if (x == z) != (x.raw() == z.raw()) { f!(o, "C14", "{x:?} == {z:?} is {}", x == z); } } }
    let set: HashSet<EntityAny> = all.iter().copied().collect(); let raws: HashSet<(u32, u32)> = all.iter().map(|e| e.raw()).collect();
    if set.len() != raws.len() || !all.iter().all(|e| set.contains(e)) { f!(o, "C14", "HashSet of handles has {} members, {} distinct raw values", set.len(), raws.len()); }
    // handles of live entities
    let mut w = W1::new(); let mut hs = vec![];
    for a in 0..NA { for i in 0..5 { if let Ok(h) = on!(a, create(&mut w, 16 + i * 16, 0)) { hs.push((a, h)); } } }
    for (a, h) in &hs { if h.archetype_id() != IDS[*a] { f!(o, "C14 C15", "handle of {} has archetype id {}", NAMES[*a], h.archetype_id()); } for (b, k) in &hs { if (h == k) != (a == b && h.raw() == k.raw()) { f!(o, "C14", "{h:?} == {k:?}: {}", h == k); } } }
    let hset: HashSet<EntityAny> = hs.iter().map(|x| x.1).collect(); if hset.len() != hs.len() { f!(o, "C14 C08", "handles of distinct entities compare equal"); }
    for a in 0..NA { for (_, d, h) in on!(a, query_directs(&mut w)) { check_direct(o, a, d); if on!(a, designates(&mut w, d)) != Some(h) { f!(o, "C14 C09", "direct {d:?} of {h:?} designates another"); } } }
    // direct handles of distinct entities, minted at different times: typed and dynamic comparison agree, and never confuse two entities
    let mut ds: Vec<(usize, EntityDirectAny, EntityAny)> = vec![];
    for round in 0..5usize { for a in 0..NA {
        let mut hl: Vec<EntityAny> = vec![];
        for (_, d, h) in on!(a, query_directs(&mut w)) { ds.push((a, d, h)); if !hl.contains(&h) { hl.push(h); } }
        for h in hl.iter().skip(round % 2).step_by(2) { let _ = w.destroy(*h); for (_, d, h) in on!(a, query_directs(&mut w)) { ds.push((a, d, h)); } }
        for i in 0..2 { let _ = on!(a, create(&mut w, 16 + 16 * i, 0)); }
    } }
    ds.sort_by_key(|x| (x.0, x.2.raw(), hash(&x.1))); ds.dedup();
    macro_rules! t { ($a:expr, $A:ident) => {{ let v: Vec<(EntityDirect<$A>, EntityDirectAny, EntityAny)> = ds.iter().filter(|x| x.0 == $a).map(|x| (EntityDirect::<$A>::from_any(x.1), x.1, x.2)).collect();
        for x in &v { for y in &v {
            if (x.0 == y.0) != (x.1 == y.1) { f!(o, "C14", "{:?} == {:?} as typed handles: {}, as dynamic handles: {}", x.1, y.1, x.0 == y.0, x.1 == y.1); return; }
            if x.2 != y.2 && (x.0 == y.0 || x.1 == y.1) { f!(o, "C14", "the direct handles {:?} of {:?} and {:?} of {:?} compare equal", x.1, x.2, y.1, y.2); return; }
            if x.0 == y.0 && (hash(&x.0) != hash(&y.0) || hash(&x.1) != hash(&y.1)) { f!(o, "C14", "equal direct handles {:?} hash differently", x.1); return; }
        } } }} }
    t!(0, ArchA); t!(1, ArchB); t!(2, ArchC); t!(3, ArchD); t!(4, ArchE);
    for x in &ds { for y in &ds { if x.0 != y.0 && x.1 == y.1 { f!(o, "C14", "direct handles of two archetypes compare equal: {:?}", x.1); return; } } }
}
fn check_typed(o: &mut Vec<Fail>, a: usize, e: EntityAny, ok: bool) {
    macro_rules! t { ($A:ident) => {{
        match Entity::<$A>::try_from(e) { Ok(t) => { if !ok { f!(o, "C14", "Entity<{}>::try_from({e:?}) accepted", NAMES[a]); }
                let r: &EntityAny = (&t).into(); let back: EntityAny = t.into();
                if t.into_any() != e || back != e || *r != e { f!(o, "C14", "{e:?} changed by a round trip through Entity<{}>", NAMES[a]); }
                if t.archetype_id() != IDS[a] || t.archetype_id() != $A::ARCHETYPE_ID { f!(o, "C14 C15", "Entity<{}>::archetype_id() is {}", NAMES[a], t.archetype_id()); }
                if Entity::<$A>::from_any(e) != t || Entity::<$A>::from_any_unchecked(e) != t { f!(o, "C14", "from_any of {e:?} differs from try_from"); }
                let mut m = t; { let mm: &mut EntityAny = (&mut m).into(); if *mm != e { f!(o, "C14", "&mut conversion differs"); } }
                if hash(&t) != hash(&Entity::<$A>::from_any(e)) { f!(o, "C14", "equal typed handles hash differently"); }
                let s: SelectEntity = t.into(); if !matches!(s, SelectEntity::$A(x) if x == t) { f!(o, "C14", "SelectEntity::from(Entity<{}>) is another", NAMES[a]); }
                let s: SelectArchetype = t.into(); if s.archetype_id() != IDS[a] { f!(o, "C14 C15", "SelectArchetype::from(Entity<{}>) is another", NAMES[a]); } }
            Err(x) => if ok || x != gecs::error::EcsError::InvalidEntityType { f!(o, "C14", "Entity<{}>::try_from({e:?}): {x:?}", NAMES[a]); } }
        let r = quiet(|| Entity::<$A>::from_any(e).into_any());
        match r { Ok(x) => if !ok || x != e { f!(o, "C14", "Entity<{}>::from_any({e:?}) gave {x:?}", NAMES[a]); }, Err(_) => if ok { f!(o, "C14", "Entity<{}>::from_any({e:?}) panicked", NAMES[a]); } }
        if ok || !cfg!(debug_assertions) { if Entity::<$A>::from_any_unchecked(e).into_any() != e { f!(o, "C14", "from_any_unchecked changed {e:?}"); } }
    }} }
    match a { 0 => t!(ArchA), 1 => t!(ArchB), 2 => t!(ArchC), 3 => t!(ArchD), _ => t!(ArchE) }
}
fn check_direct(o: &mut Vec<Fail>, owner: usize, e: EntityDirectAny) {
    macro_rules! t { ($a:expr, $A:ident) => {{ let a: usize = $a; let ok = a == owner;
        match EntityDirect::<$A>::try_from(e) { Ok(t) => { if !ok { f!(o, "C14", "EntityDirect<{}>::try_from({e:?}) accepted", NAMES[a]); }
                let r: &EntityDirectAny = (&t).into(); let back: EntityDirectAny = t.into();
                if t.into_any() != e || back != e || *r != e || EntityDirect::<$A>::from_any(e) != t || hash(&t) != hash(&EntityDirect::<$A>::from_any(e)) || hash(&e) != hash(&t.into_any()) { f!(o, "C14", "{e:?} changed by a round trip through EntityDirect<{}>", NAMES[a]); }
                if t.archetype_id() != IDS[a] || e.archetype_id() != IDS[a] { f!(o, "C14 C15", "EntityDirect archetype id"); }
                let s: SelectEntityDirect = t.into(); if !matches!(s, SelectEntityDirect::$A(x) if x == t) { f!(o, "C14", "SelectEntityDirect::from is another"); }
                if !matches!(SelectEntityDirect::try_from(e), Ok(SelectEntityDirect::$A(x)) if x == t) { f!(o, "C14", "SelectEntityDirect::try_from is another"); }
                let s: SelectArchetype = t.into(); if s.archetype_id() != IDS[a] { f!(o, "C14 C15", "SelectArchetype::from(EntityDirect<{}>)", NAMES[a]); } }
            Err(x) => if ok || x != gecs::error::EcsError::InvalidEntityType { f!(o, "C14", "EntityDirect<{}>::try_from({e:?}): {x:?}", NAMES[a]); } }
        match quiet(|| EntityDirect::<$A>::from_any(e).into_any()) { Ok(x) => if !ok || x != e { f!(o, "C14", "EntityDirect<{}>::from_any({e:?}) gave {x:?}", NAMES[a]); }, Err(_) => if ok { f!(o, "C14", "EntityDirect::from_any panicked on its own archetype"); } }
    }} }
    t!(0, ArchA); t!(1, ArchB); t!(2, ArchC); t!(3, ArchD); t!(4, ArchE);
}
fn ids(o: &mut Vec<Fail>) {
    let got = [ArchA::ARCHETYPE_ID, ArchB::ARCHETYPE_ID, ArchC::ARCHETYPE_ID, ArchD::ARCHETYPE_ID, ArchE::ARCHETYPE_ID];
    if got != IDS { f!(o, "C15", "archetype ids {got:?}, expected {IDS:?}"); }
    let c: [u8; 12] = [ecs_component_id!(CX, ArchA), ecs_component_id!(CX, ArchB), ecs_component_id!(CT, ArchB), ecs_component_id!(CT, ArchC), ecs_component_id!(CX, ArchC), ecs_component_id!(CZ, ArchC),
        ecs_component_id!(CB, ArchD), ecs_component_id!(CX, ArchD), ecs_component_id!(CT, ArchD), ecs_component_id!(CS, ArchD), ecs_component_id!(CY, ArchD), ecs_component_id!(CZ, ArchE)];
    if c != [0, 0, 1, 0, 4, 5, 0, 1, 2, 3, 4, 0] { f!(o, "C15", "component ids {c:?}"); }
    let mut w = W1::new();
    let _ = on!(2, create(&mut w, 16, 0)); let _ = on!(4, create(&mut w, 16, 0)); let _ = on!(3, create(&mut w, 16, 0));
    let mut seen = vec![]; ecs_iter!(w, |e: &EntityAny, _z: &CX| { seen.push((e.archetype_id(), ecs_component_id!(CX))); });
    seen.sort(); if seen != [(2, 1), (8, 4)] { f!(o, "C15 C05", "ecs_component_id!(OneOf) in a query: {seen:?}"); }
}

// ------------------------------------------------------------------ C10
/// a component whose Drop panics while a world is dropped: nothing may be dropped twice
fn drop_panics(o: &mut Vec<Fail>) {
    for n in 1..=7 { for path in 0..4 {
        reg_reset();
        let mut w = W1::new();
        let mut hs = vec![]; for i in 0..3 { for a in 1..4usize { if let Ok(h) = on!(a, create(&mut w, 16 + 16 * (i * 3 + a as u64), 0)) { hs.push((a, h)); } } }
        reg(|r| r.drop_bomb = n);
        match path {
            0 => { let _ = quiet(|| drop(w)); }
            1 => { let c = w.clone(); let _ = quiet(|| drop(c)); reg(|r| r.drop_bomb = 0); for (a, h) in &hs { let v = on!(*a, lookup(&mut w, K::T(*h))); if v.iter().any(|x| !x.found) { f!(o, "C10 C13", "dropping a clone affected the original"); } } drop(w); }
            2 => { for (_, h) in &hs { let _ = quiet(|| w.destroy(*h)); } for (_, h) in &hs { if quiet(|| w.contains(*h)).unwrap_or(true) { f!(o, "C10 C01", "{h:?} still accepted after destroy unwound from the component's Drop"); } } if w.arch_b.len() + w.arch_c.len() + w.arch_d.len() != 0 { f!(o, "C10 C12", "len after destroying everything"); } drop(w); }
            _ => { let r = quiet(|| ecs_iter_destroy!(w, |_t: &CT| { EcsStepDestroy::ContinueDestroy })); let _ = r; reg(|r| r.drop_bomb = 0);
                let n: usize = hs.iter().filter(|h| w.contains(h.1)).count(); if n != w.arch_b.len() + w.arch_c.len() + w.arch_d.len() { f!(o, "C10", "{n} entities contained, len differs"); }
                let mut k = 0; ecs_iter!(w, |t: &CT| { t.val(); k += 1; }); if k != n { f!(o, "C10", "{k} visited, {n} contained"); } drop(w); }
        }
        reg(|r| { r.drop_bomb = 0; if let Some(e) = r.errors.first() { f!(o, "C10 C04", "Drop panicking at its call {n}, path {path}: {e}"); } });
    } }
}
fn clone_panics(o: &mut Vec<Fail>) {
    for n in 1..=8i64 {
        reg_reset();
        let mut w = W1::new();
        let mut hs = vec![]; for i in 0..3 { for a in 1..4usize { let b = 16 + 16 * (i * 3 + a as u64); if let Ok(h) = on!(a, create(&mut w, b, 0)) { hs.push((a, h, b)); } } }
        reg(|r| r.clone_bomb = n);
        let r = quiet(|| w.clone()); reg(|r| r.clone_bomb = 0);
        if r.is_ok() { f!(o, "C10", "Clone did not run"); }
        for (a, h, b) in &hs { let v = on!(*a, lookup(&mut w, K::T(*h))); for x in v { if !x.found { f!(o, "C10 C13", "a failed clone lost {h:?} ({})", x.path); return; } if let Some(v) = x.vals { if v != on!(*a, norm(*b)) { f!(o, "C10 C13 C02", "a failed clone changed {h:?}: {v:?}"); return; } } } }
        match quiet(|| w.clone()) { Ok(c) => drop(c), Err(e) => { f!(o, "C10 C11", "clone refused after a failed clone: {e}"); } }
        drop(w);
        reg(|r| if let Some(e) = r.errors.first() { f!(o, "C10 C04", "Clone panicking at its call {n}: {e}") });
    }
}
/// thorough tier: 2^32 real create/destroy cycles of one position, no hook
fn real_overflow(o: &mut Vec<Fail>) {
    if std::env::var("VERIF_TIER").map(|t| t != "thorough").unwrap_or(true) || cfg!(debug_assertions) { return; }
    let mut w = WL::with_capacity(WLCapacity { arch_z: 1, arch_o: 0 });
    let first = w.arch_z.create((Z0,));
    let mut e = first;
    for i in 1..u32::MAX { #[cfg(feature = "events")] if i & 0xffff == 0 { w.arch_z.clear_events(); } let _ = match quiet2(|| w.arch_z.destroy(e)) { Some(Some(_)) => {}, _ => { f!(o, "C08", "destroy {i} failed"); return; } }; e = w.arch_z.create((Z0,)); if e == first { f!(o, "C08", "{e:?} reissued after {i} cycles"); return; } }
    if e.into_any().raw().1 != u32::MAX { f!(o, "C08", "generation {} after 2^32-2 cycles", e.into_any().raw().1); }
    let r = quiet(|| w.arch_z.destroy(e).is_some());
    if cfg!(feature = "wrapping_version") { if r != Ok(true) { f!(o, "C19", "wrapping_version: destroy at the end of the generations: {r:?}"); } let n = w.arch_z.create((Z0,)); if !w.contains(n) { f!(o, "C19", "wrapping"); } }
    else if r.is_ok() { f!(o, "C08 C19", "no overflow panic at generation u32::MAX"); }
    else if !w.contains(e) || w.arch_z.len() != 1 { f!(o, "C10", "overflow panic left the entity half removed"); }
}
fn quiet2<R>(f: impl FnOnce() -> R) -> Option<R> { Some(f()) }
#[allow(unused)] fn unused(_: ArchZComponents, _: ArchO) {}
