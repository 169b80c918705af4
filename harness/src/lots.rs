//! A world of forty archetypes (generated): templates treat every archetype alike, however many there are.
use crate::comps::*;
use crate::engine::*;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};
macro_rules! f { ($o:expr, $p:expr, $($t:tt)*) => {{ $o.push(Fail { props: $p, msg: format!("world of 40 archetypes: {}", format!($($t)*)) }); return; }} }
ecs_world! { ecs_name!(Lots); ecs_archetype!(Maa, CX); ecs_archetype!(Mab, CX, CT); ecs_archetype!(Mac, CX); ecs_archetype!(Mad, CX, CT); ecs_archetype!(Mae, CX); ecs_archetype!(Maf, CX, CT); ecs_archetype!(Mag, CX); ecs_archetype!(Mah, CX, CT); ecs_archetype!(Mai, CX); ecs_archetype!(Maj, CX, CT); ecs_archetype!(Mba, CX); ecs_archetype!(Mbb, CX, CT); ecs_archetype!(Mbc, CX); ecs_archetype!(Mbd, CX, CT); ecs_archetype!(Mbe, CX); ecs_archetype!(Mbf, CX, CT); ecs_archetype!(Mbg, CX); ecs_archetype!(Mbh, CX, CT); ecs_archetype!(Mbi, CX); ecs_archetype!(Mbj, CX, CT); #[archetype_id(200)] ecs_archetype!(Mca, CX); ecs_archetype!(Mcb, CX, CT); ecs_archetype!(Mcc, CX); ecs_archetype!(Mcd, CX, CT); ecs_archetype!(Mce, CX); ecs_archetype!(Mcf, CX, CT); ecs_archetype!(Mcg, CX); ecs_archetype!(Mch, CX, CT); ecs_archetype!(Mci, CX); ecs_archetype!(Mcj, CX, CT); ecs_archetype!(Mda, CX); ecs_archetype!(Mdb, CX, CT); ecs_archetype!(Mdc, CX); ecs_archetype!(Mdd, CX, CT); ecs_archetype!(Mde, CX); ecs_archetype!(Mdf, CX, CT); ecs_archetype!(Mdg, CX); ecs_archetype!(Mdh, CX, CT); ecs_archetype!(Mdi, CX); ecs_archetype!(Mdj, CX, CT); }
macro_rules! each { ($m:ident) => { $m!(Maa, maa, 0, 0, []); $m!(Mab, mab, 1, 1, [CT]); $m!(Mac, mac, 2, 2, []); $m!(Mad, mad, 3, 3, [CT]); $m!(Mae, mae, 4, 4, []); $m!(Maf, maf, 5, 5, [CT]); $m!(Mag, mag, 6, 6, []); $m!(Mah, mah, 7, 7, [CT]); $m!(Mai, mai, 8, 8, []); $m!(Maj, maj, 9, 9, [CT]); $m!(Mba, mba, 10, 10, []); $m!(Mbb, mbb, 11, 11, [CT]); $m!(Mbc, mbc, 12, 12, []); $m!(Mbd, mbd, 13, 13, [CT]); $m!(Mbe, mbe, 14, 14, []); $m!(Mbf, mbf, 15, 15, [CT]); $m!(Mbg, mbg, 16, 16, []); $m!(Mbh, mbh, 17, 17, [CT]); $m!(Mbi, mbi, 18, 18, []); $m!(Mbj, mbj, 19, 19, [CT]); $m!(Mca, mca, 20, 200, []); $m!(Mcb, mcb, 21, 201, [CT]); $m!(Mcc, mcc, 22, 202, []); $m!(Mcd, mcd, 23, 203, [CT]); $m!(Mce, mce, 24, 204, []); $m!(Mcf, mcf, 25, 205, [CT]); $m!(Mcg, mcg, 26, 206, []); $m!(Mch, mch, 27, 207, [CT]); $m!(Mci, mci, 28, 208, []); $m!(Mcj, mcj, 29, 209, [CT]); $m!(Mda, mda, 30, 210, []); $m!(Mdb, mdb, 31, 211, [CT]); $m!(Mdc, mdc, 32, 212, []); $m!(Mdd, mdd, 33, 213, [CT]); $m!(Mde, mde, 34, 214, []); $m!(Mdf, mdf, 35, 215, [CT]); $m!(Mdg, mdg, 36, 216, []); $m!(Mdh, mdh, 37, 217, [CT]); $m!(Mdi, mdi, 38, 218, []); $m!(Mdj, mdj, 39, 219, [CT]); } }
type H = Vec<(EntityAny, u64, u8)>;
fn visit(o: &mut Vec<Fail>, how: &str, want: &H, seen: &[(EntityAny, u64)]) {
    let m: HashMap<EntityAny, u64> = want.iter().map(|x| (x.0, x.1)).collect();
    if seen.len() != m.len() || seen.iter().map(|x| x.0).collect::<HashSet<_>>().len() != m.len() { f!(o, "C06 C05", "{how} presents {} items of {}", seen.len(), m.len()); }
    for (h, v) in seen { if m.get(h) != Some(v) { f!(o, "C06 C02", "{how} presents {h:?} with {v} instead of {:?}", m.get(h)); } }
}
fn reads(o: &mut Vec<Fail>, w: &mut Lots, hs: &H, when: &str) {
    for (h, v, id) in hs {
        let (h, v) = (*h, *v);
        if h.archetype_id() != *id { f!(o, "C14 C15", "{h:?} of archetype {id} {when}"); }
        if !w.contains(h) { f!(o, "C01", "live {h:?} is not contained {when}"); }
        let d = match w.to_direct(h) { Some(d) => d, None => f!(o, "C01 C09", "no direct handle of the live {h:?} {when}") };
        if d.archetype_id() != *id || !w.contains(d) { f!(o, "C09 C01", "the fresh {d:?} of {h:?} is not accepted {when}"); }
        if let (Ok(a), Ok(_), Ok(_)) = (SelectArchetype::try_from(*id), SelectEntity::try_from(h), SelectEntityDirect::try_from(d)) { if a.archetype_id() != *id { f!(o, "C14", "SelectArchetype of {id} is {}", a.archetype_id()); } } else { f!(o, "C14", "no selection for {h:?}"); }
        let r = [ecs_find!(w, h, |x: &CX| x.0), ecs_find!(w, d, |x: &CX| x.0), ecs_find_borrow!(w, h, |x: &CX| x.0), ecs_find_borrow!(w, d, |x: &CX| x.0)];
        if r != [Some(v); 4] { f!(o, "C02 C01", "{h:?} shows {r:?} instead of {v} {when}"); }
        if ecs_find!(w, h, |e: &EntityAny, dd: &EntityDirectAny| *e == h && *dd == d) != Some(true) { f!(o, "C02 C09", "ecs_find! of {h:?} passed other handles {when}"); }
    }
    let mut s = vec![]; ecs_iter!(w, |e: &EntityAny, x: &CX| { s.push((*e, x.0)); }); visit(o, "ecs_iter!", hs, &s);
    let mut s = vec![]; ecs_iter_borrow!(w, |e: &EntityAny, x: &CX| { s.push((*e, x.0)); }); visit(o, "ecs_iter_borrow!", hs, &s);
    let mut s = vec![]; ecs_iter_destroy!(w, |e: &EntityAny, x: &CX| { s.push((*e, x.0)); EcsStepDestroy::Continue }); visit(o, "ecs_iter_destroy!", hs, &s);
    let t: H = hs.iter().filter(|x| (if x.2 < 20 { x.2 } else { x.2 - 180 }) % 2 == 1).cloned().collect();
    let mut s = vec![]; ecs_iter!(w, |e: &EntityAny, x: &CX, _: &CT| { s.push((*e, x.0)); }); visit(o, "ecs_iter! of two components", &t, &s);
    for p in [0usize, 1, 2, 5, 30, 58, 59, 60, 80, hs.len().saturating_sub(1)] { if p < hs.len() { let mut n = 0; ecs_iter!(w, |_x: &CX| { n += 1; if n == p + 1 { EcsStep::Break } else { EcsStep::Continue } }); if n != p + 1 { f!(o, "C06", "Break at item {p} of {} stopped after {n} {when}", hs.len()); } } }
    #[allow(unused_mut, unused_assignments)] let mut n = 0usize;
    macro_rules! m { ($A:ident, $f:ident, $i:expr, $id:expr, [$($x:ident)?]) => { let k = hs.iter().filter(|x| x.2 == $id).count(); n += k; if w.$f.len() != k || w.$f.is_empty() != (k == 0) || w.$f.capacity() < k || w.archetype::<$A>().len() != k { f!(o, "C12", "{}: len {} of {k} live {when}", stringify!($A), w.$f.len()); } if w.$f.iter().count() != k { f!(o, "C06", "iter of {}", stringify!($A)); } } }
    each!(m);
    if n != hs.len() { f!(o, "C12 C15", "archetypes hold {n} of {} entities {when}", hs.len()); }
}
pub fn lots(o: &mut Vec<Fail>) {
    reg_reset();
    let mut w = Lots::with_capacity(LotsCapacity { maa: 7, mbb: 2, mdj: 9, ..Default::default() });
    if (w.maa.capacity(), w.mbb.capacity(), w.mdj.capacity()) != (7, 2, 9) { f!(o, "C12", "with_capacity gave {}, {}, {}", w.maa.capacity(), w.mbb.capacity(), w.mdj.capacity()); }
    let mut hs: H = vec![]; let mut next = 1u64;
    macro_rules! mk { ($A:ident, $f:ident, $i:expr, $id:expr, [$($x:ident)?]) => { for _ in 0..3 { let h = w.create::<$A>((CX(next), $(<$x as Cv>::mk(next),)?)).into_any(); hs.push((h, next, $id)); next += 1; } } }
    each!(mk);
    if hs.iter().map(|x| x.0).collect::<HashSet<_>>().len() != hs.len() { f!(o, "C08", "equal handles"); }
    reads(o, &mut w, &hs, "after creation"); if !o.is_empty() { return; }
    #[cfg(feature = "events")] {
        let c: Vec<EntityAny> = w.iter_created().cloned().collect(); if c.len() != hs.len() || c.iter().collect::<HashSet<_>>().len() != c.len() || w.iter_created().size_hint() != (c.len(), Some(c.len())) || hs.iter().any(|x| !c.contains(&x.0)) { f!(o, "C17", "iter_created yields {} of {} creations", c.len(), hs.len()); }
        w.clear_events(); if w.iter_created().next().is_some() { f!(o, "C17", "events left after clear_events"); }
        macro_rules! ev { ($A:ident, $f:ident, $i:expr, $id:expr, [$($x:ident)?]) => { if w.$f.iter_created().count() != 0 { f!(o, "C17", "{}: events left after clear_events", stringify!($A)); } } } each!(ev);
    }
    let mut c = w.clone(); let hc = hs.clone();
    let mut gone = vec![]; let mut k = 0;
    ecs_iter_destroy!(w, |e: &EntityAny, x: &CX| { k += 1; if x.0 % 3 == 0 { gone.push(*e); EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue } });
    if k != hs.len() || gone.len() != 40 { f!(o, "C07", "ecs_iter_destroy! presented {k} of {}, flagged {}", hs.len(), gone.len()); }
    for h in &gone { if w.contains(*h) { f!(o, "C07 C01", "{h:?} was flagged and is still there"); } }
    hs.retain(|x| x.1 % 3 != 0);
    reads(o, &mut w, &hs, "after ecs_iter_destroy!"); if !o.is_empty() { return; }
    #[cfg(feature = "events")] { let d: HashSet<EntityAny> = w.iter_destroyed().cloned().collect(); if w.iter_destroyed().count() != 40 || gone.iter().any(|h| !d.contains(h)) || w.iter_destroyed().size_hint() != (40, Some(40)) { f!(o, "C17", "iter_destroyed yields {} of 40 removals", d.len()); } }
    reads(o, &mut c, &hc, "in a clone of the earlier state"); if !o.is_empty() { return; }
    for stop in [1usize, 2, 40, 41, 79, 80] {
        let mut x = w.clone(); let mut n = 0; let mut last = None;
        ecs_iter_destroy!(x, |e: &EntityAny, _x: &CX| { n += 1; if n == stop { last = Some(*e); EcsStepDestroy::BreakDestroy } else { EcsStepDestroy::Continue } });
        if n != stop || last.is_none() || x.contains(last.unwrap()) || hs.iter().filter(|y| x.contains(y.0)).count() != hs.len() - 1 { f!(o, "C07", "BreakDestroy at item {stop} stopped after {n}"); }
        if hs.iter().any(|y| !w.contains(y.0)) { f!(o, "C13", "a removal in a clone shows in the original"); }
    }
    for (h, _, id) in hs.clone().into_iter().rev().step_by(2) { if w.destroy(h).is_none() || w.contains(h) || w.destroy(h).is_some() { f!(o, "C01", "destroy of {h:?} in archetype {id}"); } hs.retain(|x| x.0 != h); }
    reads(o, &mut w, &hs, "after removals"); if !o.is_empty() { return; }
    reads(o, &mut c, &hc, "in a clone, after removals in the original"); if !o.is_empty() { return; }
    drop(w); drop(c);
    reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { let e = r.errors.first().cloned(); f!(o, "C04", "{} values leaked, {e:?}", r.alive.len()) });
}
