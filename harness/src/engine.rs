//! Model, operations and observations. The oracle is written from the properties' statements.
use crate::comps::*;
use crate::on;
use crate::w1::*;
use gecs::prelude::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
}

#[derive(Clone, Debug)]
pub struct Ent { pub h: EntityAny, pub vals: Vec<u64>, pub alive: bool }
#[derive(Clone, Debug)]
pub struct Dir { pub d: EntityDirectAny, pub h: EntityAny, pub removals: u64, pub structs: u64 }
#[derive(Clone, Debug, Default)]
pub struct MArch {
    pub ents: Vec<Ent>, pub dirs: Vec<Dir>, pub removals: u64, pub structs: u64, pub cap: usize, pub cap0: usize,
    pub created: Vec<EntityAny>, pub destroyed: Vec<EntityAny>,
}
impl MArch { pub fn live(&self) -> impl Iterator<Item = &Ent> { self.ents.iter().filter(|e| e.alive) } pub fn len(&self) -> usize { self.live().count() } }
#[derive(Clone, Debug, Default)]
pub struct Model { pub a: Vec<MArch>, pub issued: HashSet<(u32, u32)> }

pub struct Fail { pub props: &'static str, pub msg: String }

/// One operation of a history. Picks are resolved modulo what exists, so every history is runnable.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Create { a: u8, via: u8 },
    Destroy { a: u8, pick: u16, kind: u8, via: u8, dead: bool },
    Write { a: u8, pick: u16, via: u8 },
    Direct { a: u8, pick: u16 },
    QueryDirects { a: u8 },
    IterDestroy { a: u8, mask: u64, stop: u8, how: u8 },
    MultiDestroy { q: u8, mask: u64, stop: u8, how: u8 },
    Clear { a: u8 },
    Clone,
    Switch,
    DropOther,
    Panic { a: u8, via: u8, n: u8, pick: u16 },
    CloneBomb { n: u8 },
    DropBombDestroy { a: u8, pick: u16 },
    DropBombIter { a: u8, n: u8 },
    Forge { a: u8, seed: u64 },
}

pub struct Sim { pub w: Vec<(Option<W1>, Model)>, pub cur: usize, pub val: u64, pub fails: Vec<Fail>, pub expect_leaks: bool, pub obs: u64, pub pre: [Option<(u32, u32, usize, u64)>; NA] }

macro_rules! fail { ($s:expr, $p:expr, $($t:tt)*) => { $s.fails.push(Fail { props: $p, msg: format!($($t)*) }) } }

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if e.is::<Boom>() { "BOOM".to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
    })
}
fn comp_names(a: usize, q: usize, l: &[char]) -> Vec<usize> { l.iter().map(|c| col_of(a, q, *c)).collect() }

impl Sim {
    pub fn new(caps: [usize; NA]) -> Sim {
        reg_reset();
        let w = W1::with_capacity(W1Capacity { arch_a: caps[0], arch_b: caps[1], arch_c: caps[2], arch_d: caps[3], arch_e: caps[4] });
        let mut m = Model::default();
        for a in 0..NA { let (_, _, cap) = on!(a, lens(&w)); m.a.push(MArch { cap, cap0: caps[a], ..Default::default() }); }
        let mut s = Sim { w: vec![(Some(w), m)], cur: 0, val: 1, fails: vec![], expect_leaks: false, obs: 0, pre: [None; NA] };
        for a in 0..NA { if s.w[0].1.a[a].cap < caps[a] { fail!(s, "C12", "with_capacity({}) of {} gave capacity {}", caps[a], NAMES[a], s.w[0].1.a[a].cap); } }
        s
    }
    /// An archetype whose positions all have a long history behind them (hook): one handle and one direct handle are
    /// issued at the start of that history, then the generation counters are moved forward.
    pub fn preset(&mut self, a: usize, v: u32, av: u32) {
        #[cfg(gecs_verif)] {
            let h = { let (w, _) = self.cur(); on!(a, lens(w)).2 };
            if h > 0 { self.apply(&Op::Create { a: a as u8, via: 2 }); self.apply(&Op::Direct { a: a as u8, pick: 0 }); self.apply(&Op::Destroy { a: a as u8, pick: 0, kind: 0, via: 0, dead: false }); }
            let (w, m) = self.cur();
            if on!(a, lens(w)).0 != 0 { return; }
            on!(a, preset(w, v, av));
            let (cap, r) = (m.a[a].cap, m.a[a].removals);
            if cfg!(feature = "wrapping_version") { m.a[a].ents.clear(); m.a[a].dirs.clear(); }
            self.pre[a] = Some((v, av, cap, r));
        }
        let _ = (a, v, av);
    }
    /// after a preset: an overflow panic is the documented outcome (never with wrapping_version)
    fn overflow_ok(&self, a: usize, e: &str) -> bool { !cfg!(feature = "wrapping_version") && self.pre[a].is_some() && e.contains("version overflow") }
    /// a removal that succeeded although a counter had to overflow
    fn check_overflow(&mut self, a: usize, h: EntityAny) {
        if cfg!(feature = "wrapping_version") { return; }
        let Some((_, av, _, r0)) = self.pre[a] else { return };
        let rem = self.w[self.cur].1.a[a].removals - r0; // this removal included
        if h.raw().1 == u32::MAX { fail!(self, "C08 C19", "destroy of {h:?} (generation u32::MAX) succeeded: the position's generation counter overflowed"); }
        if av as u64 + rem > u32::MAX as u64 { fail!(self, "C09 C19", "removal {rem} after archetype version {av} succeeded: the archetype version overflowed"); }
    }
    fn cur(&mut self) -> (&mut W1, &mut Model) { let c = self.cur; let (w, m) = &mut self.w[c]; (w.as_mut().unwrap(), m) }
    fn fresh(&mut self) -> u64 { self.val += 16; self.val }

    pub fn pick(&self, a: usize, pick: u16, dead: bool) -> Option<EntityAny> {
        let m = &self.w[self.cur].1.a[a];
        let v: Vec<&Ent> = m.ents.iter().filter(|e| e.alive != dead).collect();
        if v.is_empty() { return None; }
        Some(v[pick as usize % v.len()].h)
    }

    /// A removal of h from archetype a of the current world, as the statements describe it.
    fn model_remove(&mut self, a: usize, h: EntityAny) -> Vec<u64> {
        let m = &mut self.w[self.cur].1.a[a];
        m.removals += 1; m.structs += 1; m.destroyed.push(h);
        let e = m.ents.iter_mut().find(|e| e.h == h && e.alive).unwrap();
        e.alive = false; e.vals.clone()
    }

    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Create { a, via } => { let a = *a as usize % NA;
                let base = self.fresh();
                let (w, m) = self.cur();
                let (len0, cap0) = (m.a[a].len(), m.a[a].cap);
                let res = quiet(|| on!(a, create(w, base, *via)));
                let (_, _, cap1) = on!(a, lens(w));
                let wc = *via >= 2;
                let first = len0 < m.a[a].cap0;
                match res {
                    Err(e) => { fail!(self, "C12 C10 C01", "create in {} panicked below the limit: {e} (len {len0}, capacity {cap0})", NAMES[a]); }
                    Ok(Err(back)) => {
                        if !wc || len0 < cap0 { fail!(self, "C12", "create_within_capacity of {} failed with len {len0} < capacity {cap0}", NAMES[a]); }
                        if back != on!(a, norm(base)) { fail!(self, "C12 C04 C02", "create_within_capacity of {} did not return its argument: {back:?}", NAMES[a]); }
                        if cap1 != cap0 { fail!(self, "C12", "failed create_within_capacity changed the capacity {cap0} -> {cap1}"); }
                    }
                    Ok(Ok(h)) => {
                        let vals = on!(a, norm(base));
                        m.a[a].ents.push(Ent { h, vals, alive: true }); m.a[a].structs += 1; m.a[a].created.push(h); m.a[a].cap = cap1;
                        let mut dup = !m.issued.insert(h.raw());
                        if cfg!(feature = "wrapping_version") && self.pre[a].is_some() { dup = false; let (_, m) = self.cur(); let n = m.a[a].ents.len() - 1;
                            if m.a[a].ents[..n].iter().any(|e| e.h == h && e.alive) { dup = true; }
                            let mut i = 0; m.a[a].ents.retain(|e| { i += 1; i > n || e.h != h }); }
                        if let (Some((v, _, c, _)), false) = (self.pre[a], cfg!(feature = "wrapping_version")) { if ((h.raw().0 >> 8) as usize) < c && h.raw().1 < v { fail!(self, "C08 C01 C19", "create in {} returned {h:?}, but generation {} of that position had been passed before", NAMES[a], h.raw().1); } }
                        if dup { fail!(self, "C08 C01", "create in {} returned a handle that had been issued before: {h:?}", NAMES[a]); }
                        if h.archetype_id() != IDS[a] { fail!(self, "C14 C15 C01", "handle created in {} reports archetype id {}, declared {}", NAMES[a], h.archetype_id(), IDS[a]); }
                        if wc && len0 >= cap0 { fail!(self, "C12", "create_within_capacity of {} succeeded with len {len0} == capacity {cap0}", NAMES[a]); }
                        if wc && cap1 != cap0 { fail!(self, "C12", "create_within_capacity of {} changed the capacity {cap0} -> {cap1}", NAMES[a]); }
                        if first && cap1 != cap0 { fail!(self, "C12", "{} reallocated ({cap0} -> {cap1}) although with_capacity permits {} creations", NAMES[a], cap0); }
                    }
                }
            }
            Op::Destroy { a, pick, kind, via, dead } => { let a = *a as usize % NA;
                let Some(h) = self.pick(a, *pick, *dead) else { return };
                let (w, _) = self.cur();
                let k = match kind % 4 { 0 => K::T(h), 1 => K::A(h), n => match quiet(|| w.to_direct(h)) { Ok(Some(d)) => if n == 2 { K::D(d) } else { K::DA(d) }, Ok(None) => K::T(h), Err(_) => K::T(h) } };
                let res = quiet(|| on!(a, destroy(w, k, *via % 2)));
                match res {
                    Err(e) if !*dead && self.overflow_ok(a, &e) => {
                        let (w, m) = self.cur(); m.a[a].structs += 1;
                        if !quiet(|| w.contains(h)).unwrap_or(false) { self.model_remove(a, h); }
                    }
                    Err(e) => { fail!(self, "C01 C10 C19", "destroy({}) of a {} entity of {} panicked: {e}", k.kind(), if *dead { "dead" } else { "live" }, NAMES[a]); if !*dead { self.model_remove(a, h); } }
                    Ok(None) => if !*dead { fail!(self, "C01", "destroy({}) rejected the handle {h:?} of a live entity of {}", k.kind(), NAMES[a]); }
                    Ok(Some(v)) => {
                        if *dead { fail!(self, "C01", "destroy({}) accepted the handle {h:?} of a destroyed entity of {}", k.kind(), NAMES[a]); }
                        else { let want = self.model_remove(a, h); self.check_overflow(a, h); if let Some(v) = v { if v != want { fail!(self, "C02 C04", "destroy({}) in {} returned {v:?}, the entity's components are {want:?}", k.kind(), NAMES[a]); } } }
                    }
                }
            }
            Op::Write { a, pick, via } => { let a = *a as usize % NA;
                let Some(h) = self.pick(a, *pick, false) else { return };
                let base = self.fresh();
                let (w, m) = self.cur();
                let raw: Vec<u64> = (0..8).map(|i| base + i).collect();
                let via = *via % 11;
                match quiet(|| on!(a, write(w, h, via, &raw))) {
                    Ok(true) => { m.a[a].ents.iter_mut().find(|e| e.h == h).unwrap().vals = on!(a, norms(&raw)); }
                    Ok(false) => fail!(self, "C01 C02", "write path {via} of {} refused the live handle {h:?}", NAMES[a]),
                    Err(e) => fail!(self, "C01 C02 C11", "write path {via} of {} panicked on the live handle {h:?}: {e}", NAMES[a]),
                }
            }
            Op::Direct { a, pick } => { let a = *a as usize % NA;
                let Some(h) = self.pick(a, *pick, false) else { return };
                let (w, m) = self.cur();
                match quiet(|| w.to_direct(h)) {
                    Ok(Some(d)) => { let (r, s) = (m.a[a].removals, m.a[a].structs); m.a[a].dirs.push(Dir { d, h, removals: r, structs: s }); }
                    Ok(None) => fail!(self, "C01 C09", "to_direct refused the live handle {h:?} of {}", NAMES[a]),
                    Err(e) => fail!(self, "C01 C09", "to_direct panicked on the live handle {h:?} of {}: {e}", NAMES[a]),
                }
            }
            Op::QueryDirects { a } => { let a = *a as usize % NA;
                let (w, m) = self.cur();
                match quiet(|| on!(a, query_directs(w))) {
                    Ok(v) => { let (r, s) = (m.a[a].removals, m.a[a].structs); for (_, d, h) in v { m.a[a].dirs.push(Dir { d, h, removals: r, structs: s }); } let n = m.a[a].dirs.len(); if n > 24 { m.a[a].dirs.drain(0..n - 24); } }
                    Err(e) => fail!(self, "C06 C09", "a query over {} panicked: {e}", NAMES[a]),
                }
            }
            Op::IterDestroy { a, mask, stop, how } => { let a = *a as usize % NA; self.do_iter_destroy(Some(a), 0, *mask, *stop as usize, *how); }
            Op::MultiDestroy { q, mask, stop, how } => { let q = *q as usize % MULTI.len(); self.do_iter_destroy(None, q, *mask, *stop as usize, *how); }
            Op::Clear { a } => { #[cfg(feature = "events")] { let a = *a as usize;
                let (w, m) = self.cur();
                if a >= NA { w.clear_events(); for x in m.a.iter_mut() { x.created.clear(); x.destroyed.clear(); } }
                else { on!(a, clear(w)); m.a[a].created.clear(); m.a[a].destroyed.clear(); } }
                let _ = a; }
            Op::Clone => {
                if self.w.iter().filter(|x| x.0.is_some()).count() >= 3 { return; }
                let (c0, z0) = reg(|r| (r.clones, r.z_clones));
                let (w, m) = self.cur();
                let live_t: u64 = (0..NA).map(|a| if COMPS[a].contains(&'T') { m.a[a].len() as u64 } else { 0 }).sum();
                let live_z: u64 = (0..NA).map(|a| if COMPS[a].contains(&'Z') { m.a[a].len() as u64 } else { 0 }).sum();
                match quiet(|| w.clone()) {
                    Ok(n) => {
                        let m = m.clone(); self.w.push((Some(n), m));
                        let (c1, z1) = reg(|r| (r.clones, r.z_clones));
                        if c1 - c0 != live_t || z1 - z0 != live_z { fail!(self, "C04 C13", "cloning a world with {live_t} tracked and {live_z} zero-sized live components ran Clone {} and {} times", c1 - c0, z1 - z0); }
                    }
                    Err(e) => fail!(self, "C13 C11", "cloning an unborrowed world panicked: {e}"),
                }
            }
            Op::Switch => { let n = self.w.len(); for i in 1..=n { let j = (self.cur + i) % n; if self.w[j].0.is_some() { self.cur = j; break; } } }
            Op::DropOther => { let n = self.w.len(); for i in 1..n { let j = (self.cur + i) % n; if self.w[j].0.is_some() {
                let w = self.w[j].0.take(); if let Err(e) = quiet(|| drop(w)) { fail!(self, "C04 C10", "dropping a world panicked: {e}"); } break; } } }
            Op::Panic { a, via, n, pick } => { let a = *a as usize % NA;
                let key = self.pick(a, *pick, false);
                let (w, _) = self.cur();
                let r = quiet(|| on!(a, panicking(w, *via % 5, *n as usize, key)));
                if let Err(e) = r { if e != "BOOM" { fail!(self, "C10", "a query over {} panicked by itself: {e}", NAMES[a]); } }
            }
            Op::CloneBomb { n } => {
                reg(|r| r.clone_bomb = *n as i64 + 1);
                let (w, m) = self.cur();
                let r = quiet(|| w.clone());
                reg(|r| r.clone_bomb = 0);
                match r {
                    Ok(nw) => { let m = m.clone(); if self.w.iter().filter(|x| x.0.is_some()).count() < 3 { self.w.push((Some(nw), m)); } else { drop(nw); } }
                    Err(e) => { self.expect_leaks = true; if e != "BOOM" { fail!(self, "C10 C13", "clone panicked by itself: {e}"); } }
                }
            }
            Op::DropBombDestroy { a, pick } => { let a = *a as usize % NA;
                // the removed tuple is dropped inside the generated code for dynamic keys; a component's Drop panics there
                let Some(h) = self.pick(a, *pick, false) else { return };
                reg(|r| r.drop_bomb = 1);
                let (w, _) = self.cur();
                let r = quiet(|| w.destroy(h));
                reg(|r| r.drop_bomb = 0);
                if let Err(e) = &r { if e != "BOOM" { if !self.overflow_ok(a, e) { fail!(self, "C10", "destroy panicked by itself: {e}"); } } else { self.expect_leaks = true; } }
                let (w, _) = self.cur();
                // fully present or fully absent
                let gone = !quiet(|| w.contains(h)).unwrap_or(false);
                if gone { self.model_remove(a, h); } else if r.is_ok() { fail!(self, "C01", "destroy reported success but {h:?} is still contained"); self.model_remove(a, h); }
            }
            Op::DropBombIter { a, n } => { let a = *a as usize % NA;
                reg(|r| r.drop_bomb = *n as i64 + 1);
                let (w, m) = self.cur();
                let live: Vec<EntityAny> = m.a[a].live().map(|e| e.h).collect();
                let mut st = |_: EntityAny, _: Vec<u64>, _: Vec<EntityDirectAny>| 2u8;
                let r = quiet(|| on!(a, iter_destroy(w, &mut st)));
                reg(|r| r.drop_bomb = 0);
                if let Err(e) = &r { if e == "BOOM" { self.expect_leaks = true; } else if !self.overflow_ok(a, e) { fail!(self, "C10 C07", "ecs_iter_destroy! panicked by itself: {e}"); } }
                for h in live { let (w, _) = self.cur(); if !quiet(|| w.contains(h)).unwrap_or(false) { self.model_remove(a, h); } else if r.is_ok() { fail!(self, "C07", "ecs_iter_destroy! did not destroy {h:?} of {}", NAMES[a]); return; } }
                let (_, m) = self.cur(); m.a[a].structs += 1;
            }
            Op::Forge { a, seed } => self.forge(*a as usize % NA, *seed),
        }
    }

    fn do_iter_destroy(&mut self, one: Option<usize>, q: usize, mask: u64, stop: usize, how: u8) {
        let matched: Vec<usize> = match one { Some(a) => vec![a], None => MULTI[q].1.to_vec() };
        let mut visits: Vec<(EntityAny, Vec<u64>, Vec<EntityDirectAny>, u8, u8)> = vec![];
        let (w, m) = self.cur();
        let mut alive: HashMap<EntityAny, (usize, Vec<u64>)> = HashMap::new();
        for &a in &matched { for e in m.a[a].live() { alive.insert(e.h, (a, e.vals.clone())); } }
        let decide = |i: usize| -> u8 { let d = (mask >> (i % 64)) & 1 == 1; if i == stop { match how % 4 { 0 => 1, 1 => 3, 2 => 4, _ => if d { 2 } else { 0 } } } else if d { 2 } else { 0 } };
        let r = { let v = &mut visits; match one {
            Some(a) => { let mut step = |e: EntityAny, vals: Vec<u64>, d: Vec<EntityDirectAny>| { let x = decide(v.len()); v.push((e, vals, d, x, 255)); x }; quiet(|| on!(a, iter_destroy(w, &mut step))) }
            None => { let mut step = |e: EntityAny, vals: Vec<u64>, id: u8| { let x = decide(v.len()); v.push((e, vals, vec![], x, id)); x }; quiet(|| multi(w, q, 2, &mut step)) }
        } };
        let ovf = match &r { Err(e) => matched.iter().any(|a| self.overflow_ok(*a, e)), _ => false };
        if let Err(e) = &r { if e != "BOOM" && !ovf { fail!(self, "C07 C10 C19", "ecs_iter_destroy! panicked by itself: {e}"); } }
        let stopped = visits.iter().any(|v| v.3 == 1 || v.3 == 3 || v.3 == 4);
        let mut seen = HashSet::new();
        let label = one.map(|a| NAMES[a]).unwrap_or(MULTI[q].0);
        for (i, (e, vals, dirs, x, id)) in visits.iter().enumerate() {
            if i > 0 && matches!(visits[i - 1].3, 1 | 3 | 4) { fail!(self, "C07", "ecs_iter_destroy! ({label}) went on after Break"); }
            match alive.get(e) {
                None => { fail!(self, "C07 C05", "ecs_iter_destroy! ({label}) visited {e:?}, which is not a live entity of a matching archetype"); continue; }
                Some((a, want)) => {
                    let want: Vec<u64> = if one.is_some() { want.clone() } else { comp_names(*a, q, MULTI[q].2).iter().map(|i| want[*i]).collect() };
                    if *vals != want { fail!(self, "C07 C02 C05", "ecs_iter_destroy! ({label}) visited {e:?} with values {vals:?}, its values are {want:?}"); }
                    if *id != 255 && *id != IDS[*a] { fail!(self, "C05", "MatchedArchetype of {e:?} is {id}"); }
                }
            }
            if !seen.insert(*e) { fail!(self, "C07", "ecs_iter_destroy! ({label}) visited {e:?} twice"); }
            let _ = (dirs, x);
        }
        if !stopped && r.is_ok() && seen.len() < alive.len() { fail!(self, "C07 C06 C05", "ecs_iter_destroy! ({label}) visited {} of {} matching live entities", seen.len(), alive.len()); }
        // effect: walk the visits, keep the direct handles with the state at which they were handed out
        let nv = visits.len();
        for (vi, (e, _, dirs, x, _)) in visits.into_iter().enumerate() {
            let Some((a, _)) = alive.get(&e).cloned() else { continue };
            let m = &mut self.w[self.cur].1.a[a];
            if !m.ents.iter().any(|n| n.h == e && n.alive) { continue; }
            let (r, s) = (m.removals, m.structs);
            for d in dirs { m.dirs.push(Dir { d, h: e, removals: r, structs: s }); }
            let n = m.dirs.len(); if n > 24 { m.dirs.drain(0..n - 24); }
            if x == 2 || x == 3 {
                if ovf && vi + 1 == nv { let (w, m) = self.cur(); m.a[a].structs += 1; if quiet(|| w.contains(e)).unwrap_or(false) { continue; } }
                self.model_remove(a, e);
                if !(ovf && vi + 1 == nv) { self.check_overflow(a, e); }
            }
        }
    }

    /// forged, foreign and converted handles
    fn forge(&mut self, a: usize, seed: u64) {
        let mut g = Rng(seed | 1);
        let (w, m) = self.cur();
        let live: HashSet<(u32, u32)> = m.a.iter().flat_map(|x| x.live().map(|e| e.h.raw())).collect();
        let all: Vec<EntityAny> = m.a.iter().flat_map(|x| x.ents.iter().map(|e| e.h)).collect();
        let mut cands: Vec<EntityAny> = vec![];
        for _ in 0..8 {
            let r = g.next();
            let key = match r % 5 { 0 => (g.next() as u32) & 0x1ff | 0, 1 => ((g.next() as u32 % 40) << 8) | IDS[a] as u32, 2 => ((g.next() as u32) << 8) | IDS[g.below(NA)] as u32, 3 => 0xffff_ff00 | IDS[a] as u32, _ => all.get(g.below(all.len().max(1))).map(|e| e.raw().0).unwrap_or(0) };
            let ver = match g.next() % 4 { 0 => 1, 1 => 1 + (g.next() as u32 % 4), 2 => u32::MAX - (g.next() as u32 % 2), _ => all.get(g.below(all.len().max(1))).map(|e| e.raw().1).unwrap_or(2) };
            if let Ok(e) = EntityAny::from_raw((key, ver)) { cands.push(e); }
        }
        for e in all.iter().take(4) { let (k, v) = e.raw(); if let Ok(x) = EntityAny::from_raw((k & !0xff | IDS[a] as u32, v)) { cands.push(x); } }
        let mut fails: Vec<(&'static str, String)> = vec![];
        for e in cands {
            let is_live = live.contains(&e.raw());
            let known = IDS.contains(&e.archetype_id());
            // world level and find
            match quiet(|| w.contains(e)) { Ok(b) => { if b != is_live { fails.push(("C03 C01", format!("World::contains({e:?}) = {b}, live: {is_live}"))); } }
                Err(x) => if is_live || !(x.contains("invalid entity")) { fails.push(("C03", format!("World::contains({e:?}) panicked: {x}"))) } else if known && !cfg!(debug_assertions) { fails.push(("C03", format!("World::contains({e:?}) panicked: {x}"))) } }
            match quiet(|| w.to_direct(e).is_some()) { Ok(b) => { if b != is_live { fails.push(("C03 C01", format!("World::to_direct({e:?}) accepted: {b}, live: {is_live}"))); } } Err(x) => if is_live || !x.contains("invalid entity") { fails.push(("C03", format!("World::to_direct({e:?}) panicked: {x}"))) } }
            if !is_live { match quiet(|| w.destroy(e).is_some()) { Ok(b) => { if b { fails.push(("C03 C01", format!("World::destroy({e:?}) accepted a handle that is not live"))); } } Err(x) => if !x.contains("invalid entity") { fails.push(("C03", format!("World::destroy({e:?}) panicked: {x}"))) } } }
            match quiet(|| multi_find(w, 4, false, e)) { Ok(b) => { if b.is_some() != is_live || b.as_ref().map(|x| x.0 != e).unwrap_or(false) { fails.push(("C03 C01", format!("ecs_find!({e:?}) = {b:?}, live: {is_live}"))); } } Err(x) => if is_live || !x.contains("invalid entity") { fails.push(("C03", format!("ecs_find!({e:?}) panicked: {x}"))) } }
            // archetype level, every archetype: never a panic in release, absence or the very entity
            for b in 0..NA {
                let here = is_live && e.archetype_id() == IDS[b];
                match quiet(|| on!(b, foreign(w, K::A(e)))) {
                    Ok(v) => for x in v { if x.found != here { fails.push(("C03 C14", format!("{} of {} with {e:?}: found {}, expected {here}", x.path, NAMES[b], x.found))); } },
                    Err(x) => if here || !(cfg!(debug_assertions) && x.contains("invalid entity")) { fails.push(("C03", format!("archetype level lookup of {} with {e:?} panicked: {x}", NAMES[b]))) },
                }
            }
            // unchecked conversion into the archetype
            let here = is_live && e.archetype_id() == IDS[a];
            match quiet(|| on!(a, unchecked(w, K::A(e)))) {
                Ok(v) => for x in v { if x.found != here { fails.push(("C03", format!("{} with {e:?} converted unchecked to {}: found {}", x.path, NAMES[a], x.found))); } },
                Err(x) => if here || !cfg!(debug_assertions) { fails.push(("C03", format!("lookup with {e:?} converted unchecked to {} panicked: {x}", NAMES[a]))) },
            }
            if !here { match quiet(|| on!(a, unchecked_destroy(w, K::A(e)))) { Ok(b) => if b { fails.push(("C03", format!("destroy with {e:?} converted unchecked to {} removed an entity", NAMES[a]))); }, Err(x) => if !cfg!(debug_assertions) { fails.push(("C03", format!("destroy with {e:?} converted unchecked to {} panicked: {x}", NAMES[a]))) } } }
        }
        // direct handles of another world: absence, a clean panic (debug), or some live entity of this world
        let mut other = W1::new();
        let n = 1 + g.below(6);
        for i in 0..n { let _ = on!(a, create(&mut other, 1000 + 16 * i as u64, 0)); }
        let mut ds = on!(a, query_directs(&mut other));
        let kill = g.below(n + 1);
        if kill < n { let h = ds[kill * 3 % ds.len()].2; let _ = other.destroy(h); ds.extend(on!(a, query_directs(&mut other))); }
        drop(other);
        for (_, d, _) in ds.into_iter().rev().take(9) {
            for b in 0..NA {
                let r = if b == a { quiet(|| on!(b, designates(w, d))) } else { quiet(|| { let v = on!(b, foreign(w, K::DA(d))); if v.iter().any(|x| x.found) { Some(EntityAny::from_raw((0xffff_ffff, 1)).ok().unwrap()) } else { None } }) };
                match r { Ok(Some(h)) => if !live.contains(&h.raw()) { fails.push(("C03", format!("foreign direct handle {d:?} designates {h:?} in {}, which is not live", NAMES[b]))); },
                    Ok(None) => {}, Err(x) => if !(cfg!(debug_assertions) && x.contains("invalid entity")) { fails.push(("C03", format!("foreign direct handle {d:?} panicked in {}: {x}", NAMES[b]))); } }
            }
            let r = quiet(|| on!(a, lookup(w, K::D(d))));
            if let Ok(v) = r { for x in v { if let Some(h) = x.ent { if x.found && !live.contains(&h.raw()) { fails.push(("C03", format!("{} with foreign direct handle {d:?} reached {h:?}, which is not live", x.path))); } } } }
            // as an unchecked handle of another archetype
            let b = g.below(NA);
            if b != a { match quiet(|| on!(b, unchecked(w, K::DA(d)))) { Ok(v) => for x in v { if x.found { fails.push(("C03", format!("{} with {d:?} converted unchecked to {}: found", x.path, NAMES[b]))); } }, Err(x) => if !cfg!(debug_assertions) { fails.push(("C03", format!("direct handle {d:?} converted unchecked to {} panicked: {x}", NAMES[b]))) } } }
        }
        for (p, m) in fails { self.fails.push(Fail { props: p, msg: m }); }
    }

    /// Everything that can be observed, on every world.
    pub fn observe(&mut self, deep: bool) {
        self.obs += 1;
        let save = self.cur;
        for i in 0..self.w.len() { if self.w[i].0.is_some() { self.cur = i; self.observe_world(deep && (i == save || self.obs % 3 == 0)); } }
        self.cur = save;
        // ownership
        let want_t: usize = self.w.iter().filter(|x| x.0.is_some()).map(|x| (0..NA).map(|a| if COMPS[a].contains(&'T') { x.1.a[a].len() } else { 0 }).sum::<usize>()).sum();
        let want_z: i64 = self.w.iter().filter(|x| x.0.is_some()).map(|x| (0..NA).map(|a| if COMPS[a].contains(&'Z') { x.1.a[a].len() as i64 } else { 0 }).sum::<i64>()).sum();
        let (at, az, errs) = reg(|r| (r.alive.len(), r.z_alive, std::mem::take(&mut r.errors)));
        for e in errs { fail!(self, "C04 C10 C03", "{e}"); }
        if at < want_t || (at > want_t && !self.expect_leaks) { fail!(self, "C04", "{at} tracked component values exist, {want_t} are owned by live entities"); }
        if az < want_z || (az > want_z && !self.expect_leaks) { fail!(self, "C04", "{az} zero-sized component values exist, {want_z} are owned by live entities"); }
    }

    fn observe_world(&mut self, deep: bool) {
        let many = self.w.len() > 1;
        let c = self.cur;
        let (w, m) = { let (w, m) = &mut self.w[c]; (w.as_mut().unwrap(), &*m) };
        let mut fails: Vec<(&'static str, String)> = vec![];
        let cl = if many { " (cloned worlds exist)" } else { "" };
        macro_rules! f { ($p:expr, $($t:tt)*) => { fails.push(($p, format!($($t)*))) } }
        for a in 0..NA {
            let ma = &m.a[a];
            let (len, empty, cap) = on!(a, lens(w));
            let n = ma.len();
            if len != n { f!("C12 C06 C07 C10 C13", "{}: len() is {len}, {n} entities are alive{cl}", NAMES[a]); }
            if empty != (len == 0) { f!("C12", "{}: is_empty() is {empty} with len {len}", NAMES[a]); }
            if cap < len { f!("C12 C03 C10", "{}: capacity {cap} < len {len}", NAMES[a]); }
            if cap != ma.cap { f!("C12 C13", "{}: capacity changed {} -> {cap} without a creation{cl}", NAMES[a], ma.cap); }
            // enumeration
            let want: HashMap<EntityAny, &Vec<u64>> = ma.live().map(|e| (e.h, &e.vals)).collect();
            match quiet(|| on!(a, scan(w))) {
                Err(e) => f!("C06 C10 C11", "enumerating {} panicked: {e}", NAMES[a]),
                Ok(scans) => for (path, rows) in scans {
                    let tag: &'static str = if path.contains("destroy") { "C07 C06 C13 C10" } else { "C06 C13 C10" };
                    if rows.len() != n { f!(tag, "{path} of {} presented {} items, {n} entities are alive{cl}", NAMES[a], rows.len()); }
                    let mut seen = HashSet::new();
                    for (e, v) in rows {
                        if !seen.insert(e) { f!(tag, "{path} of {} presented {e:?} twice", NAMES[a]); }
                        match want.get(&e) { None => f!(tag, "{path} of {} presented {e:?}, which is not alive", NAMES[a]), Some(x) => if **x != v { f!("C02 C06 C13 C10 C07", "{path} of {} shows {v:?} for {e:?}, last written {x:?}{cl}", NAMES[a]); } }
                    }
                }
            }
            // handles
            let total = ma.ents.len();
            for (i, e) in ma.ents.iter().enumerate() {
                if !deep && i + 6 < total { continue; }
                for k in [K::T(e.h), K::A(e.h)] {
                    match quiet(|| on!(a, lookup(w, k))) {
                        Err(x) => f!("C01 C10 C02", "a lookup of {} with {} {:?} (alive: {}) panicked: {x}", NAMES[a], k.kind(), e.h, e.alive),
                        Ok(v) => for x in v {
                            if x.found != e.alive { f!("C01 C13 C10 C07 C12", "{} of {} with {} {:?}: accepted {}, alive {}{cl}", x.path, NAMES[a], k.kind(), e.h, x.found, e.alive); continue; }
                            if !x.found { continue; }
                            if let Some(h) = x.ent { if h != e.h { f!("C01 C02 C13", "{} of {} with {} {:?} designates {h:?}", x.path, NAMES[a], k.kind(), e.h); } }
                            else if x.path.contains("disagree") { f!("C02 C14", "{} of {} with {:?}", x.path, NAMES[a], e.h); }
                            if let Some(v) = &x.vals { if *v != e.vals { f!("C02 C01 C13 C10 C07", "{} of {} with {} {:?} shows {v:?}, last written {:?}{cl}", x.path, NAMES[a], k.kind(), e.h, e.vals); } }
                            for d in x.directs {
                                // accepted when issued, and designating the entity it was issued for
                                match quiet(|| on!(a, designates(w, d))) { Ok(Some(h)) if h == e.h => {}, Ok(r) => f!("C09", "direct handle {d:?} issued by {} of {} for {:?} designates {r:?} at once", x.path, NAMES[a], e.h), Err(p) => f!("C09", "direct handle {d:?} just issued by {} panicked: {p}", x.path) }
                                if d.archetype_id() != IDS[a] { f!("C14 C09", "direct handle of {} reports archetype id {}", NAMES[a], d.archetype_id()); }
                                if !on!(a, select_direct_ok(d)) { f!("C14", "SelectEntityDirect of a direct handle of {} is wrong", NAMES[a]); }
                            }
                        }
                    }
                }
                if !on!(a, select_ok(e.h)) { f!("C14 C15", "SelectEntity/SelectArchetype of {:?} of {} is wrong", e.h, NAMES[a]); }
                for q in 0..MULTI.len() {
                    let hit = MULTI[q].1.contains(&a) && e.alive;
                    for b in [false, true] { match quiet(|| multi_find(w, q, b, e.h)) {
                        Err(x) => f!("C05 C01", "find {} with {:?} of {} panicked: {x}", MULTI[q].0, e.h, NAMES[a]),
                        Ok(None) => if hit { f!("C05 C01", "find {} did not run for {:?} of {}", MULTI[q].0, e.h, NAMES[a]); },
                        Ok(Some((h, v))) => { if !hit { f!("C05 C01", "find {} ran for {:?} of {} (alive {})", MULTI[q].0, e.h, NAMES[a], e.alive); }
                            else { let want: Vec<u64> = comp_names(a, q, MULTI[q].2).iter().map(|i| e.vals[*i]).collect(); if h != e.h || v != want { f!("C05 C02", "find {} of {:?} of {} saw {h:?} {v:?}, expected {want:?}", MULTI[q].0, e.h, NAMES[a]); } } }
                    } }
                }
            }
            // direct handles
            for d in ma.dirs.iter() {
                let alive = ma.live().find(|e| e.h == d.h);
                let dead = ma.removals > d.removals;
                let must = ma.structs == d.structs;
                for k in [K::D(d.d), K::DA(d.d)] {
                    match quiet(|| on!(a, lookup(w, k))) {
                        Err(x) => f!("C09 C10", "lookup of {} with {} {:?} panicked: {x}", NAMES[a], k.kind(), d.d),
                        Ok(v) => for x in v {
                            if x.found && dead { f!("C09 C13 C07", "{} of {} accepted the direct handle {:?} (issued for {:?}) after a removal{cl}", x.path, NAMES[a], d.d, d.h); continue; }
                            if !x.found && must { f!("C09 C13 C07", "{} of {} rejected the direct handle {:?} although nothing changed since it was issued{cl}", x.path, NAMES[a], d.d); continue; }
                            if !x.found { continue; }
                            let Some(e) = alive else { f!("C09", "{} of {} accepted {:?}, its entity is dead", x.path, NAMES[a], d.d); continue };
                            if let Some(h) = x.ent { if h != d.h { f!("C09 C07 C13", "{} of {}: the direct handle {:?} issued for {:?} designates {h:?}", x.path, NAMES[a], d.d, d.h); } }
                            if let Some(v) = &x.vals { if *v != e.vals { f!("C09 C02", "{} of {} through {:?} shows {v:?}, expected {:?}", x.path, NAMES[a], d.d, e.vals); } }
                            for n in x.directs { if n != d.d { f!("C09", "{} of {} turned the accepted direct handle {:?} into {n:?}", x.path, NAMES[a], d.d); } }
                        }
                    }
                    if dead { match quiet(|| on!(a, destroy(w, k, 0)).is_some()) { Ok(true) => f!("C09", "destroy of {} accepted the stale direct handle {:?}", NAMES[a], d.d), Ok(false) => {}, Err(x) => f!("C09", "destroy of {} with a stale direct handle panicked: {x}", NAMES[a]) } }
                }
            }
            #[cfg(feature = "events")] {
                let (cr, de) = on!(a, events(w));
                if multiset(&cr) != multiset(&ma.created) { f!("C17 C13 C10", "{}: created log {cr:?}, expected {:?}{cl}", NAMES[a], ma.created); }
                if multiset(&de) != multiset(&ma.destroyed) { f!("C17 C13 C10", "{}: destroyed log {de:?}, expected {:?}{cl}", NAMES[a], ma.destroyed); }
            }
        }
        #[cfg(feature = "events")] {
            let mut wc: Vec<EntityAny> = m.a.iter().flat_map(|x| x.created.clone()).collect(); let mut wd: Vec<EntityAny> = m.a.iter().flat_map(|x| x.destroyed.clone()).collect();
            wc.sort_by_key(|e| e.raw()); wd.sort_by_key(|e| e.raw());
            for (name, want, created) in [("iter_created", &wc, true), ("iter_destroyed", &wd, false)] {
                let mut got = vec![];
                macro_rules! drain { ($it:expr) => {{ let mut it = $it; let mut left = want.len(); loop {
                    let h = it.size_hint(); if h != (left, Some(left)) { f!("C17", "World::{name}: size_hint {h:?} with {left} events left"); }
                    match it.next() { Some(e) => { got.push(*e); if left == 0 { f!("C17", "World::{name} yields more events than were logged"); break; } left -= 1; } None => { if left != 0 { f!("C17", "World::{name} ended {left} events early"); } if it.next().is_some() { f!("C17", "World::{name} resumed after its end"); } let h = it.size_hint(); if h != (0, Some(0)) { f!("C17", "World::{name}: size_hint {h:?} at the end"); } break; } } } }} }
                if created { drain!(w.iter_created()) } else { drain!(w.iter_destroyed()) }
                got.sort_by_key(|e| e.raw());
                if got != *want { f!("C17 C13", "World::{name} yields {got:?}, logged {want:?}"); }
            }
        }
        // multi-archetype queries
        if deep { for q in 0..MULTI.len() { for mode in 0..3u8 {
            let mut rows: Vec<(EntityAny, Vec<u64>, u8)> = vec![];
            let name = ["ecs_iter!", "ecs_iter_borrow!", "ecs_iter_destroy!"][mode as usize];
            let r = { let rows = &mut rows; let mut st = |e: EntityAny, v: Vec<u64>, id: u8| { rows.push((e, v, id)); 0u8 }; quiet(|| multi(w, q, mode, &mut st)) };
            if let Err(e) = r { f!("C05 C06 C10", "{name} {} panicked: {e}", MULTI[q].0); continue; }
            let want: HashMap<EntityAny, (usize, &Vec<u64>)> = MULTI[q].1.iter().flat_map(|a| m.a[*a].live().map(move |e| (e.h, (*a, &e.vals)))).collect();
            if rows.len() != want.len() { f!("C05 C06 C07", "{name} {} ran {} times, {} entities match", MULTI[q].0, rows.len(), want.len()); }
            let mut seen = HashSet::new();
            for (e, v, id) in rows.iter() {
                if !seen.insert(*e) { f!("C06 C07", "{name} {} visited {e:?} twice", MULTI[q].0); }
                match want.get(e) { None => f!("C05 C06", "{name} {} visited {e:?}, which does not match", MULTI[q].0), Some((a, x)) => {
                    let x: Vec<u64> = comp_names(*a, q, MULTI[q].2).iter().map(|i| x[*i]).collect();
                    if x != *v { f!("C05 C02 C06", "{name} {} bound {v:?} for {e:?}, expected {x:?}", MULTI[q].0); }
                    if *id != IDS[*a] { f!("C05 C15", "{name} {}: MatchedArchetype is {id} for {e:?} of {}", MULTI[q].0, NAMES[*a]); } } }
            }
            // break ends the whole query
            if want.len() > 1 {
                let stop = 1 + (self.obs as usize + q) % want.len();
                let mut n = 0; { let mut st = |_e: EntityAny, _v: Vec<u64>, _id: u8| { n += 1; if n == stop { 1u8 } else { 0 } }; let _ = quiet(|| multi(w, q, mode, &mut st)); }
                if n != stop { f!("C06 C07", "{name} {} ran {n} times although the closure returned Break at call {stop}", MULTI[q].0); }
            }
        } } }
        // what a clone does differently from the model of its original also breaks "observationally identical"
        for (p, s) in fails { self.fails.push(Fail { props: if c > 0 { with_c13(p) } else { p }, msg: s }); }
    }

    /// End of a history: every world can be refilled to capacity, then everything is dropped.
    pub fn finish(&mut self) {
        for i in 0..self.w.len() { if self.w[i].0.is_none() { continue; } self.cur = i;
            for a in 0..NA {
                let (_, m) = self.cur();
                let (len, cap) = (m.a[a].len(), m.a[a].cap);
                if cap > 4096 { continue; }
                for _ in len..cap { self.apply(&Op::Create { a: a as u8, via: 2 }); if !self.fails.is_empty() { return; } }
                self.apply(&Op::Create { a: a as u8, via: 3 });
            }
        }
        self.cur = 0; for i in 0..self.w.len() { if self.w[i].0.is_some() { self.cur = i; } }
        self.observe(false);
        if !self.fails.is_empty() { return; }
        for i in 0..self.w.len() { let w = self.w[i].0.take(); if let Err(e) = quiet(|| drop(w)) { fail!(self, "C04 C10", "dropping a world panicked: {e}"); } }
        self.observe(false);
    }
}
pub fn with_c13(p: &'static str) -> &'static str { if p.contains("C13") || p == "ALL" { p } else { Box::leak(format!("{p} C13").into_boxed_str()) } }
#[allow(unused)]
fn multiset(v: &[EntityAny]) -> Vec<(u32, u32)> { let mut x: Vec<_> = v.iter().map(|e| e.raw()).collect(); x.sort(); x }
