//! Component types of the harness, and the registry that follows every tracked value.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Reg {
    pub next: u64,
    pub alive: HashMap<u64, u64>, // instance id -> value
    pub errors: Vec<String>,
    pub clones: u64,
    pub z_alive: i64,
    pub z_clones: u64,
    pub clone_bomb: i64, // panics in the n-th clone from now (0: off)
    pub drop_bomb: i64,
}
thread_local! { pub static REG: RefCell<Reg> = RefCell::new(Reg { next: 1, ..Default::default() }); }
pub fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R { REG.with(|r| f(&mut r.borrow_mut())) }
pub fn reg_reset() { reg(|r| { let n = r.next; *r = Reg { next: n, ..Default::default() }; }) }

/// Marker of panics raised by the harness itself.
pub struct Boom;

pub trait Cv { fn mk(v: u64) -> Self; fn val(&self) -> u64; fn set(&mut self, v: u64); fn norm(v: u64) -> u64 { v } }

macro_rules! plain { ($n:ident, $t:ty) => {
    #[derive(Clone, Debug, PartialEq)] pub struct $n(pub $t);
    impl Cv for $n { fn mk(v: u64) -> Self { $n(v as $t) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as $t } fn norm(v: u64) -> u64 { (v as $t) as u64 } }
} }
plain!(CX, u64);
plain!(CY, u8);
plain!(CW, u32);

/// String: heap allocated.
#[derive(Clone)] pub struct CS(pub String);
impl Cv for CS { fn mk(v: u64) -> Self { CS(format!("v{v}")) } fn val(&self) -> u64 { self.0[1..].parse().unwrap_or(u64::MAX) } fn set(&mut self, v: u64) { self.0 = format!("v{v}") } }

/// Over-aligned.
#[derive(Clone)] #[repr(align(64))] pub struct CB(pub u64, pub u64);
impl Cv for CB {
    fn mk(v: u64) -> Self { CB(v, !v) }
    fn val(&self) -> u64 { if self as *const _ as usize % 64 != 0 { return u64::MAX - 1; } if self.1 == !self.0 { self.0 } else { u64::MAX } }
    fn set(&mut self, v: u64) { self.0 = v; self.1 = !v; }
}
/// Zero-sized, counts its live instances.
pub struct CZ;
impl Cv for CZ { fn mk(_: u64) -> Self { reg(|r| r.z_alive += 1); CZ } fn val(&self) -> u64 { 0 } fn set(&mut self, _: u64) {} fn norm(_: u64) -> u64 { 0 } }
impl Clone for CZ { fn clone(&self) -> Self { reg(|r| { r.z_alive += 1; r.z_clones += 1; }); CZ } }
impl Drop for CZ { fn drop(&mut self) { reg(|r| { r.z_alive -= 1; if r.z_alive < 0 { r.errors.push("a zero-sized component was dropped more often than created".into()); } }) } }

/// Tracked: every instance has an id in the registry.
pub struct CT { id: u64, v: u64, _b: Box<u64> }
impl Cv for CT {
    fn mk(v: u64) -> Self { let id = reg(|r| { let id = r.next; r.next += 1; r.alive.insert(id, v); id }); CT { id, v, _b: Box::new(v) } }
    fn val(&self) -> u64 { let (id, v) = (self.id, self.v); reg(|r| if !r.alive.contains_key(&id) { r.errors.push(format!("component value {v} (instance {id}) was readable after being dropped")); }); v }
    fn set(&mut self, v: u64) { self.v = v; *self._b = v; let id = self.id; reg(|r| { r.alive.insert(id, v); }); }
}
impl Clone for CT {
    fn clone(&self) -> Self {
        let boom = reg(|r| { r.clones += 1; if r.clone_bomb > 0 { r.clone_bomb -= 1; r.clone_bomb == 0 } else { false } });
        if boom { std::panic::panic_any(Boom); }
        CT::mk(self.val())
    }
}
impl Drop for CT {
    fn drop(&mut self) {
        let (id, v) = (self.id, self.v);
        let boom = reg(|r| {
            if r.alive.remove(&id).is_none() { r.errors.push(format!("component value {v} (instance {id}) was dropped twice, or dropped without having been created")); }
            if r.drop_bomb > 0 { r.drop_bomb -= 1; r.drop_bomb == 0 } else { false }
        });
        if boom && !std::thread::panicking() { std::panic::panic_any(Boom); }
    }
}
