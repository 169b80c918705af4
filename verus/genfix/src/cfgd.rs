//! The same world and queries as main.rs for every truth assignment to vx_a, vx_b, vx_c: items are decorated with predicates,
//! a disabled one must behave as if it had not been written and an enabled one as if the attribute were absent (C16).
#![allow(unused, unexpected_cfgs)]
use gecs::prelude::*;
#[derive(Clone)] pub struct CompA(pub u32);
#[derive(Clone)] pub struct CompB(pub u32);
#[derive(Clone)] pub struct CompC(pub u32);
#[derive(Clone)] pub struct CompD(pub u32);
ecs_world! {
    #[cfg(any())]
    #[archetype_id(9)]
    ecs_archetype!(ArchOff, CompA, CompB, CompC);
    #[archetype_id(3)]
    ecs_archetype!(ArchAb, #[cfg(vx_a)] CompA, #[cfg(not(vx_a))] CompA, #[cfg(any())] CompC, #[cfg(all())] CompB);
    #[cfg(all(vx_b, not(vx_b)))]
    ecs_archetype!(ArchNot, CompC);
    #[cfg(not(vx_b))]
    ecs_archetype!(ArchBc, CompB, #[component_id(7)] CompC);
    #[cfg(vx_b)]
    ecs_archetype!(ArchBc, #[cfg(any())] #[component_id(6)] CompA, #[cfg(all())] CompB, #[cfg(vx_b)] #[component_id(7)] CompC, #[cfg(not(vx_b))] CompD);
    #[cfg(any(vx_c, not(vx_c)))]
    #[archetype_id(1)]
    ecs_archetype!(ArchDa, #[cfg(any(vx_a, not(vx_a)))] CompD, #[cfg(not(vx_c))] CompA, #[cfg(vx_c)] CompA);
    #[cfg(any())]
    ecs_archetype!(ArchEnd, CompD);
}
type St<'a> = &'a mut dyn FnMut() -> EcsStep;
type Sd<'a> = &'a mut dyn FnMut() -> EcsStepDestroy;
type Rt<'a> = &'a mut dyn FnMut() -> u32;
fn q0_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |#[cfg(any())] z: &CompD, #[cfg(vx_a)] b: &mut CompB, #[cfg(not(vx_a))] b: &mut CompB, #[cfg(all())] o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }); }
fn q1_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |#[cfg(vx_c)] e: &Entity<_>, #[cfg(not(vx_c))] e: &Entity<_>, x: &EntityAny, #[cfg(any())] z: &OneOf<CompB, CompC>, d: &EntityDirect<_>, y: &EntityDirectAny, #[cfg(any())] z: &Entity<ArchBc>, a: &mut CompA| { f() }); }
fn q2_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |#[cfg(all())] e: &Entity<ArchDa>, #[cfg(any())] z: &Entity<ArchAb>, d: &EntityDirect<ArchDa>, #[cfg(any(vx_b, all()))] c: &mut CompD, #[cfg(vx_b)] a: &CompA, #[cfg(not(vx_b))] a: &CompA| { f() }); }
fn q0_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |#[cfg(vx_a)] b: &mut CompB, #[cfg(not(vx_a))] b: &mut CompB, #[cfg(any())] z: &CompA, #[cfg(any())] y: &mut CompC, #[cfg(not(any()))] o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }); }
fn q1_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |e: &Entity<_>, #[cfg(any())] z: &Entity<ArchDa>, x: &EntityAny, #[cfg(all())] d: &EntityDirect<_>, #[cfg(vx_a)] y: &EntityDirectAny, #[cfg(not(vx_a))] y: &EntityDirectAny, a: &mut CompA| { f() }); }
fn q0_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |b: &mut CompB, #[cfg(any())] z: &CompD, #[cfg(vx_b)] o: &OneOf<CompA, CompC>, #[cfg(not(vx_b))] o: &OneOf<CompA, CompC>, #[cfg(all())] d: &EntityDirectAny| { f() }); }
fn q1_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |#[cfg(any())] z: &CompB, e: &Entity<_>, #[cfg(not(any()))] x: &EntityAny, d: &EntityDirect<_>, #[cfg(any())] v: &CompC, y: &EntityDirectAny, #[cfg(all())] a: &mut CompA| { f() }); }
fn q0_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |#[cfg(vx_c)] b: &mut CompB, #[cfg(not(vx_c))] b: &mut CompB, #[cfg(any())] z: &CompD, o: &OneOf<CompA, CompC>, #[cfg(all())] d: &EntityDirectAny| { f() }) }
fn q1_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |#[cfg(any())] z: &Entity<ArchAb>, #[cfg(all())] e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, #[cfg(vx_a)] a: &mut CompA, #[cfg(not(vx_a))] a: &mut CompA| { f() }) }
fn q1_findd(w: &mut EcsWorld, k: EntityDirectAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, #[cfg(any())] z: &CompB, x: &EntityAny, #[cfg(all())] d: &EntityDirect<_>, y: &EntityDirectAny, #[cfg(all())] a: &mut CompA| { f() }) }
fn q1_findt(w: &mut EcsWorld, k: Entity<ArchDa>, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, #[cfg(any())] z: &CompC, #[cfg(vx_b)] d: &EntityDirect<_>, #[cfg(not(vx_b))] d: &EntityDirect<_>, y: &EntityDirectAny, #[cfg(any(vx_b, not(vx_b)))] a: &mut CompA| { f() }) }
fn q1_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |#[cfg(any())] z: &CompC, #[cfg(not(any()))] e: &Entity<_>, x: &EntityAny, #[cfg(any())] v: &OneOf<CompC, CompB>, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q0_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |#[cfg(vx_a)] b: &mut CompB, #[cfg(not(vx_a))] b: &mut CompB, #[cfg(any())] z: &EntityDirect<ArchBc>, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }) }
fn q2_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |#[cfg(any())] z: &CompB, #[cfg(all())] e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, #[cfg(vx_a)] c: &mut CompD, #[cfg(not(vx_a))] c: &mut CompD, a: &CompA| { f() }); }
fn q2_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, #[cfg(vx_a)] c: &mut CompD, #[cfg(not(vx_a))] c: &mut CompD, a: &CompA| { f() }) }
fn q1_finddt(w: &mut EcsWorld, k: EntityDirect<ArchDa>, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q3_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |#[cfg(vx_b)] o: &mut OneOf<CompC, CompD>, #[cfg(not(vx_b))] o: &mut OneOf<CompC, CompD>, #[cfg(any())] z: &EntityDirect<ArchAb>, #[cfg(all())] x: &EntityAny| { f() }); }
fn q3_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |#[cfg(vx_b)] o: &mut OneOf<CompC, CompD>, #[cfg(not(vx_b))] o: &mut OneOf<CompC, CompD>, #[cfg(any())] z: &EntityDirect<ArchAb>, #[cfg(all())] x: &EntityAny| { f() }); }
fn q3_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |#[cfg(vx_b)] o: &mut OneOf<CompC, CompD>, #[cfg(not(vx_b))] o: &mut OneOf<CompC, CompD>, #[cfg(any())] z: &EntityDirect<ArchAb>, #[cfg(all())] x: &EntityAny| { f() }) }
fn main() {}
