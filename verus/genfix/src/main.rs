//! The world and the queries whose generated code the "gen" unit puts under contract.
#![allow(unused)]
use gecs::prelude::*;
#[derive(Clone)] pub struct CompA(pub u32);
#[derive(Clone)] pub struct CompB(pub u32);
#[derive(Clone)] pub struct CompC(pub u32);
#[derive(Clone)] pub struct CompD(pub u32);
ecs_world! {
    #[archetype_id(3)]
    ecs_archetype!(ArchAb, CompA, CompB);
    ecs_archetype!(ArchBc, CompB, #[component_id(7)] CompC);
    #[archetype_id(1)]
    ecs_archetype!(ArchDa, CompD, CompA);
}
type St<'a> = &'a mut dyn FnMut() -> EcsStep;
type Sd<'a> = &'a mut dyn FnMut() -> EcsStepDestroy;
type Rt<'a> = &'a mut dyn FnMut() -> u32;
fn q0_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |b: &mut CompB, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }); }
fn q1_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }); }
fn q2_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, c: &mut CompD, a: &CompA| { f() }); }
fn q0_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |b: &mut CompB, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }); }
fn q1_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }); }
fn q0_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |b: &mut CompB, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }); }
fn q1_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }); }
fn q0_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |b: &mut CompB, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }) }
fn q1_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q1_findd(w: &mut EcsWorld, k: EntityDirectAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q1_findt(w: &mut EcsWorld, k: Entity<ArchDa>, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q1_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q0_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |b: &mut CompB, o: &OneOf<CompA, CompC>, d: &EntityDirectAny| { f() }) }
fn q2_iterb(w: &EcsWorld, f: St) { ecs_iter_borrow!(w, |e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, c: &mut CompD, a: &CompA| { f() }); }
fn q2_find(w: &mut EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, c: &mut CompD, a: &CompA| { f() }) }
fn q1_finddt(w: &mut EcsWorld, k: EntityDirect<ArchDa>, f: Rt) -> Option<u32> { ecs_find!(w, k, |e: &Entity<_>, x: &EntityAny, d: &EntityDirect<_>, y: &EntityDirectAny, a: &mut CompA| { f() }) }
fn q3_iter(w: &mut EcsWorld, f: St) { ecs_iter!(w, |o: &mut OneOf<CompC, CompD>, x: &EntityAny| { f() }); }
fn q3_iterd(w: &mut EcsWorld, f: Sd) { ecs_iter_destroy!(w, |o: &mut OneOf<CompC, CompD>, x: &EntityAny| { f() }); }
fn q3_findb(w: &EcsWorld, k: EntityAny, f: Rt) -> Option<u32> { ecs_find_borrow!(w, k, |o: &mut OneOf<CompC, CompD>, x: &EntityAny| { f() }) }
fn main() {}
