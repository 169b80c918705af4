//! generated by gen_wide.py
use crate::comps::*;
use crate::engine::*;
use gecs::prelude::*;
macro_rules! f { ($o:expr, $p:expr, $($t:tt)*) => { $o.push(Fail { props: $p, msg: format!($($t)*) }) } }
#[derive(Clone)] pub struct Qaa(u64); impl Qaa { fn mk(v: u64) -> Self { Qaa(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qab(u8); impl Qab { fn mk(v: u64) -> Self { Qab(v as u8) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u8 } fn norm(v: u64) -> u64 { (v as u8) as u64 } }
#[derive(Clone)] pub struct Qac(u32); impl Qac { fn mk(v: u64) -> Self { Qac(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qad(u16); impl Qad { fn mk(v: u64) -> Self { Qad(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qae(u64); impl Qae { fn mk(v: u64) -> Self { Qae(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qaf(CT); impl Qaf { fn mk(v: u64) -> Self { Qaf(CT::mk(v)) } fn val(&self) -> u64 { self.0.val() } fn set(&mut self, v: u64) { self.0.set(v) } fn norm(v: u64) -> u64 { v } }
#[derive(Clone)] pub struct Qag(u32); impl Qag { fn mk(v: u64) -> Self { Qag(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qah(u16); impl Qah { fn mk(v: u64) -> Self { Qah(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qai(u64); impl Qai { fn mk(v: u64) -> Self { Qai(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qaj(u8); impl Qaj { fn mk(v: u64) -> Self { Qaj(v as u8) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u8 } fn norm(v: u64) -> u64 { (v as u8) as u64 } }
#[derive(Clone)] pub struct Qak(u32); impl Qak { fn mk(v: u64) -> Self { Qak(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qal(u16); impl Qal { fn mk(v: u64) -> Self { Qal(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qam(u64); impl Qam { fn mk(v: u64) -> Self { Qam(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qan(CT); impl Qan { fn mk(v: u64) -> Self { Qan(CT::mk(v)) } fn val(&self) -> u64 { self.0.val() } fn set(&mut self, v: u64) { self.0.set(v) } fn norm(v: u64) -> u64 { v } }
#[derive(Clone)] pub struct Qao(u32); impl Qao { fn mk(v: u64) -> Self { Qao(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qap(u16); impl Qap { fn mk(v: u64) -> Self { Qap(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qaq(u64); impl Qaq { fn mk(v: u64) -> Self { Qaq(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qar(u8); impl Qar { fn mk(v: u64) -> Self { Qar(v as u8) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u8 } fn norm(v: u64) -> u64 { (v as u8) as u64 } }
#[derive(Clone)] pub struct Qas(u32); impl Qas { fn mk(v: u64) -> Self { Qas(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qat(u16); impl Qat { fn mk(v: u64) -> Self { Qat(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qau(u64); impl Qau { fn mk(v: u64) -> Self { Qau(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qav(CT); impl Qav { fn mk(v: u64) -> Self { Qav(CT::mk(v)) } fn val(&self) -> u64 { self.0.val() } fn set(&mut self, v: u64) { self.0.set(v) } fn norm(v: u64) -> u64 { v } }
#[derive(Clone)] pub struct Qaw(u32); impl Qaw { fn mk(v: u64) -> Self { Qaw(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qax(u16); impl Qax { fn mk(v: u64) -> Self { Qax(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qay(u64); impl Qay { fn mk(v: u64) -> Self { Qay(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qaz(u8); impl Qaz { fn mk(v: u64) -> Self { Qaz(v as u8) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u8 } fn norm(v: u64) -> u64 { (v as u8) as u64 } }
#[derive(Clone)] pub struct Qba(u32); impl Qba { fn mk(v: u64) -> Self { Qba(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qbb(u16); impl Qbb { fn mk(v: u64) -> Self { Qbb(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
#[derive(Clone)] pub struct Qbc(u64); impl Qbc { fn mk(v: u64) -> Self { Qbc(v as u64) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u64 } fn norm(v: u64) -> u64 { (v as u64) as u64 } }
#[derive(Clone)] pub struct Qbd(CT); impl Qbd { fn mk(v: u64) -> Self { Qbd(CT::mk(v)) } fn val(&self) -> u64 { self.0.val() } fn set(&mut self, v: u64) { self.0.set(v) } fn norm(v: u64) -> u64 { v } }
#[derive(Clone)] pub struct Qbe(u32); impl Qbe { fn mk(v: u64) -> Self { Qbe(v as u32) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u32 } fn norm(v: u64) -> u64 { (v as u32) as u64 } }
#[derive(Clone)] pub struct Qbf(u16); impl Qbf { fn mk(v: u64) -> Self { Qbf(v as u16) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as u16 } fn norm(v: u64) -> u64 { (v as u16) as u64 } }
mod w4 { use super::*; ecs_world! { ecs_name!(Wd4); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd4, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "4 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "4 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "4 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "4 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad| vec![qaa.val(), qab.val(), qac.val(), qad.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "4 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "4 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "4 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "4 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "4 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "4 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd4::with_capacity(Wd4Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "4 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "4 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "4 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "4 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "4 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qad| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "4 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
mod w6 { use super::*; ecs_world! { ecs_name!(Wd6); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd6, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "6 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "6 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "6 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "6 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "6 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "6 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "6 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "6 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "6 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "6 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd6::with_capacity(Wd6Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "6 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "6 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "6 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "6 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "6 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qaf| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "6 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
mod w11 { use super::*; ecs_world! { ecs_name!(Wd11); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf, Qag, Qah, Qai, Qaj, Qak); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5), qag: Qag::mk(b + 6), qah: Qah::mk(b + 7), qai: Qai::mk(b + 8), qaj: Qaj::mk(b + 9), qak: Qak::mk(b + 10) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5), Qag::norm(b + 6), Qah::norm(b + 7), Qai::norm(b + 8), Qaj::norm(b + 9), Qak::norm(b + 10)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val(), c.get::<Qag>().val(), c.get::<Qah>().val(), c.get::<Qai>().val(), c.get::<Qaj>().val(), c.get::<Qak>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd11, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "11 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "11 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "11 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "11 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val(), w.wide.get_slice::<Qag>()[i].val(), w.wide.get_slice::<Qah>()[i].val(), w.wide.get_slice::<Qai>()[i].val(), w.wide.get_slice::<Qaj>()[i].val(), w.wide.get_slice::<Qak>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val(), w.wide.get_slice_mut::<Qag>()[i].val(), w.wide.get_slice_mut::<Qah>()[i].val(), w.wide.get_slice_mut::<Qai>()[i].val(), w.wide.get_slice_mut::<Qaj>()[i].val(), w.wide.get_slice_mut::<Qak>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val(), w.wide.borrow_slice::<Qag>()[i].val(), w.wide.borrow_slice::<Qah>()[i].val(), w.wide.borrow_slice::<Qai>()[i].val(), w.wide.borrow_slice::<Qaj>()[i].val(), w.wide.borrow_slice::<Qak>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val(), w.wide.borrow_slice_mut::<Qag>()[i].val(), w.wide.borrow_slice_mut::<Qah>()[i].val(), w.wide.borrow_slice_mut::<Qai>()[i].val(), w.wide.borrow_slice_mut::<Qaj>()[i].val(), w.wide.borrow_slice_mut::<Qak>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val(), s.qag[i].val(), s.qah[i].val(), s.qai[i].val(), s.qaj[i].val(), s.qak[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val(), v.qag.val(), v.qah.val(), v.qai.val(), v.qaj.val(), v.qak.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val(), v.component_mut::<Qag>().val(), v.component_mut::<Qah>().val(), v.component_mut::<Qai>().val(), v.component_mut::<Qaj>().val(), v.component_mut::<Qak>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qak: &mut Qak, qaj: &mut Qaj, qai: &mut Qai, qah: &mut Qah, qag: &mut Qag, qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "11 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "11 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "11 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "11 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "11 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "11 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd11::with_capacity(Wd11Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "11 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "11 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  { let (e, b) = m[6 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qag>().set(b + 6 + 100); v.component_mut::<Qag>().set(b + 6); } }
  { let (e, b) = m[7 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qah>().set(b + 7 + 100); v.component_mut::<Qah>().set(b + 7); } }
  { let (e, b) = m[8 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qai>().set(b + 8 + 100); v.component_mut::<Qai>().set(b + 8); } }
  { let (e, b) = m[9 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaj>().set(b + 9 + 100); v.component_mut::<Qaj>().set(b + 9); } }
  { let (e, b) = m[10 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qak>().set(b + 10 + 100); v.component_mut::<Qak>().set(b + 10); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "11 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "11 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "11 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qak| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "11 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
mod w16 { use super::*; ecs_world! { ecs_name!(Wd16); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf, Qag, Qah, Qai, Qaj, Qak, Qal, Qam, Qan, Qao, Qap); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5), qag: Qag::mk(b + 6), qah: Qah::mk(b + 7), qai: Qai::mk(b + 8), qaj: Qaj::mk(b + 9), qak: Qak::mk(b + 10), qal: Qal::mk(b + 11), qam: Qam::mk(b + 12), qan: Qan::mk(b + 13), qao: Qao::mk(b + 14), qap: Qap::mk(b + 15) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5), Qag::norm(b + 6), Qah::norm(b + 7), Qai::norm(b + 8), Qaj::norm(b + 9), Qak::norm(b + 10), Qal::norm(b + 11), Qam::norm(b + 12), Qan::norm(b + 13), Qao::norm(b + 14), Qap::norm(b + 15)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val(), c.get::<Qag>().val(), c.get::<Qah>().val(), c.get::<Qai>().val(), c.get::<Qaj>().val(), c.get::<Qak>().val(), c.get::<Qal>().val(), c.get::<Qam>().val(), c.get::<Qan>().val(), c.get::<Qao>().val(), c.get::<Qap>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd16, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "16 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "16 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "16 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "16 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val(), w.wide.get_slice::<Qag>()[i].val(), w.wide.get_slice::<Qah>()[i].val(), w.wide.get_slice::<Qai>()[i].val(), w.wide.get_slice::<Qaj>()[i].val(), w.wide.get_slice::<Qak>()[i].val(), w.wide.get_slice::<Qal>()[i].val(), w.wide.get_slice::<Qam>()[i].val(), w.wide.get_slice::<Qan>()[i].val(), w.wide.get_slice::<Qao>()[i].val(), w.wide.get_slice::<Qap>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val(), w.wide.get_slice_mut::<Qag>()[i].val(), w.wide.get_slice_mut::<Qah>()[i].val(), w.wide.get_slice_mut::<Qai>()[i].val(), w.wide.get_slice_mut::<Qaj>()[i].val(), w.wide.get_slice_mut::<Qak>()[i].val(), w.wide.get_slice_mut::<Qal>()[i].val(), w.wide.get_slice_mut::<Qam>()[i].val(), w.wide.get_slice_mut::<Qan>()[i].val(), w.wide.get_slice_mut::<Qao>()[i].val(), w.wide.get_slice_mut::<Qap>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val(), w.wide.borrow_slice::<Qag>()[i].val(), w.wide.borrow_slice::<Qah>()[i].val(), w.wide.borrow_slice::<Qai>()[i].val(), w.wide.borrow_slice::<Qaj>()[i].val(), w.wide.borrow_slice::<Qak>()[i].val(), w.wide.borrow_slice::<Qal>()[i].val(), w.wide.borrow_slice::<Qam>()[i].val(), w.wide.borrow_slice::<Qan>()[i].val(), w.wide.borrow_slice::<Qao>()[i].val(), w.wide.borrow_slice::<Qap>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val(), w.wide.borrow_slice_mut::<Qag>()[i].val(), w.wide.borrow_slice_mut::<Qah>()[i].val(), w.wide.borrow_slice_mut::<Qai>()[i].val(), w.wide.borrow_slice_mut::<Qaj>()[i].val(), w.wide.borrow_slice_mut::<Qak>()[i].val(), w.wide.borrow_slice_mut::<Qal>()[i].val(), w.wide.borrow_slice_mut::<Qam>()[i].val(), w.wide.borrow_slice_mut::<Qan>()[i].val(), w.wide.borrow_slice_mut::<Qao>()[i].val(), w.wide.borrow_slice_mut::<Qap>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val(), s.qag[i].val(), s.qah[i].val(), s.qai[i].val(), s.qaj[i].val(), s.qak[i].val(), s.qal[i].val(), s.qam[i].val(), s.qan[i].val(), s.qao[i].val(), s.qap[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val(), v.qag.val(), v.qah.val(), v.qai.val(), v.qaj.val(), v.qak.val(), v.qal.val(), v.qam.val(), v.qan.val(), v.qao.val(), v.qap.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val(), v.component_mut::<Qag>().val(), v.component_mut::<Qah>().val(), v.component_mut::<Qai>().val(), v.component_mut::<Qaj>().val(), v.component_mut::<Qak>().val(), v.component_mut::<Qal>().val(), v.component_mut::<Qam>().val(), v.component_mut::<Qan>().val(), v.component_mut::<Qao>().val(), v.component_mut::<Qap>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qap: &mut Qap, qao: &mut Qao, qan: &mut Qan, qam: &mut Qam, qal: &mut Qal, qak: &mut Qak, qaj: &mut Qaj, qai: &mut Qai, qah: &mut Qah, qag: &mut Qag, qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "16 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "16 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "16 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "16 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "16 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "16 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd16::with_capacity(Wd16Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "16 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "16 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  { let (e, b) = m[6 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qag>().set(b + 6 + 100); v.component_mut::<Qag>().set(b + 6); } }
  { let (e, b) = m[7 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qah>().set(b + 7 + 100); v.component_mut::<Qah>().set(b + 7); } }
  { let (e, b) = m[8 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qai>().set(b + 8 + 100); v.component_mut::<Qai>().set(b + 8); } }
  { let (e, b) = m[9 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaj>().set(b + 9 + 100); v.component_mut::<Qaj>().set(b + 9); } }
  { let (e, b) = m[10 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qak>().set(b + 10 + 100); v.component_mut::<Qak>().set(b + 10); } }
  { let (e, b) = m[11 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qal>().set(b + 11 + 100); v.component_mut::<Qal>().set(b + 11); } }
  { let (e, b) = m[12 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qam>().set(b + 12 + 100); v.component_mut::<Qam>().set(b + 12); } }
  { let (e, b) = m[13 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qan>().set(b + 13 + 100); v.component_mut::<Qan>().set(b + 13); } }
  { let (e, b) = m[14 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qao>().set(b + 14 + 100); v.component_mut::<Qao>().set(b + 14); } }
  { let (e, b) = m[15 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qap>().set(b + 15 + 100); v.component_mut::<Qap>().set(b + 15); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "16 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "16 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "16 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qap| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "16 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
#[cfg(feature = "32_components")] mod w17 { use super::*; ecs_world! { ecs_name!(Wd17); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf, Qag, Qah, Qai, Qaj, Qak, Qal, Qam, Qan, Qao, Qap, Qaq); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5), qag: Qag::mk(b + 6), qah: Qah::mk(b + 7), qai: Qai::mk(b + 8), qaj: Qaj::mk(b + 9), qak: Qak::mk(b + 10), qal: Qal::mk(b + 11), qam: Qam::mk(b + 12), qan: Qan::mk(b + 13), qao: Qao::mk(b + 14), qap: Qap::mk(b + 15), qaq: Qaq::mk(b + 16) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5), Qag::norm(b + 6), Qah::norm(b + 7), Qai::norm(b + 8), Qaj::norm(b + 9), Qak::norm(b + 10), Qal::norm(b + 11), Qam::norm(b + 12), Qan::norm(b + 13), Qao::norm(b + 14), Qap::norm(b + 15), Qaq::norm(b + 16)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val(), c.get::<Qag>().val(), c.get::<Qah>().val(), c.get::<Qai>().val(), c.get::<Qaj>().val(), c.get::<Qak>().val(), c.get::<Qal>().val(), c.get::<Qam>().val(), c.get::<Qan>().val(), c.get::<Qao>().val(), c.get::<Qap>().val(), c.get::<Qaq>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd17, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "17 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "17 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "17 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "17 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val(), w.wide.get_slice::<Qag>()[i].val(), w.wide.get_slice::<Qah>()[i].val(), w.wide.get_slice::<Qai>()[i].val(), w.wide.get_slice::<Qaj>()[i].val(), w.wide.get_slice::<Qak>()[i].val(), w.wide.get_slice::<Qal>()[i].val(), w.wide.get_slice::<Qam>()[i].val(), w.wide.get_slice::<Qan>()[i].val(), w.wide.get_slice::<Qao>()[i].val(), w.wide.get_slice::<Qap>()[i].val(), w.wide.get_slice::<Qaq>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val(), w.wide.get_slice_mut::<Qag>()[i].val(), w.wide.get_slice_mut::<Qah>()[i].val(), w.wide.get_slice_mut::<Qai>()[i].val(), w.wide.get_slice_mut::<Qaj>()[i].val(), w.wide.get_slice_mut::<Qak>()[i].val(), w.wide.get_slice_mut::<Qal>()[i].val(), w.wide.get_slice_mut::<Qam>()[i].val(), w.wide.get_slice_mut::<Qan>()[i].val(), w.wide.get_slice_mut::<Qao>()[i].val(), w.wide.get_slice_mut::<Qap>()[i].val(), w.wide.get_slice_mut::<Qaq>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val(), w.wide.borrow_slice::<Qag>()[i].val(), w.wide.borrow_slice::<Qah>()[i].val(), w.wide.borrow_slice::<Qai>()[i].val(), w.wide.borrow_slice::<Qaj>()[i].val(), w.wide.borrow_slice::<Qak>()[i].val(), w.wide.borrow_slice::<Qal>()[i].val(), w.wide.borrow_slice::<Qam>()[i].val(), w.wide.borrow_slice::<Qan>()[i].val(), w.wide.borrow_slice::<Qao>()[i].val(), w.wide.borrow_slice::<Qap>()[i].val(), w.wide.borrow_slice::<Qaq>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val(), w.wide.borrow_slice_mut::<Qag>()[i].val(), w.wide.borrow_slice_mut::<Qah>()[i].val(), w.wide.borrow_slice_mut::<Qai>()[i].val(), w.wide.borrow_slice_mut::<Qaj>()[i].val(), w.wide.borrow_slice_mut::<Qak>()[i].val(), w.wide.borrow_slice_mut::<Qal>()[i].val(), w.wide.borrow_slice_mut::<Qam>()[i].val(), w.wide.borrow_slice_mut::<Qan>()[i].val(), w.wide.borrow_slice_mut::<Qao>()[i].val(), w.wide.borrow_slice_mut::<Qap>()[i].val(), w.wide.borrow_slice_mut::<Qaq>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val(), s.qag[i].val(), s.qah[i].val(), s.qai[i].val(), s.qaj[i].val(), s.qak[i].val(), s.qal[i].val(), s.qam[i].val(), s.qan[i].val(), s.qao[i].val(), s.qap[i].val(), s.qaq[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val(), v.qag.val(), v.qah.val(), v.qai.val(), v.qaj.val(), v.qak.val(), v.qal.val(), v.qam.val(), v.qan.val(), v.qao.val(), v.qap.val(), v.qaq.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val(), v.component_mut::<Qag>().val(), v.component_mut::<Qah>().val(), v.component_mut::<Qai>().val(), v.component_mut::<Qaj>().val(), v.component_mut::<Qak>().val(), v.component_mut::<Qal>().val(), v.component_mut::<Qam>().val(), v.component_mut::<Qan>().val(), v.component_mut::<Qao>().val(), v.component_mut::<Qap>().val(), v.component_mut::<Qaq>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qaq: &mut Qaq, qap: &mut Qap, qao: &mut Qao, qan: &mut Qan, qam: &mut Qam, qal: &mut Qal, qak: &mut Qak, qaj: &mut Qaj, qai: &mut Qai, qah: &mut Qah, qag: &mut Qag, qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "17 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "17 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "17 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "17 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "17 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "17 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd17::with_capacity(Wd17Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "17 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "17 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  { let (e, b) = m[6 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qag>().set(b + 6 + 100); v.component_mut::<Qag>().set(b + 6); } }
  { let (e, b) = m[7 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qah>().set(b + 7 + 100); v.component_mut::<Qah>().set(b + 7); } }
  { let (e, b) = m[8 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qai>().set(b + 8 + 100); v.component_mut::<Qai>().set(b + 8); } }
  { let (e, b) = m[9 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaj>().set(b + 9 + 100); v.component_mut::<Qaj>().set(b + 9); } }
  { let (e, b) = m[10 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qak>().set(b + 10 + 100); v.component_mut::<Qak>().set(b + 10); } }
  { let (e, b) = m[11 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qal>().set(b + 11 + 100); v.component_mut::<Qal>().set(b + 11); } }
  { let (e, b) = m[12 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qam>().set(b + 12 + 100); v.component_mut::<Qam>().set(b + 12); } }
  { let (e, b) = m[13 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qan>().set(b + 13 + 100); v.component_mut::<Qan>().set(b + 13); } }
  { let (e, b) = m[14 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qao>().set(b + 14 + 100); v.component_mut::<Qao>().set(b + 14); } }
  { let (e, b) = m[15 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qap>().set(b + 15 + 100); v.component_mut::<Qap>().set(b + 15); } }
  { let (e, b) = m[16 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaq>().set(b + 16 + 100); v.component_mut::<Qaq>().set(b + 16); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "17 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "17 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "17 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qaq| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "17 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
#[cfg(feature = "32_components")] mod w25 { use super::*; ecs_world! { ecs_name!(Wd25); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf, Qag, Qah, Qai, Qaj, Qak, Qal, Qam, Qan, Qao, Qap, Qaq, Qar, Qas, Qat, Qau, Qav, Qaw, Qax, Qay); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5), qag: Qag::mk(b + 6), qah: Qah::mk(b + 7), qai: Qai::mk(b + 8), qaj: Qaj::mk(b + 9), qak: Qak::mk(b + 10), qal: Qal::mk(b + 11), qam: Qam::mk(b + 12), qan: Qan::mk(b + 13), qao: Qao::mk(b + 14), qap: Qap::mk(b + 15), qaq: Qaq::mk(b + 16), qar: Qar::mk(b + 17), qas: Qas::mk(b + 18), qat: Qat::mk(b + 19), qau: Qau::mk(b + 20), qav: Qav::mk(b + 21), qaw: Qaw::mk(b + 22), qax: Qax::mk(b + 23), qay: Qay::mk(b + 24) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5), Qag::norm(b + 6), Qah::norm(b + 7), Qai::norm(b + 8), Qaj::norm(b + 9), Qak::norm(b + 10), Qal::norm(b + 11), Qam::norm(b + 12), Qan::norm(b + 13), Qao::norm(b + 14), Qap::norm(b + 15), Qaq::norm(b + 16), Qar::norm(b + 17), Qas::norm(b + 18), Qat::norm(b + 19), Qau::norm(b + 20), Qav::norm(b + 21), Qaw::norm(b + 22), Qax::norm(b + 23), Qay::norm(b + 24)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val(), c.get::<Qag>().val(), c.get::<Qah>().val(), c.get::<Qai>().val(), c.get::<Qaj>().val(), c.get::<Qak>().val(), c.get::<Qal>().val(), c.get::<Qam>().val(), c.get::<Qan>().val(), c.get::<Qao>().val(), c.get::<Qap>().val(), c.get::<Qaq>().val(), c.get::<Qar>().val(), c.get::<Qas>().val(), c.get::<Qat>().val(), c.get::<Qau>().val(), c.get::<Qav>().val(), c.get::<Qaw>().val(), c.get::<Qax>().val(), c.get::<Qay>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd25, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "25 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "25 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "25 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "25 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val(), w.wide.get_slice::<Qag>()[i].val(), w.wide.get_slice::<Qah>()[i].val(), w.wide.get_slice::<Qai>()[i].val(), w.wide.get_slice::<Qaj>()[i].val(), w.wide.get_slice::<Qak>()[i].val(), w.wide.get_slice::<Qal>()[i].val(), w.wide.get_slice::<Qam>()[i].val(), w.wide.get_slice::<Qan>()[i].val(), w.wide.get_slice::<Qao>()[i].val(), w.wide.get_slice::<Qap>()[i].val(), w.wide.get_slice::<Qaq>()[i].val(), w.wide.get_slice::<Qar>()[i].val(), w.wide.get_slice::<Qas>()[i].val(), w.wide.get_slice::<Qat>()[i].val(), w.wide.get_slice::<Qau>()[i].val(), w.wide.get_slice::<Qav>()[i].val(), w.wide.get_slice::<Qaw>()[i].val(), w.wide.get_slice::<Qax>()[i].val(), w.wide.get_slice::<Qay>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val(), w.wide.get_slice_mut::<Qag>()[i].val(), w.wide.get_slice_mut::<Qah>()[i].val(), w.wide.get_slice_mut::<Qai>()[i].val(), w.wide.get_slice_mut::<Qaj>()[i].val(), w.wide.get_slice_mut::<Qak>()[i].val(), w.wide.get_slice_mut::<Qal>()[i].val(), w.wide.get_slice_mut::<Qam>()[i].val(), w.wide.get_slice_mut::<Qan>()[i].val(), w.wide.get_slice_mut::<Qao>()[i].val(), w.wide.get_slice_mut::<Qap>()[i].val(), w.wide.get_slice_mut::<Qaq>()[i].val(), w.wide.get_slice_mut::<Qar>()[i].val(), w.wide.get_slice_mut::<Qas>()[i].val(), w.wide.get_slice_mut::<Qat>()[i].val(), w.wide.get_slice_mut::<Qau>()[i].val(), w.wide.get_slice_mut::<Qav>()[i].val(), w.wide.get_slice_mut::<Qaw>()[i].val(), w.wide.get_slice_mut::<Qax>()[i].val(), w.wide.get_slice_mut::<Qay>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val(), w.wide.borrow_slice::<Qag>()[i].val(), w.wide.borrow_slice::<Qah>()[i].val(), w.wide.borrow_slice::<Qai>()[i].val(), w.wide.borrow_slice::<Qaj>()[i].val(), w.wide.borrow_slice::<Qak>()[i].val(), w.wide.borrow_slice::<Qal>()[i].val(), w.wide.borrow_slice::<Qam>()[i].val(), w.wide.borrow_slice::<Qan>()[i].val(), w.wide.borrow_slice::<Qao>()[i].val(), w.wide.borrow_slice::<Qap>()[i].val(), w.wide.borrow_slice::<Qaq>()[i].val(), w.wide.borrow_slice::<Qar>()[i].val(), w.wide.borrow_slice::<Qas>()[i].val(), w.wide.borrow_slice::<Qat>()[i].val(), w.wide.borrow_slice::<Qau>()[i].val(), w.wide.borrow_slice::<Qav>()[i].val(), w.wide.borrow_slice::<Qaw>()[i].val(), w.wide.borrow_slice::<Qax>()[i].val(), w.wide.borrow_slice::<Qay>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val(), w.wide.borrow_slice_mut::<Qag>()[i].val(), w.wide.borrow_slice_mut::<Qah>()[i].val(), w.wide.borrow_slice_mut::<Qai>()[i].val(), w.wide.borrow_slice_mut::<Qaj>()[i].val(), w.wide.borrow_slice_mut::<Qak>()[i].val(), w.wide.borrow_slice_mut::<Qal>()[i].val(), w.wide.borrow_slice_mut::<Qam>()[i].val(), w.wide.borrow_slice_mut::<Qan>()[i].val(), w.wide.borrow_slice_mut::<Qao>()[i].val(), w.wide.borrow_slice_mut::<Qap>()[i].val(), w.wide.borrow_slice_mut::<Qaq>()[i].val(), w.wide.borrow_slice_mut::<Qar>()[i].val(), w.wide.borrow_slice_mut::<Qas>()[i].val(), w.wide.borrow_slice_mut::<Qat>()[i].val(), w.wide.borrow_slice_mut::<Qau>()[i].val(), w.wide.borrow_slice_mut::<Qav>()[i].val(), w.wide.borrow_slice_mut::<Qaw>()[i].val(), w.wide.borrow_slice_mut::<Qax>()[i].val(), w.wide.borrow_slice_mut::<Qay>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val(), s.qag[i].val(), s.qah[i].val(), s.qai[i].val(), s.qaj[i].val(), s.qak[i].val(), s.qal[i].val(), s.qam[i].val(), s.qan[i].val(), s.qao[i].val(), s.qap[i].val(), s.qaq[i].val(), s.qar[i].val(), s.qas[i].val(), s.qat[i].val(), s.qau[i].val(), s.qav[i].val(), s.qaw[i].val(), s.qax[i].val(), s.qay[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val(), v.component::<Qar>().val(), v.component::<Qas>().val(), v.component::<Qat>().val(), v.component::<Qau>().val(), v.component::<Qav>().val(), v.component::<Qaw>().val(), v.component::<Qax>().val(), v.component::<Qay>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val(), v.qag.val(), v.qah.val(), v.qai.val(), v.qaj.val(), v.qak.val(), v.qal.val(), v.qam.val(), v.qan.val(), v.qao.val(), v.qap.val(), v.qaq.val(), v.qar.val(), v.qas.val(), v.qat.val(), v.qau.val(), v.qav.val(), v.qaw.val(), v.qax.val(), v.qay.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val(), v.component::<Qar>().val(), v.component::<Qas>().val(), v.component::<Qat>().val(), v.component::<Qau>().val(), v.component::<Qav>().val(), v.component::<Qaw>().val(), v.component::<Qax>().val(), v.component::<Qay>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val(), v.component_mut::<Qag>().val(), v.component_mut::<Qah>().val(), v.component_mut::<Qai>().val(), v.component_mut::<Qaj>().val(), v.component_mut::<Qak>().val(), v.component_mut::<Qal>().val(), v.component_mut::<Qam>().val(), v.component_mut::<Qan>().val(), v.component_mut::<Qao>().val(), v.component_mut::<Qap>().val(), v.component_mut::<Qaq>().val(), v.component_mut::<Qar>().val(), v.component_mut::<Qas>().val(), v.component_mut::<Qat>().val(), v.component_mut::<Qau>().val(), v.component_mut::<Qav>().val(), v.component_mut::<Qaw>().val(), v.component_mut::<Qax>().val(), v.component_mut::<Qay>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qay: &mut Qay, qax: &mut Qax, qaw: &mut Qaw, qav: &mut Qav, qau: &mut Qau, qat: &mut Qat, qas: &mut Qas, qar: &mut Qar, qaq: &mut Qaq, qap: &mut Qap, qao: &mut Qao, qan: &mut Qan, qam: &mut Qam, qal: &mut Qal, qak: &mut Qak, qaj: &mut Qaj, qai: &mut Qai, qah: &mut Qah, qag: &mut Qag, qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "25 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq, qar, qas, qat, qau, qav, qaw, qax, qay)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "25 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq, qar, qas, qat, qau, qav, qaw, qax, qay)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "25 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "25 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "25 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "25 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd25::with_capacity(Wd25Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "25 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "25 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  { let (e, b) = m[6 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qag>().set(b + 6 + 100); v.component_mut::<Qag>().set(b + 6); } }
  { let (e, b) = m[7 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qah>().set(b + 7 + 100); v.component_mut::<Qah>().set(b + 7); } }
  { let (e, b) = m[8 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qai>().set(b + 8 + 100); v.component_mut::<Qai>().set(b + 8); } }
  { let (e, b) = m[9 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaj>().set(b + 9 + 100); v.component_mut::<Qaj>().set(b + 9); } }
  { let (e, b) = m[10 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qak>().set(b + 10 + 100); v.component_mut::<Qak>().set(b + 10); } }
  { let (e, b) = m[11 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qal>().set(b + 11 + 100); v.component_mut::<Qal>().set(b + 11); } }
  { let (e, b) = m[12 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qam>().set(b + 12 + 100); v.component_mut::<Qam>().set(b + 12); } }
  { let (e, b) = m[13 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qan>().set(b + 13 + 100); v.component_mut::<Qan>().set(b + 13); } }
  { let (e, b) = m[14 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qao>().set(b + 14 + 100); v.component_mut::<Qao>().set(b + 14); } }
  { let (e, b) = m[15 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qap>().set(b + 15 + 100); v.component_mut::<Qap>().set(b + 15); } }
  { let (e, b) = m[16 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaq>().set(b + 16 + 100); v.component_mut::<Qaq>().set(b + 16); } }
  { let (e, b) = m[17 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qar>().set(b + 17 + 100); v.component_mut::<Qar>().set(b + 17); } }
  { let (e, b) = m[18 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qas>().set(b + 18 + 100); v.component_mut::<Qas>().set(b + 18); } }
  { let (e, b) = m[19 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qat>().set(b + 19 + 100); v.component_mut::<Qat>().set(b + 19); } }
  { let (e, b) = m[20 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qau>().set(b + 20 + 100); v.component_mut::<Qau>().set(b + 20); } }
  { let (e, b) = m[21 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qav>().set(b + 21 + 100); v.component_mut::<Qav>().set(b + 21); } }
  { let (e, b) = m[22 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaw>().set(b + 22 + 100); v.component_mut::<Qaw>().set(b + 22); } }
  { let (e, b) = m[23 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qax>().set(b + 23 + 100); v.component_mut::<Qax>().set(b + 23); } }
  { let (e, b) = m[24 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qay>().set(b + 24 + 100); v.component_mut::<Qay>().set(b + 24); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "25 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "25 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "25 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qay| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "25 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
#[cfg(feature = "32_components")] mod w32 { use super::*; ecs_world! { ecs_name!(Wd32); ecs_archetype!(Wide, Qaa, Qab, Qac, Qad, Qae, Qaf, Qag, Qah, Qai, Qaj, Qak, Qal, Qam, Qan, Qao, Qap, Qaq, Qar, Qas, Qat, Qau, Qav, Qaw, Qax, Qay, Qaz, Qba, Qbb, Qbc, Qbd, Qbe, Qbf); ecs_archetype!(Other, Qaa, Qac); }
fn mk(b: u64) -> WideComponents { WideComponents { qaa: Qaa::mk(b + 0), qab: Qab::mk(b + 1), qac: Qac::mk(b + 2), qad: Qad::mk(b + 3), qae: Qae::mk(b + 4), qaf: Qaf::mk(b + 5), qag: Qag::mk(b + 6), qah: Qah::mk(b + 7), qai: Qai::mk(b + 8), qaj: Qaj::mk(b + 9), qak: Qak::mk(b + 10), qal: Qal::mk(b + 11), qam: Qam::mk(b + 12), qan: Qan::mk(b + 13), qao: Qao::mk(b + 14), qap: Qap::mk(b + 15), qaq: Qaq::mk(b + 16), qar: Qar::mk(b + 17), qas: Qas::mk(b + 18), qat: Qat::mk(b + 19), qau: Qau::mk(b + 20), qav: Qav::mk(b + 21), qaw: Qaw::mk(b + 22), qax: Qax::mk(b + 23), qay: Qay::mk(b + 24), qaz: Qaz::mk(b + 25), qba: Qba::mk(b + 26), qbb: Qbb::mk(b + 27), qbc: Qbc::mk(b + 28), qbd: Qbd::mk(b + 29), qbe: Qbe::mk(b + 30), qbf: Qbf::mk(b + 31) } }
fn norm(b: u64) -> Vec<u64> { vec![Qaa::norm(b + 0), Qab::norm(b + 1), Qac::norm(b + 2), Qad::norm(b + 3), Qae::norm(b + 4), Qaf::norm(b + 5), Qag::norm(b + 6), Qah::norm(b + 7), Qai::norm(b + 8), Qaj::norm(b + 9), Qak::norm(b + 10), Qal::norm(b + 11), Qam::norm(b + 12), Qan::norm(b + 13), Qao::norm(b + 14), Qap::norm(b + 15), Qaq::norm(b + 16), Qar::norm(b + 17), Qas::norm(b + 18), Qat::norm(b + 19), Qau::norm(b + 20), Qav::norm(b + 21), Qaw::norm(b + 22), Qax::norm(b + 23), Qay::norm(b + 24), Qaz::norm(b + 25), Qba::norm(b + 26), Qbb::norm(b + 27), Qbc::norm(b + 28), Qbd::norm(b + 29), Qbe::norm(b + 30), Qbf::norm(b + 31)] }
fn vals(c: &WideComponents) -> Vec<u64> { vec![c.get::<Qaa>().val(), c.get::<Qab>().val(), c.get::<Qac>().val(), c.get::<Qad>().val(), c.get::<Qae>().val(), c.get::<Qaf>().val(), c.get::<Qag>().val(), c.get::<Qah>().val(), c.get::<Qai>().val(), c.get::<Qaj>().val(), c.get::<Qak>().val(), c.get::<Qal>().val(), c.get::<Qam>().val(), c.get::<Qan>().val(), c.get::<Qao>().val(), c.get::<Qap>().val(), c.get::<Qaq>().val(), c.get::<Qar>().val(), c.get::<Qas>().val(), c.get::<Qat>().val(), c.get::<Qau>().val(), c.get::<Qav>().val(), c.get::<Qaw>().val(), c.get::<Qax>().val(), c.get::<Qay>().val(), c.get::<Qaz>().val(), c.get::<Qba>().val(), c.get::<Qbb>().val(), c.get::<Qbc>().val(), c.get::<Qbd>().val(), c.get::<Qbe>().val(), c.get::<Qbf>().val()] }
fn all(o: &mut Vec<Fail>, w: &mut Wd32, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {
  if w.wide.len() != m.len() { f!(o, "C12 C19", "32 components, {what}: len {} of {}", w.wide.len(), m.len()); return; }
  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, "C01 C19", "32 components, {what}: dead {e:?} accepted"); } }
  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, "C01 C19 C13", "32 components, {what}: {e:?} refused"); return };
    if w.wide.entities()[i] != *e { f!(o, "C06 C02 C19", "32 components, {what}: entities()[{i}] is not {e:?}"); }
    let got: Vec<u64> = vec![w.wide.get_slice::<Qaa>()[i].val(), w.wide.get_slice::<Qab>()[i].val(), w.wide.get_slice::<Qac>()[i].val(), w.wide.get_slice::<Qad>()[i].val(), w.wide.get_slice::<Qae>()[i].val(), w.wide.get_slice::<Qaf>()[i].val(), w.wide.get_slice::<Qag>()[i].val(), w.wide.get_slice::<Qah>()[i].val(), w.wide.get_slice::<Qai>()[i].val(), w.wide.get_slice::<Qaj>()[i].val(), w.wide.get_slice::<Qak>()[i].val(), w.wide.get_slice::<Qal>()[i].val(), w.wide.get_slice::<Qam>()[i].val(), w.wide.get_slice::<Qan>()[i].val(), w.wide.get_slice::<Qao>()[i].val(), w.wide.get_slice::<Qap>()[i].val(), w.wide.get_slice::<Qaq>()[i].val(), w.wide.get_slice::<Qar>()[i].val(), w.wide.get_slice::<Qas>()[i].val(), w.wide.get_slice::<Qat>()[i].val(), w.wide.get_slice::<Qau>()[i].val(), w.wide.get_slice::<Qav>()[i].val(), w.wide.get_slice::<Qaw>()[i].val(), w.wide.get_slice::<Qax>()[i].val(), w.wide.get_slice::<Qay>()[i].val(), w.wide.get_slice::<Qaz>()[i].val(), w.wide.get_slice::<Qba>()[i].val(), w.wide.get_slice::<Qbb>()[i].val(), w.wide.get_slice::<Qbc>()[i].val(), w.wide.get_slice::<Qbd>()[i].val(), w.wide.get_slice::<Qbe>()[i].val(), w.wide.get_slice::<Qbf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: get_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.get_slice_mut::<Qaa>()[i].val(), w.wide.get_slice_mut::<Qab>()[i].val(), w.wide.get_slice_mut::<Qac>()[i].val(), w.wide.get_slice_mut::<Qad>()[i].val(), w.wide.get_slice_mut::<Qae>()[i].val(), w.wide.get_slice_mut::<Qaf>()[i].val(), w.wide.get_slice_mut::<Qag>()[i].val(), w.wide.get_slice_mut::<Qah>()[i].val(), w.wide.get_slice_mut::<Qai>()[i].val(), w.wide.get_slice_mut::<Qaj>()[i].val(), w.wide.get_slice_mut::<Qak>()[i].val(), w.wide.get_slice_mut::<Qal>()[i].val(), w.wide.get_slice_mut::<Qam>()[i].val(), w.wide.get_slice_mut::<Qan>()[i].val(), w.wide.get_slice_mut::<Qao>()[i].val(), w.wide.get_slice_mut::<Qap>()[i].val(), w.wide.get_slice_mut::<Qaq>()[i].val(), w.wide.get_slice_mut::<Qar>()[i].val(), w.wide.get_slice_mut::<Qas>()[i].val(), w.wide.get_slice_mut::<Qat>()[i].val(), w.wide.get_slice_mut::<Qau>()[i].val(), w.wide.get_slice_mut::<Qav>()[i].val(), w.wide.get_slice_mut::<Qaw>()[i].val(), w.wide.get_slice_mut::<Qax>()[i].val(), w.wide.get_slice_mut::<Qay>()[i].val(), w.wide.get_slice_mut::<Qaz>()[i].val(), w.wide.get_slice_mut::<Qba>()[i].val(), w.wide.get_slice_mut::<Qbb>()[i].val(), w.wide.get_slice_mut::<Qbc>()[i].val(), w.wide.get_slice_mut::<Qbd>()[i].val(), w.wide.get_slice_mut::<Qbe>()[i].val(), w.wide.get_slice_mut::<Qbf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: get_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice::<Qaa>()[i].val(), w.wide.borrow_slice::<Qab>()[i].val(), w.wide.borrow_slice::<Qac>()[i].val(), w.wide.borrow_slice::<Qad>()[i].val(), w.wide.borrow_slice::<Qae>()[i].val(), w.wide.borrow_slice::<Qaf>()[i].val(), w.wide.borrow_slice::<Qag>()[i].val(), w.wide.borrow_slice::<Qah>()[i].val(), w.wide.borrow_slice::<Qai>()[i].val(), w.wide.borrow_slice::<Qaj>()[i].val(), w.wide.borrow_slice::<Qak>()[i].val(), w.wide.borrow_slice::<Qal>()[i].val(), w.wide.borrow_slice::<Qam>()[i].val(), w.wide.borrow_slice::<Qan>()[i].val(), w.wide.borrow_slice::<Qao>()[i].val(), w.wide.borrow_slice::<Qap>()[i].val(), w.wide.borrow_slice::<Qaq>()[i].val(), w.wide.borrow_slice::<Qar>()[i].val(), w.wide.borrow_slice::<Qas>()[i].val(), w.wide.borrow_slice::<Qat>()[i].val(), w.wide.borrow_slice::<Qau>()[i].val(), w.wide.borrow_slice::<Qav>()[i].val(), w.wide.borrow_slice::<Qaw>()[i].val(), w.wide.borrow_slice::<Qax>()[i].val(), w.wide.borrow_slice::<Qay>()[i].val(), w.wide.borrow_slice::<Qaz>()[i].val(), w.wide.borrow_slice::<Qba>()[i].val(), w.wide.borrow_slice::<Qbb>()[i].val(), w.wide.borrow_slice::<Qbc>()[i].val(), w.wide.borrow_slice::<Qbd>()[i].val(), w.wide.borrow_slice::<Qbe>()[i].val(), w.wide.borrow_slice::<Qbf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: borrow_slice of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = vec![w.wide.borrow_slice_mut::<Qaa>()[i].val(), w.wide.borrow_slice_mut::<Qab>()[i].val(), w.wide.borrow_slice_mut::<Qac>()[i].val(), w.wide.borrow_slice_mut::<Qad>()[i].val(), w.wide.borrow_slice_mut::<Qae>()[i].val(), w.wide.borrow_slice_mut::<Qaf>()[i].val(), w.wide.borrow_slice_mut::<Qag>()[i].val(), w.wide.borrow_slice_mut::<Qah>()[i].val(), w.wide.borrow_slice_mut::<Qai>()[i].val(), w.wide.borrow_slice_mut::<Qaj>()[i].val(), w.wide.borrow_slice_mut::<Qak>()[i].val(), w.wide.borrow_slice_mut::<Qal>()[i].val(), w.wide.borrow_slice_mut::<Qam>()[i].val(), w.wide.borrow_slice_mut::<Qan>()[i].val(), w.wide.borrow_slice_mut::<Qao>()[i].val(), w.wide.borrow_slice_mut::<Qap>()[i].val(), w.wide.borrow_slice_mut::<Qaq>()[i].val(), w.wide.borrow_slice_mut::<Qar>()[i].val(), w.wide.borrow_slice_mut::<Qas>()[i].val(), w.wide.borrow_slice_mut::<Qat>()[i].val(), w.wide.borrow_slice_mut::<Qau>()[i].val(), w.wide.borrow_slice_mut::<Qav>()[i].val(), w.wide.borrow_slice_mut::<Qaw>()[i].val(), w.wide.borrow_slice_mut::<Qax>()[i].val(), w.wide.borrow_slice_mut::<Qay>()[i].val(), w.wide.borrow_slice_mut::<Qaz>()[i].val(), w.wide.borrow_slice_mut::<Qba>()[i].val(), w.wide.borrow_slice_mut::<Qbb>()[i].val(), w.wide.borrow_slice_mut::<Qbc>()[i].val(), w.wide.borrow_slice_mut::<Qbd>()[i].val(), w.wide.borrow_slice_mut::<Qbe>()[i].val(), w.wide.borrow_slice_mut::<Qbf>()[i].val()]; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: borrow_slice_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let s = w.wide.get_all_slices_mut(); vec![s.qaa[i].val(), s.qab[i].val(), s.qac[i].val(), s.qad[i].val(), s.qae[i].val(), s.qaf[i].val(), s.qag[i].val(), s.qah[i].val(), s.qai[i].val(), s.qaj[i].val(), s.qak[i].val(), s.qal[i].val(), s.qam[i].val(), s.qan[i].val(), s.qao[i].val(), s.qap[i].val(), s.qaq[i].val(), s.qar[i].val(), s.qas[i].val(), s.qat[i].val(), s.qau[i].val(), s.qav[i].val(), s.qaw[i].val(), s.qax[i].val(), s.qay[i].val(), s.qaz[i].val(), s.qba[i].val(), s.qbb[i].val(), s.qbc[i].val(), s.qbd[i].val(), s.qbe[i].val(), s.qbf[i].val()] }; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: get_all_slices_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.view(*e).unwrap(); vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val(), v.component::<Qar>().val(), v.component::<Qas>().val(), v.component::<Qat>().val(), v.component::<Qau>().val(), v.component::<Qav>().val(), v.component::<Qaw>().val(), v.component::<Qax>().val(), v.component::<Qay>().val(), v.component::<Qaz>().val(), v.component::<Qba>().val(), v.component::<Qbb>().val(), v.component::<Qbc>().val(), v.component::<Qbd>().val(), v.component::<Qbe>().val(), v.component::<Qbf>().val()] }; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: view of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.wide.view(*e).unwrap(); vec![v.qaa.val(), v.qab.val(), v.qac.val(), v.qad.val(), v.qae.val(), v.qaf.val(), v.qag.val(), v.qah.val(), v.qai.val(), v.qaj.val(), v.qak.val(), v.qal.val(), v.qam.val(), v.qan.val(), v.qao.val(), v.qap.val(), v.qaq.val(), v.qar.val(), v.qas.val(), v.qat.val(), v.qau.val(), v.qav.val(), v.qaw.val(), v.qax.val(), v.qay.val(), v.qaz.val(), v.qba.val(), v.qbb.val(), v.qbc.val(), v.qbd.val(), v.qbe.val(), v.qbf.val()] }; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: view fields of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component::<Qaa>().val(), v.component::<Qab>().val(), v.component::<Qac>().val(), v.component::<Qad>().val(), v.component::<Qae>().val(), v.component::<Qaf>().val(), v.component::<Qag>().val(), v.component::<Qah>().val(), v.component::<Qai>().val(), v.component::<Qaj>().val(), v.component::<Qak>().val(), v.component::<Qal>().val(), v.component::<Qam>().val(), v.component::<Qan>().val(), v.component::<Qao>().val(), v.component::<Qap>().val(), v.component::<Qaq>().val(), v.component::<Qar>().val(), v.component::<Qas>().val(), v.component::<Qat>().val(), v.component::<Qau>().val(), v.component::<Qav>().val(), v.component::<Qaw>().val(), v.component::<Qax>().val(), v.component::<Qay>().val(), v.component::<Qaz>().val(), v.component::<Qba>().val(), v.component::<Qbb>().val(), v.component::<Qbc>().val(), v.component::<Qbd>().val(), v.component::<Qbe>().val(), v.component::<Qbf>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = { let v = w.borrow(*e).unwrap(); let r = vec![v.component_mut::<Qaa>().val(), v.component_mut::<Qab>().val(), v.component_mut::<Qac>().val(), v.component_mut::<Qad>().val(), v.component_mut::<Qae>().val(), v.component_mut::<Qaf>().val(), v.component_mut::<Qag>().val(), v.component_mut::<Qah>().val(), v.component_mut::<Qai>().val(), v.component_mut::<Qaj>().val(), v.component_mut::<Qak>().val(), v.component_mut::<Qal>().val(), v.component_mut::<Qam>().val(), v.component_mut::<Qan>().val(), v.component_mut::<Qao>().val(), v.component_mut::<Qap>().val(), v.component_mut::<Qaq>().val(), v.component_mut::<Qar>().val(), v.component_mut::<Qas>().val(), v.component_mut::<Qat>().val(), v.component_mut::<Qau>().val(), v.component_mut::<Qav>().val(), v.component_mut::<Qaw>().val(), v.component_mut::<Qax>().val(), v.component_mut::<Qay>().val(), v.component_mut::<Qaz>().val(), v.component_mut::<Qba>().val(), v.component_mut::<Qbb>().val(), v.component_mut::<Qbc>().val(), v.component_mut::<Qbd>().val(), v.component_mut::<Qbe>().val(), v.component_mut::<Qbf>().val()]; r }; if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: borrow component_mut of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find!(w, *e, |qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay, qaz: &Qaz, qba: &Qba, qbb: &Qbb, qbc: &Qbc, qbd: &Qbd, qbe: &Qbe, qbf: &Qbf| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: ecs_find of {e:?} shows {got:?}, expected {want:?}"); return; }
    let got: Vec<u64> = ecs_find_borrow!(w, *e, |qbf: &mut Qbf, qbe: &mut Qbe, qbd: &mut Qbd, qbc: &mut Qbc, qbb: &mut Qbb, qba: &mut Qba, qaz: &mut Qaz, qay: &mut Qay, qax: &mut Qax, qaw: &mut Qaw, qav: &mut Qav, qau: &mut Qau, qat: &mut Qat, qas: &mut Qas, qar: &mut Qar, qaq: &mut Qaq, qap: &mut Qap, qao: &mut Qao, qan: &mut Qan, qam: &mut Qam, qal: &mut Qal, qak: &mut Qak, qaj: &mut Qaj, qai: &mut Qai, qah: &mut Qah, qag: &mut Qag, qaf: &mut Qaf, qae: &mut Qae, qad: &mut Qad, qac: &mut Qac, qab: &mut Qab, qaa: &mut Qaa| vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()]).unwrap_or_default(); if got != want { f!(o, "C02 C13 C19 C04", "32 components, {what}: ecs_find_borrow of {e:?} shows {got:?}, expected {want:?}"); return; }
  }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq, qar, qas, qat, qau, qav, qaw, qax, qay, qaz, qba, qbb, qbc, qbd, qbe, qbf)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "32 components, {what}: iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = w.wide.iter_mut().map(|(e, qaa, qab, qac, qad, qae, qaf, qag, qah, qai, qaj, qak, qal, qam, qan, qao, qap, qaq, qar, qas, qat, qau, qav, qaw, qax, qay, qaz, qba, qbb, qbc, qbd, qbe, qbf)| (*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()])).collect(); if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "32 components, {what}: iter_mut presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay, qaz: &Qaz, qba: &Qba, qbb: &Qbb, qbc: &Qbc, qbd: &Qbd, qbe: &Qbe, qbf: &Qbf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "32 components, {what}: ecs_iter presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay, qaz: &Qaz, qba: &Qba, qbb: &Qbb, qbc: &Qbc, qbd: &Qbd, qbe: &Qbe, qbf: &Qbf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()])); }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "32 components, {what}: ecs_iter_borrow presents {rows:?}"); return; }
  let rows: Vec<(Entity<Wide>, Vec<u64>)> = { let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, qaa: &Qaa, qab: &Qab, qac: &Qac, qad: &Qad, qae: &Qae, qaf: &Qaf, qag: &Qag, qah: &Qah, qai: &Qai, qaj: &Qaj, qak: &Qak, qal: &Qal, qam: &Qam, qan: &Qan, qao: &Qao, qap: &Qap, qaq: &Qaq, qar: &Qar, qas: &Qas, qat: &Qat, qau: &Qau, qav: &Qav, qaw: &Qaw, qax: &Qax, qay: &Qay, qaz: &Qaz, qba: &Qba, qbb: &Qbb, qbc: &Qbc, qbd: &Qbd, qbe: &Qbe, qbf: &Qbf| { r.push((*e, vec![qaa.val(), qab.val(), qac.val(), qad.val(), qae.val(), qaf.val(), qag.val(), qah.val(), qai.val(), qaj.val(), qak.val(), qal.val(), qam.val(), qan.val(), qao.val(), qap.val(), qaq.val(), qar.val(), qas.val(), qat.val(), qau.val(), qav.val(), qaw.val(), qax.val(), qay.val(), qaz.val(), qba.val(), qbb.val(), qbc.val(), qbd.val(), qbe.val(), qbf.val()])); EcsStepDestroy::Continue }); r }; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, "C06 C02 C13 C19 C07", "32 components, {what}: ecs_iter_destroy presents {rows:?}"); return; }
}
pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd32::with_capacity(Wd32Capacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;
  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }
  all(o, &mut w, &m, &dead, "after creation"); if !o.is_empty() { return; }
  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, "C02 C04 C19", "32 components: destroy returned {:?}", vals(&c)); return; }, None => { f!(o, "C01 C19", "32 components: destroy refused"); return; } } dead.push(e); all(o, &mut w, &m, &dead, "after a destroy"); if !o.is_empty() { return; } }
  { let (e, b) = m[0 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaa>().set(b + 0 + 100); v.component_mut::<Qaa>().set(b + 0); } }
  { let (e, b) = m[1 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qab>().set(b + 1 + 100); v.component_mut::<Qab>().set(b + 1); } }
  { let (e, b) = m[2 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qac>().set(b + 2 + 100); v.component_mut::<Qac>().set(b + 2); } }
  { let (e, b) = m[3 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qad>().set(b + 3 + 100); v.component_mut::<Qad>().set(b + 3); } }
  { let (e, b) = m[4 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qae>().set(b + 4 + 100); v.component_mut::<Qae>().set(b + 4); } }
  { let (e, b) = m[5 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaf>().set(b + 5 + 100); v.component_mut::<Qaf>().set(b + 5); } }
  { let (e, b) = m[6 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qag>().set(b + 6 + 100); v.component_mut::<Qag>().set(b + 6); } }
  { let (e, b) = m[7 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qah>().set(b + 7 + 100); v.component_mut::<Qah>().set(b + 7); } }
  { let (e, b) = m[8 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qai>().set(b + 8 + 100); v.component_mut::<Qai>().set(b + 8); } }
  { let (e, b) = m[9 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaj>().set(b + 9 + 100); v.component_mut::<Qaj>().set(b + 9); } }
  { let (e, b) = m[10 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qak>().set(b + 10 + 100); v.component_mut::<Qak>().set(b + 10); } }
  { let (e, b) = m[11 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qal>().set(b + 11 + 100); v.component_mut::<Qal>().set(b + 11); } }
  { let (e, b) = m[12 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qam>().set(b + 12 + 100); v.component_mut::<Qam>().set(b + 12); } }
  { let (e, b) = m[13 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qan>().set(b + 13 + 100); v.component_mut::<Qan>().set(b + 13); } }
  { let (e, b) = m[14 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qao>().set(b + 14 + 100); v.component_mut::<Qao>().set(b + 14); } }
  { let (e, b) = m[15 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qap>().set(b + 15 + 100); v.component_mut::<Qap>().set(b + 15); } }
  { let (e, b) = m[16 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaq>().set(b + 16 + 100); v.component_mut::<Qaq>().set(b + 16); } }
  { let (e, b) = m[17 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qar>().set(b + 17 + 100); v.component_mut::<Qar>().set(b + 17); } }
  { let (e, b) = m[18 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qas>().set(b + 18 + 100); v.component_mut::<Qas>().set(b + 18); } }
  { let (e, b) = m[19 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qat>().set(b + 19 + 100); v.component_mut::<Qat>().set(b + 19); } }
  { let (e, b) = m[20 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qau>().set(b + 20 + 100); v.component_mut::<Qau>().set(b + 20); } }
  { let (e, b) = m[21 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qav>().set(b + 21 + 100); v.component_mut::<Qav>().set(b + 21); } }
  { let (e, b) = m[22 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaw>().set(b + 22 + 100); v.component_mut::<Qaw>().set(b + 22); } }
  { let (e, b) = m[23 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qax>().set(b + 23 + 100); v.component_mut::<Qax>().set(b + 23); } }
  { let (e, b) = m[24 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qay>().set(b + 24 + 100); v.component_mut::<Qay>().set(b + 24); } }
  { let (e, b) = m[25 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qaz>().set(b + 25 + 100); v.component_mut::<Qaz>().set(b + 25); } }
  { let (e, b) = m[26 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qba>().set(b + 26 + 100); v.component_mut::<Qba>().set(b + 26); } }
  { let (e, b) = m[27 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qbb>().set(b + 27 + 100); v.component_mut::<Qbb>().set(b + 27); } }
  { let (e, b) = m[28 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qbc>().set(b + 28 + 100); v.component_mut::<Qbc>().set(b + 28); } }
  { let (e, b) = m[29 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qbd>().set(b + 29 + 100); v.component_mut::<Qbd>().set(b + 29); } }
  { let (e, b) = m[30 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qbe>().set(b + 30 + 100); v.component_mut::<Qbe>().set(b + 30); } }
  { let (e, b) = m[31 % m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<Qbf>().set(b + 31 + 100); v.component_mut::<Qbf>().set(b + 31); } }
  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, "in a clone"); if !o.is_empty() { c13(o); return; }
  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, "C12 C13 C19", "32 components: clone not refillable"); return; } } }
  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, "C12 C04 C19", "32 components: create_within_capacity returned another value"); } } else { f!(o, "C12 C19", "32 components: create_within_capacity beyond capacity"); }
  all(o, &mut c, &mc, &dc, "in a refilled clone"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, "in the original"); if !o.is_empty() { return; }
  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut Qbf| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, "after ecs_iter_destroy!");
  drop(w); all(o, &mut c, &mc, &dc, "after dropping the original"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }
  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, "C04 C19", "32 components: {} values leaked, {:?}", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }
}
fn c13(o: &mut Vec<Fail>) { for x in o.iter_mut() { x.props = with_c13(x.props); } }
pub fn wide(o: &mut Vec<Fail>) {
  { w4::go(o); if !o.is_empty() { return; } }
  { w6::go(o); if !o.is_empty() { return; } }
  { w11::go(o); if !o.is_empty() { return; } }
  { w16::go(o); if !o.is_empty() { return; } }
  #[cfg(feature = "32_components")] { w17::go(o); if !o.is_empty() { return; } }
  #[cfg(feature = "32_components")] { w25::go(o); if !o.is_empty() { return; } }
  #[cfg(feature = "32_components")] { w32::go(o); if !o.is_empty() { return; } }
}
