# generates src/wide.rs: archetypes of many components, every column exercised through every slice path
N = [(4, None), (6, None), (11, None), (16, None), (17, "32_components"), (25, "32_components"), (32, "32_components")]
o = ["//! generated by gen_wide.py", "use crate::comps::*;", "use crate::engine::*;", "use gecs::prelude::*;"]
o.append("macro_rules! f { ($o:expr, $p:expr, $($t:tt)*) => { $o.push(Fail { props: $p, msg: format!($($t)*) }) } }")
for i in range(32):
    t = ["u64", "u8", "u32", "u16"][i % 4]
    if i % 8 == 5: o.append("#[derive(Clone)] pub struct P%d(CT); impl P%d { fn mk(v: u64) -> Self { P%d(CT::mk(v)) } fn val(&self) -> u64 { self.0.val() } fn set(&mut self, v: u64) { self.0.set(v) } fn norm(v: u64) -> u64 { v } }" % (i, i, i))
    else: o.append("#[derive(Clone)] pub struct P%d(%s); impl P%d { fn mk(v: u64) -> Self { P%d(v as %s) } fn val(&self) -> u64 { self.0 as u64 } fn set(&mut self, v: u64) { self.0 = v as %s } fn norm(v: u64) -> u64 { (v as %s) as u64 } }" % (i, t, i, i, t, t, t))
for n, feat in N:
    c = '#[cfg(feature = "%s")] ' % feat if feat else ""
    ps = ", ".join("P%d" % i for i in range(n))
    o.append("%smod w%d { use super::*; ecs_world! { ecs_name!(Wd%d); ecs_archetype!(Wide, %s); ecs_archetype!(Other, P0, P2); }" % (c, n, n, ps))
    o.append("fn mk(b: u64) -> WideComponents { WideComponents { %s } }" % ", ".join("p%d: P%d::mk(b + %d)" % (i, i, i) for i in range(n)))
    o.append("fn norm(b: u64) -> Vec<u64> { vec![%s] }" % ", ".join("P%d::norm(b + %d)" % (i, i) for i in range(n)))
    o.append("fn vals(c: &WideComponents) -> Vec<u64> { vec![%s] }" % ", ".join("c.get::<P%d>().val()" % i for i in range(n)))
    o.append("fn all(o: &mut Vec<Fail>, w: &mut Wd%d, m: &[(Entity<Wide>, u64)], dead: &[Entity<Wide>], what: &str) {" % n)
    o.append("  if w.wide.len() != m.len() { f!(o, \"C12 C19\", \"%d components, {what}: len {} of {}\", w.wide.len(), m.len()); return; }" % n)
    o.append("  for e in dead { if w.contains(*e) || w.wide.resolve(*e).is_some() { f!(o, \"C01 C19\", \"%d components, {what}: dead {e:?} accepted\"); } }" % n)
    o.append("  for (e, b) in m { let want = norm(*b); let Some(i) = w.wide.resolve(*e) else { f!(o, \"C01 C19 C13\", \"%d components, {what}: {e:?} refused\"); return };" % n)
    o.append("    if w.wide.entities()[i] != *e { f!(o, \"C06 C02 C19\", \"%d components, {what}: entities()[{i}] is not {e:?}\"); }" % n)
    gots = [("get_slice", "vec![%s]" % ", ".join("w.wide.get_slice::<P%d>()[i].val()" % k for k in range(n))),
            ("get_slice_mut", "vec![%s]" % ", ".join("w.wide.get_slice_mut::<P%d>()[i].val()" % k for k in range(n))),
            ("borrow_slice", "vec![%s]" % ", ".join("w.wide.borrow_slice::<P%d>()[i].val()" % k for k in range(n))),
            ("borrow_slice_mut", "vec![%s]" % ", ".join("w.wide.borrow_slice_mut::<P%d>()[i].val()" % k for k in range(n))),
            ("get_all_slices_mut", "{ let s = w.wide.get_all_slices_mut(); vec![%s] }" % ", ".join("s.p%d[i].val()" % k for k in range(n))),
            ("view", "{ let v = w.view(*e).unwrap(); vec![%s] }" % ", ".join("v.component::<P%d>().val()" % k for k in range(n))),
            ("view fields", "{ let v = w.wide.view(*e).unwrap(); vec![%s] }" % ", ".join("v.p%d.val()" % k for k in range(n))),
            ("borrow", "{ let v = w.borrow(*e).unwrap(); let r = vec![%s]; r }" % ", ".join("v.component::<P%d>().val()" % k for k in range(n))),
            ("borrow component_mut", "{ let v = w.borrow(*e).unwrap(); let r = vec![%s]; r }" % ", ".join("v.component_mut::<P%d>().val()" % k for k in range(n))),
            ("ecs_find", "ecs_find!(w, *e, |%s| vec![%s]).unwrap_or_default()" % (", ".join("p%d: &P%d" % (k, k) for k in range(n)), ", ".join("p%d.val()" % k for k in range(n)))),
            ("ecs_find_borrow", "ecs_find_borrow!(w, *e, |%s| vec![%s]).unwrap_or_default()" % (", ".join("p%d: &mut P%d" % (k, k) for k in reversed(range(n))), ", ".join("p%d.val()" % k for k in range(n))))]
    for name, g in gots:
        o.append("    let got: Vec<u64> = %s; if got != want { f!(o, \"C02 C13 C19 C04\", \"%d components, {what}: %s of {e:?} shows {got:?}, expected {want:?}\"); return; }" % (g, n, name))
    o.append("  }")
    tup = ", ".join("p%d" % k for k in range(n)); vl = ", ".join("p%d.val()" % k for k in range(n))
    prm = ", ".join("p%d: &P%d" % (k, k) for k in range(n))
    for name, g in [("iter", "w.wide.iter().map(|(e, %s)| (*e, vec![%s])).collect()" % (tup, vl)), ("iter_mut", "w.wide.iter_mut().map(|(e, %s)| (*e, vec![%s])).collect()" % (tup, vl)),
                    ("ecs_iter", "{ let mut r = vec![]; ecs_iter!(w, |e: &Entity<Wide>, %s| { r.push((*e, vec![%s])); }); r }" % (prm, vl)),
                    ("ecs_iter_borrow", "{ let mut r = vec![]; ecs_iter_borrow!(w, |e: &Entity<Wide>, %s| { r.push((*e, vec![%s])); }); r }" % (prm, vl)),
                    ("ecs_iter_destroy", "{ let mut r = vec![]; ecs_iter_destroy!(w, |e: &Entity<Wide>, %s| { r.push((*e, vec![%s])); EcsStepDestroy::Continue }); r }" % (prm, vl))]:
        o.append("  let rows: Vec<(Entity<Wide>, Vec<u64>)> = %s; if rows.len() != m.len() || !m.iter().all(|(e, b)| rows.iter().filter(|r| r.0 == *e && r.1 == norm(*b)).count() == 1) { f!(o, \"C06 C02 C13 C19 C07\", \"%d components, {what}: %s presents {rows:?}\"); return; }" % (g, n, name))
    o.append("}")
    o.append("pub fn go(o: &mut Vec<Fail>) { for cap in [0usize, 1, 4, 9] { let mut w = Wd%d::with_capacity(Wd%dCapacity { wide: cap, other: 0 }); let mut m: Vec<(Entity<Wide>, u64)> = vec![]; let mut dead = vec![]; let mut b = 0u64;" % (n, n))
    o.append("  for i in 0..7 { b += 40; let e = if i % 2 == 0 { w.create::<Wide>(mk(b)) } else { w.wide.create(mk(b).into_tuple()) }; m.push((e, b)); }")
    o.append("  all(o, &mut w, &m, &dead, \"after creation\"); if !o.is_empty() { return; }")
    o.append("  for k in [0usize, 3, 4, 1] { let (e, b) = m.remove(k.min(m.len() - 1)); match w.destroy(e) { Some(c) => if vals(&c) != norm(b) { f!(o, \"C02 C04 C19\", \"%d components: destroy returned {:?}\", vals(&c)); return; }, None => { f!(o, \"C01 C19\", \"%d components: destroy refused\"); return; } } dead.push(e); all(o, &mut w, &m, &dead, \"after a destroy\"); if !o.is_empty() { return; } }" % (n, n))
    for k in range(n):
        o.append("  { let (e, b) = m[%d %% m.len()]; if let Some(mut v) = w.view(e) { v.component_mut::<P%d>().set(b + %d + 100); v.component_mut::<P%d>().set(b + %d); } }" % (k, k, k, k, k))
    o.append("  let mut c = w.clone(); let mut mc = m.clone(); let dc = dead.clone(); all(o, &mut c, &mc, &dc, \"in a clone\"); if !o.is_empty() { c13(o); return; }")
    o.append("  while c.wide.len() < c.wide.capacity() { b += 40; match c.wide.create_within_capacity(mk(b)) { Ok(e) => mc.push((e, b)), Err(_) => { f!(o, \"C12 C13 C19\", \"%d components: clone not refillable\"); return; } } }" % n)
    o.append("  b += 40; if let Err(x) = c.wide.create_within_capacity(mk(b)) { if vals(&x) != norm(b) { f!(o, \"C12 C04 C19\", \"%d components: create_within_capacity returned another value\"); } } else { f!(o, \"C12 C19\", \"%d components: create_within_capacity beyond capacity\"); }" % (n, n))
    o.append("  all(o, &mut c, &mc, &dc, \"in a refilled clone\"); if !o.is_empty() { c13(o); return; } all(o, &mut w, &m, &dead, \"in the original\"); if !o.is_empty() { return; }")
    o.append("  ecs_iter_destroy!(w, |e: &Entity<Wide>, _p: &mut P%d| { if m[0].0 == *e { EcsStepDestroy::Continue } else { EcsStepDestroy::ContinueDestroy } }); let rest: Vec<_> = m.drain(1..).collect(); for (e, _) in rest { dead.push(e); } all(o, &mut w, &m, &dead, \"after ecs_iter_destroy!\");" % (n - 1))
    o.append("  drop(w); all(o, &mut c, &mc, &dc, \"after dropping the original\"); if !o.is_empty() { c13(o); } drop(c); if !o.is_empty() { return; }")
    o.append("  reg(|r| if !r.alive.is_empty() || !r.errors.is_empty() { f!(o, \"C04 C19\", \"%d components: {} values leaked, {:?}\", r.alive.len(), r.errors.first()) }); if !o.is_empty() { return; } } }" % n)
    o.append("}")
o.append("fn c13(o: &mut Vec<Fail>) { for x in o.iter_mut() { x.props = with_c13(x.props); } }")
o.append("pub fn wide(o: &mut Vec<Fail>) {")
for n, feat in N: o.append("  %s{ w%d::go(o); if !o.is_empty() { return; } }" % ('#[cfg(feature = "%s")] ' % feat if feat else "", n))
o.append("}")
import re
def nm(i): return chr(97 + i // 26) + chr(97 + i % 26)
txt = "\n".join(o) + "\n"
txt = re.sub(r"\bP(\d+)\b", lambda m: "Q" + nm(int(m.group(1))), txt)
txt = re.sub(r"\bp(\d+)\b", lambda m: "q" + nm(int(m.group(1))), txt)
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/src/wide.rs", "w").write(txt)
