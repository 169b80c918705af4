"""Generator of client programs (worlds, queries, cfg attributes, ids) with the expected behaviour computed from the
statements of C05, C15 and C16. Bounded stand-in for the macro layer: every program is compiled against /repo and run."""
import random

COMPS = ["Ga", "Gb", "Gc", "Gd", "Ge", "Gf"]
WIDE = COMPS + ["G" + chr(103 + i) for i in range(18)]      # components of the wide worlds (up to 16 in an archetype)
TRUE = ["all()", "not(any())", "any(all(), any())", "not(windows)", 'feature = "gpa"', 'any(feature = "gpz", feature = "gpa")', 'not(feature = "gpz")', "unix", "all(unix, not(windows))"]
FALSE = ["any()", "not(all())", "all(all(), any())", "windows", 'feature = "gpz"', 'all(feature = "gpz", feature = "gpa")', 'not(feature = "gpa")', "not(unix)", "all(unix, windows)"]

class Item:
    def __init__(s, name): s.name, s.id, s.cfgs, s.comps = name, None, [], []
    @property
    def on(s): return all(p in TRUE for p in s.cfgs)
    def attrs(s, kind):
        a = ["#[cfg(%s)] " % p for p in s.cfgs]
        if s.id is not None: a.insert(len(a) // 2, "#[%s_id(%d)] " % (kind, s.id))
        return "".join(a)

def assign(items):
    """discriminant rule over the enabled items; None if the declaration must be rejected"""
    out, last, used = {}, None, set()
    for it in items:
        if not it.on: continue
        n = it.id if it.id is not None else (0 if last is None else last + 1)
        if n > 255 or n in used: return None
        used.add(n); out[it.name] = n; last = n
    return out

def cfgs(r, p, off):
    if r.random() >= p: return []
    c = [r.choice(FALSE if r.random() < off else TRUE)]
    if r.random() < 0.3: c.append(r.choice(TRUE + FALSE))
    return c

def world(r, mode):
    if mode.endswith("/wide"): return world_wide(r, mode[:3])
    while True:
        n = r.randint(2, 5) if mode != "C15" else r.randint(2, 9)
        archs = []
        for i in range(n):
            a = Item("Ar" + chr(97 + i))
            if r.random() < (0.5 if mode == "C15" else 0.25): a.id = r.choice([0, 1, 2, 3, 4, 5, 7, 9, 16, 100, 127, 128, 200, 253, 254, 255, r.randint(0, 255)])
            if mode == "C16": a.cfgs = cfgs(r, 0.5, 0.4)
            for c in r.sample(COMPS, r.randint(1, 4 if mode != "C15" else 6)):
                k = Item(c)
                if r.random() < (0.45 if mode == "C15" else 0.15): k.id = r.choice([0, 1, 2, 3, 4, 5, 6, 9, 64, 200, 251, 252, 253, 254, 255, r.randint(0, 255)])
                if mode == "C16": k.cfgs = cfgs(r, 0.45, 0.5)
                a.comps.append(k)
            archs.append(a)
        ids = assign(archs)
        live = [a for a in archs if a.on]
        if ids is None or len(live) < 1: continue
        cid = {a.name: assign(a.comps) for a in live}
        if any(v is None or not v for v in cid.values()): continue
        return archs, live, ids, cid

def world_wide(r, mode):
    while True:
        archs = []
        for i in range(r.randint(3, 12)):
            a = Item("Ar" + chr(97 + i))
            if r.random() < 0.2: a.id = r.randint(0, 255)
            if mode == "C16": a.cfgs = [c for _ in range(3) for c in cfgs(r, 0.4, 0.2)]
            for c in r.sample(WIDE, r.choice([8, 12, 15, 16])):
                k = Item(c)
                if r.random() < 0.15: k.id = r.randint(0, 255)
                if mode == "C16": k.cfgs = [c for _ in range(3) for c in cfgs(r, 0.4, 0.25)]
                a.comps.append(k)
            archs.append(a)
        ids = assign(archs)
        live = [a for a in archs if a.on]
        if ids is None or len(live) < 2: continue
        cid = {a.name: assign(a.comps) for a in live}
        if any(v is None or not v for v in cid.values()): continue
        return archs, live, ids, cid

class Param:
    pass
def binds(p, a):
    """component bound by p in archetype a: name, True (handle parameter), None (no match), 'AMBIG'"""
    have = [c.name for c in a.comps if c.on]
    if p.kind == "comp": return p.arg if p.arg in have else None
    if p.kind == "oneof":
        m = [c for c in p.arg if c in have]
        return "AMBIG" if len(m) > 1 else (m[0] if m else None)
    if p.kind in ("entity", "direct"): return True if p.arg == a.name else None
    return True
def ptype(p):
    t = {"comp": lambda: p.arg, "oneof": lambda: "OneOf<%s>" % ", ".join(p.arg), "entity": lambda: "Entity<%s>" % p.arg, "direct": lambda: "EntityDirect<%s>" % p.arg,
         "any": lambda: "EntityAny", "wild": lambda: "Entity<_>", "dany": lambda: "EntityDirectAny", "dwild": lambda: "EntityDirect<_>"}[p.kind]()
    return "&" + ("mut " if p.mut else "") + t
def query(r, mode, live, archs):
    """-> params, per-archetype binding; no ambiguous OneOf, at least one match"""
    if mode.endswith("/wide"): return query_wide(r, mode[:3], live, archs)
    for _ in range(400):
        ps, used = [], set()
        for i in range(r.randint(1, 5)):
            p = Param(); p.kind = r.choice(["comp", "comp", "comp", "oneof", "oneof", "any", "wild", "entity", "dany", "dwild", "direct"]); p.mut = False; p.cfgs = cfgs(r, 0.5, 0.6) if mode == "C16" else []
            p.on = all(c in TRUE for c in p.cfgs)
            if p.kind == "comp": p.arg = r.choice(COMPS); p.mut = r.random() < 0.4; names = [p.arg]
            elif p.kind == "oneof": p.arg = r.sample(COMPS, r.randint(1, 3)); p.mut = r.random() < 0.4; names = p.arg
            elif p.kind in ("entity", "direct"):
                p.arg = r.choice(live).name; names = []
                if not p.on and r.random() < 0.5: p.arg = r.choice(archs).name
            else: p.arg = None; names = []
            if p.on and any(n in used for n in names): continue
            if p.on: used.update(names)
            p.name = "p%d" % i; ps.append(p)
        if not ps: continue
        act = [p for p in ps if p.on]
        b = {a.name: [binds(p, a) for p in act] for a in live}
        if any("AMBIG" in v for v in b.values()): continue
        m = {k: v for k, v in b.items() if None not in v}
        if not m: continue
        if len(m) == len(live) and r.random() < 0.5 and act: continue
        return ps, act, m
    return None

def query_wide(r, mode, live, archs):
    """long parameter lists and long OneOf lists, drawn around one archetype that must match"""
    for _ in range(400):
        t = r.choice(live); have = [c.name for c in t.comps if c.on]; miss = [c for c in WIDE if c not in have]
        r.shuffle(have); r.shuffle(miss)
        ps = []
        def add(kind, arg, mut):
            p = Param(); p.kind, p.arg, p.mut = kind, arg, mut; p.cfgs = [c for _ in range(3) for c in cfgs(r, 0.4, 0.0)] if mode == "C16" else []
            p.on = all(c in TRUE for c in p.cfgs); ps.append(p)
        for c in have[:r.randint(1, len(have))]:
            if r.random() < 0.4 and miss:
                k = r.randint(1, min(len(miss), 12)); l = [c] + miss[:k]; miss = miss[k:] if r.random() < 0.7 else miss; r.shuffle(l); add("oneof", l, False)
            else: add("comp", c, r.random() < 0.3)
        for _ in range(r.randint(0, 6)): add(*r.choice([("any", None), ("wild", None), ("dany", None), ("dwild", None), ("entity", t.name), ("direct", t.name)][:4 if r.random() < 0.8 else 6]), False)
        if mode == "C16":
            for _ in range(r.randint(0, 4)):
                add("comp", r.choice(WIDE), True); ps[-1].cfgs = [r.choice(TRUE) for _ in range(r.randint(0, 3))] + [r.choice(FALSE)]; r.shuffle(ps[-1].cfgs); ps[-1].on = False
        r.shuffle(ps)
        for i, p in enumerate(ps): p.name = "p%d" % i
        act = [p for p in ps if p.on]
        used = [n for p in act if p.kind in ("comp", "oneof") for n in ([p.arg] if p.kind == "comp" else p.arg)]
        b = {a.name: [binds(p, a) for p in act] for a in live}
        if not act or any("AMBIG" in v for v in b.values()): continue
        m = {k: v for k, v in b.items() if None not in v}
        if not m: continue
        if any(len({x for x in v if isinstance(x, str)}) != sum(isinstance(x, str) for x in v) for v in m.values()): continue
        return ps, act, m
    return None

def snake(n): return n[0].lower() + n[1:] if False else {"A": "a"}.get(n[0], n[0].lower()) + n[1:]

def emit_world(name, archs): 
    s = "    ecs_world! {\n        ecs_name!(%s);\n" % name
    for a in archs:
        s += "        %s\n        ecs_archetype!(%s, %s);\n" % (a.attrs("archetype"), a.name, ", ".join(c.attrs("component") + c.name for c in a.comps))
    return s + "    }\n"

def closure(ps, body): return "|%s| %s" % (", ".join("".join("#[cfg(%s)] " % c for c in p.cfgs) + "%s: %s" % (p.name, ptype(p)) for p in ps), body)

def row_body(act, tail):
    b = "let mut r: Vec<u64> = vec![]; let mut h: Vec<(u32, u32)> = vec![]; #[allow(unused_mut)] let mut ds: Vec<EntityDirectAny> = vec![]; "
    for p in act:
        if p.kind in ("comp", "oneof"): b += "r.push(%s.0); " % p.name
        elif p.kind in ("any", "entity", "wild"): b += "h.push(%s.into_any().raw()); " % p.name
        else: b += "ds.push(%s.into_any()); " % p.name
    return "{ " + b + tail + " }"

def module(r, mode, idx, nq):
    archs, live, ids, cid = world(r, mode)
    W = "Wq%d" % idx
    cx = " C16" if mode.startswith("C16") else ""
    o = ["pub mod m%d {" % idx, "    use super::*;", emit_world(W, archs), "    pub fn run(o: &mut Vec<(&'static str, String)>) {", "        let mut w = %s::new();" % W,
         "        let mut live: Vec<(usize, EntityAny, Vec<(&'static str, u64)>)> = vec![];"]
    decl = emit_world(W, archs).replace('"', "'").replace("\n", " ").replace("{", "{{").replace("}", "}}")
    decl = " ".join(decl.split())
    # ids
    for a in live:
        o.append('        if %s::ARCHETYPE_ID != %d { o.push(("C15%s", format!("%s::ARCHETYPE_ID is {}, expected %d in %s", %s::ARCHETYPE_ID))); }' % (a.name, ids[a.name], cx, a.name, ids[a.name], decl, a.name))
        o.append('        if !matches!(SelectArchetype::try_from(%du8), Ok(SelectArchetype::%s)) { o.push(("C15 C14%s", format!("SelectArchetype::try_from(%d) is not %s in %s"))); }' % (ids[a.name], a.name, cx, ids[a.name], a.name, decl))
        for c in a.comps:
            if not c.on: continue
            o.append('        if ecs_component_id!(%s, %s) != %d || <%s as ArchetypeHas<%s>>::COMPONENT_ID != %d { o.push(("C15%s", format!("component id of %s in %s is {}, expected %d in %s", ecs_component_id!(%s, %s)))); }'
                     % (c.name, a.name, cid[a.name][c.name], a.name, c.name, cid[a.name][c.name], cx, c.name, a.name, cid[a.name][c.name], decl, c.name, a.name))
    free = [i for i in range(256) if i not in ids.values()][:3] + [i for i in (255, 254, 128) if i not in ids.values()]
    o.append('        for i in %s { if SelectArchetype::try_from(i as u8).is_ok() { o.push(("C15 C14%s", format!("SelectArchetype::try_from({i}) accepted in %s"))); } }' % (str(free).replace("[", "[").replace("]", "u32]") if free else "Vec::<u32>::new()", cx, decl))
    # entities
    rows = {}
    for ai, a in enumerate(live):
        cs = [c.name for c in a.comps if c.on]
        n = r.randint(1, 3)
        for e in range(n + 1):
            vals = [(c, idx * 100000 + ai * 10000 + e * 100 + WIDE.index(c) + 1) for c in cs]
            o.append('        let h%d_%d = w.create::<%s>((%s,)).into_any(); if h%d_%d.archetype_id() != %d { o.push(("C15 C14%s", format!("handle of %s has archetype id {} in %s", h%d_%d.archetype_id()))); }'
                     % (ai, e, a.name, ", ".join("%s(%d)" % v for v in vals), ai, e, ids[a.name], cx, a.name, decl, ai, e))
            o.append('        live.push((%d, h%d_%d, vec![%s]));' % (ai, ai, e, ", ".join('("%s", %d)' % v for v in vals)))
        d = r.randint(0, n)
        o.append('        if w.destroy(h%d_%d).is_none() { o.push(("C05 C15%s", format!("destroy refused in %s"))); } live.retain(|x| x.1 != h%d_%d);' % (ai, d, cx, decl, ai, d))
        o.append('        if !matches!(SelectEntity::try_from(h%d_%d), Ok(SelectEntity::%s(_))) { o.push(("C15 C14%s", format!("SelectEntity of a handle of %s is another variant in %s"))); }' % (ai, d, a.name, cx, a.name, decl))
    o.append("        let idt: [u8; %d] = [%s]; let _ = &idt;" % (len(live), ", ".join(str(ids[a.name]) for a in live)))
    sel = {a.name: i for i, a in enumerate(live)}
    done = 0
    for q in range(nq):
        z = query(r, mode, live, archs)
        if z is None: continue
        ps, act, m = z
        done += 1
        txt = closure(ps, "..").replace('"', "'").replace("{", "{{").replace("}", "}}")
        p0 = "C05" + cx
        # matched archetype index -> bound component names
        o.append("        let bound: Vec<(usize, Vec<&'static str>)> = vec![%s];" % ", ".join("(%d, vec![%s])" % (sel[k], ", ".join('"%s"' % n for n in v if isinstance(n, str))) for k, v in m.items()))
        nh = sum(1 for p in act if p.kind in ("any", "entity", "wild")); nd = sum(1 for p in act if p.kind in ("dany", "dwild", "direct"))
        o.append("        let expect: Vec<(u8, EntityAny, Vec<u64>)> = live.iter().filter_map(|(a, h, v)| bound.iter().find(|b| b.0 == *a).map(|b| (idt[*a], *h, b.1.iter().map(|c| v.iter().find(|x| x.0 == *c).unwrap().1).collect()))).collect();")
        for mac in ["ecs_iter", "ecs_iter_borrow", "ecs_iter_destroy"]:
            o.append("        { let mut got: Vec<(u8, Vec<(u32, u32)>, Vec<u64>, Vec<EntityDirectAny>)> = vec![];")
            ret = " EcsStepDestroy::Continue" if mac == "ecs_iter_destroy" else ""
            o.append("        %s!(w, %s);" % (mac, closure(ps, row_body(act, "got.push((MatchedArchetype::ARCHETYPE_ID, h, r, ds));" + ret))))
            o.append('        check_iter(o, "%s", &format!("%s!(w, %s) in %s"), &expect, got, %d, %d, &|d| designates(&w, d)); }' % (p0, mac, txt, decl, nh, nd))
        o.append("        for (a, h, v) in live.clone() { let want: Option<(u8, Vec<u64>)> = bound.iter().find(|b| b.0 == a).map(|b| (idt[a], b.1.iter().map(|c| v.iter().find(|x| x.0 == *c).unwrap().1).collect()));")
        for mac in ["ecs_find", "ecs_find_borrow"]:
            key = [("EntityAny", "h"), ("EntityDirectAny", "w.to_direct(h).unwrap()")]
            for kn, k in key:
                o.append("          { let k = %s; let mut n = 0; let got = %s!(w, k, %s); let _ = n;" % (k, mac, closure(ps, row_body(act, "n += 1; (MatchedArchetype::ARCHETYPE_ID, h, r, ds)"))))
                o.append('          check_find(o, "%s", &format!("%s!(w, <%s>, %s) in %s"), h, &want, got, n, &|d| designates(&w, d)); }' % (p0, mac, kn, txt, decl))
            # typed key, dispatching on the archetype
        o.append("          match a {")
        for ai, a in enumerate(live):
            o.append("            %d => {" % ai)
            for mac in (["ecs_find", "ecs_find_borrow"] if q % 2 == 0 else ["ecs_find_borrow"]):
                for kn, k in [("Entity", "Entity::<%s>::from_any(h)" % a.name), ("EntityDirect", "w.to_direct(Entity::<%s>::from_any(h)).unwrap()" % a.name)][:2 if q % 3 == 0 else 1]:
                    o.append("            { let k = %s; let mut n = 0; let got = %s!(w, k, %s); let _ = n;" % (k, mac, closure(ps, row_body(act, "n += 1; (MatchedArchetype::ARCHETYPE_ID, h, r, ds)"))))
                    o.append('            check_find(o, "%s", &format!("%s!(w, <%s<%s>>, %s) in %s"), h, &want, got, n, &|d| designates(&w, d)); }' % (p0, mac, kn, a.name, txt, decl))
            o.append("            }")
        o.append("            _ => {} }")
        o.append("        }")
        # destroy exactly the matched entities, on a clone
        if q == 0:
            o.append("        { let mut c = w.clone(); ecs_iter_destroy!(c, %s);" % closure(ps, "{ EcsStepDestroy::ContinueDestroy }"))
            o.append('          for (a, h, _) in live.iter() { let hit = bound.iter().any(|b| b.0 == *a); if c.contains(*h) == hit { o.push(("%s C07", format!("ecs_iter_destroy!(w, %s) (all) left or removed {h:?} wrongly in %s"))); } } }' % (p0, txt, decl))
    # what a direct handle designates
    o.append("        let _ = &live; }")
    o.append("    fn designates(w: &%s, d: EntityDirectAny) -> Option<EntityAny> { match SelectEntityDirect::try_from(d) {" % W)
    for a in live: o.append("        Ok(SelectEntityDirect::%s(e)) => { let i = w.%s.resolve(e)?; w.%s.entities().get(i).map(|e| e.into_any()) }" % (a.name, snake2(a.name), snake2(a.name)))
    o.append("        _ => None } }")
    o.append("}")
    return "\n".join(o), done

def snake2(n):
    s = ""
    for i, c in enumerate(n):
        if c.isupper() and i: s += "_"
        s += c.lower()
    return s

HEAD = """#![allow(unused, clippy::all)]
use gecs::prelude::*;
%s
type Row = (u8, Vec<(u32, u32)>, Vec<u64>, Vec<EntityDirectAny>);
fn check_iter(o: &mut Vec<(&'static str, String)>, p: &'static str, what: &str, expect: &[(u8, EntityAny, Vec<u64>)], got: Vec<Row>, nh: usize, nd: usize, des: &dyn Fn(EntityDirectAny) -> Option<EntityAny>) {
    if got.len() != expect.len() { o.push((p, format!("{what}: ran {} times, {} entities match", got.len(), expect.len()))); return; }
    let mut left: Vec<(u8, EntityAny, Vec<u64>)> = expect.to_vec();
    for (id, h, r, ds) in got {
        if h.len() != nh || ds.len() != nd { o.push((p, format!("{what}: parameters missing"))); return; }
        let i = left.iter().position(|x| x.0 == id && x.2 == r && h.iter().all(|y| *y == x.1.raw()) && ds.iter().all(|d| des(*d) == Some(x.1)));
        match i { Some(i) => { left.swap_remove(i); } None => { o.push((p, format!("{what}: ran for archetype id {id} with handles {h:?}, components {r:?}, which no matching entity has (or had been visited); expected {expect:?}"))); return; } }
    }
}
fn check_find(o: &mut Vec<(&'static str, String)>, p: &'static str, what: &str, h: EntityAny, want: &Option<(u8, Vec<u64>)>, got: Option<Row>, n: u32, des: &dyn Fn(EntityDirectAny) -> Option<EntityAny>) {
    match (want, got) {
        (None, None) => if n != 0 { o.push((p, format!("{what}: closure ran for {h:?}, of an unmatched archetype"))) },
        (Some((id, v)), Some((gid, gh, gv, ds))) => if n != 1 || *id != gid || *v != gv || gh.iter().any(|x| *x != h.raw()) || ds.iter().any(|d| des(*d) != Some(h)) { o.push((p, format!("{what} of {h:?}: archetype id {gid}, handles {gh:?}, components {gv:?}, expected {id}, {v:?}"))) },
        (w, g) => o.push((p, format!("{what} of {h:?}: {g:?}, expected {w:?}"))),
    }
}
""" % "\n".join("#[derive(Clone, Debug)] pub struct %s(pub u64);" % c for c in WIDE)

def positive(mode, seed, files, worlds, nq):
    """-> list of (source, number of queries)"""
    out = []
    for f in range(files):
        r = random.Random("%s/%s/%d" % (mode, seed, f))
        mods, nqs = [], 0
        for i in range(worlds):
            wide = i == worlds - 1 and f % 2 == 0        # every second file ends with a wide world
            t, n = module(r, mode + ("/wide" if wide else ""), i, nq); mods.append(t); nqs += n
        main = "fn main() { let mut o = vec![]; %s for (p, m) in &o { println!(\"FAIL [{p}] {m}\"); } if !o.is_empty() { std::process::exit(1); } }" % " ".join("m%d::run(&mut o);" % i for i in range(worlds))
        out.append((HEAD + "\n".join(mods) + "\n" + main + "\n", nqs))
    return out

# ---------------------------------------------------------------- programs that must be rejected, each with a twin that must be accepted
NH = "#![allow(unused)]\nuse gecs::prelude::*;\n" + "\n".join("#[derive(Clone)] pub struct %s(pub u64);" % c for c in COMPS) + "\n"
def neg(name, props, bad, good): return (name, props, NH + bad, NH + good)
def wd(body): return "ecs_world! { ecs_name!(Wn); %s }\n" % body
def fnb(b): return "fn f(w: &mut Wn, k: EntityAny) { %s }\nfn main() {}\n" % b
MAC = {"ecs_find": "let _ = ecs_find!(w, k, |%s| { });", "ecs_find_borrow": "let _ = ecs_find_borrow!(w, k, |%s| { });", "ecs_iter": "ecs_iter!(w, |%s| { });",
       "ecs_iter_borrow": "ecs_iter_borrow!(w, |%s| { });", "ecs_iter_destroy": "ecs_iter_destroy!(w, |%s| { });"}
def negatives(mode):
    out = []
    if mode == "C05":
        W = wd("ecs_archetype!(Aa, Ga, Gb); ecs_archetype!(Ab, Gb, Gc); ecs_archetype!(Ac, Gd);")
        for m, t in MAC.items():
            out.append(neg(m + ": no archetype has both components", "C05", W + fnb(t % "a: &Ga, c: &Gc"), W + fnb(t % "b: &Gb, c: &Gc")))
            out.append(neg(m + ": unknown component", "C05", W + fnb(t % "a: &Ge"), W + fnb(t % "a: &Gd")))
            out.append(neg(m + ": OneOf matches no component", "C05", W + fnb(t % "a: &OneOf<Ge, Gf>"), W + fnb(t % "a: &OneOf<Ge, Gf, Gd>")))
            out.append(neg(m + ": OneOf is ambiguous", "C05", W + fnb(t % "a: &OneOf<Ga, Gb>"), W + fnb(t % "a: &OneOf<Ga, Gc>")))
            out.append(neg(m + ": OneOf is ambiguous in one archetype of several, first argument unmatched", "C05", W + fnb(t % "a: &OneOf<Gf, Gb, Gd, Gc>"), W + fnb(t % "a: &OneOf<Gf, Ga, Gd, Gc>")))
            out.append(neg(m + ": named archetype lacks the component", "C05", W + fnb(t % "e: &Entity<Ac>, a: &Ga"), W + fnb(t % "e: &Entity<Aa>, a: &Ga")))
            out.append(neg(m + ": two different named archetypes", "C05", W + fnb(t % "e: &Entity<Aa>, d: &EntityDirect<Ab>"), W + fnb(t % "e: &Entity<Aa>, d: &EntityDirect<Aa>")))
    if mode == "C15":
        f = "fn main() {}\n"
        cases = [("explicit duplicate", "#[archetype_id(3)] ecs_archetype!(Aa, Ga); #[archetype_id(3)] ecs_archetype!(Ab, Gb);", "#[archetype_id(3)] ecs_archetype!(Aa, Ga); #[archetype_id(4)] ecs_archetype!(Ab, Gb);"),
                 ("implicit first collides with explicit 0", "ecs_archetype!(Aa, Ga); #[archetype_id(0)] ecs_archetype!(Ab, Gb);", "ecs_archetype!(Aa, Ga); #[archetype_id(1)] ecs_archetype!(Ab, Gb);"),
                 ("implicit successor collides with an earlier one", "#[archetype_id(5)] ecs_archetype!(Aa, Ga); #[archetype_id(4)] ecs_archetype!(Ab, Gb); ecs_archetype!(Ac, Gc);", "#[archetype_id(6)] ecs_archetype!(Aa, Ga); #[archetype_id(4)] ecs_archetype!(Ab, Gb); ecs_archetype!(Ac, Gc);"),
                 ("non-adjacent explicit duplicate", "#[archetype_id(9)] ecs_archetype!(Aa, Ga); #[archetype_id(3)] ecs_archetype!(Ab, Gb); #[archetype_id(9)] ecs_archetype!(Ac, Gc);", "#[archetype_id(9)] ecs_archetype!(Aa, Ga); #[archetype_id(3)] ecs_archetype!(Ab, Gb); #[archetype_id(8)] ecs_archetype!(Ac, Gc);"),
                 ("counting past 255", "#[archetype_id(255)] ecs_archetype!(Aa, Ga); ecs_archetype!(Ab, Gb);", "#[archetype_id(254)] ecs_archetype!(Aa, Ga); ecs_archetype!(Ab, Gb);"),
                 ("explicit id over 255", "#[archetype_id(256)] ecs_archetype!(Aa, Ga);", "#[archetype_id(255)] ecs_archetype!(Aa, Ga);"),
                 ("component: explicit duplicate", "ecs_archetype!(Aa, #[component_id(3)] Ga, #[component_id(3)] Gb);", "ecs_archetype!(Aa, #[component_id(3)] Ga, #[component_id(2)] Gb);"),
                 ("component: implicit collides", "ecs_archetype!(Aa, #[component_id(1)] Ga, #[component_id(0)] Gb, Gc);", "ecs_archetype!(Aa, #[component_id(2)] Ga, #[component_id(0)] Gb, Gc);"),
                 ("component: counting past 255", "ecs_archetype!(Aa, Ga, #[component_id(255)] Gb, Gc);", "ecs_archetype!(Aa, Ga, #[component_id(255)] Gb);"),
                 ("component: first implicit collides with a later explicit 0", "ecs_archetype!(Aa, Ga, Gb, #[component_id(0)] Gc);", "ecs_archetype!(Aa, Ga, Gb, #[component_id(7)] Gc);"),
                 ("component ids are checked in every archetype", "ecs_archetype!(Aa, Ga, Gb); ecs_archetype!(Ab, #[component_id(1)] Gc, #[component_id(1)] Gd);", "ecs_archetype!(Aa, #[component_id(1)] Ga, Gb); ecs_archetype!(Ab, #[component_id(1)] Gc, Gd);"),
                 ("component: counting past 255 in a later archetype", "ecs_archetype!(Aa, Ga); ecs_archetype!(Ab, #[component_id(254)] Gc, Gd, Ge);", "ecs_archetype!(Aa, Ga); ecs_archetype!(Ab, #[component_id(253)] Gc, Gd, Ge);")]
        for n, b, g in cases: out.append(neg(n, "C15", wd(b) + f, wd(g) + f))
    if mode == "C16":
        f = "fn main() {}\n"
        W = wd('ecs_archetype!(Aa, Ga, #[cfg(any())] Gb); #[cfg(any())] ecs_archetype!(Ab, Gc); ecs_archetype!(Ac, Gb, Gc, #[cfg(all())] Gd);')
        t = MAC["ecs_iter"]; u = MAC["ecs_find"]; v = MAC["ecs_iter_destroy"]
        for m, t in MAC.items():
            out.append(neg(m + ": only a disabled component would match", "C16 C05", W + fnb(t % "a: &Ga, b: &Gb"), W + fnb(t % "a: &Ga, #[cfg(any())] b: &Gb")))
            out.append(neg(m + ": a disabled archetype named", "C16 C05", W + fnb(t % "e: &Entity<Ab>"), W + fnb(t % "#[cfg(any())] e: &Entity<Ab>, c: &Gc")))
            out.append(neg(m + ": OneOf ambiguity counts enabled components only", "C16 C05", W + fnb(t % "a: &OneOf<Gc, Gd>"), W + fnb(t % "a: &OneOf<Ga, Gb>")))
            out.append(neg(m + ": enabled ambiguous OneOf", "C16 C05", W + fnb(t % "#[cfg(all())] a: &OneOf<Gb, Gd>, c: &Gc"), W + fnb(t % "#[cfg(any())] a: &OneOf<Gb, Gd>, c: &Gc")))
            out.append(neg(m + ": enabled parameter that matches nothing", "C16 C05", W + fnb(t % "#[cfg(not(any()))] a: &Gf, c: &Gc"), W + fnb(t % "#[cfg(not(all()))] a: &Gf, c: &Gc")))
        out.append(neg("enabled archetype with a duplicate id", "C16 C15", wd("#[archetype_id(3)] ecs_archetype!(Aa, Ga); #[cfg(all())] #[archetype_id(3)] ecs_archetype!(Ab, Gb);") + f, wd("#[archetype_id(3)] ecs_archetype!(Aa, Ga); #[cfg(any())] #[archetype_id(3)] ecs_archetype!(Ab, Gb);") + f))
        out.append(neg("enabled component with a duplicate id", "C16 C15", wd("ecs_archetype!(Aa, Ga, #[cfg(unix)] #[component_id(0)] Gb);") + f, wd("ecs_archetype!(Aa, Ga, #[cfg(windows)] #[component_id(0)] Gb);") + f))
        out.append(neg("counting past 255 with an enabled item", "C16 C15", wd("#[archetype_id(255)] ecs_archetype!(Aa, Ga); #[cfg(unix)] ecs_archetype!(Ab, Gb);") + f, wd("#[archetype_id(255)] ecs_archetype!(Aa, Ga); #[cfg(windows)] ecs_archetype!(Ab, Gb);") + f))
        out.append(neg("a disabled component is not part of the components struct", "C16", W + "fn g(w: &mut Wn) { w.create::<Aa>((Ga(1), Gb(2))); }\n" + f, W + "fn g(w: &mut Wn) { w.create::<Aa>((Ga(1),)); w.create::<Ac>((Gb(1), Gc(2), Gd(3))); }\n" + f))
        out.append(neg("a disabled archetype does not exist", "C16", W + "fn g(w: &mut Wn) { w.create::<Ab>((Gc(1),)); }\n" + f, W + "fn g(w: &mut Wn) { let _ = w.aa.len(); }\n" + f))
    return out
