"""Assemble the Verus file for the code that ecs_world! and the query macros generate (fixture crate genfix, expanded by rustc on every run)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from rx import *
from vx import *
import build_core, build_queries, inline
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT + "/lib")
from fresh import fresh, tree_hash

GRULES = {
 "G1 expansion": "the code under contract is what rustc's macro expansion (-Zunpretty=expanded) gives for the fixture crate verus/genfix against the current tree; derived impls (automatically_derived), use/macro_rules items, doc text dropped; `mod` flattened",
 "G2 provided methods": "provided methods of gecs::traits::{Archetype, World} become extension traits with one blanket impl (verified for every archetype and world); those of View/Borrow/Components and the required methods of the generated impls become inherent methods; impl Into<X> parameters are taken at X (the .into() on them dropped)",
 "G3 forms": "::gecs::__internal:: and ::core:: paths shortened; panic_fmt -> panic!; .map(PATH) -> .map(|e| PATH(e)) (then R7); X.ok()? -> match with early return; X.clone() in Clone impls -> X.vx_clone(); a constant in a match pattern becomes a guard; slice::Iter -> a shim with a ghost sequence",
 "G4 queries": "(|| B)() -> B; the closure binding is dropped and `closure(args).into()` becomes a call of an opaque function with a contract about its arguments (a closure of the wrong signature or an archetype the query does not name: a call of a function with `requires false`); `type MatchedArchetype = X` is substituted; the rest of the generated query text is kept",
 "G5 query loops": "`return` inside a loop -> `vx_ret = true; break;` and `if vx_ret { return; }` behind the loop; `for i in 0..n` / `(0..n).rev()` -> while over the same positions; the loop invariants are emitted from the fixture's declarations; a loop of any other form, a labelled break or an assignment to an outer variable inside the loop -> function not taken (undecided, reported)",
 "G6 query access": "`slice[i]`, `&mut slice[i]` and `&*guard` on borrow guards -> shims named vx_at/vx_at_mut/vx_of/vx_of_mut with the contract of indexing (index < len)",
}
ARCHS = [("ArchAb", "arch_ab", 3, [("CompA", "comp_a", 0), ("CompB", "comp_b", 1)]),
         ("ArchBc", "arch_bc", 4, [("CompB", "comp_b", 0), ("CompC", "comp_c", 7)]),
         ("ArchDa", "arch_da", 1, [("CompD", "comp_d", 0), ("CompA", "comp_a", 1)])]

MAYPANIC = dict.fromkeys([x for x in build_core.MAYPANIC if x != "next"] + ["contains", "view", "borrow", "create", "resolve_view", "resolve_borrow", "resolve_contains", "resolve_create"])

def expand(repo, events, preds=None):
    """the expansion of the fixture crate against `repo`; preds: of the fixture whose items are decorated with predicates, those set"""
    repo = os.path.abspath(repo)
    base = os.environ.get("VERIF_BUILD", ROOT + "/.build") + "/gen"; os.makedirs(base, exist_ok=True)
    key = hashlib.sha256((repo + tree_hash(repo, HERE + "/genfix")).encode()).hexdigest()[:12]
    kind = ("ev" if events else "no") + ("" if preds is None else "-cfg" + preds)
    out = "%s/%s-%s.rs" % (base, key, kind)
    if os.path.exists(out): return open(out).read()
    with open(base + "/lock-%s" % ("ev" if events else "no"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out): return open(out).read()
        w = "%s/crate-%s-%s" % (base, key, kind)
        if os.path.exists(w): shutil.rmtree(w)
        os.makedirs(w + "/src")
        shutil.copy(HERE + "/genfix/src/" + ("main.rs" if preds is None else "cfgd.rs"), w + "/src/main.rs"); shutil.copy(HERE + "/genfix/Cargo.lock", w + "/Cargo.lock")
        t = open(HERE + "/genfix/Cargo.toml").read()
        t = re.sub(r'path\s*=\s*"[^"]*"', 'path = "%s"' % repo, t)
        open(w + "/Cargo.toml", "w").write(t)
        cmd = ["cargo", "+nightly", "rustc", "--offline", "-q"] + (["--features", "events"] if events else []) + ["--", "-Zunpretty=expanded", "-Awarnings"] + [x for p in preds or "" for x in ("--cfg", "vx_" + p)]
        env = dict(os.environ, CARGO_TARGET_DIR=base + "/target-%s" % ("ev" if events else "no"), RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
        fresh(env["CARGO_TARGET_DIR"], repo)
        p = subprocess.run(cmd, cwd=w, capture_output=True, text=True, env=env, timeout=300)
        shutil.rmtree(w)
        if p.returncode != 0: raise Lost("the fixture world does not expand: " + p.stderr[-600:])
        tmp = out + ".%d" % os.getpid(); open(tmp, "w").write(p.stdout); os.replace(tmp, out)
        return p.stdout

def sub_words(toks, m):
    out = []
    for x in toks:
        y = x.copy()
        if y.kind == "id" and y.text in m: y.text = m[y.text]
        out.append(y)
    return out

def find_seq(t, i, *texts):
    return seq_is(t, i, *texts)

class GenExtractor(Extractor):
    def rewrite(self, toks, ok, c):
        return super().rewrite(self.forms(strip_attrs(toks)), ok, c)

    def forms(self, t):
        out, i = [], 0
        # paths
        while i < len(t):
            if seq_is(t, i, ":", ":", "gecs", ":", ":", "__internal", ":", ":"): ws = t[i].ws; i += 8; t[i] = t[i].copy(ws); continue
            if seq_is(t, i, ":", ":", "core", ":", ":", "panicking", ":", ":", "panic_fmt", "("):
                e = match_close(t, i + 9); out += L(" panic!()", t[i].line); i = e + 1; continue
            if seq_is(t, i, ":", ":", "core", ":", ":", "clone", ":", ":", "Clone"): i += 8; continue
            if is_p(t, i, ")") and seq_is(t, i + 1, ".", "iter", "(", ")"):     # slice::iter on a returned slice
                out += [t[i], t[i + 1], Tok("id", "vx_iter", "", t[i].line)]; i += 3; continue
            out.append(t[i]); i += 1
        t = out
        # .map(PATH)
        out, i = [], 0
        while i < len(t):
            if seq_is(t, i, ".", "map", "(") and not is_p(t, i + 3, "|"):
                e = match_close(t, i + 2); f = t[i + 3:e]
                if all(x.kind == "id" or x.text == ":" for x in f):
                    call = L(" vx_e.into()", t[i].line) if squash(f) == "Into : : into" or text_of(f).strip() == "Into::into" else f + L("(vx_e)", t[i].line)
                    out += t[i:i + 3] + L("|vx_e|", t[i].line) + call + [t[e]]; i = e + 1; continue
            out.append(t[i]); i += 1
        t = out
        # X.ok()?
        i = 0
        while i < len(t):
            if seq_is(t, i, ".", "ok", "(", ")", "?"):
                s = self.chain_start(t, i); ln = t[i].line
                new = L(" (match ", ln) + t[s:i] + L(" { Ok(vx_t) => vx_t, Err(_) => return None })", ln)
                t = t[:s] + new + t[i + 5:]; i = s + 1; continue
            i += 1
        # constants in patterns:  P::CONST =>
        out, i = [], 0
        while i < len(t):
            if is_id(t, i) and seq_is(t, i + 1, ":", ":") and is_id(t, i + 3) and re.fullmatch(r"[A-Z][A-Z0-9_]+", t[i + 3].text) and is_p(t, i + 4, "=") and is_p(t, i + 5, ">"):
                out += L(" vx_p if vx_p == ", t[i].line) + t[i:i + 4]; i += 4; continue
            out.append(t[i]); i += 1
        return out

def per_arch(n):
    A, fld, aid, cols = ARCHS[n]
    S = "Storage2"
    c0, c1 = cols
    d = {"A": A, "f": fld, "id": aid, "T0": c0[0], "F0": c0[1], "I0": c0[2], "T1": c1[0], "F1": c1[1], "I1": c1[2], "ST": "Storage2::<%s, %s, %s>" % (A, c0[0], c1[0])}
    return d

def fill(t, d):
    return re.sub(r"\$(\w+)\$", lambda m: str(d[m.group(1)]), t)

ARCHSPEC = """
impl ArchSpec for $A$ {
    open spec fn a_wf(self) -> bool { self.data.wf() }
    open spec fn a_len(self) -> int { self.data.s_len() }
    open spec fn a_ver(self) -> u32 { self.data.s_ver() }
    open spec fn a_ent(self, i: int) -> EntityAny { self.data.ents()[i].any() }
    open spec fn a_pos(self, k: VxKey) -> Option<int> { match k { VxKey::E(e) => self.data.lookup(e), VxKey::D(d) => self.data.dlookup(d) } }
    open spec fn a_panic(self, k: VxKey) -> bool { match k { VxKey::E(e) => self.data.s_panic_entity(e), VxKey::D(d) => self.data.s_panic_direct(d) } }
    open spec fn a_over(self, k: VxKey) -> bool {
        match k { VxKey::E(e) => ver_overflow(e.v()) || ver_overflow(self.data.s_ver()),
                  VxKey::D(d) => ver_overflow(self.data.slot_ver(key_idx(self.data.ents()[self.data.dlookup(d).unwrap()].k()))) || ver_overflow(self.data.s_ver()) }
    }
    open spec fn a_removed(pre: Self, post: Self, p: int) -> bool { $ST$::removed(pre.data, post.data, p) }
    open spec fn a_out(self, p: int, out: $A$Components) -> bool { out.$F0$ == self.data.col0()[p] && out.$F1$ == self.data.col1()[p] }
    #[verifier::prophetic]
    open spec fn a_viewed<'a>(pre: Self, post: Self, p: int, v: $A$View<'a>) -> bool {
        &&& v.index == p && 0 <= p < pre.data.s_len() && *v.entity == pre.data.ents()[p]
        &&& *v.$F0$ == pre.data.col0()[p] && post.data.col0() =~= pre.data.col0().update(p, *final(v.$F0$))
        &&& *v.$F1$ == pre.data.col1()[p] && post.data.col1() =~= pre.data.col1().update(p, *final(v.$F1$))
        &&& $ST$::same_but_cols(pre.data, post.data)
    }
    open spec fn a_borrowed<'a>(self, p: int, b: $A$Borrow<'a>) -> bool { b.0.wf() && b.0.s_index() == p && *b.0.s_source() == self.data }
}
"""
HAS = """
    open spec fn h_col(self) -> Seq<$T$> { self.data.col$N$() }
    open spec fn h_cell(self) -> int { self.data.cell$N$() }
    open spec fn h_comp(c: $A$Components) -> $T$ { c.$F$ }
    open spec fn h_view<'a>(v: $A$View<'a>) -> $T$ { *v.$F$ }
    open spec fn h_bval<'a>(b: $A$Borrow<'a>) -> $T$ { b.0.s_source().col$N$()[b.0.s_index()] }
    open spec fn h_bcell<'a>(b: $A$Borrow<'a>) -> int { b.0.s_source().cell$N$() }
    open spec fn h_bok<'a>(b: $A$Borrow<'a>) -> bool { b.0.wf() }
    open spec fn h_only(pre: Self, post: Self) -> bool { $ST$::same_but_col$N$(pre.data, post.data) }
    open spec fn h_same(pre: Self, post: Self) -> bool { $ST$::same_all(pre.data, post.data) }
"""

def world_specs():
    """spec members of the world's impls, keyed by impl name"""
    r = {}
    others = lambda n: "".join(" && pre.%s == post.%s" % (ARCHS[k][1], ARCHS[k][1]) for k in range(3) if k != n)
    for n in range(3):
        d = per_arch(n)
        r["WorldHas<%s> for EcsWorld" % d["A"]] = fill("""
    open spec fn w_arch(self) -> $A$ { self.$f$ }
    open spec fn w_only(pre: Self, post: Self) -> bool { true%s }
    open spec fn w_full(self) -> bool { self.$f$.data.s_len() >= max_cap() }
    open spec fn w_room(pre: $A$) -> bool { pre.data.s_len() < pre.data.s_cap() }
    open spec fn w_created(pre: $A$, post: $A$, c: $A$Components, e: Entity<$A$>) -> bool { cr_$A$(pre, post, c, e) }
    open spec fn w_refused(pre: $A$, c: $A$Components, back: $A$Components) -> bool { pre.data.s_len() == pre.data.s_cap() && back == c }
""" % others(n), d)
        for K, V in (("Entity", "E"), ("EntityDirect", "D")):
            out = "Option<%sComponents>" % d["A"]
            r["WorldCanResolve<%s<%s>> for EcsWorld" % (K, d["A"])] = fill("""
    open spec fn w_known(k: %s<$A$>) -> bool { true }
    open spec fn w_pos(self, k: VxKey) -> Option<int> { self.$f$.a_pos(k) }
    open spec fn w_panic(self, k: VxKey) -> bool { self.$f$.a_panic(k) }
    open spec fn w_over(self, k: VxKey) -> bool { a_dead(self.$f$, k) }
    open spec fn w_direct(self, k: VxKey, d: EntityDirectAny) -> bool { a_direct_of(self.$f$, self.$f$.a_pos(k).unwrap(), d) }
    open spec fn w_destroyed(pre: Self, post: Self, k: VxKey, out: %s) -> bool {
        match pre.$f$.a_pos(k) { Some(p) => $A$::a_removed(pre.$f$, post.$f$, p) && out is Some && pre.$f$.a_out(p, out.unwrap())%s, None => out is None && pre == post }
    }
""" % (K, out, others(n)), d)
    def chain(f, els):
        s = els
        for n in reversed(range(3)):
            s = "if vx_kid(k) == %d { %s } else { %s }" % (ARCHS[n][2], f(n, ARCHS[n][1], ARCHS[n][0]), s)
        return s
    for K in ("EntityAny", "EntityDirectAny"):
        r["WorldCanResolve<%s> for EcsWorld" % K] = """
    open spec fn w_known(k: %s) -> bool { key_arch(k.k()) == 3 || key_arch(k.k()) == 4 || key_arch(k.k()) == 1 }
    open spec fn w_pos(self, k: VxKey) -> Option<int> { %s }
    open spec fn w_panic(self, k: VxKey) -> bool { %s }
    open spec fn w_over(self, k: VxKey) -> bool { %s }
    open spec fn w_direct(self, k: VxKey, d: EntityDirectAny) -> bool { %s }
    open spec fn w_destroyed(pre: Self, post: Self, k: VxKey, out: Option<()>) -> bool { %s }
""" % (K, chain(lambda n, f, A: "self.%s.a_pos(k)" % f, "None"), chain(lambda n, f, A: "self.%s.a_panic(k)" % f, "true"),
            chain(lambda n, f, A: "a_dead(self.%s, k)" % f, "false"),
            chain(lambda n, f, A: "a_direct_of(self.%s, self.%s.a_pos(k).unwrap(), d)" % (f, f), "false"),
            chain(lambda n, f, A: "match pre.%s.a_pos(k) { Some(p) => %s::a_removed(pre.%s, post.%s, p) && out is Some%s, None => out is None && pre == post }" % (f, A, f, f, others(n)), "false"))
    return r

REFFROM = """
impl<'a, A: Archetype> vstd::std_specs::convert::FromSpecImpl<&'a Entity<A>> for &'a EntityAny { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(v: &'a Entity<A>) -> &'a EntityAny { &v.inner } }
impl<'a, A: Archetype> From<&'a Entity<A>> for &'a EntityAny { #[verifier::external_body] fn from(value: &'a Entity<A>) -> Self { unimplemented!() } }
impl<'a, A: Archetype> vstd::std_specs::convert::FromSpecImpl<&'a EntityDirect<A>> for &'a EntityDirectAny { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(v: &'a EntityDirect<A>) -> &'a EntityDirectAny { &v.inner } }
impl<'a, A: Archetype> From<&'a EntityDirect<A>> for &'a EntityDirectAny { #[verifier::external_body] fn from(value: &'a EntityDirect<A>) -> Self { unimplemented!() } }
"""
EVCLEAR = """
pub open spec fn ev_clear_$A$(a: $A$, b: $A$) -> bool { b.data.s_created() =~= Seq::<Entity<$A$>>::empty() && b.data.s_destroyed() =~= Seq::<Entity<$A$>>::empty() && $ST$::same_but_events(a.data, b.data) }
"""
CREATED = """
pub open spec fn cr_$A$(pre: $A$, post: $A$, c: $A$Components, e: Entity<$A$>) -> bool {
    &&& post.data.ents() =~= pre.data.ents().push(e) && key_arch(e.k()) == $A$::ARCHETYPE_ID
    &&& post.data.col0() =~= pre.data.col0().push(c.$F0$) && post.data.cell0() == pre.data.cell0()
    &&& post.data.col1() =~= pre.data.col1().push(c.$F1$) && post.data.cell1() == pre.data.cell1()
    &&& (if pre.data.s_len() < pre.data.s_cap() { post.data.s_cap() == pre.data.s_cap() } else { pre.data.s_cap() < post.data.s_cap() <= max_cap() })
    &&& $ST$::created_meta(pre.data, post.data)
    &&& $ST$::created_slots(pre.data, post.data, e.any())
    &&& $ST$::created_events(pre.data, post.data, e)
}
pub open spec fn fresh_$A$(a: $A$) -> bool {
    &&& a.data.wf() && a.data.s_len() == 0 && a.data.s_ver() == 1 && a.data.ents() =~= Seq::<Entity<$A$>>::empty() && $ST$::no_events(a.data)
}
pub open spec fn cloned_$A$(a: $A$, r: $A$) -> bool {
    &&& r.data.wf() && $ST$::same_meta(a.data, r.data) && r.data.ents() =~= a.data.ents() && $ST$::same_events(a.data, r.data)
    &&& forall|s: int| 0 <= s < a.data.s_cap() ==> (#[trigger] r.data.slot(s)) == a.data.slot(s)
    &&& r.data.col0().len() == a.data.s_len() && forall|i: int| 0 <= i < a.data.s_len() ==> cloned(#[trigger] a.data.col0()[i], r.data.col0()[i])
    &&& r.data.col1().len() == a.data.s_len() && forall|i: int| 0 <= i < a.data.s_len() ==> cloned(#[trigger] a.data.col1()[i], r.data.col1()[i])
}
pub closed spec fn mk_e_$A$(e: EntityAny) -> Entity<$A$> { Entity::<$A$> { inner: e, _type: PhantomData } }
pub closed spec fn mk_d_$A$(e: EntityDirectAny) -> EntityDirect<$A$> { EntityDirect::<$A$> { inner: e, _type: PhantomData } }
"""
WORLDSPEC = """
pub open spec fn vx_kid(k: VxKey) -> u8 { match k { VxKey::E(e) => key_arch(e.k()), VxKey::D(d) => key_arch(d.k()) } }
impl WorldSpec for EcsWorld { open spec fn w_wf(self) -> bool { self.arch_ab.a_wf() && self.arch_bc.a_wf() && self.arch_da.a_wf() } }
"""

def select_specs():
    """what the conversions to the generated Select enums give"""
    out = []
    def chain(sel, suffix, mk, key):
        s = "Err(EcsError::InvalidEntityType)"
        for A, f, i, cols in reversed(ARCHS):
            s = "if %s == %d { Ok(%s::%s%s) } else { %s }" % (key, i, sel, A + suffix, ("(%s_%s(v))" % (mk, A)) if mk else "", s)
        return s
    for src, sel, body in (("ArchetypeId", "SelectArchetype", chain("SelectArchetype", "", None, "v")),
                           ("EntityAny", "SelectArchetype", chain("SelectArchetype", "", None, "key_arch(v.k())")),
                           ("EntityAny", "SelectEntity", chain("SelectEntity", "", "mk_e", "key_arch(v.k())")),
                           ("EntityDirectAny", "SelectEntityDirect", chain("SelectEntityDirect", "", "mk_d", "key_arch(v.k())")),
                           ("EntityAny", "__EcsWorldSelectTotal", chain("__EcsWorldSelectTotal", "", "mk_e", "key_arch(v.k())")),
                           ("EntityDirectAny", "__EcsWorldSelectTotal", chain("__EcsWorldSelectTotal", "Direct", "mk_d", "key_arch(v.k())"))):
        out.append("impl vstd::std_specs::convert::TryFromSpecImpl<%s> for %s { open spec fn obeys_try_from_spec() -> bool { true }\n    open spec fn try_from_spec(v: %s) -> Result<Self, EcsError> { %s } }" % (src, sel, src, body))
        if sel == "__EcsWorldSelectTotal":
            for ref in ("&'vx ", "&'vx mut "):
                out.append("impl<'vx> vstd::std_specs::convert::TryFromSpecImpl<%s%s> for %s { open spec fn obeys_try_from_spec() -> bool { true }\n    open spec fn try_from_spec(v: %s%s) -> Result<Self, EcsError> { <Self as vstd::std_specs::convert::TryFromSpec<%s>>::try_from_spec(*v) } }" % (ref, src, sel, ref, src, src))
    for A, f, i, cols in ARCHS:
        for src, sel, e in (("Entity", "SelectArchetype", ""), ("EntityDirect", "SelectArchetype", ""), ("Entity", "SelectEntity", "(v)"), ("&Entity", "SelectEntity", "(*v)"),
                            ("EntityDirect", "SelectEntityDirect", "(v)"), ("&EntityDirect", "SelectEntityDirect", "(*v)"), ("Entity", "__EcsWorldSelectTotal", "(v)"), ("EntityDirect", "__EcsWorldSelectTotal", "(v)")):
            var = A + ("Direct" if src == "EntityDirect" and "Total" in sel else "")
            lt = "<'vx>" if src[0] == "&" else ""
            ty = src.replace("&", "&'vx ") + "<%s>" % A
            out.append("impl%s vstd::std_specs::convert::FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { true }\n    open spec fn from_spec(v: %s) -> %s { %s::%s%s } }" % (lt, ty, sel, ty, sel, sel, var, e))
        c = dict((q, t) for q, t in enumerate(cols))
        out.append(fill("""impl vstd::std_specs::convert::FromSpecImpl<($T0$, $T1$)> for $A$Components { open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ($T0$, $T1$)) -> $A$Components { $A$Components { $F0$: v.0, $F1$: v.1 } } }
impl vstd::std_specs::convert::FromSpecImpl<$A$Components> for ($T0$, $T1$) { open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $A$Components) -> ($T0$, $T1$) { (v.$F0$, v.$F1$) } }""", per_arch([x[0] for x in ARCHS].index(A))))
    return "\n".join(out)

CONTRACTS = """
fn $A$::new -> r
  ensures[C03,C12]: fresh_$A$(r)
fn $A$::with_capacity -> r
  panics: $1 > 0x100_0000
  ensures[C03,C12]: fresh_$A$(r)
  ensures[C12]: $1 <= 0x100_0000 && r.data.s_cap() >= $1 && forall|s: int| 0 <= s < r.data.s_cap() ==> (#[trigger] r.data.slot_free(s)) && r.data.slot_ver(s) == 1
fn $A$::len -> r
  ensures[C06,C12]: r == self.a_len()
fn $A$::capacity -> r
  ensures[C12]: r == self.data.s_cap()
fn $A$::is_empty -> r
  ensures[C12]: r == (self.a_len() == 0)
fn $A$::version -> r
  ensures[C09]: r.sv() == self.a_ver()
fn $A$::entities -> r
  requires[C03]: self.a_wf()
  ensures[C01,C06]: r@ =~= self.data.ents()
fn $A$::create -> r
  panics: old(self).data.s_len() >= max_cap()
  requires[C03]: old(self).a_wf()
  ensures[C01,C02,C12,C17]: cr_$A$(*old(self), *final(self), $1, r)
  ensures[C03,C10]: final(self).a_wf()
fn $A$::create_within_capacity -> r
  requires[C03]: old(self).a_wf()
  entry: old(self).data.lemma_len();
  ensures[C01,C02,C12,C17]: match r { Ok(e) => cr_$A$(*old(self), *final(self), $1, e) && old(self).data.s_len() < old(self).data.s_cap(), Err(c) => c == $1 && *final(self) == *old(self) && old(self).data.s_len() == old(self).data.s_cap() }
  ensures[C03,C10]: final(self).a_wf()
fn $A$::iter -> r
  requires[C03]: old(self).a_wf()
  ensures[C03,C06]: r.ok() && r.s_remaining() == old(self).a_len() && r.s_off() == 0
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.ent_at(i)) == old(self).data.ents()[i]
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.c0_at(i)) == old(self).data.col0()[i]
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.c1_at(i)) == old(self).data.col1()[i]
  ensures[C02,C06]: $ST$::same_all(old(self).data, final(self).data)
fn $A$::iter_mut -> r
  requires[C03]: old(self).a_wf()
  ensures[C03,C06]: r.ok() && r.s_remaining() == old(self).a_len() && r.s_off() == 0
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.ent_at(i)) == old(self).data.ents()[i]
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.c0_at(i)) == old(self).data.col0()[i]
  ensures[C02,C06]: forall|i: int| 0 <= i < old(self).a_len() ==> (#[trigger] r.c1_at(i)) == old(self).data.col1()[i]
fn $A$::get_all_slices_mut -> r
  requires[C03]: old(self).a_wf()
  entry: $ST$::lemma_all_same_wf(old(self).data);
  ensures[C06]: r.entity@ == old(self).data.ents()
  ensures[C02,C05,C06]: r.$F0$@ == old(self).data.col0() && final(self).data.col0() =~= final(r.$F0$)@
  ensures[C02,C05,C06]: r.$F1$@ == old(self).data.col1() && final(self).data.col1() =~= final(r.$F1$)@
  ensures[C01,C02,C09,C12]: $ST$::same_but_cols(old(self).data, final(self).data) && final(self).a_wf()
fn $A$::vx_clone -> r
  requires[C03]: self.a_wf()
  requires[C11]: vx_may(self.data.cell0(), false) && vx_may(self.data.cell1(), false)
  ensures[C11]: vx_took(self.data.cell0(), false) && vx_took(self.data.cell1(), false)
  ensures[C13,C01,C08,C12]: cloned_$A$(*self, r)
fn $A$Components::get -> r
  ensures[C02,C05]: *r == <$A$ as ArchetypeHas<C>>::h_comp(*self)
fn $A$Components::get_mut -> r
  ensures[C02,C05]: *r == <$A$ as ArchetypeHas<C>>::h_comp(*old(self)) && <$A$ as ArchetypeHas<C>>::h_comp(*final(self)) == *final(r)
fn $A$Components::into_tuple -> r
  ensures[C02,C04]: r.0 == self.$F0$ && r.1 == self.$F1$
fn $A$View::index -> r
  ensures[C01,C02]: r == self.index
fn $A$View::component -> r
  ensures[C02,C05]: *r == <$A$ as ArchetypeHas<C>>::h_view(*self)
fn $A$View::component_mut -> r
  ensures[C02,C05]: *r == <$A$ as ArchetypeHas<C>>::h_view(*old(self)) && <$A$ as ArchetypeHas<C>>::h_view(*final(self)) == *final(r)
fn $A$Borrow::index -> r
  ensures[C01,C02]: r == self.0.s_index()
fn $A$Borrow::entity -> r
  requires[C03]: self.0.wf()
  ensures[C01,C02]: *r == self.0.s_source().ents()[self.0.s_index()]
fn $A$Borrow::component -> r
  requires[C03]: <$A$ as ArchetypeHas<C>>::h_bok(*self)
  requires[C11]: vx_may(<$A$ as ArchetypeHas<C>>::h_bcell(*self), false)
  ensures[C02,C05]: *r.tgt() == <$A$ as ArchetypeHas<C>>::h_bval(*self)
  ensures[C11]: r.guard() == (<$A$ as ArchetypeHas<C>>::h_bcell(*self), false)
fn $A$Borrow::component_mut -> r
  requires[C03]: <$A$ as ArchetypeHas<C>>::h_bok(*self)
  requires[C11]: vx_may(<$A$ as ArchetypeHas<C>>::h_bcell(*self), true)
  ensures[C02,C05]: *r.tgt() == <$A$ as ArchetypeHas<C>>::h_bval(*self)
  ensures[C11]: r.guard() == (<$A$ as ArchetypeHas<C>>::h_bcell(*self), true)
"""
EVSPEC = """
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VxIter<'a, T> { x: &'a [T] }
impl<'a, T> VxIter<'a, T> {
    pub uninterp spec fn sv(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => old(self).sv().len() > 0 && *x == old(self).sv()[0] && final(self).sv() =~= old(self).sv().drop_first(), None => old(self).sv().len() == 0 && final(self).sv() =~= old(self).sv() }
    { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &'a [T]) ensures r@ == self.sv() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.sv().len() && r <= usize::MAX / 16 { unimplemented!() }
    // a slice of 8-byte handles has at most isize::MAX / 8 of them
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.sv().len() && r.1 == Some(r.0) && r.0 <= usize::MAX / 16 { unimplemented!() }
}
pub trait VxSliceIter<T> { fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) ensures r.sv() == self.vx_sl(); spec fn vx_sl(&self) -> Seq<T>; }
impl<T> VxSliceIter<T> for [T] { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { unimplemented!() } }
pub open spec fn vx_anys<A: Archetype>(s: Seq<Entity<A>>) -> Seq<EntityAny> { Seq::new(s.len(), |i: int| s[i].any()) }
impl<'a> EcsEventIterator<'a> {
    // the handles still to be yielded: archetypes in declaration order, each log in order
    pub closed spec fn rest(self) -> Seq<EntityAny> {
        (if self.which <= 0 { vx_anys(self.iter_arch_ab.sv()) } else { Seq::empty() }) + (if self.which <= 1 { vx_anys(self.iter_arch_bc.sv()) } else { Seq::empty() }) + (if self.which <= 2 { vx_anys(self.iter_arch_da.sv()) } else { Seq::empty() })
    }
}
"""
CONTRACTS_EV = """
fn $A$::iter_created -> r
  ensures[C17]: r.sv() =~= self.data.s_created()
fn $A$::iter_destroyed -> r
  ensures[C17]: r.sv() =~= self.data.s_destroyed()
fn $A$::clear_events
  ensures[C17]: final(self).data.s_created() =~= Seq::<Entity<$A$>>::empty() && final(self).data.s_destroyed() =~= Seq::<Entity<$A$>>::empty()
  ensures[C17,C01,C02]: $ST$::same_but_events(old(self).data, final(self).data)
"""
WCONTRACTS_EV = """
fn EcsEventIterator::next -> r
  ensures[C17]: match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest() }
fn EcsEventIterator::size_hint -> r
  ensures[C17]: r.0 == self.rest().len() && r.1 == Some(r.0)
fn EcsWorld::iter_created -> r
  ensures[C17]: r.rest() =~= vx_anys(self.arch_ab.data.s_created()) + vx_anys(self.arch_bc.data.s_created()) + vx_anys(self.arch_da.data.s_created())
fn EcsWorld::iter_destroyed -> r
  ensures[C17]: r.rest() =~= vx_anys(self.arch_ab.data.s_destroyed()) + vx_anys(self.arch_bc.data.s_destroyed()) + vx_anys(self.arch_da.data.s_destroyed())
fn EcsWorld::clear_events
  ensures[C17]: ev_clear_ArchAb(old(self).arch_ab, final(self).arch_ab) && ev_clear_ArchBc(old(self).arch_bc, final(self).arch_bc) && ev_clear_ArchDa(old(self).arch_da, final(self).arch_da)
"""
WCONTRACTS = """
fn EcsStepDestroy::is_destroy -> r
  ensures[C07]: r == (self is ContinueDestroy || self is BreakDestroy)
fn EcsWorld::new -> r
  ensures[C03,C12]: fresh_ArchAb(r.arch_ab) && fresh_ArchBc(r.arch_bc) && fresh_ArchDa(r.arch_da)
fn EcsWorld::with_capacity -> r
  panics: $1.arch_ab > 0x100_0000 || $1.arch_bc > 0x100_0000 || $1.arch_da > 0x100_0000
  ensures[C03,C12]: fresh_ArchAb(r.arch_ab) && fresh_ArchBc(r.arch_bc) && fresh_ArchDa(r.arch_da)
  ensures[C12]: r.arch_ab.data.s_cap() >= $1.arch_ab && r.arch_bc.data.s_cap() >= $1.arch_bc && r.arch_da.data.s_cap() >= $1.arch_da
fn EcsWorld::vx_clone -> r
  requires[C03]: self.w_wf()
  requires[C11]: vx_may(self.arch_ab.data.cell0(), false) && vx_may(self.arch_ab.data.cell1(), false) && vx_may(self.arch_bc.data.cell0(), false) && vx_may(self.arch_bc.data.cell1(), false) && vx_may(self.arch_da.data.cell0(), false) && vx_may(self.arch_da.data.cell1(), false)
  ensures[C13,C01,C08,C12]: cloned_ArchAb(self.arch_ab, r.arch_ab) && cloned_ArchBc(self.arch_bc, r.arch_bc) && cloned_ArchDa(self.arch_da, r.arch_da)
fn SelectArchetype::archetype_id -> r
  ensures[C14,C15]: r == (match self { SelectArchetype::ArchAb => 3u8, SelectArchetype::ArchBc => 4u8, SelectArchetype::ArchDa => 1u8 })
"""
IDS = """
/*@fn declared_ids*/ fn declared_ids()
    ensures
/*@declared_ids|C15,C14*/ ArchAb::ARCHETYPE_ID == 3 && ArchBc::ARCHETYPE_ID == 4 && ArchDa::ARCHETYPE_ID == 1,
/*@declared_ids|C15*/ <ArchAb as ArchetypeHas<CompA>>::COMPONENT_ID == 0 && <ArchAb as ArchetypeHas<CompB>>::COMPONENT_ID == 1,
/*@declared_ids|C15*/ <ArchBc as ArchetypeHas<CompB>>::COMPONENT_ID == 0 && <ArchBc as ArchetypeHas<CompC>>::COMPONENT_ID == 7,
/*@declared_ids|C15*/ <ArchDa as ArchetypeHas<CompD>>::COMPONENT_ID == 0 && <ArchDa as ArchetypeHas<CompA>>::COMPONENT_ID == 1,
/*@declared_ids|C15*/ EcsWorld::NUM_ARCHETYPES == 3,
{ }
"""

FN_DEFAULT = {"C01", "C02", "C03", "C05", "C10", "C12", "C14"}

def build(repo, cfg, skip=()):
    events = bool(cfg.get("feature=events"))
    exp = expand(repo, events, cfg.get("preds"))
    gspec = open(HERE + "/contracts/gen_spec.rs").read()
    core, cex, cmiss, cexcl = build_core.build(repo, cfg, 2, (), gen="@gen@")
    core = core.replace("@gen@", gspec)
    core = core.replace("reject_recursive_types(", "accept_recursive_types(")
    core = re.sub(r"(pub struct \w+<[^{;(]*?)A: ?Archetype", r"\1A", core)
    if cex.lost: raise Lost("core: " + str(cex.lost))
    ctext = ""
    for n in range(3): ctext += fill(CONTRACTS + (CONTRACTS_EV if events else ""), dict(per_arch(n), **{}))
    contracts = parse_contracts(ctext + WCONTRACTS + (WCONTRACTS_EV if events else ""))
    ex = GenExtractor(contracts, cfg, MAYPANIC)
    ex.nocall = set(); ex.single_ok = True
    ex.skip = set(skip)
    fnlabels = {}
    out, excl = [], []
    names = [a[0] for a in ARCHS]
    wspec = world_specs()

    tlab = {}
    for m in re.finditer(r"/\*@([^*|]+)\|([C\d,]+)\*/", gspec): tlab.setdefault(m.group(1), set()).update(m.group(2).split(","))
    ex.fn_default = {}; ex.extra_decl = []
    def auto(key, name, entry=""):
        """functions that implement a trait function carry the trait's contract"""
        lab = tlab.get(name)
        if lab is None:
            lab = {"raw_new": {"C02", "C04"}, "raw_get": {"C02", "C04"}, "new": {"C02", "C05"}}.get(name)
            if lab is None: lab = {"C02", "C04"} if "Components" in key else {"C14", "C15"} if "SelectArchetype" in key else {"C14", "C01"}
        ex.fn_default[key] = lab
        c = contracts.get(key)
        if c is None: c = contracts[key] = Contract(key)
        c.used = True
        if name in MAYPANIC and c.panics is None: c.panics = "vx_ok@"
        if entry: c.entry += entry
        return c

    # provided methods of the public traits
    tr = {it.name: it for it in parse_items(apply_cfg(lex(open(repo + "/src/traits.rs").read()), cfg)) if it.kind == "trait"}
    def provided(trait): return [f for f in parse_items(tr[trait].body) if f.kind == "fn" and f.body is not None]
    def unparam(f, arch=None):
        """impl Into<X> parameters at X; `.into()` on them dropped; bounds at the spec traits"""
        sig, body = list(f.sig), list(f.body)
        i, p = 0, []
        while i < len(sig):
            if is_id(sig, i, "impl") and is_id(sig, i + 1, "Into") and is_p(sig, i + 2, "<"):
                j = skip_generics(sig, i + 2)
                k = i - 2
                p.append(sig[k].text); sig = sig[:i] + sig[i + 3:j - 1] + sig[j:]; continue
            i += 1
        for v in p:
            i = 0
            while i < len(body):
                if is_id(body, i, v) and seq_is(body, i + 1, ".", "into", "(", ")"): body = body[:i + 1] + body[i + 5:]
                i += 1
        g = Item("fn", f.name, f.toks, attrs=f.attrs, sig=sig, body=body, quals=f.quals)
        return g
    def respec(toks):
        r = []
        for q, x in enumerate(toks):
            y = x.copy()
            if y.kind == "id" and y.text == "Archetype" and q > 0 and is_p(toks, q - 1, ":") and not is_p(toks, q - 2, ":"): y.text = "ArchSpec"
            r.append(y)
        return r
    have = {"Archetype": re.findall(r"fn (\w+)<", gspec[gspec.index("pub trait ArchetypeX"):gspec.index("pub trait WorldX")]), "World": re.findall(r"fn (\w+)<", gspec[gspec.index("pub trait WorldX"):])}
    for T, X, B in (("Archetype", "ArchetypeX", "A: ArchSpec"), ("World", "WorldX", "W: WorldSpec")):
        parts, got = [], set()
        for f in provided(T):
            if f.name not in have[T]: ex.uncontracted.append(X + "::" + f.name); continue
            got.add(f.name); key = X + "::" + f.name; auto(key, f.name)
            g = unparam(f); g.sig = respec(g.sig)
            parts.append(ex.emit_fn(g, X, key=key, trait_sig=True))
        for m in sorted(set(have[T]) - got): raise Lost("provided method %s::%s is gone" % (T, m))
        out.append("impl<%s> %s for %s {\n%s\n}" % (B, X, B[0], "\n".join(parts)))

    items = []
    def flat(its):
        for it in its:
            if "automatically_derived" in squash(it.attrs): continue
            if it.kind == "mod":
                if it.body is not None and it.name != "archetypes": flat(parse_items(it.body))
                continue
            if it.kind in ("use", "macro", "extern") or it.name in ("macro_rules", "St", "Sd", "Rt", "main"): continue
            items.append(it)
    src = lex(exp)
    src = drop_extern(src)
    flat(parse_items(src))
    ex.inlined = inline.run([[i for i in items if not (i.kind == "fn" and re.match(r"q\d_", i.name))]], contracts)
    items = [i for i in items if not (i.kind == "fn" and i.name in ex.inlined)]
    queries = []
    for it in items:
        if it.kind in ("struct", "enum"):
            if it.name == "EcsEventIterator": out.append(ev_struct(it)); continue
            t = text_of(strip_attrs(it.toks)).strip()
            d = ""
            if it.name.endswith("Borrow") or it.name.startswith("Select") or it.name.startswith("__EcsWorldSelect"): d = "#[derive(Clone, Copy)]\n"
            t = re.sub(r"(\n\s*)(index: usize)", r"\1pub \2", t)
            t = re.sub(r"Borrow<'a>\((?!pub)", "Borrow<'a>(pub ", t)
            if re.fullmatch(r"Comp[A-D]", it.name): t += "\nimpl Clone for %s { #[verifier::external_body] fn clone(&self) -> Self { %s(self.0) } }" % (it.name, it.name)
            out.append(d + t); continue
        if it.kind == "fn": queries.append(it); continue
        if it.kind == "impl": emit_impl(it, ex, contracts, out, excl, auto, unparam, wspec, events, provided); continue
        if it.kind in ("const", "type", "static"): out.append(text_of(strip_attrs(it.toks))); continue
        raise Lost("generated item " + it.kind + " " + it.name)
    steps(repo, cfg, ex, auto, out)
    want = set("%s_%s" % x for x in FIXTURE)
    for it in queries:
        q = build_queries.query(ARCHS, it.name)
        if q is None: raise Lost("fixture query " + it.name)
        want.discard(it.name)
        out.append(build_queries.declarations(ARCHS, q)); out.append(build_queries.emit(it, q, ARCHS, ex, ex.skip))
    if want: raise Lost("queries missing from the expansion: %s" % sorted(want))
    out += ex.extra_decl; out.append(build_queries.PRELUDE)
    specs = "".join(fill(ARCHSPEC, per_arch(n)) + fill(CREATED, per_arch(n)) for n in range(3)) + WORLDSPEC + select_specs() + REFFROM
    if events: specs += EVSPEC + "".join(fill(EVCLEAR, per_arch(n)) for n in range(3))
    missing = [k for k, c in contracts.items() if not c.used]
    text = "#![allow(unused_imports, dead_code, unused_variables, unused_unsafe, unused_mut, unused_parens, unused_braces, unreachable_code, non_camel_case_types)]\n" \
           "use vstd::prelude::*;\nuse std::marker::PhantomData;\nverus! {\n" + core + specs + "\n" + "\n".join(out) + IDS + "\n} // verus!\nfn main() {}\n"
    return text, ex, missing, excl

FIXTURE = [("q0", "iter"), ("q1", "iter"), ("q2", "iter"), ("q0", "iterb"), ("q1", "iterb"), ("q0", "iterd"), ("q1", "iterd"), ("q0", "find"), ("q1", "find"), ("q1", "findd"), ("q1", "findt"), ("q1", "findb"), ("q0", "findb"), ("q2", "iterb"), ("q2", "find"), ("q1", "finddt"), ("q3", "iter"), ("q3", "iterd"), ("q3", "findb")]
STEPSPEC = """
impl vstd::std_specs::convert::FromSpecImpl<()> for EcsStep { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ()) -> EcsStep { EcsStep::Continue } }
impl vstd::std_specs::convert::FromSpecImpl<()> for EcsStepDestroy { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ()) -> EcsStepDestroy { EcsStepDestroy::Continue } }
impl vstd::std_specs::convert::FromSpecImpl<EcsStep> for EcsStepDestroy { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: EcsStep) -> EcsStepDestroy { match v { EcsStep::Continue => EcsStepDestroy::Continue, EcsStep::Break => EcsStepDestroy::Break } } }
"""
def steps(repo, cfg, ex, auto, out):
    """iter.rs: what a closure's result means"""
    out.append(STEPSPEC)
    for it in parse_items(apply_cfg(lex(open(repo + "/src/iter.rs").read()), cfg)):
        if it.kind == "enum": out.append(text_of(strip_attrs(it.toks)).strip()); continue
        if it.kind == "impl":
            parts = []
            for f in parse_items(strip_attrs(it.body)):
                key = it.name + "::" + f.name
                f.sig = [x if not (x.text == "_" and is_p(f.sig, q + 1, ":")) else Tok("id", "vx_unused", x.ws, x.line) for q, x in enumerate(f.sig)]
                if f.name == "from": auto(key, "from"); ex.fn_default[key] = {"C06", "C07"}
                parts.append(ex.emit_fn(f, it.name, key=key, trait_sig=" for " in it.name))
            out.append(text_of(strip_attrs(it.head)).strip() + " {\n" + "\n".join(parts) + "\n}"); continue
        if it.kind == "use": continue
        raise Lost("iter.rs item " + it.kind)

def drop_extern(t):
    out, i = [], 0
    while i < len(t):
        if is_id(t, i, "extern") and is_id(t, i + 1, "crate"):
            while not is_p(t, i, ";"): i += 1
            i += 1; continue
        out.append(t[i]); i += 1
    return out

ENTRY = {
    ("ArchetypeCanResolve", "resolve_direct"): "match vx_key_of($1) { VxKey::E(e) => { self.data.lemma_lookup_arch(e); } VxKey::D(d) => { self.data.lemma_dlookup(d); } }",
}

def emit_impl(it, ex, contracts, out, excl, auto, unparam, wspec, events, provided):
    name = it.name
    head = strip_attrs(it.head); body = parse_items(strip_attrs(it.body))
    trait, ty = (name.split(" for ") + [None])[:2] if " for " in name else (None, name)
    fns = [b for b in body if b.kind == "fn" and not (trait is None and ty + "::" + b.name in ex.inlined)]; rest = [b for b in body if b.kind != "fn"]
    restt = [text_of(b.toks) for b in rest]
    hs = text_of(head).strip()
    A = next((a for a in ARCHS if ty in (a[0], a[0] + "Components", a[0] + "Slices", a[0] + "View", a[0] + "Borrow")), None)
    d = per_arch(ARCHS.index(A)) if A else None
    tn = trait.split("<")[0] if trait else None
    if tn in ("TrivialClone", "Copy", "Default") or name.startswith("Default for"): excl.append(name); return
    def inherent_head(gen=""):
        return "impl%s %s" % (gen, ty + gen)
    if tn == "Archetype" or tn == "World":
        keep = [x for b, x in zip(rest, restt) if not b.name.startswith("IterItem")]
        out.append("impl %s for %s {\n%s\n}" % (tn, ty, "\n".join(keep)))
        parts = []
        for f in fns:
            g = unparam(f)
            g.sig = self_assoc(g.sig, tn); g.body = self_assoc(g.body, tn)
            key = ty + "::" + f.name
            rt = None
            if tn == "Archetype" and f.name in ("iter", "iter_mut"): rt = L(" %s<'_, %s, %s, %s>" % ({"iter": "Iter2", "iter_mut": "IterMut2"}[f.name], ty, d["T0"], d["T1"]))
            if tn == "Archetype" and f.name in ("iter_created", "iter_destroyed"): rt = L(" VxIter<'_, Entity<%s>>" % ty)
            if tn == "World" and f.name in ("iter_created", "iter_destroyed"): rt = L(" EcsEventIterator<'_>")
            parts.append(ex.emit_fn(g, ty, key=key, retype=rt))
        out.append("impl %s {\n%s\n}" % (ty, "\n".join("pub " + p if p.startswith("fn") else p for p in parts)))
        return
    if tn == "Clone":
        parts = []
        for f in fns:
            f.body = clone_calls(f.body)
            parts.append(ex.emit_fn(f, ty, key=ty + "::vx_clone", rename="vx_clone"))
        out.append("impl %s {\n%s\n}" % (ty, "\n".join(parts))); return
    if tn in ("Components", "View", "Borrow"):
        gen = "<'a>" if tn != "Components" else ""
        parts = []
        fs = list(fns)
        if tn in ("View", "Borrow"): fs += [f for f in provided(tn) if f.name not in [x.name for x in fns]]
        for f in fs:
            m = {}
            g = Item("fn", f.name, f.toks, attrs=f.attrs, sig=comp_assoc(strip_attrs(f.sig), A), body=comp_assoc(strip_attrs(f.body), A), quals=f.quals)
            parts.append(ex.emit_fn(g, ty, key=ty + "::" + f.name))
        out.append("impl%s %s%s {\n%s\n}" % (gen, ty, gen, "\n".join(parts))); return
    if tn in ("ArchetypeHas", "ArchetypeCanResolve", "WorldHas", "WorldCanResolve"):
        parts = list(restt)
        if tn == "ArchetypeHas":
            C = re.search(r"ArchetypeHas<(\w+)>", name).group(1)
            n = [c[0] for c in A[3]].index(C)
            parts.append(fill(HAS, dict(d, T=C, F=A[3][n][1], N=n)))
        elif tn in ("WorldHas", "WorldCanResolve"):
            if name not in wspec: raise Lost("impl " + name)
            parts.append(wspec[name])
        for f in fns:
            key = name + "::" + f.name
            auto(key, f.name, entry_for(tn, name, f.name, d))
            parts.append(ex.emit_fn(f, name, key=key, trait_sig=True))
        out.append(hs + " {\n" + "\n".join(parts) + "\n}"); return
    if tn in ("Components2", "Slices2", "View2"):
        sp = {"Components2": "open spec fn vx_c0(&self) -> $T0$ { self.$F0$ } open spec fn vx_c1(&self) -> $T1$ { self.$F1$ }",
              "Slices2": "open spec fn vx_entities(self) -> &'a [Entity<$A$>] { self.entity } open spec fn vx_s0(self) -> &'a mut [$T0$] { self.$F0$ } open spec fn vx_s1(self) -> &'a mut [$T1$] { self.$F1$ }",
              "View2": "open spec fn vx_index(self) -> usize { self.index } open spec fn vx_entity(self) -> &'a Entity<$A$> { self.entity } open spec fn vx_e0(self) -> &'a mut $T0$ { self.$F0$ } open spec fn vx_e1(self) -> &'a mut $T1$ { self.$F1$ }"}[tn]
        parts = list(restt) + [fill(sp, d)]
        for f in fns:
            key = name + "::" + f.name; auto(key, f.name); parts.append(ex.emit_fn(f, name, key=key, trait_sig=True))
        out.append(hs + " {\n" + "\n".join(parts) + "\n}"); return
    if tn in ("From", "TryFrom"):
        if re.search(r"TryFrom<&(mut)?Entity(Direct)?<", name.replace(" ", "")):
            excl.append(name + " (its where clause asks for a conversion with Error = EcsError, which the From impls next to it rule out)"); return
        parts = list(restt)
        for f in fns:
            key = name + "::" + f.name; auto(key, f.name); parts.append(ex.emit_fn(f, name, key=key, trait_sig=True))
        out.append(hs + " {\n" + "\n".join(parts) + "\n}"); return
    if tn == "Iterator" and ty == "EcsEventIterator":
        parts = []
        for f in fns:
            g = Item("fn", f.name, f.toks, attrs=f.attrs, sig=sub_seq(f.sig, ["Self", ":", ":", "Item"], "&'a EntityAny"), body=f.body, quals=f.quals)
            parts.append(ex.emit_fn(g, ty, key=ty + "::" + f.name))
        out.append("impl<'a> EcsEventIterator<'a> {\n%s\n}" % "\n".join(parts)); return
    if tn is None:
        parts = []
        for f in fns:
            key = name + "::" + f.name; parts.append(ex.emit_fn(f, name, key=key))
        out.append(hs + " {\n" + "\n".join(list(restt) + parts) + "\n}"); return
    raise Lost("generated impl " + name)

def sub_seq(t, pat, new):
    out, i = [], 0
    while i < len(t):
        if seq_is(t, i, *pat): out += L(" " + new + " ", t[i].line); i += len(pat); continue
        out.append(t[i]); i += 1
    return out
def self_assoc(t, trait):
    out, i = [], 0
    while i < len(t):
        if seq_is(t, i, "Self", ":", ":") and is_id(t, i + 3) and t[i + 3].text in ("Components", "IterItem", "IterItemMut", "Slices", "View", "Borrow", "Capacities"):
            out += L(" <Self as %s>" % trait, t[i].line); i += 1; continue
        out.append(t[i]); i += 1
    return out
def comp_assoc(t, A):
    out, i = [], 0
    while i < len(t):
        if seq_is(t, i, "Self", ":", ":", "Archetype"): out += L(" %s" % A[0], t[i].line); i += 4; continue
        if seq_is(t, i, "Self", ":", ":", "Tuple"): out += L(" (%s)" % ", ".join(c[0] for c in A[3]), t[i].line); i += 4; continue
        out.append(t[i]); i += 1
    return out
def clone_calls(t):
    out = []
    for q, x in enumerate(t):
        if x.kind == "id" and x.text == "clone" and is_p(t, q - 1, ".") and is_p(t, q + 1, "("): x = x.copy(); x.text = "vx_clone"
        out.append(x)
    return out

def entry_for(tn, name, fn, d):
    if tn == "ArchetypeCanResolve":
        s = "old(self)" if fn in ("resolve_view", "resolve_destroy") else "self"
        K = re.search(r"ArchetypeCanResolve<(\w+)", name).group(1)
        e = "$1" if K.endswith("Any") else "$1.any()"
        r = "%s.data.lemma_len(); " % s
        r += ("%s.data.lemma_dlookup(%s); " if "Direct" in K else "%s.data.lemma_lookup(%s); %s.data.lemma_lookup_arch(%s); " ) % ((s, e) if "Direct" in K else (s, e, s, e))
        if fn == "resolve_view": r += "%s::lemma_all_same_wf(old(self).data); " % d["ST"]
        return r
    if tn == "ArchetypeHas" and fn in ("resolve_get_slice", "resolve_get_slice_mut"):
        return "%s::lemma_all_same_wf(old(self).data); " % d["ST"]
    return ""

def ev_struct(it):
    return text_of(strip_attrs(it.toks)).replace("Iter<'a,", "VxIter<'a,")

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("--repo", default="/repo"); ap.add_argument("--feat", default=""); ap.add_argument("--debug", action="store_true"); ap.add_argument("-o", default="/tmp/gen.rs")
    a = ap.parse_args()
    cfg = {"feature=" + f: 1 for f in a.feat.split(",") if f}
    if a.debug: cfg["debug_assertions"] = 1
    t, ex, missing, excl = build(a.repo, cfg)
    open(a.o, "w").write(t)
    print("uncontracted", ex.uncontracted); print("missing", missing); print("excluded", excl); print("reshaped", ex.reshaped); print("lost", ex.lost)
