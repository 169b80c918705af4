"""The query functions of the fixture world (ecs_iter!, ecs_iter_destroy!, ecs_find! and the borrowing forms), as rustc expands them, under contract."""
import re
from rx import *
from vx import *

# the parameter lists of genfix/src/main.rs
COL = lambda t, m=False: ("col", [t], m)
LISTS = {
 "q0": [("b", "col", ["CompB"], True), ("o", "one", ["CompA", "CompC"], False), ("d", "dany", None, False)],
 "q1": [("e", "e", None, False), ("x", "any", None, False), ("d", "d", None, False), ("y", "dany", None, False), ("a", "col", ["CompA"], True)],
 "q3": [("o", "one", ["CompC", "CompD"], True), ("x", "any", None, False)],
 "q2": [("e", "e", "ArchDa", False), ("d", "d", "ArchDa", False), ("c", "col", ["CompD"], True), ("a", "col", ["CompA"], False)],
}
KINDS = {"iter": "EcsStep", "iterb": "EcsStep", "iterd": "EcsStepDestroy", "find": "u32", "findd": "u32", "findt": "u32", "finddt": "u32", "findb": "u32"}

def column(archs, n, p):
    """the column parameter p binds in archetype n, or None"""
    cols = [c[0] for c in archs[n][3]]
    hit = [c for c in p[2] if c in cols]
    return cols.index(hit[0]) if len(hit) == 1 else None
def matches(archs, n, ps):
    """C05: every named component, exactly one of each OneOf, the named archetype"""
    for p in ps:
        if p[1] in ("col", "one"):
            if column(archs, n, p) is None: return False
        elif p[2] is not None and p[2] != archs[n][0]: return False
    return True

class Q:
    pass

def query(archs, name):
    m = re.fullmatch(r"(q\d)_(\w+)", name)
    if not m or m.group(1) not in LISTS or m.group(2) not in KINDS: return None
    q = Q(); q.name, q.kind, q.ps, q.ret = name, m.group(2), LISTS[m.group(1)], KINDS[m.group(2)]
    q.find = q.kind.startswith("find"); q.shared = q.kind in ("iterb", "findb"); q.destroy = q.kind == "iterd"
    q.arch = [n for n in range(len(archs)) if matches(archs, n, q.ps)]
    q.key = {"find": "EntityAny", "findb": "EntityAny", "findd": "EntityDirectAny", "findt": "Entity<ArchDa>", "finddt": "EntityDirect<ArchDa>"}.get(q.kind)
    return q

def ptype(archs, n, p, code=False):
    A, f, i, cols = archs[n]
    if p[1] in ("col", "one"): return ("&mut " if p[3] else "&") + cols[column(archs, n, p)][0]
    return "&" + {"e": "Entity<%s>" % A, "any": "EntityAny", "d": "EntityDirect<%s>" % A, "dany": "EntityDirectAny"}[p[1]]

def muts(archs, n, q): return [(k, column(archs, n, p)) for k, p in enumerate(q.ps) if p[1] in ("col", "one") and p[3]]

def declarations(archs, q):
    """ghost state of one run of the query, and the call of the user's closure on each archetype"""
    o = []
    # what one call was given back: the values its mutable parameters were left with, and its result
    for n in q.arch:
        A, f, i, cols = archs[n]
        o.append("pub struct VxE_%s_%s { %spub r: %s }" % (q.name, A, "".join("pub f%d: %s, " % (c, cols[c][0]) for k, c in muts(archs, n, q)), q.ret))
    o.append("pub struct VxG_%s { pub ghost w0: EcsWorld, pub ghost stopped: bool%s%s }" % (q.name,
        ", pub ghost n: nat, pub ghost key: VxKey" if q.find else "",
        "".join(", pub ghost l_%s: Map<int, VxE_%s_%s>%s" % (archs[n][1], q.name, archs[n][0], ", pub ghost s_%s: Seq<int>" % archs[n][1] if q.destroy else "") for n in q.arch)))
    it = "C07" if q.destroy else "C06"
    for n in q.arch:
        A, f, i, cols = archs[n]
        key = "%s::call_%s" % (q.name, A)
        st = "old(vx_g)"; P = "vx_p@"; g0 = "%s.w0.%s" % (st, f)
        req = []
        if q.find:
            req.append(("C05,C14,C01", "%s.n == 0" % st))
            req.append(("C05,C14,C01", "%s.a_pos(%s.key) is Some && vx_kid(%s.key) == %d" % (g0, st, st, i)))
            P = "%s.a_pos(%s.key).unwrap()" % (g0, st)
        else:
            req.append((it, "!%s.stopped" % st))
            req.append((it, "0 <= vx_p@ < %s.a_len() && !%s.l_%s.dom().contains(vx_p@)" % (g0, st, f)))
        for p in q.ps:
            v = "*old(%s)" % p[0] if p[3] else "*%s" % p[0]
            row = it if not q.find else "C01"
            if p[1] in ("col", "one"): req.append(("C02,C05" + ("," + it if not q.find else ""), "%s == %s.data.col%d()[%s]" % (v, g0, column(archs, n, p), P)))
            elif p[1] == "e": req.append((row, "%s == %s.data.ents()[%s]" % (v, g0, P)))
            elif p[1] == "any": req.append((row + ",C14", "%s == %s.data.ents()[%s].any()" % (v, g0, P)))
            else:
                d = v if p[1] == "dany" else "(%s).any()" % v
                req.append((row + ",C09,C14", "a_direct_of(%s, %s, %s)" % ("vx_now@" if q.destroy else g0, P, d)))
        e = "VxE_%s_%s { %sr: r }" % (q.name, A, "".join("f%d: *final(%s), " % (c, q.ps[k][0]) for k, c in muts(archs, n, q)))
        ens = ["final(vx_g).w0 == %s.w0" % st]
        if q.find: ens += ["final(vx_g).n == 1", "final(vx_g).key == %s.key" % st, "final(vx_g).l_%s == Map::<int, VxE_%s_%s>::empty().insert(%s, %s)" % (f, q.name, A, P, e)]
        else: ens += ["final(vx_g).stopped == (r is Break%s)" % (" || r is BreakDestroy" if q.destroy else ""), "final(vx_g).l_%s == %s.l_%s.insert(vx_p@, %s)" % (f, st, f, e)]
        if q.destroy: ens.append("final(vx_g).s_%s == (if r is ContinueDestroy || r is BreakDestroy { swap_rm(%s.s_%s, vx_p@) } else { %s.s_%s })" % (f, st, f, st, f))
        for m in q.arch:
            if m != n:
                ens.append("final(vx_g).l_%s == %s.l_%s" % (archs[m][1], st, archs[m][1]))
                if q.destroy: ens.append("final(vx_g).s_%s == %s.s_%s" % (archs[m][1], st, archs[m][1]))
        ps = ["%s: %s" % (p[0], ptype(archs, n, p)) for p in q.ps] + ["vx_g: &mut VxG_%s" % q.name]
        if not q.find: ps.append("vx_p: Ghost<int>")
        if q.destroy: ps.append("vx_now: Ghost<%s>" % A)
        o.append("#[verifier::external_body] fn vx_call_%s_%s(%s) -> (r: %s)\n    requires%s\n    ensures %s\n{ unimplemented!() }" % (
            q.name, A, ", ".join(ps), q.ret, "".join("\n/*@%s|%s*/ %s," % (key, l, x) for l, x in req), ", ".join(ens)))
        # the column c after the calls so far
        rows = "pub open spec fn vx_c{c}_%s_%s(g: VxG_%s, s: Seq<{T}>) -> Seq<{T}> {{ {e} }}" % (q.name, A, q.name)
        mc = dict((c, k) for k, c in muts(archs, n, q))
        for c in range(len(cols)):
            w = "g.w0.%s.data.col%d()" % (f, c)
            if q.destroy:
                s = "g.s_%s" % f
                ex = "Seq::new(%s.len(), |i: int| %s)" % (s, "if g.l_%s.dom().contains(%s[i]) { g.l_%s[%s[i]].f%d } else { %s[%s[i]] }" % (f, s, f, s, c, w, s) if c in mc else "%s[%s[i]]" % (w, s))
            else:
                ex = "Seq::new(%s.len(), |i: int| if g.l_%s.dom().contains(i) { g.l_%s[i].f%d } else { %s[i] })" % (w, f, f, c, w) if c in mc else w
            o.append("pub open spec fn vx_c%d_%s_%s(g: VxG_%s) -> Seq<%s> { %s }" % (c, q.name, A, q.name, cols[c][0], ex))
        if q.destroy:
            E = "VxE_%s_%s" % (q.name, A); QA = "%s_%s" % (q.name, A)
            o.append("pub open spec fn vx_fl_%s(e: %s) -> bool { e.r is ContinueDestroy || e.r is BreakDestroy }" % (QA, E))
            o.append("""// s: where each entity still there stood at the start; exactly the flagged ones are gone
pub open spec fn vx_src_$(s: Seq<int>, l: Map<int, VxE_$>, n: int) -> bool { s.no_duplicates() && forall|p: int| #[trigger] s.contains(p) <==> (0 <= p < n && !(l.dom().contains(p) && vx_fl_$(l[p]))) }
proof fn vx_src0_$(n: nat)
    ensures vx_src_$(Seq::new(n, |i: int| i), Map::<int, VxE_$>::empty(), n as int)
{ let s = Seq::new(n, |i: int| i); assert forall|p: int| #[trigger] s.contains(p) <==> (0 <= p < n) by { if 0 <= p < n { assert(s[p] == p); } } }
proof fn vx_step_$(s: Seq<int>, l: Map<int, VxE_$>, n: int, p: int)
    requires vx_src_$(s, l, n), 0 <= p < s.len(), s[p] == p, !l.dom().contains(p)
    ensures forall|e: VxE_$| vx_src_$(if vx_fl_$(e) { swap_rm(s, p) } else { s }, #[trigger] l.insert(p, e), n)
{
    lemma_swap_rm(s, p);
    assert forall|e: VxE_$| vx_src_$(if vx_fl_$(e) { swap_rm(s, p) } else { s }, #[trigger] l.insert(p, e), n) by {
        let s2 = if vx_fl_$(e) { swap_rm(s, p) } else { s }; let l2 = l.insert(p, e);
        assert forall|x: int| #[trigger] s2.contains(x) <==> (0 <= x < n && !(l2.dom().contains(x) && vx_fl_$(l2[x]))) by { assert(s.contains(s[p])); if x != p { assert(l2.dom().contains(x) == l.dom().contains(x)); assert(s.contains(x) == (0 <= x < n && !(l.dom().contains(x) && vx_fl_$(l[x])))); } }
    }
}""".replace("$", QA))
    return "\n".join(o)

def state(archs, q, n, w, g):
    """the archetype's storage against the calls made so far"""
    A, f, i, cols = archs[n]
    ST = "Storage2::<%s, %s, %s>" % (A, cols[0][0], cols[1][0])
    r = []
    it = "C07" if q.destroy else "C06"
    for c in range(len(cols)): r.append(("C02," + it if not q.find else "C02,C05", "%s.data.col%d() =~= vx_c%d_%s_%s(*%s)" % (w, c, c, q.name, A, g)))
    if q.destroy:
        r.append(("C01,C07", "%s.data.ents() =~= Seq::new(%s.s_%s.len(), |i: int| %s.w0.%s.data.ents()[%s.s_%s[i]])" % (w, g, f, g, f, g, f)))
        r.append(("C01,C07", "vx_src_%s_%s(%s.s_%s, %s.l_%s, %s.w0.%s.a_len())" % (q.name, A, g, f, g, f, g, f)))
        r.append(("C12", "%s.data.s_cap() == %s.w0.%s.data.s_cap()" % (w, g, f)))
    else:
        r.append(("C01,C05,C09", "%s::same_but_cols(%s.w0.%s.data, %s.data)" % (ST, g, f, w)))
    return r

def emit(it, q, archs, ex, skip):
    """the query function `it` under contract; raises Lost when its form is not covered"""
    name = q.name
    others = [n for n in range(len(archs)) if n not in q.arch]
    G = "vx_g: &mut VxG_%s" % name
    req = ["old(w).w_wf()" if not q.shared else "w.w_wf()", "old(vx_g).w0 == *%s" % ("w" if q.shared else "old(w)"), "!old(vx_g).stopped"]
    for n in q.arch: req.append("old(vx_g).l_%s == Map::<int, VxE_%s_%s>::empty()" % (archs[n][1], name, archs[n][0]))
    ens = []; W = "final(w)"
    it_ = "C07" if q.destroy else "C06"
    full = lambda n, g: "(forall|i: int| #[trigger] %s.l_%s.dom().contains(i) <==> 0 <= i < %s.w0.%s.a_len())" % (g, archs[n][1], g, archs[n][1])
    g = "final(vx_g)"
    g0 = "old(vx_g)"
    if q.destroy:
        for n in q.arch: req.append("old(vx_g).s_%s == Seq::new(old(vx_g).w0.%s.a_len() as nat, |i: int| i)" % (archs[n][1], archs[n][1]))
    if not q.find:
        for n in q.arch: ens.append(("C05," + it_, "!%s.stopped ==> %s" % (g, full(n, g))))
    if not q.shared:
        for n in q.arch: ens += state(archs, q, n, "%s.%s" % (W, archs[n][1]), g)
        for n in others: ens.append(("C02,C05", "%s.%s == old(w).%s" % (W, archs[n][1], archs[n][1])))
        ens.append(("C03", "%s.w_wf()" % W))
    ens.append(("C02", "%s.w0 == %s.w0" % (g, g0)))
    ret = ""
    ents = "".join(" w.%s.data.lemma_len(); Storage2::<%s, %s, %s>::lemma_all_same_wf(w.%s.data);" % (archs[n][1], archs[n][0], archs[n][3][0][0], archs[n][3][1][0], archs[n][1]) for n in range(len(archs)))
    ok = "false"
    pre = ""
    params = ["w: %sEcsWorld" % ("&" if q.shared else "&mut ")]
    if q.find:
        params.append("k: %s" % q.key)
        ret = " -> (r: Option<u32>)"
        kk = {"EntityAny": "VxKey::E(k)", "EntityDirectAny": "VxKey::D(k)", "EntityDirect<ArchDa>": "VxKey::D(k.any())"}.get(q.key, "VxKey::E(k.any())")
        req += ["old(vx_g).n == 0", "old(vx_g).key == %s" % kk]
        w0 = "old(vx_g).w0"
        typed = q.key.endswith("<ArchDa>")
        tgt = [n for n in q.arch if not typed or archs[n][0] == "ArchDa"]
        kid = lambda n: "true" if typed else "vx_kid(%s) == %d" % (kk, archs[n][2])
        hit = "(%s)" % " || ".join("(%s && %s.%s.a_pos(%s) is Some)" % (kid(n), w0, archs[n][1], kk) for n in tgt)
        ens.append(("C01,C05,C14", "%s ==> %s.n == 1" % (hit, g)))
        ens.append(("C01,C05,C14", "!%s ==> r is None && %s.n == 0" % (hit, g)))
        for n in tgt:
            f = archs[n][1]
            ens.append(("C02,C05", "%s && %s.%s.a_pos(%s) is Some ==> r == Some(%s.l_%s[%s.%s.a_pos(%s).unwrap()].r)" % (kid(n), w0, f, kk, g, f, w0, f, kk)))
        known = "true" if typed else " || ".join("vx_kid(%s) == %d" % (kk, a[2]) for a in archs)
        pan = "(!(%s) || %s)" % (known, " || ".join("(%s && vx_g.w0.%s.a_panic(%s))" % (kid(n), archs[n][1], kk) for n in tgt))
        if typed: pre += "assert(vx_kid(%s) == 1 || w.arch_da.a_pos(%s) is None) by { w.arch_da.data.%s(k.any()); }" % (kk, kk, "lemma_dlookup" if "Direct" in q.key else "lemma_lookup_arch")
        ok = "vx_okq"
    if q.destroy:
        ok = "true"
        for n in q.arch: pre += "vx_src0_%s_%s(w.%s.a_len() as nat); " % (name, archs[n][0], archs[n][1])
    if q.shared:
        for n in q.arch:
            for p in q.ps:
                if p[1] in ("col", "one"): req.append("vx_may(w.%s.data.cell%d(), %s)" % (archs[n][1], column(archs, n, p), "true" if p[3] else "false"))
    key = name
    clauses = "    requires %s,\n    ensures%s" % (",\n        ".join(req), "".join("\n/*@%s|%s*/ %s," % (key, l, x) for l, x in ens))
    head = "fn %s(%s)%s\n%s\n" % (name, ", ".join(params + [G]), ret, clauses)
    ex.functions.append((key, False, len(ens), 0))
    try:
        body = blocks(it, q, archs, ex, ok)
    except Exception as e:
        ex.lost[key] = "%s: %s" % (type(e).__name__, str(e)[:200])
        return "#[verifier::external_body]\n/*@fn %s*/ %s{ unimplemented!() }" % (key, head)
    if key in skip: return "#[verifier::external_body]\n/*@fn %s*/ %s{ unimplemented!() }" % (key, head)
    g1 = "let ghost vx_okq: bool = %s; " % pan if q.find else ""
    return "/*@fn %s*/ %s{ %sproof { %s%s }\n%s }" % (key, head, g1, pre, ents, text_of(body))

def unwrap_braces(t):
    while is_p(t, 0, "{") and match_close(t, 0) == len(t) - 1: t = t[1:-1]
    return t

def no_macros(t):
    """the probing macros of a query with predicates: they have been expanded, their definitions are dropped"""
    while seq_is(t, 0, "macro_rules", "!") and is_id(t, 2) and is_p(t, 3, "{"): t = unwrap_braces(t[match_close(t, 3) + 1:])
    return t

def blocks(it, q, archs, ex, ok):
    t = no_macros(unwrap_braces(strip_attrs(it.body)))
    while t and is_p(t, len(t) - 1, ";"): t = t[:-1]
    t = no_macros(unwrap_braces(t))
    # (|| B)()
    if is_p(t, 0, "(") and is_p(t, 1, "|") and is_p(t, 2, "|"):
        e = match_close(t, 0)
        if not (seq_is(t, e + 1, "(", ")") and e + 3 == len(t)): raise Lost("query not of the form (|| ..)()")
        t = unwrap_braces(t[3:e])
    t = ex.forms(t)
    t = matched(t)
    t = closures(t, q, archs, ex)
    t = selection(t, q)
    t = slices(t, q)
    t = ex.rewrite(t, ok, None)
    if not q.find: t = loops(t, q, archs)
    if any(is_id(t, k, "closure") or is_id(t, k, "MatchedArchetype") for k in range(len(t))): raise Lost("a use of the closure the rules do not cover")
    return t

def matched(t):
    """`type MatchedArchetype = X;` substituted in the rest of its block"""
    t = list(t); i = 0
    while i < len(t):
        if seq_is(t, i, "type", "MatchedArchetype", "=") and is_id(t, i + 3) and is_p(t, i + 4, ";"):
            X = t[i + 3].text
            e = block_end(t, i)
            for k in range(i + 5, e):
                if is_id(t, k, "MatchedArchetype"): t[k] = Tok("id", X, t[k].ws, t[k].line)
            t[i:i + 5] = [Tok("id", "VX_ARCH_" + X, t[i].ws, t[i].line), Tok("p", ";")]
        i += 1
    return t

def block_end(t, i):
    """the index of the brace closing the block that contains t[i]"""
    d = 0
    while i < len(t):
        if t[i].kind == "p":
            if t[i].text in OPEN: d += 1
            elif t[i].text in CLOSE:
                d -= 1
                if d < 0: return i
        i += 1
    return len(t)

def closures(t, q, archs, ex):
    """the closure binding dropped; its call becomes the opaque call of this archetype"""
    names = [a[0] for a in archs]
    out, i, cur = [], 0, None
    while i < len(t):
        if is_id(t, i) and t[i].text.startswith("VX_ARCH_"): cur = t[i].text[8:]; i += 2; continue
        if seq_is(t, i, "let", "mut", "closure", "=", "|") or seq_is(t, i, "let", "closure", "=", "|"):
            j = i
            while not is_p(t, j, "|"): j += 1
            k = j + 1
            while not is_p(t, k, "|"): k += 1
            if not (is_p(t, k + 1, "{") and seq_is(t, k + 2, "f", "(", ")", "}", ";")): raise Lost("closure body")
            if cur not in names: raise Lost("no archetype named before the closure")
            n = names.index(cur)
            got = ["".join(x.text + " " for x in p).strip() for p in split_commas(t[j + 1:k], angle=True)]
            if n in q.arch:
                want = [squash(lex("%s: %s" % (p[0], ptype(archs, n, p)))) for p in q.ps]
                sig_ok = [squash(lex(x)) for x in got] == want
            else: sig_ok = False
            if not sig_ok:
                ps = got + ["vx_g: &mut VxG_%s" % q.name] + (["vx_p: Ghost<int>"] if not q.find else []) + (["vx_now: Ghost<%s>" % cur] if q.destroy else [])
                ex.extra_decl.append("#[verifier::external_body] fn vx_bad_%s_%s(%s) -> (r: %s)\n    requires\n/*@%s::call_%s|C05*/ false\n{ unimplemented!() }" % (q.name, cur, ", ".join(ps), q.ret, q.name, cur))
            call = ("vx_call_%s_%s" if sig_ok else "vx_bad_%s_%s") % (q.name, cur)
            i = k + 7; continue
        if is_id(t, i, "closure") and is_p(t, i + 1, "("):
            e = match_close(t, i + 1)
            inner = t[i + 2:e]
            while inner and is_p(inner, len(inner) - 1, ","): inner = inner[:-1]
            extra = ", &mut *vx_g"
            if not q.find: extra += ", Ghost(VX_IDX as int)"
            if q.destroy: extra += ", Ghost(vx_now)"
            out += L(" %s(" % call, t[i].line) + inner + L(extra + ")", t[i].line)
            i = e + 1
            if not q.find and seq_is(t, i, ".", "into", "(", ")"): i += 4
            continue
        out.append(t[i]); i += 1
    return out

def selection(t, q):
    """a typed key: the infallible conversion"""
    if q.kind not in ("findt", "finddt"): return t
    out, i = [], 0
    while i < len(t):
        if seq_is(t, i, "__EcsWorldSelectTotal", ":", ":", "try_from", "("):
            e = match_close(t, i + 4)
            if seq_is(t, e + 1, ".", "expect", "("):
                e2 = match_close(t, e + 3)
                out += t[i:i + 3] + [Tok("id", "from", "", t[i].line)] + t[i + 4:e + 1]; i = e2 + 1; continue
        out.append(t[i]); i += 1
    return out

def slices(t, q):
    """& and &mut of an indexed slice"""
    out, i = [], 0
    while i < len(t):
        if is_p(t, i, "&"):
            m = is_id(t, i + 1, "mut"); s = i + (2 if m else 1)
            if is_id(t, s):
                j = s
                while True:       # a postfix chain up to an index
                    if is_id(t, j) or (t[j].kind == "num"): j += 1
                    elif is_p(t, j, "."): j += 1
                    elif is_p(t, j, "("): j = match_close(t, j) + 1
                    elif seq_is(t, j, ":", ":", "<"): j = skip_generics(t, j + 2)
                    else: break
                if is_p(t, j, "[") and t[j - 1].kind != "p" or (is_p(t, j, "[") and is_p(t, j - 1, ")")):
                    e = match_close(t, j); last = e + 1
                    chain, ix = t[s:j], t[j + 1:e]
                    guard = any(is_id(chain, k) and chain[k].text.startswith("borrow_slice") for k in range(len(chain)))
                    if not (is_p(t, last, ".")):
                        ln = t[i].line
                        if guard: out += L(" vx_at%s(%s" % ("_mut" if m else "", "&mut " if m else "&"), ln) + chain + L(", ", ln) + ix + L(")", ln)
                        elif m: out += L(" vx_index_mut(&mut *", ln) + chain + L(", ", ln) + ix + L(")", ln)
                        else: out += L(" vx_index(&*", ln) + chain + L(", ", ln) + ix + L(")", ln)
                        i = last; continue
            # & (mut) of a component guard of a Borrow
            if is_id(t, s) and seq_is(t, s + 1, ".") and is_id(t, s + 2) and t[s + 2].text in ("component", "component_mut"):
                j = s + 3
                if seq_is(t, j, ":", ":", "<"): j = skip_generics(t, j + 2)
                if is_p(t, j, "("):
                    e = match_close(t, j)
                    ln = t[i].line
                    out += L(" vx_of%s(%s" % ("_mut" if m else "", "&mut " if m else "&"), ln) + t[s:e + 1] + L(")", ln); i = e + 1; continue
        out.append(t[i]); i += 1
    return out

def loops(t, q, archs):
    """each visiting loop gets its invariants; `return` in it becomes leaving the loop and then the query"""
    out, i, cur, var = [], 0, None, None
    flds = dict((a[1], n) for n, a in enumerate(archs))
    while i < len(t):
        if is_id(t, i, "let") and is_id(t, i + 1) and is_p(t, i + 2, "=") and is_p(t, i + 3, "&"):
            j = i + (5 if is_id(t, i + 4, "mut") else 4)
            if is_id(t, j, "w") and is_p(t, j + 1, ".") and is_id(t, j + 2) and t[j + 2].text in flds: cur, var = flds[t[j + 2].text], t[i + 1].text
        if is_id(t, i, "loop"): raise Lost("loop form")
        form = None
        if is_id(t, i, "for") and is_id(t, i + 1) and is_id(t, i + 2, "in"): form, V = "for", t[i + 1].text
        if is_id(t, i, "while"):
            if is_id(t, i + 1) and is_p(t, i + 2, "<") and is_id(t, i + 3) and is_p(t, i + 4, "{"): form = "up"
            elif is_id(t, i + 1) and is_p(t, i + 2, ">") and t[i + 3].text == "0" and is_p(t, i + 4, "{"): form = "down"
            elif is_id(t, i + 1) and seq_is(t, i + 2, "!", "=") and t[i + 4].text == "0" and is_p(t, i + 5, "{"): form = "down"
            else: raise Lost("loop form")
            V = t[i + 1].text
        if form:
            k = i + (3 if form == "for" else 1)
            while not is_p(t, k, "{"):
                if t[k].kind == "p" and t[k].text in OPEN: k = match_close(t, k)
                k += 1
            rng = t[i + 3:k]; e = match_close(t, k); body = t[k + 1:e]; ln = t[i].line
            if form == "down":
                if is_id(body, 0, V) and seq_is(body, 1, "-", "=") and body[3].text == "1" and is_p(body, 4, ";"): body = body[5:]
                elif is_id(body, 0, V) and seq_is(body, 1, "=", V, "-") and body[4].text == "1" and is_p(body, 5, ";"): body = body[6:]
                else: raise Lost("loop form")
            if form == "up":
                if len(body) > 5 and seq_is(body, len(body) - 5, V, "+", "=") and body[-2].text == "1" and is_p(body, len(body) - 1, ";"): body = body[:-5]
                else: raise Lost("loop form")
                if any(is_id(body, x, "continue") for x in range(len(body))): raise Lost("loop form")
            if cur is None: raise Lost("loop outside an archetype's block")
            if form == "for":
                E = Extractor.split_range(None, rng); R = Extractor.rev_range(None, rng)
                rr = R or E
                if rr is None: raise Lost("loop range")
            else: R = form == "down"; rr = [L("0"), t[i + 3:i + 4]]
            if q.destroy and not R: raise Lost("a destroying loop that does not go down")
            x = 0
            while x < len(body):        # a position computed from the loop variable: not a form the invariants fit
                if is_id(body, x, "let"):
                    y, ini = x + 1, []
                    while y < len(body) and not is_p(body, y, ";") and not is_p(body, y, "{"):
                        if body[y].kind == "p" and body[y].text in "([" and (body[y - 1].kind == "id" or is_p(body, y - 1, ">")): y = match_close(body, y)     # arguments of a call, an index
                        ini.append(body[y]); y += 1
                    if any(is_id(ini, z, V) for z in range(len(ini))) and any(ini[z].kind == "p" and ini[z].text in "+-*" for z in range(len(ini))): raise Lost("a position computed from the loop variable")
                x += 1
            b2, x = [], 0
            while x < len(body):
                if is_id(body, x) and body[x].text in ("for", "while", "loop"): raise Lost("nested loop")
                if is_id(body, x) and body[x].text in ("break", "continue") and not (is_p(body, x + 1, ";") or is_p(body, x + 1, "}") or is_p(body, x + 1, ",")): raise Lost("labelled " + body[x].text)
                if is_p(body, x, "=") and not is_p(body, x + 1, "=") and not is_p(body, x + 1, ">") and not (x and body[x - 1].kind == "p" and body[x - 1].text in ("=", "<", ">", "!")):
                    y = x
                    while y > 0 and not (body[y - 1].kind == "p" and body[y - 1].text in (";", "{", "}")): y -= 1
                    if not is_id(body, y, "let") and not (is_id(body, y, "if") and is_id(body, y + 1, "let")): raise Lost("assignment in the loop")
                if is_id(body, x, "return"):
                    if not is_p(body, x + 1, ";") and not is_p(body, x + 1, "}") and not is_p(body, x + 1, ","): raise Lost("return with a value")
                    b2 += L(" { vx_ret = true; break; }", body[x].line); x += 1; continue
                y = body[x]
                if is_id(body, x, "VX_IDX"): y = Tok("id", V, y.ws, y.line)
                b2.append(y); x += 1
            if form == "for" and not R and any(is_id(b2, z, "continue") for z in range(len(b2))):       # a for loop with `continue`: over a position of its own
                form, b2, V = "cont", L(" let %s: usize = vx_i; vx_i = vx_i + 1; " % V, ln) + b2, "vx_i"
            n = cur
            A, f, aid, cols = archs[n]
            inv = [("", "vx_g.w0 == old(vx_g).w0 && vx_g.w0.w_wf()")]
            if n not in q.arch:
                out += t[i:k] + [t[k]] + b2 + [t[e]]; i = e + 1; continue
            it = "C07" if q.destroy else "C06"
            rng_dom = ("%s as int <= i < old(vx_g).w0.%s.a_len()" % (V, f)) if R else "0 <= i < %s as int" % V
            inv.append((it, "!vx_ret ==> forall|i: int| #[trigger] vx_g.l_%s.dom().contains(i) <==> %s" % (f, rng_dom)))
            for m in q.arch:
                if m != n: inv.append(("", "vx_g.l_%s == vx_l_%s" % (archs[m][1], archs[m][1])))
            if q.destroy:
                for m in q.arch:
                    if m != n: inv.append(("", "vx_g.s_%s == vx_s_%s" % (archs[m][1], archs[m][1])))
                for l, z in state(archs, q, n, "(*%s)" % var, "vx_g"): inv.append((l, z))
                inv.append(("C03", "%s.a_wf()" % var))
                if R: inv.append(("C07", "!vx_ret ==> %s <= vx_g.s_%s.len() && forall|j: int| 0 <= j < %s ==> (#[trigger] vx_g.s_%s[j]) == j" % (V, f, V, f)))
            elif not q.shared:
                sl = [x for x in range(len(t) - 1) if is_id(t, x, "slices")]
                for c in range(len(cols)): inv.append(("C02," + it, "slices.%s@ =~= vx_c%d_%s_%s(*vx_g)" % (cols[c][1], c, q.name, A)))
                inv.append(("C01," + it, "slices.entity@ =~= vx_g.w0.%s.data.ents()" % f))
            else:
                inv.append(("", "*%s == vx_g.w0.%s" % (var, f)))
            # facts about the names the loop uses
            names = set(z.text for z in b2 if z.kind == "id")
            if "version" in names and not any(seq_is(b2, z, "let", "version") for z in range(len(b2))): inv.append(("C09", "version.sv() == vx_g.w0.%s.a_ver()" % f))
            inv.append((it, "%s <= vx_g.w0.%s.a_len() <= 0x100_0000" % (V, f) if R else "vx_hi == vx_g.w0.%s.a_len() && vx_hi <= 0x100_0000%s" % (f, " && %s <= vx_hi" % V if form in ("up", "cont") else "")))
            for c in range(len(cols)): inv.append(("", "vx_g.w0.%s.data.col%d().len() == vx_g.w0.%s.a_len()" % (f, c, f)))
            inv.append(("", "vx_g.w0.%s.data.ents().len() == vx_g.w0.%s.a_len()" % (f, f)))
            if q.shared:
                for p in q.ps:
                    if p[1] in ("col", "one"): inv.append(("C11", "vx_may(vx_g.w0.%s.data.cell%d(), %s)" % (f, column(archs, n, p), "true" if p[3] else "false")))
            fin = (it, "!vx_ret ==> forall|i: int| #[trigger] vx_g.l_%s.dom().contains(i) <==> 0 <= i < old(vx_g).w0.%s.a_len()" % (f, f))
            invt = "\n invariant_except_break !vx_ret,\n/*@%s|%s*/ !vx_g.stopped,\n invariant" % (q.name, it) + "".join("\n/*@%s|%s*/ %s," % (q.name, l or "loop", z) for l, z in inv) + "\n ensures\n/*@%s|%s*/ vx_ret == vx_g.stopped,\n/*@%s|%s*/ %s,\n" % ((q.name, it, q.name) + fin)
            hi = text_of(rr[1]).strip()
            pre = "\n let mut vx_ret = false; " + "".join("let ghost vx_l_%s = vx_g.l_%s; " % (archs[m][1], archs[m][1]) + ("let ghost vx_s_%s = vx_g.s_%s; " % (archs[m][1], archs[m][1]) if q.destroy else "") for m in q.arch if m != n)
            ST = "Storage2::<%s, %s, %s>" % (A, cols[0][0], cols[1][0])
            ent = ""
            if q.destroy:
                ent = "\nlet ghost vx_now = *%s; let ghost vx_src = vx_g.s_%s; proof { %s.data.lemma_len(); %s::lemma_all_same_wf(%s.data); lemma_ents_at(%s, %s as int); vx_step_%s_%s(vx_g.s_%s, vx_g.l_%s, vx_g.w0.%s.a_len(), %s as int); }\n" % (var, f, var, ST, var, var + ".data", V, q.name, A, f, f, f, V)
            if text_of(rr[0]).strip() != "0": raise Lost("loop start")
            if R:
                out += Raw(pre + ("let mut %s: usize = %s; " % (V, hi) if form == "for" else "") + "while %s > 0 " % V + invt + " decreases %s,\n{ %s = %s - 1; %s" % (V, V, V, ent)) + b2 + Raw("}\n if vx_ret { return; }\n")
            elif form == "cont":
                out += Raw(pre + "let vx_hi: usize = %s; let mut vx_i: usize = 0; while vx_i < vx_hi " % hi + invt + " decreases vx_hi - vx_i,\n{ " + ent) + b2 + Raw(" }\n if vx_ret { return; }\n")
            elif form == "up":
                out += Raw(pre + "let vx_hi: usize = %s; while %s < vx_hi " % (hi, V) + invt + " decreases vx_hi - %s,\n{ " % V + ent) + b2 + Raw(" %s += 1; }\n if vx_ret { return; }\n" % V)
            else:
                out += Raw(pre + "let vx_hi = %s; for %s in 0..vx_hi " % (hi, V) + invt + "{ " + ent) + b2 + Raw("}\n if vx_ret { return; }\n")
            i = e + 1; continue
        out.append(t[i]); i += 1
    if any(is_id(out, k, "VX_IDX") for k in range(len(out))): raise Lost("the closure is called outside a loop")
    return out

PRELUDE = """
#[verifier::external_body] fn vx_index_mut<T>(s: &mut [T], i: usize) -> (r: &mut T)
   requires
/*@slice_index|C03,C06,C07*/ i < old(s)@.len()
   ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] fn vx_index<T>(s: &[T], i: usize) -> (r: &T)
   requires
/*@slice_index|C03,C06,C07*/ i < s@.len()
   ensures *r == s@[i as int] { unimplemented!() }
// an element, and the value, behind a runtime-borrow guard
pub trait VxSlGuard<T> { spec fn vx_sl(&self) -> Seq<T>; }
impl<T> VxSlGuard<T> for Ref<'_, [T]> { open spec fn vx_sl(&self) -> Seq<T> { (*self.tgt())@ } }
impl<T> VxSlGuard<T> for RefMut<'_, [T]> { open spec fn vx_sl(&self) -> Seq<T> { (*self.tgt())@ } }
pub trait VxGuard<T> { spec fn vx_tv(&self) -> T; }
impl<T> VxGuard<T> for Ref<'_, T> { open spec fn vx_tv(&self) -> T { *self.tgt() } }
impl<T> VxGuard<T> for RefMut<'_, T> { open spec fn vx_tv(&self) -> T { *self.tgt() } }
#[verifier::external_body] fn vx_at<'a, T, G: VxSlGuard<T>>(g: &'a G, i: usize) -> (r: &'a T)
   requires
/*@slice_index|C03,C06,C07*/ i < g.vx_sl().len()
   ensures *r == g.vx_sl()[i as int] { unimplemented!() }
#[verifier::external_body] fn vx_at_mut<'a, T>(g: &'a mut RefMut<'_, [T]>, i: usize) -> (r: &'a mut T)
   requires
/*@slice_index|C03,C06,C07*/ i < old(g).vx_sl().len()
   ensures *r == old(g).vx_sl()[i as int] { unimplemented!() }
#[verifier::external_body] fn vx_of<'a, T, G: VxGuard<T>>(g: &'a G) -> (r: &'a T) ensures *r == g.vx_tv() { unimplemented!() }
#[verifier::external_body] fn vx_of_mut<'a, T>(g: &'a mut RefMut<'_, T>) -> (r: &'a mut T) ensures *r == old(g).vx_tv() { unimplemented!() }
proof fn lemma_swap_rm(s: Seq<int>, p: int)
    requires s.no_duplicates(), 0 <= p < s.len()
    ensures swap_rm(s, p).no_duplicates(), swap_rm(s, p).len() == s.len() - 1, forall|x: int| swap_rm(s, p).contains(x) <==> s.contains(x) && x != s[p]
{
    let r = swap_rm(s, p);
    assert forall|x: int| r.contains(x) implies s.contains(x) && x != s[p] by { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(r[i] == if i == p { s[s.len() - 1] } else { s[i] }); }
    assert forall|x: int| s.contains(x) && x != s[p] implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i == s.len() - 1 { assert(r[p] == x); } else { assert(r[i] == x); } }
}
proof fn lemma_ents_at<A: Archetype, T0, T1>(s: Storage2<A, T0, T1>, i: int)
    requires s.wf(), 0 <= i < s.s_len()
    ensures s.lookup(s.ents()[i].any()) == Some(i)
{ s.lemma_at(i); }
"""
