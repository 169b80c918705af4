"""Assemble the Verus file for gecs' core (entity, version, index, slot, storage, iterators)."""
import os, re, sys
from rx import *
from vx import *
import build_dataptr, inline
HERE = os.path.dirname(os.path.abspath(__file__))

MAYPANIC = {"next", "push", "force_destroy", "resolve_entity", "resolve_direct", "resolve_for", "resolve_destroy",
            "resolve", "destroy", "to_direct", "begin_borrow", "get_view_mut"}

DERIVE = {"SlotVersion", "ArchetypeVersion", "TrimmedIndex", "SlotIndex", "EntityAny", "EntityDirectAny"}
COPY = {"Slot"}
# impls outside the verified text (reported as excluded)
def excluded(name):
    if name.startswith(("Display for", "Debug for")): return "formatting"
    if " for &" in name: return "transmute reference conversion"
    if name.startswith(("EntityKey for", "EntityKeyTyped<")): return "associated types only (restated in core_spec)"
    if name.startswith(("Send for", "Sync for")): return "marker"
    return None

def expand_text(s, n, subst):
    """#( .. )* and ~I / .I templates in contract or spec text"""
    out, i = [], 0
    while i < len(s):
        if s.startswith("#(", i):
            d, j = 0, i + 1
            while True:
                if s[j] == "(": d += 1
                elif s[j] == ")":
                    d -= 1
                    if d == 0: break
                j += 1
            if s.startswith(")*", j):
                body = s[i + 2:j]
                for v in range(n):
                    b = re.sub(r"~I\b|~I(?=_)", str(v), body)
                    b = b.replace("$I1", str(v + 1))
                    b = re.sub(r"(?<=\.)I\b", str(v), b)
                    out.append(b)
                i = j + 2; continue
        out.append(s[i]); i += 1
    r = "".join(out)
    for k, v in subst.items(): r = r.replace(k, v)
    return r

def names(n):
    return {"name": "Storage%d" % n, "borrow": "Borrow%d" % n, "iter": "Iter%d" % n, "iter_mut": "IterMut%d" % n,
            "components": "Components%d" % n, "slices": "Slices%d" % n, "view": "View%d" % n, "n": str(n)}

def spec_cfg(text, cfg):
    return text_of_keep(apply_cfg(lex(text), cfg)) if "#[cfg" in text else text

def text_of_keep(t):
    return text_of(t)

def fold_const(t, env):
    """R13: integer constants are folded to their value (rustc checks the arithmetic)"""
    m = re.match(r"const\s+(\w+)\s*:\s*(u32|usize|u64)\s*=\s*(.*);$", t, re.S)
    if not m: return t
    e = m.group(3)
    for k, v in sorted(env.items(), key=lambda kv: -len(kv[0])): e = re.sub(r"\b%s\b" % re.escape(k), str(v), e)
    e = re.sub(r"\s+", " ", e)
    e = re.sub(r"(?<=\d)_(?=[\da-fA-F])|(?<=\d)(u32|usize|u64)\b", "", e)
    if not re.fullmatch(r"[\s\d()<>|&+*\-^xa-fA-F~]+", e): return t
    try: v = eval(e)
    except Exception: return t
    if not (0 <= v < 2 ** (32 if m.group(2) == "u32" else 64)): return t
    env[m.group(1)] = v
    return "const %s: %s = %d;" % (m.group(1), m.group(2), v)

def build(repo, cfg, n, skip=(), gen=None):
    """gen: replacement for the trait shims; every function is then taken at its contract (verified by the unit core)"""
    src = lambda p: lex(open(os.path.join(repo, "src", p)).read())
    env = names(n); S = env["name"]
    subst = {"$" + k: v for k, v in sorted(env.items(), key=lambda kv: -len(kv[0])) if k != "n"}
    ctext = open(HERE + "/contracts/core.vspec").read() + "\n" + expand_text(open(HERE + "/contracts/storage.vspec").read(), n, subst)
    contracts = parse_contracts(ctext)
    ex = Extractor(contracts, cfg, MAYPANIC)
    ex.cur_impl_spec = {}; ex.skip = set(skip); ex.force_all = gen is not None; ex.strict = {"new_entity_direct"} if gen is not None else set()
    spec = open(HERE + "/contracts/core_spec.rs").read()
    if gen is not None:
        a, b = spec.index("pub trait Archetype: Sized"), spec.index("pub enum EcsError")
        spec = spec[:a] + gen + spec[b:]
    i = spec.index("@template"); j = spec.index("@end\n", i)
    head, tmpl, tail = spec[:i], spec[i + len("@template"):j], spec[j + 5:]
    oc = ""
    for a in range(n):
        oc += "impl<A: Archetype, %s> %s<A, %s> { pub closed spec fn same_but_col%d(a: Self, b: Self) -> bool { Self::same_but_cols(a, b)%s } }\n" % (
            ", ".join("T%d" % k for k in range(n)), S, ", ".join("T%d" % k for k in range(n)), a,
            "".join(" && a.d%d@@ =~= b.d%d@@ && a.col%d() =~= b.col%d()" % (k, k, k, k) for k in range(n) if k != a))
    tmpl = tmpl.replace("@othercols", oc)
    tmpl = expand_text(tmpl, n, subst)
    implspec = {}
    def grab(m):
        implspec[m.group(1).strip()] = m.group(2); return ""
    tmpl = re.sub(r"@impl (.*?)\n(.*?)@endimpl\n", grab, tmpl, flags=re.S)
    tmpl = spec_cfg(tmpl, cfg)
    implspec = {k: spec_cfg(v, cfg) for k, v in implspec.items()}
    out = []
    consts_env = {"u32::BITS": 32, "ArchetypeId::BITS": 8, "usize::BITS": 64, "u8::BITS": 8, "u32::MAX": 2**32 - 1}
    excl = []
    defined = set()
    for _ in range(2):
        for p in ("version.rs", "index.rs", "archetype/slot.rs", "entity.rs"):
            for it in parse_items(apply_cfg(src(p), cfg)):
                if it.kind == "const":
                    t = strip_attrs(it.toks)
                    while t[0].text != "const":
                        t = t[match_close(t, 1) + 1:] if is_p(t, 1, "(") and t[0].text == "pub" else t[1:]
                    fold_const(text_of(t).strip(), consts_env)
    def emit_items(items, mod=""):
        for it in items:
            attrs = squash(it.attrs)
            if it.kind == "use": continue
            if it.kind == "macro": continue
            if it.kind == "mod":
                emit_items(getattr(it, "items", None) or parse_items(it.body), it.name + "::"); continue
            if it.kind in ("const", "type"):
                t = strip_attrs(it.toks)
                while t[0].text != it.kind:
                    t = t[match_close(t, 1) + 1:] if is_p(t, 1, "(") and t[0].text == "pub" else t[1:]
                out.append("pub " + fold_const(text_of(t).strip(), consts_env)); continue
            if it.kind in ("struct", "enum"):
                if it.name == "DataPtr" or it.name == "VerifDump": continue
                d = ""
                if it.name in DERIVE: d = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"
                elif it.name in COPY: d = "#[derive(Clone, Copy)]\n"
                if it.name in (env["name"], env["borrow"]): d += "".join("#[verifier::reject_recursive_types(T%d)]\n" % k for k in range(n)) + "#[verifier::reject_recursive_types(A)]\n"
                if it.name in (env["iter"], env["iter_mut"]): d += "".join("#[verifier::reject_recursive_types(T%d)]\n" % k for k in range(n)) + "#[verifier::reject_recursive_types(A)]\n"
                if it.name in ("Entity", "EntityDirect"): d += "#[verifier::reject_recursive_types(A)]\n"
                t = ex.rw_types(strip_attrs(it.toks))
                s = text_of(t).strip()
                s = re.sub(r"^pub\s*\(\s*crate\s*\)\s*|^pub\s+", "", s)
                out.append(d + "pub " + s); defined.add(it.name); continue
            if it.kind == "fn":
                if "test" in attrs or it.name.startswith(("fmt_",)): excl.append(mod + it.name); continue
                if it.name in ("new_layout", "resolve_ptr"): excl.append(mod + it.name); continue
                if it.name in ex.inlined: continue
                out.append(ex.emit_fn(it, "", key=mod + it.name)); continue
            if it.kind == "trait": continue
            if it.kind == "impl":
                why = excluded(it.name)
                if why or it.name.endswith("DataPtr"):
                    excl.append(it.name); continue
                emit_impl(it)
                continue
            raise Lost("item kind " + it.kind)
    def emit_impl(it):
        head = strip_attrs(it.head)
        body = parse_items(it.body)
        hs = text_of(head).strip()
        trait = it.name.split(" for ")[0] if " for " in it.name else None
        fns, assoc, rest = [], {}, []
        for b in body:
            if b.kind == "fn": fns.append(b)
            elif b.kind == "type": assoc[b.name] = b; rest.append(text_of(strip_attrs(b.toks)))
            elif b.kind == "const": rest.append(text_of(strip_attrs(b.toks)))
            else: raise Lost("item in impl " + it.name)
        vxren = {}
        inherent = False
        if trait in ("Drop", "Default") or (trait == "Clone" and it.name.endswith(S)):
            inherent = True; vxren = {"drop": "vx_drop", "default": "vx_default", "clone": "vx_clone"}
        if trait == "PartialEq" and it.name.split(" for ")[1] in DERIVE:
            # equality written out where the contracts use the structural one: its body has to decide just that
            inherent = True; vxren = {"eq": "vx_eq"}; key = it.name + "::vx_eq"
            c = Contract(key); c.ret = "r"; c.clauses.append(("ensures", "C14", "r == (*self == *$1)"))
            c.entry = "assert forall|a: u32, b: u32| (#[trigger] (a ^ b) == 0) <==> a == b by { assert((a ^ b == 0) <==> a == b) by (bit_vector); } assert forall|a: u32, b: u32| (#[trigger] (a | b) == 0) <==> (a == 0 && b == 0) by { assert((a | b == 0) <==> (a == 0 && b == 0)) by (bit_vector); }"; contracts[key] = c
            fns = [b for b in fns if b.name == "eq"]
        if trait == "Iterator":
            inherent = True; vxren = {"next": "vx_next"}; rest = []
        if inherent:
            # `impl<G> Trait for Type where W` -> `impl<G> Type where W`
            h = head; k = 1
            if is_p(h, k, "<"): k = skip_generics(h, k)
            f = next(q for q in range(k, len(h)) if is_id(h, q, "for"))
            hs = text_of(h[:k]) + " " + text_of(h[f + 1:])
        if trait is None or inherent: hs = re.sub(r"^\s*", "", hs)
        parts = []
        if it.name in implspec: parts.append(implspec[it.name])
        if trait == "Hash": parts.append("    open spec fn hv(&self) -> Seq<u64> { hash_of(self.k(), self.v()) }\n")
        for f in fns:
            if gen is not None and it.name == S and not any(is_id(f.sig, q, "pub") for q in range(3)): continue   # private: no call from outside the crate reaches it
            if trait is None and it.name + "::" + f.name in ex.inlined: continue
            rename = vxren.get(f.name)
            key_impl = it.name
            if trait == "Iterator": key_impl = it.name.split(" for ")[1]
            key = key_impl + "::" + (rename or f.name)
            retype = None
            if trait == "Iterator":
                item = assoc["Item"].toks
                q = next(z for z in range(len(item)) if is_p(item, z, "="))
                retype = L(" Option<") + item[q + 1:-1] + L(">")
            if trait is None and f.name in ("iter", "iter_mut") and it.name == S:
                tgt = env[f.name]
                retype = L(" %s<'_, A, %s>" % (tgt, ", ".join("T%d" % k for k in range(n))))
            parts.append(ex.emit_fn(f, key_impl, key=key, rename=rename, retype=retype,
                                    trait_sig=(trait is not None and not inherent)))
        kind = it.name
        out.append("/*@impl %s*/ " % it.name + hs + " {\n" + "\n".join(rest) + "\n".join(parts) + "\n}")
    groups = [parse_items(apply_cfg(src(p), cfg)) for p in ("version.rs", "index.rs", "archetype/slot.rs", "entity.rs")]
    groups.append(parse_items(apply_cfg(instantiate(src("archetype/iter.rs"), "declare_iter_n", env), cfg)))
    loose = [i for i in parse_items(apply_cfg(src("archetype/storage.rs"), cfg)) if i.kind in ("fn", "const") and i.name not in ("new_layout", "resolve_ptr") and "test" not in squash(getattr(i, "attrs", None) or [])]
    groups.append(loose + parse_items(apply_cfg(instantiate(src("archetype/storage.rs"), "declare_storage_n", env), cfg)))
    def skipped(it): return (it.kind == "impl" and (excluded(it.name) or it.name.endswith("DataPtr"))) or (it.kind == "fn" and (it.name.startswith("fmt_") or it.name in ("new_layout", "resolve_ptr")))
    ex.inlined = inline.run([[i for i in g if not skipped(i)] for g in groups], contracts)
    for g in groups: emit_items(g)
    missing = [k for k, c in contracts.items() if not c.used]
    dp, dmiss, dunc = build_dataptr.core_shim(repo, cfg); missing += dmiss; ex.uncontracted += dunc
    pre = open(HERE + "/contracts/prelude.rs").read().replace("@dataptr\n", dp)
    consts = "pub const VX_WRAPPING: bool = %s;\npub const VX_DEBUG: bool = %s;\n" % (
        "true" if cfg.get("feature=wrapping_version") else "false", "true" if cfg.get("debug_assertions") else "false")
    lem = open(HERE + "/contracts/lemmas.rs").read() if os.path.exists(HERE + "/contracts/lemmas.rs") else ""
    lem = spec_cfg(expand_text(lem, n, subst), cfg)
    if gen is not None:
        body = consts + pre + head + tmpl + "\n" + tail + "\n".join(out) + "\n"
        body = re.sub(r"/\*@(?:fn|impl) [^*]*\*/", "", body)
        body = re.sub(r"/\*@([^*|]*\|[^*]*)\*/", r"/*%\1*/", body)
        body = re.sub(r"(?m)^(\s*)((?:pub )?proof fn )", r"\1#[verifier::external_body] \2", body)
        return body, ex, missing, excl
    text = "#![allow(unused_imports, dead_code, unused_variables, unused_unsafe, unused_mut, unused_parens, unused_braces, unreachable_code)]\n" \
           "use vstd::prelude::*;\nuse std::marker::PhantomData;\nverus! {\n" + consts + pre + head + tmpl + "\n" + tail + "\n".join(out) + "\n" + lem + "\n} // verus!\nfn main() {}\n"
    return text, ex, missing, excl

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("--repo", default="/repo"); ap.add_argument("-n", type=int, default=1)
    ap.add_argument("--feat", default=""); ap.add_argument("--debug", action="store_true"); ap.add_argument("-o", default="/tmp/core.rs")
    a = ap.parse_args()
    cfg = {"feature=" + f: 1 for f in a.feat.split(",") if f}
    if a.debug: cfg["debug_assertions"] = 1
    t, ex, missing, excl = build(a.repo, cfg, a.n)
    open(a.o, "w").write(t)
    print("uncontracted", ex.uncontracted); print("missing", missing); print("excluded", excl); print("reshaped", ex.reshaped)
