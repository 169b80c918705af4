"""Assemble the Verus file for the raw column allocation (archetype/storage.rs: DataPtr, new_layout, resolve_ptr)."""
import os
from rx import *
from vx import *
import inline
HERE = os.path.dirname(os.path.abspath(__file__))
DRULES = {
 "D1 memory": "std::ptr/std::alloc/std::slice calls on raw pointers get the owning pointer self.0 as an extra argument (arguments are hoisted into lets, evaluation order kept); `*p = v` and `(*p).write(v)` become such calls",
 "D2 casts": "`p as *mut T` / `*const T` / `*mut u8` and `.cast::<T>()` become typed shim casts",
 "D3 assign": "`self.0 = E` becomes a call that requires the old block to be gone (no leak)",
 "D4 zst": "NonNull::dangling() gets its (ghost) number of zero-sized cells; a ghost resize for zero-sized T is inserted at the entry of grow and dealloc",
}
PTR = {"read", "write", "copy", "copy_nonoverlapping", "drop_in_place"}

class DExtractor(Extractor):
    def rw_calls(self, t, ok):
        return super().rw_calls(self.rw_layout(self.rw_mem(t), ok), ok)
    def rw_layout(self, t, ok):
        out, i = [], 0
        while i < len(t):
            if is_id(t, i, "new_layout"):
                j = i + 1
                if seq_is(t, j, ":", ":", "<"): j = skip_generics(t, j + 2)
                e = match_close(t, j)
                out += t[i:e] + L(", Ghost(%s)" % ok, t[i].line) + [t[e]]; i = e + 1; continue
            out.append(t[i]); i += 1
        return out
    def hoist(self, path, mem, args, ln):
        self.k = getattr(self, "k", 0)
        out = L("{ ", ln); names = []
        for a in args:
            self.k += 1; names.append("vx_h%d" % self.k)
            out += L("let vx_h%d = " % self.k, ln) + self.rw_mem(a) + L("; ", ln)
        return out + L("%s(%s%s) }" % (path, mem, "".join(", " + n for n in names)), ln)
    def rw_mem(self, t):
        out, i = [], 0
        while i < len(t):
            ln = t[i].line
            start = i == 0 or (t[i - 1].kind == "p" and t[i - 1].text in (";", "{", "}"))
            # *P = E;
            if start and is_p(t, i, "*"):
                d, k = 0, i + 1
                while k < len(t):
                    if t[k].kind == "p":
                        if t[k].text in OPEN: k = match_close(t, k)
                        elif t[k].text == ";": break
                        elif t[k].text == "=" and not is_p(t, k + 1, "=") and not is_p(t, k - 1, "!"): d = k; break
                    k += 1
                if d:
                    e = d + 1
                    while not is_p(t, e, ";"):
                        if t[e].kind == "p" and t[e].text in OPEN: e = match_close(t, e)
                        e += 1
                    # evaluation order of an assignment: value first
                    self.k = getattr(self, "k", 0) + 1; k = self.k
                    out += L("{ let vx_v%d = " % k, ln) + self.rw_mem(t[d + 1:e]) + L("; let vx_p%d = " % k, ln) + self.rw_mem(t[i + 1:d]) + L("; ptr::vx_assign_place(&mut self.0, vx_p%d, vx_v%d) };" % (k, k), ln)
                    i = e + 1; continue
            # (*P).write(v) / .assume_init_read() / .assume_init_drop()
            if is_p(t, i, "(") and is_p(t, i + 1, "*"):
                e = match_close(t, i)
                if is_p(t, e + 1, ".") and is_id(t, e + 2) and is_p(t, e + 3, "("):
                    e2 = match_close(t, e + 3); n = t[e + 2].text; P = t[i + 2:e]
                    if n == "write": out += self.hoist("ptr::vx_cell_write", "&mut self.0", [P, t[e + 4:e2]], ln); i = e2 + 1; continue
                    if n == "assume_init_read": out += self.hoist("ptr::read", "&mut self.0", [P], ln) + L(".assume_init()", ln); i = e2 + 1; continue
                    if n == "assume_init_drop": out += self.hoist("ptr::drop_in_place", "&mut self.0", [P + L(".vx_as_t()", ln)], ln); i = e2 + 1; continue
                    raise Lost("dereference of a raw pointer: " + n)
            # P.read() / P.write(v) / P.drop_in_place()
            if is_p(t, i, ".") and is_id(t, i + 1) and t[i + 1].text in ("read", "write", "drop_in_place") and is_p(t, i + 2, "("):
                e = match_close(t, i + 2); s = self.chain_start(out, len(out)); P = out[s:]
                args = [P] + ([t[i + 3:e]] if e > i + 3 else [])
                out = out[:s] + self.hoist("ptr::" + t[i + 1].text, "&mut self.0", args, ln)
                i = e + 1; continue
            # path::fn(args)
            if is_id(t, i) and seq_is(t, i + 1, ":", ":") and is_id(t, i + 3) and is_p(t, i + 4, "("):
                m, n = t[i].text, t[i + 3].text
                if (m == "ptr" and n in PTR) or (m == "alloc" and n in ("realloc", "dealloc")) or (m == "slice" and n in ("from_raw_parts", "from_raw_parts_mut")):
                    e = match_close(t, i + 4)
                    out += self.hoist("%s::%s" % (m, n), "&self.0" if n == "from_raw_parts" else "&mut self.0", split_commas(t[i + 5:e]), ln)
                    i = e + 1; continue
                if m == "NonNull" and n == "dangling":
                    c = self.contracts.get(self.cur_key)
                    z = {"DataPtr::with_capacity": self.param0, "DataPtr::dealloc": "0"}.get(self.cur_key, "0")
                    out += L("NonNull::vx_dangling(Ghost(%s as int))" % z, ln); i += 6; continue
            # self.0 = E;
            if start and seq_is(t, i, "self", ".", "0", "=") and not is_p(t, i + 4, "="):
                e = i + 4
                while not is_p(t, e, ";"):
                    if t[e].kind == "p" and t[e].text in OPEN: e = match_close(t, e)
                    e += 1
                self.k = getattr(self, "k", 0) + 1; k = self.k
                out += L("{ let vx_v%d = " % k, ln) + self.rw_mem(t[i + 4:e]) + L("; self.0.vx_assign(vx_v%d); }" % k, ln)
                i = e + 1; continue
            # .cast::<T>()
            if is_p(t, i, ".") and is_id(t, i + 1, "cast") and seq_is(t, i + 2, ":", ":", "<", "T", ">", "(", ")"):
                out += L(".vx_cast_t()", ln); i += 9; continue
            # P as *mut X
            if is_id(t, i, "as") and is_p(t, i + 1, "*") and is_id(t, i + 2) and t[i + 2].text in ("mut", "const"):
                if is_id(t, i + 3, "u8"): out += L(".vx_as_u8()", ln); i += 4; continue
                if is_id(t, i + 3, "T") and not is_p(t, i + 4, "<"): out += L(".vx_as_t()", ln); i += 4; continue
                raise Lost("raw pointer cast")
            out.append(t[i]); i += 1
        return out

def source(repo, cfg):
    return parse_items(apply_cfg(lex(open(os.path.join(repo, "src/archetype/storage.rs")).read()), cfg))
FREE = ("new_layout", "resolve_ptr")
def prepared(repo, cfg, cs):
    """the items of the file, helpers without contract substituted and dropped"""
    its = source(repo, cfg)
    gone = inline.run([[i for i in its if i.kind == "fn" or (i.kind == "impl" and i.name == "DataPtr")]], dict.fromkeys(list(cs) + list(FREE)))
    its = [i for i in its if not (i.kind == "fn" and i.name in gone)]
    for i in its:
        if i.kind == "impl" and i.name == "DataPtr": i.drop = gone
    return its

def emit_impl(ex, it, trusted):
    parts = []
    for b in parse_items(it.body):
        if b.kind != "fn": raise Lost("item in impl DataPtr: " + b.kind)
        if "DataPtr::" + b.name in getattr(it, "drop", ()): continue
        ex.param0 = (ex.param_names(ex.split_sig(strip_attrs(b.sig))[1]) or [None])[0]
        parts.append(ex.emit_fn(b, "DataPtr", force_trusted=trusted))
    return "/*@impl DataPtr*/ impl<T> DataPtr<T> {\n" + "\n".join(parts) + "\n}\n"

def contracts(): return parse_contracts("\n".join(l for l in open(HERE + "/contracts/dataptr.vspec").read().split("\n") if not l.startswith("  zst:")))
def zst():
    out, cur = {}, None
    for l in open(HERE + "/contracts/dataptr.vspec"):
        if l.startswith("fn "): cur = l.split()[1]
        if l.startswith("  zst:"): out[cur] = l.split(":", 1)[1].strip()
    return out

def core_shim(repo, cfg):
    """the DataPtr impl for the core unit: signatures of the real code, contracts only"""
    cs = contracts()
    for k in FREE: cs.pop(k)
    for c in cs.values(): c.entry = ""
    ex = DExtractor(cs, cfg, set())
    out = "#[verifier::external_body]\n#[verifier::reject_recursive_types(T)]\npub struct DataPtr<T> { t: std::marker::PhantomData<T> }\nimpl<T> DataPtr<T> { pub uninterp spec fn view(&self) -> Seq<Option<T>>; }\n"
    for it in prepared(repo, cfg, cs):
        if it.kind == "impl" and it.name == "DataPtr": out += emit_impl(ex, it, True).replace("/*@fn ", "/*@dp ").replace("/*@DataPtr::", "/*@dp DataPtr::")
    return out, [k for k, c in cs.items() if not c.used], ex.uncontracted

def build(repo, cfg, skip=()):
    cs = contracts(); z = zst()
    ex = DExtractor(cs, cfg, {"new_layout"}); ex.skip = set(skip)
    out = []; excl = []
    def fn_entry(key, pn):
        pass
    for it in prepared(repo, cfg, cs):
        if it.kind == "struct" and it.name == "DataPtr":
            t = text_of(strip_attrs(it.toks)).strip()
            t = t.replace("pub struct DataPtr<T>(", "pub struct DataPtr<T>(pub ")
            out.append("#[verifier::reject_recursive_types(T)]\n" + t)
        elif it.kind == "fn" and it.name in FREE:
            ex.param0 = None
            out.append(ex.emit_fn(it, "", key=it.name))
        elif it.kind == "impl" and it.name == "DataPtr":
            body = parse_items(it.body)
            for b in body:
                k = "DataPtr::" + b.name
                if k in z:
                    e = z[k]; pn = ex.param_names(ex.split_sig(strip_attrs(b.sig))[1])
                    if e.startswith("$"): e = pn[int(e[1:]) - 1]
                    b.body = [b.body[0]] + L("self.0.vx_zst_resize(Ghost(%s as int));" % e, b.body[0].line) + b.body[1:]
                ex.param0 = (ex.param_names(ex.split_sig(strip_attrs(b.sig))[1]) or [None])[0]
                out.append(("/*@impl DataPtr*/ impl<T> DataPtr<T> {\n") + ex.emit_fn(b, "DataPtr") + "\n}")
        elif it.kind == "impl" and it.name.endswith("DataPtr"): excl.append(it.name)
    pre = open(HERE + "/contracts/prelude.rs").read().replace("@dataptr\n", "")
    spec = open(HERE + "/contracts/dataptr_spec.rs").read()
    missing = [k for k, c in cs.items() if not c.used]
    text = "#![allow(unused_imports, dead_code, unused_variables, unused_unsafe, unused_mut, unused_parens, unused_braces, unreachable_code)]\n" \
           "use vstd::prelude::*;\nuse std::marker::PhantomData;\nverus! {\n" + pre + spec + "\n".join(out) + "\n} // verus!\nfn main() {}\n"
    return text, ex, missing, excl

if __name__ == "__main__":
    import sys
    t, ex, m, e = build(sys.argv[1] if len(sys.argv) > 1 else "/repo", {"debug_assertions": 1} if "dbg" in sys.argv else {})
    open("/tmp/dataptr.rs", "w").write(t); print(ex.uncontracted, m, e, ex.lost)
