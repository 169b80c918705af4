"""Assemble the Verus file for the macro crate's decision procedures (parse/*, data.rs, generate/query.rs)."""
import os, re, sys
from rx import *
from vx import *
import inline
HERE = os.path.dirname(os.path.abspath(__file__))

MRULES = {
 "M1 for": "`for PAT in E { B }` becomes `let mut it = E.into_iter(); loop { match it.next() { Some(PAT) => { B } None => break } }` (the language's own definition) over iterator shims with a ghost sequence and position; `for x in v.iter_mut()` becomes an index loop",
 "M2 iterators": ".iter()/.into_iter()/.drain(..)/.zip()/.collect()/.map(|x| x.value) are calls of iterator shims; .iter().map(F).collect::<Vec<_>>() over bound parameters becomes a shim that requires every parameter to be bound (no OneOf, none reserved)",
 "M3 tokens": "quote!/quote_spanned!/format_ident!/format! become opaque token streams; a quote! with `#(#queries)*` records the arms of that vector, the quote! that interpolates the archetype identifier and the bound types records one arm (archetype name, bound parameters)",
 "M6 entry": "parse_macro_input!(a as T) by its definition (return the compile error, or go on with the parsed value)",
 "M5 guards": "a match arm with alternatives and a guard becomes one guarded arm per alternative",
 "M4 syn": "parenthesized!/braced!/bracketed! become shim calls returning the group's buffer; Token![..] becomes a marker type",
}

OPTMAP_EXCL = ("iter", "into_iter")

class MacroExtractor(Extractor):
    def rewrite(self, toks, ok, c):
        self.types_var, self.arch_var = self.find_vars(toks)
        t = self.rw_guards(self.rw_parse(self.rw_entry(toks)))
        t = strip_attrs(self.rw_quote(t))
        t = self.rw_chains(t)
        t = self.rw_macros(t, ok)
        t = self.rw_maps(t)
        t = self.rw_calls(t, ok)
        return t

    def rw_guards(self, t):
        """M5: an or-pattern with a guard becomes one guarded arm per alternative"""
        out, i = [], 0
        while i < len(t):
            if is_id(t, i, "match"):
                k = i + 1
                while not is_p(t, k, "{"):
                    if t[k].kind == "p" and t[k].text in OPEN: k = match_close(t, k)
                    k += 1
                e = match_close(t, k)
                out += t[i:k + 1]
                j = k + 1
                while j < e:
                    a = j
                    while not (is_p(t, j, "=") and is_p(t, j + 1, ">")):
                        if t[j].kind == "p" and t[j].text in OPEN: j = match_close(t, j)
                        j += 1
                    pat = t[a:j]; b = j + 2; j = b
                    if is_p(t, b, "{"):
                        j = match_close(t, b) + 1
                        if is_p(t, j, ","): j += 1
                    else:
                        while j < e and not is_p(t, j, ","):
                            if t[j].kind == "p" and t[j].text in OPEN: j = match_close(t, j)
                            j += 1
                        j = min(j + 1, e)
                    body = self.rw_guards(t[b:j])
                    d, g, bars = 0, None, []
                    for q, x in enumerate(pat):
                        if x.kind == "p" and x.text in OPEN: d += 1
                        elif x.kind == "p" and x.text in CLOSE: d -= 1
                        elif d == 0 and is_id(pat, q, "if") and g is None: g = q
                        elif d == 0 and g is None and x.kind == "p" and x.text == "|": bars.append(q)
                    if g is not None and bars:
                        bs = [-1] + bars + [g]
                        for u, v in zip(bs, bs[1:]):
                            if pat[u + 1:v]: out += pat[u + 1:v] + pat[g:] + L(" => ", pat[0].line) + body
                    else: out += pat + t[b - 2:b] + body
                out.append(t[e]); i = e + 1; continue
            out.append(t[i]); i += 1
        return out

    def rw_entry(self, t):
        """parse_macro_input!(a as T) by its definition; `generate::f` is f"""
        out, i = [], 0
        while i < len(t):
            if is_id(t, i, "parse_macro_input") and is_p(t, i + 1, "!"):
                e = match_close(t, i + 2); a = i + 3
                while not is_id(t, a, "as"): a += 1
                ln = t[i].line
                out += L("match vx_parse_input::<", ln) + t[a + 1:e] + L(">(", ln) + t[i + 3:a] + L(") { Ok(x) => x, Err(e) => return e.into_compile_error() }", ln)
                i = e + 1; continue
            if is_id(t, i, "generate") and seq_is(t, i + 1, ":", ":"): i += 3; continue
            out.append(t[i]); i += 1
        return out

    def find_vars(self, t):
        ty, ar, alias = None, None, set()
        for i in range(len(t)):
            if is_id(t, i, "let") and is_id(t, i + 1) and is_p(t, i + 2, "="):
                j = i + 3
                while j < len(t) and not is_p(t, j, ";"):
                    if t[j].kind == "p" and t[j].text in OPEN: j = match_close(t, j)
                    j += 1
                s = squash(t[i + 3:j])
                if re.search(r"\. map \( \| (\w+) \| to_type \( \1 ,", s): ty = t[i + 1].text
                if re.match(r"(& )?\w+ \. name( \. (clone|as_str|to_string) \( \))?$", s): alias.add(t[i + 1].text)
                m = re.match(r'format_ident ! \( "\{\}" , (& )?(\w+)( \. name)?( \. (clone|as_str|to_string) \( \))? \)$', s)
                if ar is None and m and (m.group(3) or m.group(2) in alias): ar = t[i + 1].text
        return ty, ar

    def rw_parse(self, t):
        out, i = [], 0
        while i < len(t):
            # let X ; group!( X in E ) ;
            if is_id(t, i, "let") and is_id(t, i + 1) and is_p(t, i + 2, ";") and is_id(t, i + 3) and t[i + 3].text in ("parenthesized", "braced", "bracketed") and is_p(t, i + 4, "!"):
                e = match_close(t, i + 5)
                if not (t[i + 6].text == t[i + 1].text and is_id(t, i + 7, "in")): raise Lost("group macro")
                out += t[i:i + 2] + L(" = ", t[i].line) + t[i + 8:e] + L(".vx_%s()?;" % t[i + 3].text, t[i].line)
                i = e + 2; continue
            if is_id(t, i, "Token") and is_p(t, i + 1, "!"):
                e = match_close(t, i + 2)
                out += L(TOKENS.get("".join(x.text for x in t[i + 3:e]), "VxTok"), t[i].line); i = e + 1; continue
            if is_p(t, i, ".") and is_id(t, i + 1, "peek") and is_p(t, i + 2, "("):
                e = match_close(t, i + 2); ln = t[i].line
                out += L(".peek::<", ln) + self.rw_parse(t[i + 3:e]) + L(">()", ln); i = e + 1; continue
            if is_p(t, i, ".") and is_id(t, i + 1, "call") and is_p(t, i + 2, "("):
                e = match_close(t, i + 2); s = self.chain_start(t, i)
                recv = out[len(out) - (i - s):]
                del out[len(out) - (i - s):]
                out += t[i + 3:e] + L("(", t[i].line) + recv + L(")", t[i].line)
                i = e + 1; continue
            out.append(t[i]); i += 1
        return out

    def rw_quote(self, t):
        out, i = [], 0
        while i < len(t):
            if is_id(t, i) and is_p(t, i + 1, "!") and t[i].text in ("quote", "quote_spanned", "format_ident", "format"):
                e = match_close(t, i + 2); n = t[i].text; ln = t[i].line; inner = t[i + 3:e]
                if n == "format": r = "vx_text()"
                elif n == "format_ident":
                    m = re.match(r'^"\{\}" , (?:& )?([\w .]+?)(?: \. (?:clone|as_str|to_string) \( \))?$', squash(inner))
                    r = "vx_ident_of(&%s)" % m.group(1).replace(" ", "") if m else "vx_ident()"
                else:
                    interp = [inner[k + 1].text for k in range(len(inner) - 1) if is_p(inner, k, "#") and is_id(inner, k + 1)]
                    if "queries" in interp or (self.qvar and self.qvar in interp): r = "vx_tokens_of(&%s)" % (self.qvar or "queries")
                    elif self.types_var in interp and self.arch_var in interp and self.types_var: r = "vx_arm(&%s, &%s)" % (self.arch_var, self.types_var)
                    else: r = "vx_tokens()"
                out += L(" " + r, ln); i = e + 1; continue
            out.append(t[i]); i += 1
        return out

    qvar = None

    def rw_chains(self, t):
        out, i = [], 0
        while i < len(t):
            if is_p(t, i, ".") and is_id(t, i + 1) and is_p(t, i + 2, "("):
                n, e, ln = t[i + 1].text, match_close(t, i + 2), t[i].line
                arg = t[i + 3:e]
                if n == "iter" and not arg:
                    # .iter().map(F).collect..
                    if is_p(t, e + 1, ".") and is_id(t, e + 2, "map") and is_p(t, e + 3, "("):
                        e2 = match_close(t, e + 3); f = squash(t[e + 4:e2])
                        if is_p(t, e2 + 1, ".") and is_id(t, e2 + 2, "collect"):
                            k = e2 + 3
                            if is_p(t, k, ":"): k = skip_generics(t, k + 2)
                            e3 = match_close(t, k)
                            m = re.match(r"^\| (\w+) \| to_type \( \1 , & \w+ \)$", f)
                            if m: r = ".vx_map_types()"
                            elif re.fullmatch(r"(find|iter)_bind_(mut|borrow)", f): r = ".vx_map_bind()"
                            elif re.fullmatch(r"\w+", f): r = ".vx_map_tokens()"
                            else: raise Lost("iterator chain " + f)
                            out += L(".vx_iter()" + r, ln); i = e3 + 1; continue
                    if is_p(t, e + 1, ".") and is_id(t, e + 2, "enumerate"):
                        out += L(".vx_iter().vx_enumerate()", ln); i = match_close(t, e + 3) + 1; continue
                    out += L(".vx_iter()", ln); i = e + 1; continue
                if n == "into_boxed_slice" and not arg: out += L(".vx_boxed()", ln); i = e + 1; continue
                if n == "into_iter": out += L(".vx_into()", ln); i = e + 1; continue
                if n == "drain" and squash(arg) == ". .": out += L(".vx_drain()", ln); i = e + 1; continue
                if n == "zip": out += L(".vx_zip(", ln) + self.rw_chains(arg) + L(")", ln); i = e + 1; continue
                if n == "collect": out += L(".vx_collect()", ln); i = e + 1; continue
                if n == "map" and re.match(r"^\| (\w+) \| \1 \. value$", squash(arg)): out += L(".vx_map_value()", ln); i = e + 1; continue
            if is_p(t, i, ".") and is_id(t, i + 1, "collect") and seq_is(t, i + 2, ":", ":"):
                k = skip_generics(t, i + 4); e = match_close(t, k)
                out += L(".vx_collect()", t[i].line); i = e + 1; continue
            out.append(t[i]); i += 1
        return out

    def own_break(self, b):
        """`break` that leaves the loop whose body is b"""
        i = 0
        while i < len(b):
            if is_id(b, i) and b[i].text in ("for", "while", "loop"):
                while not is_p(b, i, "{"):
                    if b[i].kind == "p" and b[i].text in OPEN: i = match_close(b, i)
                    i += 1
                i = match_close(b, i)
            elif is_id(b, i, "break"): return True
            i += 1
        return False

    def own(self, b):
        """positions of the `break`s that leave the loop whose body is b"""
        i = 0
        while i < len(b):
            if is_id(b, i) and b[i].text in ("for", "while", "loop"):
                while not is_p(b, i, "{"):
                    if b[i].kind == "p" and b[i].text in OPEN: i = match_close(b, i)
                    i += 1
                i = match_close(b, i)
            elif is_id(b, i, "break"): yield i
            i += 1
    def value_break(self, b): return any(i + 1 < len(b) and not (b[i + 1].kind == "p" and b[i + 1].text in (";", "}", ",")) for i in self.own(b))
    def breaks(self, b, ts, e):
        """a loop in tail position (ending at e in ts) whose breaks carry values: they are returns"""
        j = e + 1
        while j < len(ts):
            if is_p(ts, j, "}"): j += 1
            elif is_id(ts, j, "else"):
                while not is_p(ts, j, "{"):
                    if ts[j].kind == "p" and ts[j].text in OPEN: j = match_close(ts, j)
                    j += 1
                j = match_close(ts, j) + 1
            else: raise Lost("break with a value")
        pos = set(self.own(b)); out = []
        for i, x in enumerate(b):
            if i in pos: x = x.copy(); x.text = "return"
            out.append(x)
        return out

    def rw_loops(self, t, c, key):
        n = [0]
        def go(ts):
            out, i = [], 0
            while i < len(ts):
                if is_id(ts, i) and ts[i].text in ("for", "while", "loop") and not is_p(ts, i + 1, "<"):
                    kind, idx, ln = ts[i].text, n[0], ts[i].line
                    n[0] += 1
                    inv = c.loops.get(idx, []) if c else []
                    k = i + 1
                    while not is_p(ts, k, "{"):
                        if ts[k].kind == "p" and ts[k].text in OPEN: k = match_close(ts, k)
                        k += 1
                    e = match_close(ts, k); body = ts[k + 1:e]
                    def sub(x): return re.sub(r"\$pos\b", "vx_it%d.pos()" % idx, re.sub(r"\$seq\b", "vx_s%d" % idx, x))
                    invt = "".join("\n/*@%s|%s*/ %s," % (key, lab or "loop%d" % idx, " ".join(sub(x).split())) for lab, x in inv)
                    ent = ("\nproof { %s }" % sub(c.loop_entry[idx])) if c and idx in c.loop_entry else ""
                    if c and idx in c.loop_let: ent = "\n" + sub(c.loop_let[idx]) + ent
                    aft = ("\nproof { %s }" % sub(c.loop_after[idx])) if c and idx in c.loop_after else ""
                    ini = ("\nproof { %s }" % sub(c.loop_init[idx])) if c and idx in c.loop_init else ""
                    ext = ("\nproof { %s }" % sub(c.loop_exit[idx])) if c and idx in c.loop_exit else ""
                    if kind != "for":
                        if inv and kind != "loop" and key not in WHILE: self.reshaped.add(key)
                        if kind == "loop" and n[0] and self.value_break(body): body = self.breaks(body, ts, e)
                        out += ts[i:k] + (Raw("\n invariant " + invt + "\n") if inv else []) + [ts[k]] + go(body) + [ts[e]]
                        i = e + 1; continue
                    j = i + 1
                    while not is_id(ts, j, "in"): j += 1
                    pat, ex = ts[i + 1:j], ts[j + 1:k]
                    brk = self.own_break(body)
                    if brk and inv: self.reshaped.add(key)
                    if inv and key in EARLY and not any(is_id(body, z, "return") for z in range(len(body))): self.reshaped.add(key)
                    b2 = go(body)
                    if b2 and ext and not (b2[-1].kind == "p" and b2[-1].text in (";", "}")): b2 = b2 + L(";", ln)
                    if seq_is(ex, len(ex) - 4, ".", "iter_mut", "(", ")"):
                        v = text_of(ex[:-4]).strip()
                        sb = lambda x: x.replace("$i", "vx_k%d" % idx).replace("$v", v)
                        invt = "".join("\n/*@%s|%s*/ %s," % (key, lab or "loop%d" % idx, " ".join(sb(x).split())) for lab, x in inv)
                        out += Raw("\nlet ghost vx_s%d = %s@; for vx_k%d in 0..%s.len()%s { let " % (idx, v, idx, v, ("\n invariant " + invt.replace("$seq", "vx_s%d" % idx)) if inv else "")) + pat + Raw(" = &mut %s[vx_k%d];" % (v, idx)) + b2 + Raw("}" + sb(aft))
                        i = e + 1; continue
                    if self.range(ex):
                        if inv: self.reshaped.add(key)
                        out += ts[i:k + 1] + b2 + [ts[e]]; i = e + 1; continue
                    out += Raw("\nlet mut vx_it%d = " % idx) + ex + Raw(".vx_into(); let ghost vx_s%d = vx_it%d.seq();%s\nloop invariant vx_it%d.seq() == vx_s%d, 0 <= vx_it%d.pos() <= vx_s%d.len(),%s\n ensures %s decreases vx_s%d.len() - vx_it%d.pos()\n{ match vx_it%d.vx_next() { Some(" % (idx, idx, ini, idx, idx, idx, idx, invt, "true," if brk else "vx_it%d.pos() == vx_s%d.len()," % (idx, idx), idx, idx, idx)) + pat + Raw(") => {" + ent) + b2 + Raw(ext + "}, None => { break; } } }" + aft)
                    i = e + 1; continue
                out.append(ts[i]); i += 1
            return out
        r = go(t)
        if c and c.loops and max(c.loops) >= n[0]: self.reshaped.add(key)
        return r, n[0]

    def range(self, ex):
        return self.split_range(ex) is not None or self.rev_range(ex) is not None

FILES = ["parse/attribute.rs", "parse/world.rs", "parse/query.rs", "parse/cfg.rs", "parse/mod.rs", "data.rs", "generate/query.rs", "lib.rs"]
ENTRY = re.compile(r"__impl_ecs_\w+")
# functions whose body stays outside (see the reasons); those with a contract are trusted
SKIP_FN = {"generate_ecs_component_id": "token template", "to_snake_ident": "token template", "to_snake_str": "token template", "to_attributes": "token template", "to_name": "token template", "to_maybe_mut": "token template"}
TRUST = {"is_allowed_component_name": "string match", "DataWorld::from_base64": "serialisation round trip"}
EXCL_IMPL = set()
EARLY = {"evaluate_cfgs", "DataArchetype::contains_component"}   # their loops end with a return: the invariants are for that form
WHILE = {"parse_attributes"}   # written with a while loop: its invariants are for that loop
TOKENS = {"_": "VxUnder", "#": "VxPound", "|": "VxBar", "<": "Lt", ">": "Gt", ",": "Comma", ";": "Semi", ":": "Colon", "mut": "Mut"}
LOOPATTR = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]"

def build(repo, skip=()):
    src = lambda p: lex(open(os.path.join(repo, "macros/src", p)).read())
    contracts = parse_contracts(open(HERE + "/contracts/macros.vspec").read())
    ex = MacroExtractor(contracts, {}, {"vx_none": 0}); ex.skip = set(skip)
    spec = open(HERE + "/contracts/macros_spec.rs").read()
    implspec = {}
    def grab(m):
        implspec[m.group(1).strip()] = m.group(2); return ""
    spec = re.sub(r"@impl (.*?)\n(.*?)@endimpl\n", grab, spec, flags=re.S)
    out, excl = [], []
    used_impl = set()
    def fn(it, impl, key=None, **kw):
        key = key or (impl + "::" + it.name if impl else it.name)
        c = contracts.get(key)
        if c is not None and "loop_isolation" not in c.attrs: c.attrs = (c.attrs + " " + LOOPATTR).strip()
        elif c is None and it.body is not None:
            c = contracts[key] = Contract(key); c.attrs = LOOPATTR; ex.auto.add(key)
        ex.qvar = None
        b = it.body or []
        for i in range(len(b)):
            if is_id(b, i, "let") and is_id(b, i + 1, "mut") and is_id(b, i + 2) and seq_is(b, i + 3, "=", "Vec", ":", ":", "<", "TokenStream"): ex.qvar = b[i + 2].text
        trusted = key in TRUST
        r = ex.emit_fn(it, impl, key=key, force_trusted=trusted, **kw)
        if key.startswith("generate_query_") and contracts[key].loops and "vx_arm(" not in r: ex.reshaped.add(key)      # the arm is put together in another way
        return r
    ex.auto = set()
    def items(its, p):
        for it in its:
            a = squash(it.attrs)
            if it.kind in ("use", "mod", "macro"): continue
            if it.kind in ("struct", "enum"):
                s = re.sub(r"^pub\s*(\([^)]*\))?\s*", "", text_of(strip_attrs(it.toks)).strip())
                s = re.sub(r"<T: Parse \+ HasCfgPredicates>", "<T: Parse + HasCfgPredicates>", s)
                if "derive" in a and "Clone" in a:
                    out.append("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % it.name)
                if it.name == "ParseCfgDecorated": out.append("#[verifier::reject_recursive_types(T)]")
                out.append("pub " + s); continue
            if it.kind == "fn":
                if p == "lib.rs" and not ENTRY.fullmatch(it.name): excl.append(it.name + ": macro entry point outside the binding"); continue
                if it.name in SKIP_FN: excl.append(it.name + ": " + SKIP_FN[it.name]); continue
                out.append(fn(it, "").replace("pub(super) fn", "pub fn").replace("pub (super) fn", "pub fn")); continue
            if it.kind == "trait":
                h = text_of(strip_attrs(it.head)).strip()
                parts = [implspec.get("trait " + it.name, "")]; used_impl.add("trait " + it.name)
                for b in parse_items(it.body):
                    parts.append(ex.emit_fn(b, it.name))
                out.append(h + " {\n" + "\n".join(parts) + "\n}"); continue
            if it.kind == "impl":
                if it.name in EXCL_IMPL:
                    excl.append(it.name + ": syn token sequence")
                    t = it.name.split(" for ")[1]
                    out.append("impl Parse for %s { open spec fn vx_ok(id: int, r: Self) -> bool { r == vx_parsed::<Self>(id) } #[verifier::external_body] fn parse(input: ParseStream) -> (r: syn::Result<Self>) { unimplemented!() } }" % t)
                    continue
                hs = text_of(strip_attrs(it.head)).strip()
                trait = " for " in it.name
                parts = [implspec.get(it.name, "")]; used_impl.add(it.name)
                for b in parse_items(it.body):
                    if not trait and it.name + "::" + b.name in gone: continue
                    if b.name == "to_base64": excl.append("DataWorld::to_base64: serialisation round trip"); continue
                    parts.append(fn(b, it.name, trait_sig=trait))
                out.append(hs + " {\n" + "\n".join(parts) + "\n}"); continue
            if it.kind in ("const", "type"):
                out.append("pub " + text_of(strip_attrs(it.toks)).strip()); continue
            raise Lost("item kind " + it.kind)
    groups = {p: parse_items(src(p)) for p in FILES}
    def skipped(p, it): return it.kind == "fn" and (it.name in SKIP_FN or (p == "lib.rs" and not ENTRY.fullmatch(it.name)))
    gone = inline.run([[i for i in g if not skipped(p, i)] for p, g in groups.items()], contracts, set(TRUST) | {"DataWorld::to_base64"})
    for p in FILES: items([i for i in groups[p] if not (i.kind == "fn" and i.name in gone)], p)
    ex.uncontracted += [k for k in ex.auto if not k.startswith(("HasAttributeId for ", "HasCfgPredicates for ", "Parse for ")) and k not in TRUST]
    missing = [k for k, c in contracts.items() if not c.used and k not in ex.auto] + [k for k in implspec if k not in used_impl]
    pre = open(HERE + "/contracts/prelude.rs").read()
    pre = pre[:pre.index("pub trait VxSlice")]
    text = "#![allow(unused_imports, dead_code, unused_variables, unused_unsafe, unused_mut, unused_parens, unused_braces, unreachable_code, non_snake_case, non_camel_case_types)]\n" \
           "use vstd::prelude::*;\nverus! {\n" + pre + spec + "\n" + "\n".join(out) + "\n\n} // verus!\nfn main() {}\n"
    return text, ex, missing, excl

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("--repo", default="/repo"); ap.add_argument("-o", default="/tmp/macros.rs"); ap.add_argument("--skip", default="")
    a = ap.parse_args()
    t, ex, missing, excl = build(a.repo, set(filter(None, a.skip.split(","))))
    open(a.o, "w").write(t)
    print("uncontracted", ex.uncontracted); print("missing", missing); print("excluded", excl); print("reshaped", ex.reshaped)
