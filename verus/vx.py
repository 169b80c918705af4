"""Extraction of gecs functions into a Verus file with contracts attached.

Every rewriting rule is listed in RULES (reported in the evidence); anything outside the
rules is passed through unchanged, and anything the extractor cannot place raises Lost.
"""
import re
from rx import *

RULES = {
 "R1 cfg": "items/statements disabled by #[cfg] in the selected configuration are dropped; other attributes, comments dropped",
 "R2 macros": "declare_*_n!/seq! templates are instantiated token-by-token for the selected N",
 "R3 panics": "panic!/unreachable!/todo!/failed debug_assert*!/expect/unwrap become calls that require the function's declared panic condition AND (for &mut self) *self == *old(self)",
 "R4 unchecked": "get_unchecked(_mut)/unwrap_unchecked/debug_checked_assume! become shims whose precondition is the safety condition; unsafe blocks are kept",
 "R5 phantom": "PhantomData<fn() -> A> is written PhantomData<A> (Verus has no fn-pointer types)",
 "R6 compile-time": "num_assert_leq!(..) and const { assert!(..) } are dropped (rustc evaluates them)",
 "R7 map": "Option::map(|p| B) is replaced by its match definition; Ref/RefMut::map(E, |p| B) by a let-binding of the guard's target",
 "R8 drop/clone": "impl Drop/Clone/Default bodies of StorageN are verified as inherent methods vx_drop/vx_clone/vx_default",
 "R9 ptr": "raw pointers *const T/*mut T in iterators become the ghost-indexed shim VxPtr<T>; &*p / &mut *p / p.offset(n) become its methods",
 "R10 impl-trait": "`impl Iterator<Item = ..>` return types are replaced by the concrete struct returned",
 "R11 ghost": "return values are named, contracts/loop invariants/proof blocks inserted (a last statement `return E;` becomes the tail E), may-panic callees get a Ghost(panic_ok) argument, const fn -> fn",
 "R12 rev": "`for i in (a..b).rev() { B }` becomes a decreasing while loop",
}

class Contract:
    def __init__(self, key):
        self.key = key; self.ret = None; self.panics = None
        self.clauses = []      # (kind, labels, text)
        self.entry = ""; self.exit = ""; self.loops = {}   # n -> [(labels,text)]
        self.loop_entry = {}; self.loop_exit = {}; self.loop_let = {}; self.loop_init = {}; self.loop_after = {}
        self.trusted = None; self.used = False; self.attrs = ""; self.decr = {}; self.ghost_params = ""

_head = re.compile(r"^(fn|trusted)\s+(.*?)(?:\s*->\s*(\w+))?\s*$")

def parse_contracts(text):
    """text format, one block per function:
         fn Impl::name -> r
           panics: EXPR
           requires[labels]: EXPR
           ensures[labels]: EXPR
           loop 0 inv[labels]: EXPR
           entry: PROOF    exit: PROOF    loop 0 entry: PROOF   loop 0 exit: PROOF
       continuation lines are indented deeper than the directive."""
    out, cur, field = {}, None, None
    def flush():
        nonlocal field
        if cur is None or field is None: return
        kind, labels, n, buf = field
        body = "\n".join(buf).strip()
        if kind in ("requires", "ensures"): cur.clauses.append((kind, labels, body))
        elif kind == "panics": cur.panics = body
        elif kind == "entry": cur.entry += body + "\n"
        elif kind == "exit": cur.exit += body + "\n"
        elif kind == "inv": cur.loops.setdefault(n, []).append((labels, body))
        elif kind == "lentry": cur.loop_entry[n] = body
        elif kind == "lexit": cur.loop_exit[n] = body
        elif kind == "llet": cur.loop_let[n] = body
        elif kind == "lafter": cur.loop_after[n] = body
        elif kind == "linit": cur.loop_init[n] = body
        elif kind == "decreases": cur.decr[n] = body
        elif kind == "attr": cur.attrs = body
        elif kind == "ghost": cur.ghost_params = body
        field = None
    for ln in text.split("\n"):
        if not ln.strip() or ln.strip().startswith("//@"):
            continue
        if not ln[0].isspace():
            flush()
            m = _head.match(ln)
            if not m: raise ValueError("bad contract line: " + ln)
            cur = Contract(m.group(2).strip()); cur.ret = m.group(3)
            if m.group(1) == "trusted": cur.trusted = True
            if cur.key in out: raise ValueError("duplicate contract " + cur.key)
            out[cur.key] = cur; continue
        m = re.match(r"^  (requires|ensures|panics|entry|exit|attr|ghost|loop (\d+) (?:inv|entry|exit|decreases|let|init|after))(?:\[([^\]]*)\])?:(.*)$", ln)
        if m:
            flush()
            k = m.group(1); n = None
            if k.startswith("loop"):
                n = int(m.group(2)); k = {"inv": "inv", "entry": "lentry", "exit": "lexit", "decreases": "decreases", "let": "llet", "init": "linit", "after": "lafter"}[k.split()[2]]
            field = (k, (m.group(3) or "").strip(), n, [m.group(4)])
        else:
            if field is None: raise ValueError("stray line: " + ln)
            field[3].append(ln)
    flush()
    return out

def L(src, line=0):
    t = lex(src, line)
    for x in t: x.line = line
    return t

OPTION_FORMS = {
    "is_some_and": ["Some(", "P", ") =>", "B", ", None => false"], "is_none_or": ["Some(", "P", ") =>", "B", ", None => true"],
    "and_then": ["Some(", "P", ") =>", "B", ", None => None"], "map_or": ["Some(", "P", ") =>", "B", ", None =>", "D"],
    "map_or_else": ["Some(", "P", ") =>", "B", ", None =>", "E"],
    "filter": ["Some(vx_f) => if { let ", "P", "= &vx_f; ", "B", "} { Some(vx_f) } else { None }, None => None"],
    "ok_or_else": ["Some(vx_f) => Ok(vx_f), None => Err(", "B", ")"], "unwrap_or_else": ["Some(vx_f) => vx_f, None =>", "B"], "or_else": ["Some(vx_f) => Some(vx_f), None =>", "B"],
    "map_err": ["Ok(vx_f) => Ok(vx_f), Err(", "P", ") => Err(", "B", ")"],
}
# loops per function that the contracts were written for: a function with another number of loops is reshaped (its failures are undecided)
NLOOPS = {"Slot::populate_free_list": 1, "Clone for StorageN::vx_clone": 2, "DataPtr::drop_to": 1,
    "parse_attributes": 1, "HasCfgPredicates for ParseEcsWorld::collect_all_cfg_predicates": 4, "Parse for ParseEcsWorld::parse": 1, "Parse for ParseComponent::parse": 1,
    "parse_item_archetype": 1, "Parse for ParseQueryParam::parse": 1, "Parse for ParseQueryParamType::parse": 1, "parse_params": 1, "get_cfg_predicates": 2,
    "Parse for ParseCfgDecorated::parse": 1, "DataWorld::new": 2, "DataArchetype::contains_component": 1, "evaluate_cfgs": 1, "generate_query_find": 2,
    "generate_query_iter": 2, "generate_query_iter_destroy": 2, "is_cfg_enabled": 1, "bind_query_params": 2, "bind_one_of": 1}
class Extractor:
    def __init__(self, contracts, cfg, maypanic, nocall=("push",)):
        self.contracts, self.cfg = contracts, cfg
        self.debug = bool(cfg.get("debug_assertions"))
        self.nocall = set(nocall)         # may-panic methods whose name is also a std method
        self.maypanic = maypanic          # {method name: arity} -> gets Ghost(ok) argument
        self.uncontracted = []            # functions without contract
        self.functions = []               # (key, trusted)
        self.dropped = []
        self.force_all = False
        self.strict = set()               # taken at their contract here, and not allowed to panic
        self.single_ok = False            # a body that is one expression: nothing runs before its call, so the state is unchanged there
        self.skip, self.lost = set(), {}  # functions to trust on this run (the front end rejects them); functions the rules cannot rewrite
        self.reshaped = set()             # functions whose loops differ in form from the contract

    # ---- body rewriting
    def ok_expr(self, c, is_mut):
        if c is None or c.panics is None: return "false"
        if not is_mut: return "(%s)" % c.panics
        return "vx_pok(vx_pp, self, &vx_pre)"

    def rewrite(self, toks, ok, c):
        t = toks
        t = self.rw_macros(t, ok)
        t = self.rw_maps(t)
        t = self.rw_calls(t, ok)
        t = self.rw_types(t)
        return t

    def rw_types(self, t):
        out, i = [], 0
        while i < len(t):
            if seq_is(t, i, "PhantomData", "<", "fn", "(", ")", "-", ">"):
                out += [t[i], t[i + 1]]; i += 7; continue
            if is_p(t, i, "*") and is_id(t, i + 1) and t[i + 1].text in ("const", "mut") and \
               (i == 0 or is_p(t, i - 1, ":") or is_p(t, i - 1, ",") or is_p(t, i - 1, "<") or is_p(t, i - 1, ">")) and is_id(t, i + 2):
                # raw pointer type -> VxPtr<..>
                j = i + 3
                if is_p(t, j, "<"): j = skip_generics(t, j)
                ref = L("VxPtr", t[i].line)[0]; ref.ws = t[i].ws
                out += [ref, Tok("p", "<")] + t[i + 2:j] + [Tok("p", ">")]
                i = j; continue
            out.append(t[i]); i += 1
        return out

    def rw_macros(self, t, ok):
        out, i = [], 0
        while i < len(t):
            if is_id(t, i) and is_p(t, i + 1, "!") and i + 2 < len(t) and t[i + 2].text in OPEN and t[i + 2].kind == "p":
                n = t[i].text; e = match_close(t, i + 2); args = split_commas(t[i + 3:e]); ln = t[i].line
                after = e + 1
                if n in ("debug_assert", "debug_assert_eq", "debug_assert_ne", "assert", "assert_eq", "assert_ne"):
                    dbg = n.startswith("debug_")
                    if dbg and not self.debug:
                        if is_p(t, after, ";"): after += 1
                        else: out += L(" ()", ln)
                        i = after; continue
                    if n.endswith("_eq") or n.endswith("_ne"):
                        op = "==" if n.endswith("_eq") else "!="
                        cond = L("(", ln) + args[0] + L(") %s (" % op, ln) + args[1] + L(")", ln)
                    else:
                        cond = args[0]
                    cond = self.rw_macros(cond, ok)
                    out += L("\n if !(", ln) + cond + L(") { vx_panic(Ghost(%s)); }" % ok, ln)
                    if is_p(t, after, ";"): after += 1
                    i = after; continue
                if n == "debug_checked_assume":
                    out += L("\n vx_assume_checked(", ln) + self.rw_macros(args[0], ok) + L(")", ln); i = after; continue
                if n in ("panic", "unreachable", "todo", "unimplemented"):
                    out += L(" vx_panic(Ghost(%s))" % ok, ln); i = after; continue
                if n in ("num_assert_leq", "num_assert_lt"):
                    if is_p(t, after, ";"): after += 1
                    i = after; continue
            if is_id(t, i, "const") and is_p(t, i + 1, "{") and seq_is(t, i + 2, "assert", "!"):
                e = match_close(t, i + 1) + 1
                if is_p(t, e, ";"): e += 1
                i = e; continue
            out.append(t[i]); i += 1
        return out

    def closure(self, t, i):
        """t[i] is the first '|' -> (param toks, body toks, end) ; body runs to end of t"""
        j = i + 1
        while not is_p(t, j, "|"): j += 1
        return t[i + 1:j], t[j + 1:]

    def rw_maps(self, t):
        i = 0
        while i < len(t):
            # Ref::map(E, |p| B) / RefMut::map
            if is_id(t, i) and t[i].text in ("Ref", "RefMut") and seq_is(t, i + 1, ":", ":", "map", "("):
                e = match_close(t, i + 4); args = t[i + 5:e]
                k = self.top_comma(args)
                E, rest = args[:k], args[k + 1:]
                if not is_p(rest, 0, "|"): raise Lost("Ref::map closure")
                p, b = self.closure(rest, 0)
                while b and is_p(b, len(b) - 1, ","): b = b[:-1]
                ln = t[i].line
                new = L(" { let vx_g = ", ln) + E + L("; let ", ln) + p + L(" = vx_g.vx_target(); let vx_t = ", ln) + self.rw_maps(b) + \
                    L("; %s::vx_mapped(vx_g.vx_guard(), vx_t) }" % t[i].text, ln)
                t = t[:i] + new + t[e + 1:]
                i += 1; continue
            # recv.map(|p| B)
            if is_p(t, i, ".") and seq_is(t, i + 1, "map", "(", "|"):
                e = match_close(t, i + 2)
                p, b = self.closure(t[i + 3:e], 0)
                while b and is_p(b, len(b) - 1, ","): b = b[:-1]
                s = self.chain_start(t, i)
                ln = t[i].line
                recv = t[s:i]
                new = L(" match ", ln) + recv + L(" { Some(", ln) + p + L(") => Some(", ln) + self.rw_maps(b) + L("), None => None }", ln)
                t = t[:s] + new + t[e + 1:]
                i = s + 1; continue
            # other combinators of Option with a closure, by their definition
            if is_p(t, i, ".") and is_id(t, i + 1) and t[i + 1].text in OPTION_FORMS and is_p(t, i + 2, "(") and (i < 1 or not is_p(t, i - 1, ".")):
                e = match_close(t, i + 2); args = split_commas(t[i + 3:e]); m = t[i + 1].text; ln = t[i].line
                a = self.combinator(t[i + 3:e], m)
                if a is not None:
                    s = self.chain_start(t, i)
                    new = L(" (match ", ln) + t[s:i] + L(" { ", ln)
                    for x in OPTION_FORMS[m]: new += (a[x] if x in a else L(" " + x + " ", ln))
                    t = t[:s] + new + L(" })", ln) + t[e + 1:]
                    i = s + 1; continue
            i += 1
        return t

    def combinator(self, args, m):
        """the parts of a closure argument: P pattern, B body, D the plain argument, E the body of the closure for None"""
        a = {}
        def part(x):
            if seq_is(x, 0, "|", "|"): return None, x[2:]
            if is_p(x, 0, "|"): return self.closure(x, 0)
            raise Lost("closure")
        try:
            if m == "map_or":
                k = self.top_comma(args); a["D"] = args[:k]; p, b = part(args[k + 1:])
                if any(is_p(a["D"], j, "!") or is_p(a["D"], j, "=") or is_p(a["D"], j, "{") for j in range(k)): return None
            elif m == "map_or_else":
                k = self.top_comma(args); q, a["E"] = part(args[:k]); p, b = part(args[k + 1:])
                if q is not None: return None
            else: p, b = part(args)
        except Lost: return None
        while b and is_p(b, len(b) - 1, ","): b = b[:-1]
        if any(is_id(b, k, "return") or is_p(b, k, "?") for k in range(len(b))) or any(is_id(a.get("E", []), k, "return") or is_p(a.get("E", []), k, "?") for k in range(len(a.get("E", [])))): return None
        if ("P" in OPTION_FORMS[m]) != (p is not None): return None
        a["P"], a["B"] = p or [], self.rw_maps(b)
        if "E" in a: a["E"] = self.rw_maps(a["E"])
        return a

    def top_comma(self, t):
        d = 0
        for j, x in enumerate(t):
            if x.kind == "p":
                if x.text in OPEN: d += 1
                elif x.text in CLOSE: d -= 1
                elif x.text == "," and d == 0: return j
        raise Lost("expected a second argument")

    def chain_start(self, t, i):
        """t[i] is the '.' of a postfix chain; returns the start index of the receiver"""
        j = i - 1
        while j >= 0:
            x = t[j]
            if x.kind == "p" and x.text in CLOSE:
                d = 0
                while j >= 0:
                    if t[j].kind == "p" and t[j].text in CLOSE: d += 1
                    elif t[j].kind == "p" and t[j].text in OPEN:
                        d -= 1
                        if d == 0: break
                    j -= 1
                j -= 1; continue
            if x.kind in ("id", "num") and x.text not in ("return", "match", "if", "let", "in", "mut", "unsafe"):
                j -= 1; continue
            if x.kind == "p" and x.text == ".":
                j -= 1; continue
            if x.kind == "p" and x.text == ":" and is_p(t, j - 1, ":"):
                j -= 2; continue
            if x.kind == "p" and x.text == ">" and not (is_p(t, j - 1, "=") or is_p(t, j - 1, "-")):   # generics  ::<..>
                d = 0
                while j >= 0:
                    if is_p(t, j, ">"): d += 1
                    elif is_p(t, j, "<"):
                        d -= 1
                        if d == 0: break
                    j -= 1
                j -= 1; continue
            if x.kind == "p" and x.text == "?":
                j -= 1; continue
            break
        return j + 1

    RENAME = {"get_unchecked": "vx_get_unchecked", "get_unchecked_mut": "vx_get_unchecked_mut",
              "unwrap_unchecked": "vx_unwrap_unchecked"}

    def rw_calls(self, t, ok):
        out, i = [], 0
        while i < len(t):
            if is_p(t, i, ".") and is_id(t, i + 1) and is_p(t, i + 2, "("):
                n = t[i + 1].text; e = match_close(t, i + 2); inner = t[i + 3:e]; ln = t[i].line
                dot = t[i]
                if n in self.RENAME:
                    out += [dot, Tok("id", self.RENAME[n], "", ln), t[i + 2]]; i += 3; continue
                if n == "get_mut" and inner:
                    out += [dot, Tok("id", "vx_get_mut", "", ln), t[i + 2]]; i += 3; continue
                if n in ("expect", "unwrap"):
                    out += [dot] + L("vx_unwrap(Ghost(%s))" % ok, ln); i = e + 1; continue
                if n in self.maypanic and n not in self.nocall:
                    inner2 = self.rw_calls(inner, ok)
                    out += [dot, t[i + 1], t[i + 2]] + inner2
                    if inner2 and not is_p(inner2, len(inner2) - 1, ","): out += L(",", ln)
                    out += L(" Ghost(%s)" % ok, ln) + [t[e]]
                    i = e + 1; continue
            if is_id(t, i) and is_p(t, i + 1, "(") and (t[i].text in self.maypanic) and t[i].text not in self.nocall and is_p(t, i - 1, ":"):
                e = match_close(t, i + 1); inner2 = self.rw_calls(t[i + 2:e], ok); ln = t[i].line
                out += [t[i], t[i + 1]] + inner2
                if inner2 and not is_p(inner2, len(inner2) - 1, ","): out += L(",", ln)
                out += L(" Ghost(%s)" % ok, ln) + [t[e]]
                i = e + 1; continue
            # & * p  /  & mut * p   on raw pointers (iterators)
            if is_p(t, i, "&") and is_p(t, i + 1, "*") and seq_is(t, i + 2, "self", ".") and is_id(t, i + 4) and t[i + 4].text.startswith("ptr_"):
                out += L(" self.%s.vx_ref()" % t[i + 4].text, t[i].line); i += 5; continue
            if is_p(t, i, "&") and seq_is(t, i + 1, "mut", "*", "self", ".") and is_id(t, i + 5) and t[i + 5].text.startswith("ptr_"):
                out += L(" self.%s.vx_mut()" % t[i + 5].text, t[i].line); i += 6; continue
            out.append(t[i]); i += 1
        return out

    # ---- loops
    def rw_loops(self, t, c, key):
        """insert loop invariants; loops are numbered in textual order"""
        n = [0]
        def go(ts):
            out, i = [], 0
            while i < len(ts):
                if is_id(ts, i, "for") and not is_p(ts, i + 1, "<"):
                    j = i + 1
                    while not is_id(ts, j, "in"): j += 1
                    pat = ts[i + 1:j]
                    k = j + 1
                    while not is_p(ts, k, "{"):
                        if ts[k].kind == "p" and ts[k].text in OPEN: k = match_close(ts, k)
                        k += 1
                    rng = ts[j + 1:k]; e = match_close(ts, k); body = ts[k + 1:e]
                    idx = n[0]; n[0] += 1; ln = ts[i].line
                    var = squash(pat)
                    inv = c.loops.get(idx, []) if c else []
                    lo_hi = self.split_range(rng)
                    rr = self.rev_range(rng)
                    if inv and lo_hi is None and rr is None: self.reshaped.add(key)
                    if inv and (rr is not None) != any("$n" in x for _, x in inv): self.reshaped.add(key)     # counts the other way
                    lo_t, hi_t = (text_of(z).strip() for z in (rr or lo_hi or ([], [])))
                    def sub(x): return x.replace("$i", var).replace("$lo", "(%s)" % lo_t).replace("$hi", "(%s)" % hi_t)
                    invt = "".join("\n/*@%s|%s*/ %s," % (key, lab or "loop%d" % idx, " ".join(sub(x).split())) for lab, x in inv)
                    ent = ("\nproof { %s }" % sub(c.loop_entry[idx])) if c and idx in c.loop_entry else ""
                    ext = ("\nproof { %s }" % sub(c.loop_exit[idx])) if c and idx in c.loop_exit else ""
                    b2 = go(body)
                    if c and idx in c.loop_let: out += Raw("\n" + sub(c.loop_let[idx]) + "\n")
                    rv = self.rev_range(rng)
                    if rv is not None:
                        lo, hi = rv
                        out += L("\n let mut vx_i: usize = ", ln) + hi + L("; while vx_i > ", ln) + lo
                        if inv: out += Raw("\n invariant " + invt.replace("$n", "vx_i") + "\n decreases vx_i,\n")
                        out += L("{ vx_i = vx_i - 1; let ", ln) + pat + L(" = vx_i;", ln) + Raw(ent) + b2 + Raw(ext) + L("}", ln)
                    else:
                        out += ts[i:k]
                        if inv: out += Raw("\n invariant " + invt + "\n")
                        out += [ts[k]] + Raw(ent) + b2 + Raw(ext) + [ts[e]]
                    i = e + 1; continue
                if is_id(ts, i, "while") or is_id(ts, i, "loop"):
                    idx = n[0]; n[0] += 1
                    k = i
                    while not is_p(ts, k, "{"):
                        if ts[k].kind == "p" and ts[k].text in OPEN: k = match_close(ts, k)
                        k += 1
                    e = match_close(ts, k)
                    inv = list(c.loops.get(idx, [])) if c else []
                    cond = ts[i + 1:k]; dec = c.decr.get(idx) if c else None
                    sub = lambda x: x
                    if inv and dec is None:
                        # a counted loop written with `while v < hi`
                        self.reshaped.add(key)
                        if is_id(ts, i, "while") and is_id(cond, 0) and is_p(cond, 1, "<") and not is_p(cond, 2, "="):
                            hi_t = text_of(cond[2:]).strip(); v = cond[0].text
                            sub = lambda x: x.replace("$i", v).replace("$hi", "(%s)" % hi_t)
                            inv.append(("", "$i <= $hi")); dec = "$hi - $i"
                    invt = "".join("\n/*@%s|%s*/ %s," % (key, lab or "loop%d" % idx, " ".join(sub(x).split())) for lab, x in inv)
                    if c and idx in c.loop_let: out += Raw("\n" + sub(c.loop_let[idx]) + "\n")
                    out += ts[i:k]
                    if inv: out += Raw("\n invariant " + invt + "\n")
                    if dec: out += Raw(" decreases " + sub(dec) + "\n")
                    out += [ts[k]] + go(ts[k + 1:e]) + [ts[e]]
                    i = e + 1; continue
                out.append(ts[i]); i += 1
            return out
        r = go(t)
        return r, n[0]

    def split_range(self, rng):
        """tokens of `a..b` -> (a, b) or None"""
        d = 0
        for k in range(len(rng) - 1):
            if rng[k].kind == "p":
                if rng[k].text in OPEN: d += 1
                elif rng[k].text in CLOSE: d -= 1
                elif d == 0 and rng[k].text == "." and is_p(rng, k + 1, ".") and not is_p(rng, k + 2, "="):
                    return rng[:k], rng[k + 2:]
        return None

    def rev_range(self, rng):
        """tokens of `(a..b).rev()` -> (a, b) or None"""
        if is_p(rng, 0, "("):
            e = match_close(rng, 0)
            if seq_is(rng, e + 1, ".", "rev", "(", ")") and e + 5 == len(rng):
                g = rng[1:e]
                for k in range(len(g) - 1):
                    if is_p(g, k, ".") and is_p(g, k + 1, ".") and not is_p(g, k + 2, "="):
                        return g[:k], g[k + 2:]
        return None

    # ---- functions
    def param_names(self, params):
        out = []
        for a in split_commas(params, angle=True):
            if any(is_id(a, k, "self") for k in range(min(4, len(a)))): continue
            k = 1 if is_id(a, 0, "mut") else 0
            out.append(a[k].text if is_id(a, k) and is_p(a, k + 1, ":") else None)
        return out

    def bind_params(self, c, names):
        """replace $1..$9 in the contract by the actual parameter names"""
        if c is None: return None
        def sub(x):
            if not isinstance(x, str): return x
            def r(m):
                k = int(m.group(1)) - 1
                if k >= len(names) or names[k] is None: raise Lost("parameter %d of %s" % (k + 1, c.key))
                return names[k]
            return re.sub(r"\$(\d)", r, x)
        d = Contract(c.key); d.ret, d.trusted, d.used = c.ret, c.trusted, True
        d.panics = sub(c.panics); d.clauses = [(k, l, sub(x)) for k, l, x in c.clauses]
        d.entry, d.exit, d.attrs, d.ghost_params = sub(c.entry), sub(c.exit), c.attrs, sub(c.ghost_params)
        d.loops = {n: [(l, sub(x)) for l, x in v] for n, v in c.loops.items()}
        d.loop_entry = {n: sub(v) for n, v in c.loop_entry.items()}
        d.loop_exit = {n: sub(v) for n, v in c.loop_exit.items()}
        d.loop_let = {n: sub(v) for n, v in c.loop_let.items()}
        d.loop_after = {n: sub(v) for n, v in c.loop_after.items()}
        d.loop_init = {n: sub(v) for n, v in c.loop_init.items()}
        d.decr = {n: sub(v) for n, v in c.decr.items()}
        return d

    def split_sig(self, sig):
        """-> (before_name incl fn name, generics+params toks end idx...)"""
        i = 0
        while not is_id(sig, i, "fn"): i += 1
        name = sig[i + 1].text
        j = i + 2
        if is_p(sig, j, "<"): j = skip_generics(sig, j)
        p0 = j; p1 = match_close(sig, j)
        k = p1 + 1; ret = None
        if is_p(sig, k, "-") and is_p(sig, k + 1, ">"):
            k += 2; r0 = k
            while k < len(sig) and not is_id(sig, k, "where"): k += 1
            ret = sig[r0:k]
        where = sig[k:]
        return sig[:p0], sig[p0 + 1:p1], ret, where, name

    def emit_fn(self, f, impl_name, key=None, rename=None, retype=None, force_trusted=False, trait_sig=False):
        key = key or (impl_name + "::" + f.name if impl_name else f.name)
        c = self.contracts.get(key)
        if c: c.used = True
        self.cur_key = key
        sig = strip_attrs(f.sig)
        pre, params, ret, where, name = self.split_sig(sig)
        orig_name = name
        if rename: name = rename
        pnames = self.param_names(params)
        pre = [x for x in pre if not (x.kind == "id" and x.text == "const")]
        pre = [x.copy() for x in pre]
        if rename:
            for q in range(len(pre)):
                if is_id(pre, q, "fn"): pre[q + 1].text = rename
        if not any(x.text == "pub" for x in pre) and not trait_sig:
            pass
        is_mut = squash(params).startswith("& mut self") or re.match(r"^& '\w+ mut self", squash(params)) is not None
        c = self.bind_params(c, pnames)
        ok = self.ok_expr(c, is_mut)
        if self.single_ok and is_mut and c and c.panics is not None and f.body is not None and not any(is_p(f.body, q, ";") for q in range(len(f.body))): ok = "vx_pp"
        params = self.rw_types(params)
        if name in self.maypanic:
            while params and is_p(params, len(params) - 1, ","): params = params[:-1]
            params = params + L((", " if params else "") + "vx_ok: Ghost<bool>", f.sig[0].line)
        if c and c.ghost_params:
            while params and is_p(params, len(params) - 1, ","): params = params[:-1]
            params = params + L((", " if params else "") + c.ghost_params)
        if retype is not None: ret = retype
        if ret is not None: ret = self.rw_types(ret)
        s = text_of(pre).strip() + "(" + text_of(params) + ")"
        rn = (c.ret if c and c.ret else "vx_r")
        if ret is not None:
            rt = text_of(ret).strip()
            s += " -> " + ("!" if rt == "!" else "(%s: %s)" % (rn, rt))
        if where: s += text_of(where)
        clauses = []
        if c:
            req = [(l, x) for k, l, x in c.clauses if k == "requires"]
            ens = [(l, x) for k, l, x in c.clauses if k == "ensures"]
            if c.panics is not None and name in self.maypanic and not trait_sig:
                req.append(("panic", "(%s) ==> vx_ok@" % c.panics))
            elif c.panics is not None and name in self.strict and not trait_sig:
                req.append(("panic", "!(%s)" % c.panics))
            if req and not trait_sig:
                clauses.append("requires" + "".join("\n/*@%s|%s*/ %s," % (key, l or "req", " ".join(x.split())) for l, x in req))
            elif req:
                raise Lost("requires on trait impl " + key)
            if ens:
                clauses.append("ensures" + "".join("\n/*@%s|%s*/ %s," % (key, l or "ens", " ".join(x.split())) for l, x in ens))
        trusted = force_trusted or self.force_all or (c and c.trusted)
        self.functions.append((key, bool(trusted), sum(1 for k, _, _ in (c.clauses if c else []) if k == "ensures"), f.sig[0].line))
        if c is None: self.uncontracted.append(key)
        head = ("#[verifier::external_body]\n" if trusted else "")
        if c and c.attrs: head += c.attrs + "\n"
        if not trusted and f.body is not None and key in self.skip:
            trusted = True; head = "#[verifier::external_body]\n" + head
        if not trusted and f.body is not None:
            try:
                body = self.rewrite(f.body[1:-1], ok, c)
                body, nloops = self.rw_loops(body, c, key)
                if nloops != NLOOPS.get(re.sub(r"(Storage|Borrow|Iter|IterMut)\d+::", r"\1N::", key), 0): self.reshaped.add(key)
            except Exception as e:      # this function is outside the extraction rules: its contract is assumed on this run and it is reported undecided
                self.lost[key] = "%s: %s" % (type(e).__name__, str(e)[:200]); trusted = True; head = "#[verifier::external_body]\n" + head
        if f.body is None or trusted:
            return head + ("/*@fn %s*/ " % key if f.body is not None else "") + s + "\n" + "\n".join(clauses) + ("\n{ unimplemented!() }" if f.body is not None else ";")
        bt = text_of(body)
        ent = ("\nproof { %s }\n" % c.entry.strip()) if c and c.entry.strip() else ""
        if is_mut and c and c.panics is not None:
            ent = "\nlet ghost vx_pre = *old(self); let ghost vx_pp: bool = %s;\n" % c.panics + ent
        if c and c.exit.strip():
            bt = re.sub(r"(^|[;}{])(\s*)return\b([^;{}]*);([\s}]*)$", r"\1\2\3\4", bt)      # `return E;` as the last statement is the tail expression E
            bt = "{ %s let %s = {%s};\nproof { %s }\n%s }" % (ent, rn, bt, c.exit.strip(), rn)
        else:
            bt = "{%s%s}" % (ent, bt)
        return head + "/*@fn %s*/ " % key + s + "\n" + "\n".join(clauses) + "\n" + bt

def Raw(s):
    return [Tok("raw", s, "", 0)] if s else []
