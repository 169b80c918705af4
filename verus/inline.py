"""R13: a function without contract that the code under contract calls is substituted at its calls (so that a helper extracted from a function under
contract is verified as part of that function). Done when the helper is not recursive, its body has no `return`, `?` or `await`, and the call's receiver
is a path; otherwise the call stays, the helper counts as a function without contract and its callers as undecided."""
from rx import *
BINDERS = ("let", "mut", "ref")

class Helper: pass

def _params(f):
    """-> (self kind or None, [(pattern toks, type toks)])"""
    sig = strip_attrs(f.sig); i = 0
    while not is_id(sig, i, "fn"): i += 1
    j = i + 2; generics = set()
    if is_p(sig, j, "<"):
        e = skip_generics(sig, j); generics = set(t.text for t in sig[j:e] if t.kind == "id") ; j = e
    ps = split_commas(sig[j + 1:match_close(sig, j)], angle=True)
    me, out = None, []
    for p in ps:
        p = strip_attrs(p)
        if any(is_id(p, k, "self") for k in range(min(len(p), 5))) and not out and me is None:
            s = squash(p); me = "mut" if s.startswith("&") and "mut self" in s else "ref" if s.startswith("&") else "val"; continue
        c = next((k for k in range(len(p)) if is_p(p, k, ":") and not is_p(p, k + 1, ":") and not is_p(p, k - 1, ":")), None)
        if c is None: return None
        out.append((p[:c], p[c + 1:]))
    return me, out, generics, any(is_id(sig, k, "unsafe") for k in range(i))

def sub_items(it):
    try: return parse_items(it.body)
    except Lost: return []

def helpers(groups, contracts, trusted=()):
    """the functions that may be substituted: {name: [Helper]} and every function name seen"""
    hs, names = {}, {}
    def add(f, impl, head, mod=""):
        names.setdefault(f.name, set()).add(impl)
        key = impl + "::" + f.name if impl else mod + f.name
        if key in contracts or f.body is None or key in trusted: return
        a = squash(f.attrs) if getattr(f, "attrs", None) else ""
        if "test" in a: return
        b = f.body[1:-1]
        if any(is_id(b, k, w) for k in range(len(b)) for w in ("return", "await", "async")) or any(is_p(b, k, "?") for k in range(len(b))): return
        if any(is_id(b, k, w) for k in range(len(b)) for w in ("while", "loop", "for")): return          # loops need invariants
        if any(is_id(b, k, f.name) and is_p(b, k + 1, "(") for k in range(len(b))): return
        r = _params(f)
        if r is None: return
        h = Helper(); h.key, h.name, h.impl, h.head, h.body = key, f.name, impl, head, b
        h.me, h.params, h.generics, h.unsafe = r
        if any(is_p(p, 0, "&") or is_p(p, 0, "(") for p, t in h.params): return
        h.simple = not any(is_p(b, k, ";") for k in range(len(b))) and not any(is_p(b, k, "{") for k in range(len(b)))
        hs.setdefault(f.name, []).append(h)
    def walk(items, mod=""):
        for it in items:
            if it.kind == "mod" and it.body: walk(sub_items(it), mod + it.name + "::")
            elif it.kind == "fn": add(it, "", None, mod)
            elif it.kind == "impl":
                try: fs = [b for b in parse_items(it.body) if b.kind == "fn"]
                except Lost: continue
                for f in fs:
                    if " for " in it.name: names.setdefault(f.name, set()).add(it.name)
                    else: add(f, it.name, it.head)
    for g in groups: walk(g)
    return hs, names

def bound_names(b):
    """the names a helper's body may bind (over-approximated by: every identifier in a let pattern, closure or match arm)"""
    r = set()
    for k in range(len(b)):
        if is_id(b, k, "let"):
            j = k + 1
            while j < len(b) and not is_p(b, j, "=") and not is_p(b, j, ";"):
                if b[j].kind == "id": r.add(b[j].text)
                j += 1
    if any(is_p(b, k, "|") or (is_p(b, k, "=") and is_p(b, k + 1, ">")) for k in range(len(b))): r |= set(t.text for t in b if t.kind == "id")
    return r

class Inliner:
    def __init__(self, hs, names):
        self.hs, self.names, self.left, self.done, self.n = hs, names, set(), set(), 0

    def path_before(self, out):
        """the receiver path that ends `out` (which ends with `.`): its start index, or None"""
        j = len(out) - 2
        while True:
            if not (j >= 0 and (out[j].kind == "id" or out[j].kind == "num")): return None
            if j >= 1 and is_p(out, j - 1, ".") and not is_p(out, j - 2, "."): j -= 2; continue
            if j >= 1 and is_p(out, j - 1, ":"): return None
            break
        return j

    def pick(self, name, impl):
        return next((h for h in self.hs.get(name, []) if h.impl == impl), None)

    def expand(self, toks, impl, depth=0, stack=()):
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t.kind == "id" and t.text in self.hs and is_p(toks, i + 1, "(") and not is_id(out, len(out) - 1, "fn"):
                e = match_close(toks, i + 1)
                args = [self.expand(a, impl, depth, stack) for a in split_commas(toks[i + 2:e])]
                h, recv, cut = None, None, 0
                if is_p(out, len(out) - 1, "."):
                    s = self.path_before(out)
                    if s is not None:
                        recv = out[s:-1]
                        if len(recv) == 1 and recv[0].text == "self": h = self.pick(t.text, impl)
                        elif len(self.names.get(t.text, ())) == 1: h = self.hs[t.text][0]
                        if h is not None and (h.me is None or len(args) != len(h.params)): h = None
                        cut = len(out) - s
                elif is_p(out, len(out) - 1, ":") and is_p(out, len(out) - 2, ":"):
                    q = out[-3].text if len(out) >= 3 and out[-3].kind == "id" else ""
                    if not (len(out) >= 4 and is_p(out, len(out) - 4, ":")):
                        h = self.pick(t.text, impl if q == "Self" else q); cut = 3
                        if h is not None and (h.me is not None or len(args) != len(h.params)): h = None
                elif not is_p(out, len(out) - 1, "."):
                    h = self.pick(t.text, "")
                    if h is not None and (h.me is not None or len(args) != len(h.params)): h = None
                if h is not None and (depth > 3 or h.key in stack): h = None
                if h is not None and recv is not None and len(recv) > 0 and recv != ["self"]:
                    clash = bound_names(h.body) | set(x.text for p, _ in h.params for x in p if x.kind == "id")
                    if any(x.kind == "id" and x.text in clash and x.text != "self" for x in recv): h = None
                b = None
                if h is not None: b = self.body(h, impl, recv)
                if b is not None:
                    if cut: del out[len(out) - cut:]
                    b = self.expand(b, h.impl or impl, depth + 1, stack + (h.key,))
                    self.n += 1; k = self.n
                    r = [Tok("p", "(", t.ws or " ", t.line)]
                    if h.params or not h.simple:
                        r.append(Tok("p", "{", "", t.line))
                        for m, a in enumerate(args): r += self.let([Tok("id", "vx_h%d_%d" % (k, m), " ", t.line)], h.params[m][1], a, h, t.line)
                        for m, a in enumerate(args): r += self.let(h.params[m][0], None, [Tok("id", "vx_h%d_%d" % (k, m), " ", t.line)], h, t.line)
                        if h.unsafe: r += [Tok("id", "unsafe", " ", t.line), Tok("p", "{", " ", t.line)]
                        r += b
                        if h.unsafe: r.append(Tok("p", "}", " ", t.line))
                        r.append(Tok("p", "}", " ", t.line))
                    elif h.unsafe: r += [Tok("id", "unsafe", " ", t.line), Tok("p", "{", " ", t.line)] + b + [Tok("p", "}", " ", t.line)]
                    else: r += b
                    r.append(Tok("p", ")", "", t.line))
                    out += r; self.done.add(h.key); i = e + 1; continue
                for x in self.hs[t.text]: self.left.add(x.key)
            elif t.kind == "id" and t.text in self.hs and not is_id(out, len(out) - 1, "fn") and (is_p(out, len(out) - 1, ":") or is_p(toks, i + 1, ")") or is_p(toks, i + 1, ",")):
                for x in self.hs[t.text]:
                    if is_p(out, len(out) - 1, ":"): self.left.add(x.key)       # used as a value
            out.append(t); i += 1
        return out

    def let(self, pat, ty, val, h, line):
        r = [Tok("id", "let", " ", line)] + [x.copy() for x in pat]
        if pat and r[1].ws == "": r[1] = r[1].copy(" ")
        if ty and not any(x.kind == "id" and (x.text in h.generics or x.text in ("impl", "dyn", "Self")) for x in ty) and not any(x.kind not in ("id", "p", "num") for x in ty):
            r += [Tok("p", ":", "", line)] + [x.copy() for x in ty]
        r += [Tok("p", "=", " ", line)] + [x.copy() for x in val] + [Tok("p", ";", "", line)]
        return r

    def body(self, h, impl, recv):
        b = [x.copy() for x in h.body]
        if h.impl != impl and any(is_id(b, k, "Self") for k in range(len(b))):
            head = strip_attrs(h.head)
            if any(is_p(head, k, "<") for k in range(len(head))): return None
            for x in b:
                if x.kind == "id" and x.text == "Self": x.text = h.impl
        if h.me is None or recv is None or (len(recv) == 1 and recv[0].text == "self"): return b
        out = []
        for x in b:
            if x.kind == "id" and x.text == "self":
                out += [Tok("p", "(", x.ws, x.line)] + [y.copy() for y in recv] + [Tok("p", ")", "", x.line)]
            else: out.append(x)
        return out

def run(groups, contracts, trusted=()):
    """substitutes in place; returns the keys of the helpers that are gone (every call substituted)"""
    hs, names = helpers(groups, contracts, trusted)
    if not hs: return set()
    I = Inliner(hs, names)
    def walk(items):
        for it in items:
            if it.kind == "mod" and it.body:
                sub = sub_items(it); walk(sub)
                if sub: it.items = sub
            elif it.kind == "impl": it.body = I.expand(it.body, it.name.split(" for ")[-1])
            elif it.kind == "fn" and it.body is not None: it.body = [it.body[0]] + I.expand(it.body[1:-1], "") + [it.body[-1]]
    for g in groups: walk(g)
    return I.done - I.left
