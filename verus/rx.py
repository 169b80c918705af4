"""Token-level tools for mechanical extraction of Rust source (no external deps).

A token is a Tok(kind, text, ws, line): kind in id, life, num, str, chr, p (single punctuation);
ws is the whitespace/comment text that preceded it (comments are dropped, newlines kept).
"""
import re

class Tok:
    __slots__ = ("kind", "text", "ws", "line")
    def __init__(self, kind, text, ws="", line=0):
        self.kind, self.text, self.ws, self.line = kind, text, ws, line
    def __repr__(self):
        return self.text
    def copy(self, ws=None):
        return Tok(self.kind, self.text, self.ws if ws is None else ws, self.line)

class LexError(Exception):
    pass

class Lost(Exception):
    """An anchor is missing or a construct is outside the extractor's subset."""

_tok_re = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)")
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<p>.)
""", re.X | re.S)

def lex(src, line=1):
    toks, pos, ws, n = [], 0, "", len(src)
    while pos < n:
        m = _tok_re.match(src, pos)
        k = m.lastgroup
        if m.group("ws") is not None:
            t = m.group("ws"); ws += t; line += t.count("\n"); pos = m.end(); continue
        if m.group("lc") is not None:
            ws += " "; pos = m.end(); continue
        if m.group("bc") is not None:
            depth, i = 1, pos + 2
            while depth and i < n:
                if src.startswith("/*", i): depth += 1; i += 2
                elif src.startswith("*/", i): depth -= 1; i += 2
                else: i += 1
            line += src.count("\n", pos, i); ws += src[pos:i] if src.startswith("/*@", pos) or src.startswith("/*%", pos) else " "; pos = i; continue     # obligation labels are kept
        if m.group("rstr") is not None:
            end = src.index('"' + m.group("h"), m.end()) + 1 + len(m.group("h"))
            t = src[pos:end]; kind = "str"
        else:
            for kind in ("str", "chr", "life", "num", "id", "p"):
                if m.group(kind) is not None:
                    break
            t = m.group(kind); end = m.end()
            if kind == "num" and "." in t and re.match(r"^\d+\.\d+$", t) and toks and toks[-1].text == ".":
                # tuple.0.1 -- split
                t = t.split(".")[0]; end = pos + len(t)
            if kind == "num" and src.startswith("..", end - 0) is False and t.endswith("."):
                t = t[:-1]; end -= 1
        toks.append(Tok(kind, t, ws, line)); ws = ""
        line += t.count("\n"); pos = end
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(toks, i):
    """index of the delimiter closing the opener at i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN: depth += 1
            elif t.text in CLOSE:
                depth -= 1
                if depth == 0: return j
    raise Lost("unbalanced delimiters at line %d" % toks[i].line)

def is_p(toks, i, text):
    return 0 <= i < len(toks) and toks[i].kind == "p" and toks[i].text == text

def is_id(toks, i, text=None):
    return 0 <= i < len(toks) and toks[i].kind == "id" and (text is None or toks[i].text == text)

def seq_is(toks, i, *texts):
    """toks[i:] starts with the given token texts"""
    if i < 0 or i + len(texts) > len(toks): return False
    return all(toks[i + k].text == x for k, x in enumerate(texts))

def text_of(toks):
    out, last = [], ""
    for t in toks:
        w = t.ws
        if not w and last and t.kind in ("id", "num", "life", "str", "chr") and (last[-1].isalnum() or last[-1] == "_"): w = " "
        out.append(w); out.append(t.text)
        if t.text: last = t.text
    return "".join(out)

def squash(toks):
    """whitespace-normalised text"""
    return " ".join(t.text for t in toks)

# ---------------------------------------------------------------- macro_rules / seq!

def find_macro_rules(toks, name):
    for i in range(len(toks)):
        if seq_is(toks, i, "macro_rules", "!", name):
            c = match_close(toks, i + 3)
            return toks[i + 4:c]
    raise Lost("macro_rules! %s not found" % name)

def macro_arms(body):
    """[(pattern_toks, template_toks)]"""
    arms, i = [], 0
    while i < len(body):
        if body[i].text not in OPEN: raise Lost("unexpected macro_rules arm")
        c = match_close(body, i); pat = body[i + 1:c]; i = c + 1
        if not seq_is(body, i, "=", ">"): raise Lost("unexpected macro_rules arm")
        i += 2; c = match_close(body, i); arms.append((pat, body[i + 1:c])); i = c + 1
        if is_p(body, i, ";"): i += 1
    return arms

def subst_macro_vars(toks, env):
    out, i = [], 0
    while i < len(toks):
        if is_p(toks, i, "$") and is_id(toks, i + 1) and toks[i + 1].text in env:
            rep = lex(env[toks[i + 1].text], toks[i].line)
            rep[0].ws = toks[i].ws
            for r in rep: r.line = toks[i].line
            out += rep; i += 2
        elif seq_is(toks, i, "$", "crate"):
            t = toks[i + 1].copy(toks[i].ws); out.append(t); i += 2
        else:
            out.append(toks[i]); i += 1
    return out

def expand_seq_body(toks, var, values):
    """seq-macro semantics: if the body has #( .. )* sections only those repeat, else the whole body"""
    def has_rep(ts):
        return any(is_p(ts, i, "#") and is_p(ts, i + 1, "(") and is_p(ts, match_close(ts, i + 1) + 1, "*")
                   for i in range(len(ts) - 1) if is_p(ts, i, "#") and is_p(ts, i + 1, "("))
    def sub(ts, v):
        out, i = [], 0
        while i < len(ts):
            if is_id(ts, i) and is_p(ts, i + 1, "~") and is_id(ts, i + 2, var):
                out.append(Tok("id", ts[i].text + str(v), ts[i].ws, ts[i].line)); i += 3
            elif is_id(ts, i, var):
                out.append(Tok("num", str(v), ts[i].ws, ts[i].line)); i += 1
            else:
                out.append(ts[i].copy()); i += 1
        return out
    def rep(ts):
        out, i = [], 0
        while i < len(ts):
            if is_p(ts, i, "#") and is_p(ts, i + 1, "("):
                c = match_close(ts, i + 1)
                if is_p(ts, c + 1, "*"):
                    for v in values:
                        s = sub(ts[i + 2:c], v)
                        if s and not s[0].ws: s[0].ws = " "
                        out += s
                    i = c + 2; continue
            out.append(ts[i]); i += 1
        return out
    if has_rep(toks): return rep(toks)
    out = []
    for v in values: out += sub(toks, v)
    return out

def inner_seq(template):
    """template is `seq!(I in 0..N { BODY });` with N already substituted -> (var, lo, hi, BODY)"""
    i = 0
    while not seq_is(template, i, "seq", "!"):
        i += 1
        if i >= len(template): raise Lost("seq! not found in macro template")
    c = match_close(template, i + 2); g = template[i + 3:c]
    if not (is_id(g, 0) and is_id(g, 1, "in")): raise Lost("seq! head")
    var = g[0].text; lo = int(g[2].text); j = 3
    if not (is_p(g, 3, ".") and is_p(g, 4, ".")): raise Lost("seq! range")
    j = 5; incl = False
    if is_p(g, j, "="): incl = True; j += 1
    hi = int(g[j].text) + (1 if incl else 0); j += 1
    if not is_p(g, j, "{"): raise Lost("seq! body")
    e = match_close(g, j)
    return var, lo, hi, g[j + 1:e]

def instantiate(toks, macro, env):
    """instantiate `macro_rules! macro` (single arm, seq! inside) with env"""
    arms = macro_arms(find_macro_rules(toks, macro))
    if len(arms) != 1: raise Lost("macro %s has several arms" % macro)
    t = subst_macro_vars(arms[0][1], env)
    var, lo, hi, body = inner_seq(t)
    return expand_seq_body(body, var, range(lo, hi))

# ---------------------------------------------------------------- cfg

def cfg_eval(toks, cfg):
    """evaluate a cfg predicate token list"""
    if not toks: raise Lost("empty cfg")
    if len(toks) == 1: return bool(cfg.get(toks[0].text, False))
    if len(toks) == 3 and toks[1].text == "=":
        return bool(cfg.get(toks[0].text + "=" + toks[2].text.strip('"'), False))
    if is_p(toks, 1, "("):
        c = match_close(toks, 1); args = split_commas(toks[2:c])
        op = toks[0].text
        if op == "not": return not cfg_eval(args[0], cfg)
        if op == "all": return all(cfg_eval(a, cfg) for a in args)
        if op == "any": return any(cfg_eval(a, cfg) for a in args)
    raise Lost("cfg predicate " + squash(toks))

def split_commas(toks, angle=False):
    out, cur, depth, ang = [], [], 0, 0
    for i, t in enumerate(toks):
        if t.kind == "p":
            if t.text in OPEN: depth += 1
            elif t.text in CLOSE: depth -= 1
            elif angle and t.text == "<": ang += 1
            elif angle and t.text == ">" and not is_p(toks, i - 1, "-") and not is_p(toks, i - 1, "="): ang -= 1
            elif t.text == "," and depth == 0 and ang == 0:
                out.append(cur); cur = []; continue
        cur.append(t)
    if cur: out.append(cur)
    return out

ITEM_KW = {"pub", "fn", "impl", "mod", "use", "struct", "enum", "unsafe", "const", "static", "type",
           "trait", "extern", "macro_rules", "let", "union"}

def item_end(toks, i):
    """end (exclusive) of the attribute target starting at i"""
    while is_p(toks, i, "#") and is_p(toks, i + 1, "["):
        i = match_close(toks, i + 1) + 1
    if is_p(toks, i, "{"): return match_close(toks, i) + 1
    if is_id(toks, i) and toks[i].text in ITEM_KW and not (toks[i].text in ("pub",) and field_like(toks, i)):
        kw = toks[i].text
        j = i
        semi_only = kw in ("use", "let", "static", "type") or (kw == "const" and not is_id(toks, i + 1, "fn")) \
            or (kw == "pub" and any(is_id(toks, i + k, w) for k in (1, 4) for w in ("use", "static", "type")))
        while j < len(toks):
            if toks[j].kind == "p":
                if toks[j].text == ";": return j + 1
                if toks[j].text == "{" and not semi_only: return match_close(toks, j) + 1
                if toks[j].text in OPEN: j = match_close(toks, j) + 1; continue
                if toks[j].text in CLOSE: return j
            j += 1
        return j
    # field / expression / statement
    j, ang = i, 0
    is_field = field_like(toks, i)
    while j < len(toks):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN: j = match_close(toks, j) + 1; continue
            if t.text in CLOSE: return j
            if t.text == "<": ang += 1
            if t.text == ">" and not is_p(toks, j - 1, "-") and not is_p(toks, j - 1, "="): ang -= 1
            if t.text == "," and (ang <= 0 or not is_field): return j + 1
            if t.text == ";": return j + 1
        j += 1
    return j

def field_like(toks, i):
    if is_id(toks, i, "pub"):
        i += 1
        if is_p(toks, i, "("): i = match_close(toks, i) + 1
    return is_id(toks, i) and is_p(toks, i + 1, ":") and not is_p(toks, i + 2, ":")

def apply_cfg(toks, cfg):
    """drop cfg-disabled targets, drop the cfg attributes of enabled ones"""
    out, i = [], 0
    while i < len(toks):
        if is_p(toks, i, "#") and is_p(toks, i + 1, "[") and is_id(toks, i + 2, "cfg") and is_p(toks, i + 3, "("):
            c = match_close(toks, i + 1)
            p = match_close(toks, i + 3)
            if cfg_eval(toks[i + 4:p], cfg):
                i = c + 1
            else:
                i = item_end(toks, c + 1)
            continue
        if is_id(toks, i, "cfg") and is_p(toks, i + 1, "!") and is_p(toks, i + 2, "("):
            p = match_close(toks, i + 2)
            out += lex("true" if cfg_eval(toks[i + 3:p], cfg) else "false"); i = p + 1; continue
        out.append(toks[i]); i += 1
    return out

def strip_attrs(toks, keep=()):
    """drop #[..] and #![..] attributes except those whose first ident is in keep"""
    out, i = [], 0
    while i < len(toks):
        if is_p(toks, i, "#"):
            j = i + 1
            if is_p(toks, j, "!"): j += 1
            if is_p(toks, j, "["):
                c = match_close(toks, j)
                if toks[j + 1].text in keep:
                    out += toks[i:c + 1]
                i = c + 1; continue
        out.append(toks[i]); i += 1
    return out

# ---------------------------------------------------------------- items

class Item:
    """kind: fn, impl, struct, enum, const, use, mod, trait, macro, other"""
    def __init__(self, kind, name, toks, **kw):
        self.kind, self.name, self.toks = kind, name, toks
        self.__dict__.update(kw)

def parse_items(toks):
    items, i = [], 0
    while i < len(toks):
        if is_p(toks, i, ";"):
            i += 1; continue
        s = i
        while is_p(toks, i, "#"):
            j = i + 1
            if is_p(toks, j, "!"): j += 1
            i = match_close(toks, j) + 1
        h = i
        if is_id(toks, i, "pub"):
            i += 1
            if is_p(toks, i, "("): i = match_close(toks, i) + 1
        quals = []
        while is_id(toks, i) and toks[i].text in ("unsafe", "const", "extern", "async", "default") and \
                (is_id(toks, i + 1) and toks[i + 1].text in ("unsafe", "fn", "extern", "impl", "trait") or
                 toks[i + 1].kind == "str" if i + 1 < len(toks) else False):
            quals.append(toks[i].text); i += 1
            if toks[i].kind == "str": i += 1
        if i >= len(toks): break
        kw = toks[i].text
        if kw == "fn":
            name = toks[i + 1].text
            j = i + 2
            while not is_p(toks, j, "{") and not is_p(toks, j, ";"):
                if toks[j].kind == "p" and toks[j].text in OPEN: j = match_close(toks, j)
                j += 1
                if j >= len(toks): raise Lost("fn %s without body" % name)
            if is_p(toks, j, ";"):
                items.append(Item("fn", name, toks[s:j + 1], attrs=toks[s:h], sig=toks[h:j], body=None, quals=quals)); i = j + 1
            else:
                e = match_close(toks, j)
                items.append(Item("fn", name, toks[s:e + 1], attrs=toks[s:h], sig=toks[h:j], body=toks[j:e + 1], quals=quals)); i = e + 1
        elif kw in ("impl", "trait", "mod", "struct", "enum", "union"):
            j = i + 1
            while not is_p(toks, j, "{") and not is_p(toks, j, ";"):
                if toks[j].kind == "p" and toks[j].text in OPEN: j = match_close(toks, j)
                j += 1
                if j >= len(toks): raise Lost("bad item " + kw)
            if is_p(toks, j, ";"):
                items.append(Item(kw, toks[i + 1].text, toks[s:j + 1], attrs=toks[s:h], head=toks[h:j], body=None, quals=quals)); i = j + 1
            else:
                e = match_close(toks, j)
                name = toks[i + 1].text
                if kw == "impl": name = impl_name(toks[i:j])
                items.append(Item(kw, name, toks[s:e + 1], attrs=toks[s:h], head=toks[h:j], body=toks[j + 1:e], quals=quals)); i = e + 1
        elif kw in ("use", "const", "static", "type"):
            j = i
            while not is_p(toks, j, ";"):
                if toks[j].kind == "p" and toks[j].text in OPEN: j = match_close(toks, j)
                j += 1
            items.append(Item(kw, toks[i + 1].text, toks[s:j + 1], attrs=toks[s:h], head=toks[h:j], body=None, quals=quals)); i = j + 1
        elif is_p(toks, i + 1, "!"):
            j = i + 2
            if is_id(toks, j): j += 1
            e = match_close(toks, j)
            items.append(Item("macro", kw, toks[s:e + 1], attrs=toks[s:h], body=toks[j + 1:e], head=toks[i:j], quals=quals)); i = e + 1
        else:
            raise Lost("unrecognised item near line %d: %s" % (toks[i].line, squash(toks[i:i + 6])))
    return items

def skip_generics(toks, i):
    """toks[i] is '<' -> index after the matching '>'"""
    d = 0
    while i < len(toks):
        if is_p(toks, i, "<"): d += 1
        elif is_p(toks, i, ">") and not is_p(toks, i - 1, "-") and not is_p(toks, i - 1, "="):
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise Lost("generics")

def _j(ts):
    o = ""
    for t in ts:
        if o and (o[-1].isalnum() or o[-1] == "_") and t.kind in ("id", "num", "life"): o += " "
        o += t.text
    return o

def impl_name(head):
    """`impl<..> Trait<X> for Type<..> where ..` -> 'Type' or 'Trait<X> for Type'"""
    i = 1
    if is_p(head, i, "<"): i = skip_generics(head, i)
    rest = []
    d = 0
    for t in head[i:]:
        if t.kind == "id" and t.text == "where": break
        rest.append(t)
    # find top-level `for`
    ang, k = 0, None
    for j, t in enumerate(rest):
        if t.text == "<": ang += 1
        elif t.text == ">": ang -= 1
        elif t.kind == "id" and t.text == "for" and ang == 0: k = j
    def base(ts):
        o = []
        for t in ts:
            if t.text == "<": break
            o.append(t.text)
        return "".join(o)
    if k is None: return base(rest)
    return _j(rest[:k]) + " for " + \
        (_j(rest[k + 1:]) if rest[k+1].text == "&" else base(rest[k + 1:]))
