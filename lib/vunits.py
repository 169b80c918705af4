"""Runs Verus on the extracted units and attributes every failed obligation to functions and properties."""
import json, os, re, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT + "/verus")
LABEL = re.compile(r"/\*@([^*|]+)\|([C\d,]+)\*/")
ANYLABEL = re.compile(r"/\*[@%]([^*|]+)\|([C\d,]+)\*/")      # % marks the contract of a function that another unit verifies
ANYTAG = re.compile(r"/\*[@%][^*|]+\|[^*]*\*/")
FNTAG = re.compile(r"/\*@fn ([^*]+)\*/")
VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "unable to prove",
              "possible division", "recommendation not met", "loop invariant", "decreases not satisfied", "cannot show", "could not prove", "termination", "possible bit shift",
              "constructed value may fail to meet its declared type invariant", "type invariant", "requires not satisfied", "cannot prove", "possible overflow", "index out of bounds")

def classify(msg):
    m = msg.lower()
    if "rlimit" in m or "resource limit" in m: return "rlimit"
    if any(v in m for v in VERIF_MSGS): return "verif"
    return "compile"

class Cfg:
    """one verification run: unit name, cfg dict, n"""
    def __init__(s, unit, name, cfg=None, n=0): s.unit, s.name, s.cfg, s.n = unit, name, cfg or {}, n

def core_cfg(spec):
    """'dbg n2 events' -> Cfg"""
    cfg, n = {}, 2
    for w in spec.split():
        if w == "dbg": cfg["debug_assertions"] = 1
        elif re.fullmatch(r"n\d+", w): n = int(w[1:])
        else: cfg["feature=" + w] = 1
    return Cfg("core", "core[%s]" % spec, cfg, n)

def attribute(text, ex_info, errs):
    """errors (rustc json) -> list of dict(function, labels, message, clause, line)"""
    lines = text.split("\n")
    fnstart = [(i + 1, m.group(1)) for i, l in enumerate(lines) for m in [FNTAG.search(l)] if m]
    pf = [(i + 1, m.group(1)) for i, l in enumerate(lines) for m in [re.match(r"\s*(?:pub )?(?:closed |open )?(?:broadcast )?proof fn (\w+)", l)] if m]
    allst = sorted(fnstart + pf)
    fnlabels = {}
    for l in lines:
        for m in LABEL.finditer(l): fnlabels.setdefault(m.group(1), set()).update(m.group(2).split(","))
    def owner(line):
        o = None
        for s, n in allst:
            if s <= line: o = n
            else: break
        return o
    out = []
    for e in errs:
        sp = [s for s in e["spans"] if s["file_name"].endswith(".rs")]
        labs, clause = set(), ""
        body_line = None
        for s in sp:
            l = lines[s["line_start"] - 1] if s["line_start"] <= len(lines) else ""
            # multi-line clauses: the label is at the first line of the clause
            k = s["line_start"] - 1; m = None
            while k >= 0 and s["line_start"] - k < 6:
                m = ANYLABEL.search(lines[k])
                if m or ANYTAG.search(lines[k]): break
                if lines[k].strip().startswith(("requires", "ensures", "{", "invariant", "fn ", "pub ", "proof ")): break
                k -= 1
            lab = s.get("label") or ""
            is_clause = "failed" in lab
            if is_clause:
                clause = l.strip()
                if m: labs.update(m.group(2).split(","))
            else: body_line = s["line_start"]
        if body_line is None and sp: body_line = sp[0]["line_start"]
        fn = owner(body_line) if body_line else None
        if not labs and "postcondition" in e["message"]:
            pass
        own = labs or set()
        # one trait clause states what every parser returns: narrowed to what the parsed item is about
        for pre, keep in PARSERS:
            if fn and fn.startswith("Parse for " + pre) and own & keep: own = own & keep; break
        out.append({"function": fn, "labels": sorted(own), "default_labels": sorted(fnlabels.get(fn) or ex_info.get("fn_default", {}).get(fn, set())), "message": e["message"], "clause": clause[:400],
                    "line": body_line, "rendered": e.get("rendered", "")[:1500]})
    return out

def run_verus(c, fn, work, seed, rlimit, timeout, only=None):
    cmd = ["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "8", fn]
    if only: cmd += ["--verify-root", "--verify-function", "*%s*" % only]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    cmd += ["--smt-option", "smt.random_seed=%d" % (seed % 1000), "--", "--error-format=json"]
    t0 = time.time()
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE="0"), cwd=work)
    except subprocess.TimeoutExpired: return {"cmd": " ".join(cmd), "timeout": True, "wall": time.time() - t0}
    errs, comp, rl = [], [], []
    for l in p.stderr.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"): continue
        k = classify(d["message"])
        {"verif": errs, "rlimit": rl}.get(k, comp).append(d)
    try: j = json.loads(p.stdout)
    except ValueError: j = None
    return {"cmd": " ".join(cmd), "timeout": False, "wall": time.time() - t0, "errs": errs, "comp": comp, "rl": rl, "j": j, "stderr": p.stderr[-400:]}

def run_again(c, fn, work, seed, rlimit, timeout, names):
    """another seed, for the functions that failed: one verifier process per function, side by side (None: run the whole file instead)"""
    if None in names or "?" in names: return None
    names = sorted(set(n.split("::")[-1] for n in names))
    if not names or len(names) > 8 or not all(re.fullmatch(r"\w+", n) for n in names): return None
    with ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda n: run_verus(c, fn, work, seed, rlimit, timeout, n), names))
    for x in rs:
        vr = (x.get("j") or {}).get("verification-results", {})
        if x["timeout"] or x["comp"] or x["j"] is None or (vr.get("verified", 0) + vr.get("errors", 0) == 0): return None
    key = lambda d: json.dumps([d["message"], d["spans"]], sort_keys=True)
    uniq = lambda l: list({key(d): d for d in l}.values())
    return {"cmd": rs[0]["cmd"], "timeout": False, "wall": max(x["wall"] for x in rs), "errs": uniq([d for x in rs for d in x["errs"]]), "comp": [], "rl": uniq([d for x in rs for d in x["rl"]]), "j": rs[0]["j"], "stderr": rs[0]["stderr"]}

def owners(text):
    lines = text.split("\n")
    return sorted([(i + 1, m.group(1), True) for i, l in enumerate(lines) for m in [FNTAG.search(l)] if m] +
                  [(i + 1, m.group(1), False) for i, l in enumerate(lines) for m in [re.match(r"\s*(?:pub )?(?:closed |open )?(?:broadcast )?proof fn (\w+)", l)] if m])
def owner_of(own, line):
    o = (0, None, False)
    for x in own:
        if x[0] <= line: o = x
        else: break
    return o

def run_cfg(c, repo, work, seed, builders, timeout=600):
    """a unit that cannot be run on some change of the code is undecided"""
    try: return run_cfg1(c, repo, work, seed, builders, timeout)
    except Exception as e:
        return {"name": c.name, "unit": c.unit, "failed": [], "undecided": ["the unit gave no verdict: %s: %s" % (type(e).__name__, str(e)[:300])], "functions": 0, "verified": 0, "errors": 0, "smt_ms": 0, "wall_s": 0, "obligations": {},
                "uncontracted": [], "reshaped": [], "missing": [], "excluded": [], "not_accepted": [], "seeds": [], "fn_labels": {}, "trace": traceback.format_exc()[-1500:]}

def run_cfg1(c, repo, work, seed, builders, timeout=600):
    """the verdict of one unit in one configuration. A function that the rules or the front end do not accept is trusted on this run and reported undecided;
    an obligation counts as failed only when it fails with every solver seed tried."""
    r = {"name": c.name, "unit": c.unit, "failed": [], "undecided": [], "functions": 0, "verified": 0, "errors": 0, "smt_ms": 0, "wall_s": 0, "obligations": {}, "uncontracted": [], "reshaped": [], "missing": [], "excluded": [], "not_accepted": [], "seeds": [], "fn_labels": {}}
    fn = os.path.join(work, re.sub(r"\W+", "_", c.name) + ".rs")
    skip, res = set(), None
    for attempt in range(6):
        try: text, info = builders[c.unit](repo, c, skip)
        except Exception as e:
            r["undecided"].append("extraction: %s: %s" % (type(e).__name__, str(e)[:400])); r["trace"] = traceback.format_exc()[-1500:]
            return r
        open(fn, "w").write(text)
        res = run_verus(c, fn, work, seed, None, timeout); r["wall_s"] += res["wall"]
        if res["timeout"] or not res["comp"]: break
        own = owners(text); new = set()
        for d in res["comp"]:
            sp = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
            o = owner_of(own, sp[0]["line_start"]) if sp else (0, None, False)
            msg = d["message"][:200] + " @ " + (sp[0]["text"][0]["text"].strip()[:160] if sp and sp[0]["text"] else "")
            if o[2] and o[1] not in skip: new.add(o[1]); r["not_accepted"].append("%s: %s" % (o[1], msg))
        if not new: break
        skip |= new
    r["cmd"] = res["cmd"]
    for k, v in info["lost"].items(): r["not_accepted"].append("%s: %s" % (k, v))
    trusted_now = skip | set(info["lost"])
    for k in sorted(trusted_now): r["undecided"].append("%s: trusted on this run: %s" % (k, next((x.split(": ", 1)[1] for x in r["not_accepted"] if x.startswith(k + ": ")), "")[:200]))
    r["uncontracted"], r["reshaped"], r["missing"], r["excluded"] = sorted(info["uncontracted"]), sorted(info["reshaped"]), sorted(info["missing"]), sorted(info["excluded"])
    for m in r["missing"]: r["undecided"].append("a function under contract is gone: " + m)
    for m in LABEL.finditer(text):
        if m.group(1) in trusted_now: continue
        for p in m.group(2).split(","): r["obligations"][p] = r["obligations"].get(p, 0) + 1
        r["fn_labels"].setdefault(m.group(1), set()).update(m.group(2).split(","))
    for k, v in info.get("fn_default", {}).items():      # implementations of a trait function carry its clauses
        if k in trusted_now or k in r["fn_labels"]: continue
        for p in v: r["obligations"][p] = r["obligations"].get(p, 0) + 1
        r["fn_labels"][k] = set(v)
    r["fn_labels"] = {k: sorted(v) for k, v in r["fn_labels"].items()}
    if res["timeout"]: r["undecided"].append("verifier timeout"); return r
    if res["comp"]:
        for d in res["comp"]: r["undecided"].append("not accepted by the verifier's front end: " + d["message"][:300] + " @ " + (d["spans"][0]["text"][0]["text"].strip()[:160] if d["spans"] and d["spans"][0]["text"] else ""))
        return r
    bad_helpers = set(h.split("::")[-1] for h in r["uncontracted"]) | set(h.split("::")[-1] for h in r["missing"])
    fntext = split_fns(text)
    def digest(res):
        own = owners(text)
        fails = {}
        for f in attribute(text, info, res["errs"]): fails[(f["function"], f["clause"], f["message"])] = f
        rls = set(owner_of(own, d["spans"][0]["line_start"])[1] or "?" for d in res["rl"] if d["spans"])
        return fails, rls
    best = None
    for k in range(3):
        if k:
            res = run_again(c, fn, work, seed + k, 40 * k, timeout, best[3]) or run_verus(c, fn, work, seed + k, 40 * k, timeout); r["wall_s"] += res["wall"]
        r["seeds"].append(seed + k)
        if res["timeout"] or res["j"] is None: 
            if best is None: r["undecided"].append("no verdict: " + res.get("stderr", "timeout")); return r
            break
        fails, rls = digest(res)
        bad = set(x[0] for x in fails) | rls
        if best is None: best, first = (res, fails, rls, bad), res
        else:
            bad &= best[3]
            nf = {q: v for q, v in best[1].items() if q[0] in bad} 
            nf = {q: v for q, v in nf.items() if q in fails or q[0] in rls or q[0] in set(x[0] for x in fails)}
            best = (first, nf, rls & bad & best[2], bad)
        if not best[3]: break
    res, fails, rls, bad = best
    j = res["j"]; vr = j.get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0) + max(0, vr.get("errors", 0) - len(bad)), len(fails) + len(rls)
    names = set()
    r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []): names.add(f["function"])
    r["functions"] = len(names)
    if vr.get("success") and r["verified"] == 0: r["undecided"].append("vacuous: nothing verified")
    if not vr.get("success") and not res["errs"] and not res["rl"]: r["undecided"].append("no verdict: " + res["stderr"])
    for f in sorted(str(x) for x in rls - set(x[0] for x in fails)): r["undecided"].append("%s: resource limit, with every seed tried" % f)
    for f in fails.values():
        if f["function"] is None: f["function"] = "?"
        body = fntext.get(f["function"], "")
        why = None
        if f["function"] in r["reshaped"]: why = "loop structure changed, its invariants no longer fit"
        if f["function"] in r["uncontracted"]: why = "the function has no contract"
        if f["function"] == "?": why = "a line of the unit's prelude"
        if re.match(r"(\w+::)*lemma_", f["function"] or "") and not f["labels"] and not f["default_labels"]: why = "a proof step, not an obligation of the code"
        for h in bad_helpers:
            if re.search(r"\b%s\b" % re.escape(h), body) and not f["function"].endswith("::" + h): why = "it calls %s, which has no contract" % h
        if why: r["undecided"].append("%s: %s (%s)" % (f["function"], f["message"], why)); f["undecided"] = why
        r["failed"].append(f)
    return r

def split_fns(text):
    out, cur = {}, None
    for l in text.split("\n"):
        m = FNTAG.search(l)
        if m: cur = m.group(1); out.setdefault(cur, "")
        if cur: out[cur] += l + "\n"
    return out

def build_core(repo, c, skip=()):
    import build_core as B
    text, ex, missing, excl = B.build(repo, c.cfg, c.n, skip)
    if not c.cfg.get("feature=events"): missing = [m for m in missing if m.split("::")[-1] not in ("created", "destroyed", "clear_events")]
    return text, {"uncontracted": ex.uncontracted, "reshaped": ex.reshaped, "missing": missing, "excluded": excl, "lost": ex.lost}
def build_macros(repo, c, skip=()):
    import build_macros as B
    text, ex, missing, excl = B.build(repo, skip)
    return text, {"uncontracted": ex.uncontracted, "reshaped": ex.reshaped, "missing": missing, "excluded": excl, "lost": ex.lost}

def build_dataptr(repo, c, skip=()):
    import build_dataptr as B
    text, ex, missing, excl = B.build(repo, c.cfg, skip)
    return text, {"uncontracted": ex.uncontracted, "reshaped": ex.reshaped, "missing": missing, "excluded": excl, "lost": ex.lost}

def build_gen(repo, c, skip=()):
    import build_gen as B
    text, ex, missing, excl = B.build(repo, c.cfg, skip)
    return text, {"uncontracted": ex.uncontracted, "reshaped": ex.reshaped, "missing": missing, "excluded": excl, "lost": ex.lost, "fn_default": ex.fn_default}

BUILDERS = {"gen": build_gen, "core": build_core, "macros": build_macros, "dataptr": build_dataptr}

def parse_cfg(spec):
    unit, _, rest = spec.partition(" ")
    if unit == "core": return core_cfg(rest)
    if unit == "gen":
        c = Cfg(unit, "gen[%s]" % (rest or "rel"))
        for w in rest.split():
            if w == "dbg": c.cfg["debug_assertions"] = 1
            elif w.startswith("cfg-"): c.cfg["preds"] = w[4:]      # the fixture decorated with predicates; the predicates set
            elif w != "rel": c.cfg["feature=" + w] = 1
        return c
    if unit == "dataptr": return Cfg(unit, "dataptr[%s]" % (rest or "rel"), {"debug_assertions": 1} if "dbg" in rest else {})
    return Cfg(unit, spec)

PARSERS = [("ParseQueryParamType", {"C05"}), ("ParseQuery", {"C05", "C16"}), ("ParseAttributeId", {"C15"}), ("ParseAttributeCfg", {"C16"}), ("ParseCfgDecorated", {"C16"}), ("Parse", {"C15", "C16"})]

def default_labels(f):
    """properties a failed obligation without a property label is attributed to"""
    d = set(f["default_labels"])
    cl = f["clause"]
    if (f["function"] or "").endswith("vx_clone"):
        # everything the copy gets wrong is C13; a wrong slot also lets old handles resolve or come back
        return {"C11"} if "vx_may(" in cl else {"C13"} | ({"C01", "C08", "C12"} if "slot" in cl else set()) | ({"C03", "C04"} if ("is Some" in cl or "@.len()" in cl or "vx_sv()" in cl) else set())
    if "vx_may(" in cl: return d & {"C11"} or {"C11"}
    if "ok@" in cl: return d & {"C01", "C03", "C09", "C10", "C12", "C14", "C19"}
    if "vx_sv()" in cl or "cells()" in cl or "@.len()" in cl or "is Some" in cl or "is None" in cl: return {"C03", "C04"} & d or {"C03"}
    return d - {"C17", "C19", "C13"} if len(d) > 3 else d

def rules():
    import vx, build_macros, build_dataptr
    return dict(dict(vx.RULES, **build_macros.MRULES), **build_dataptr.DRULES)
