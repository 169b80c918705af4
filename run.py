#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on /repo's current working tree.
   1. the verifier (Verus) on the contracts of the functions the property depends on, extracted from /repo on this run;
   2. the bounded stand-ins (operation histories on the compiled crate, generated client programs) for what is outside it,
      which also supply a failing input when an obligation fails.
   Exit 0 / exit 1 with VIOLATION lines."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/lib", ROOT + "/progs", ROOT + "/verus"]
import vunits, plan
from fresh import fresh
REPO = os.environ.get("VERIF_REPO", "/repo")
P = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.environ.get("VERIF_BUILD", ROOT + "/.build"); WORK = "%s/w_%s" % (BUILD, P); EV = ROOT + "/evidence"
T0 = time.time()
ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", VERIF_TIER=TIER)
os.makedirs(EV, exist_ok=True); shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
log = lambda *a: print("[%5.1fs]" % (time.time() - T0), *a, flush=True)

# ------------------------------------------------------------------ harness
class Hx:
    def __init__(s, spec):
        w = spec.split()
        s.spec, s.asan, s.dbg = spec, "asan" in w, "dbg" in w
        s.feats = [x for x in w if x not in ("asan", "dbg", "rel")]
        s.err, s.bin, s.hook = None, None, True
def hx_build(h):
    tgt = "%s/hx_%s" % (BUILD, re.sub(r"\W+", "_", h.spec))
    fresh(tgt, REPO)
    for hook in (True, False):
        cmd = ["cargo", "build", "--offline", "--manifest-path", ROOT + "/harness/Cargo.toml"] + ([] if h.dbg else ["--release"]) + (["--features", ",".join(h.feats)] if h.feats else [])
        fl = ("--cfg gecs_verif " if hook else "") + "-Awarnings"
        env = dict(ENV, CARGO_TARGET_DIR=tgt)
        if h.asan: cmd += ["--target", "x86_64-unknown-linux-gnu"]; fl += " -Zsanitizer=address"; env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = fl
        p = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if p.returncode == 0:
            h.hook = hook; h.bin = "%s/%s%s/hx" % (tgt, "x86_64-unknown-linux-gnu/" if h.asan else "", "debug" if h.dbg else "release"); h.err = None
            return h
        h.err = "\n".join(l for l in p.stderr.splitlines() if not l.startswith("   Compiling"))[-4000:]
    return h
def hx_run(h, secs, seed, prop=None):
    out = "%s/hx_%s" % (WORK, re.sub(r"\W+", "_", h.spec)); os.makedirs(out, exist_ok=True)
    try: p = subprocess.run([h.bin, "run", prop or P, str(seed), str(secs), "8", out], env=ENV, capture_output=True, text=True, timeout=secs + 300)
    except subprocess.TimeoutExpired: return {"spec": h.spec, "fail": None, "broken": "timeout"}
    r = {"spec": h.spec, "hook": h.hook, "fail": None, "out": p.stdout}
    m = re.search(r"RESULT histories (\d+) exhaustive (\d+) drivers (\d+) observations (\d+) otherprop (\d+) exhaustive_done (\d)", p.stdout)
    if m: r.update(zip(("histories", "exhaustive", "drivers", "observations", "otherprop", "exhaustive_done"), map(int, m.groups())))
    m = re.search(r"^OTHER (.*)$", p.stdout, re.M)
    if m: r["other"] = m.group(1)[:500]
    if p.returncode != 0:
        m = re.search(r"^case (\S+)\nkeep (\S*)$", p.stdout, re.M)
        if m: r["fail"] = {"case": m.group(1), "keep": m.group(2), "text": p.stdout[p.stdout.index(m.group(0)):][:6000], "build": h.spec}
        else: r["broken"] = "the runner ended with %d: %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-500:])
    return r

# ------------------------------------------------------------------ main
def main():
    pl = plan.PLAN[P]; q = TIER != "thorough"
    vcfgs = [vunits.parse_cfg(c) for c in pl["verus" if q else "verus_thorough"]]
    hxs = [Hx(s) for s in pl["hx" if q else "hx_thorough"]]
    modes = pl.get("progs", [])
    assumptions, viol = [], []
    fresh(BUILD + "/p", REPO)
    c = subprocess.run(["cargo", "build", "--offline", "--manifest-path", ROOT + "/harness/Cargo.toml", "-p", "gecs"], env=dict(ENV, CARGO_TARGET_DIR=BUILD + "/p", RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
    if c.returncode:
        print("the crate itself does not build:\n" + c.stderr[-3000:]); sys.exit(2)
    ex = ThreadPoolExecutor(4 if q else 5); hb = ThreadPoolExecutor(3)
    vf = [ex.submit(vunits.run_cfg, c, REPO, WORK, SEED, vunits.BUILDERS) for c in vcfgs]
    bf = [hb.submit(hx_build, h) for h in hxs]
    for f in bf: f.result()
    vres = []
    for f, c in zip(vf, vcfgs):
        r = f.result()
        vres.append(r)
        log("verus %-40s functions %d verified %d failed %d undecided %d (%.1fs, smt %.1fs)" % (r["name"], r["functions"], r["verified"], len(r["failed"]), len(r["undecided"]), r["wall_s"], r["smt_ms"] / 1000))
        for u in r["undecided"][:4]: log("   undecided:", u[:300])
    hres = []
    secs = pl.get("secs", 8) if q else pl.get("secs_thorough", 60)
    for h in hxs:
        if h.err:
            log("harness [%s] does not compile against this tree" % h.spec)
            hres.append({"spec": h.spec, "fail": None, "broken": "compile error:\n" + h.err})
            continue
        r = hx_run(h, secs, SEED); hres.append(r)
        log("harness %-36s %s" % (h.spec, {k: v for k, v in r.items() if k in ("histories", "exhaustive", "drivers", "observations", "exhaustive_done", "hook", "other", "broken")}))
        if r.get("fail"): break
    if P == "C19" and not any(r.get("fail") for r in hres):
        # another property fails in one of these builds: C19 fails too when the same property holds in the plain build
        tags = {t: r["spec"] for r in hres for t in re.findall(r"C\d\d", (re.match(r"\[[^]]*\]", r.get("other", "")) or [""])[0])}
        if tags:
            plain = hx_build(Hx("dbg"))
            for t, spec in sorted(tags.items()):
                if plain.err: break
                h = next(h for h in hxs if h.spec == spec)
                a, b = hx_run(h, secs, SEED, t), hx_run(plain, secs, SEED, t)
                log("property %s fails in [%s]; plain build: %s" % (t, spec, "fails too" if b.get("fail") else "holds"))
                if a.get("fail") and not b.get("fail"):
                    a["fail"]["prop"] = t; hres.append(a); break
    pres = []
    if modes:
        import run_progs
        lib, err = run_progs.gecs_rlib(BUILD + "/p", ROOT + "/harness", REPO)
        for m in modes:
            if not lib: pres.append({"mode": m, "broken": [err], "fails": [], "worlds": 0, "queries": 0, "negative": 0}); continue
            r = run_progs.run(m, SEED, TIER, WORK + "/progs_" + m, lib); r["mode"] = m; pres.append(r)
            log("programs %s worlds %d queries %d rejected-program pairs %d failures %d" % (m, r["worlds"], r["queries"], r["negative"], len(r["fails"])))
    # ---- obligations that failed for this property
    obl_failed, undecided = [], []
    for r in vres:
        for f in r["failed"]:
            if f.get("undecided"): continue
            labs = set(f["labels"]) or vunits.default_labels(f)
            f["attributed"] = sorted(labs); f["config"] = r["name"]
            if P in labs or (P == "C19" and r["name"] in pl.get("c19_only", [])): obl_failed.append(f)
        undecided += ["%s: %s" % (r["name"], u) for u in r["undecided"]]
    # C16: an obligation that fails for the decorated declarations only, and holds for the same ones written without attributes
    if P == "C16":
        bare = None
        for r, c in zip(vres, vcfgs):
            if "preds" not in c.cfg: continue
            for f in r["failed"]:
                if f in obl_failed or f.get("undecided"): continue
                if bare is None: bare = vunits.run_cfg(vunits.parse_cfg("gen dbg events"), REPO, WORK, SEED, vunits.BUILDERS)
                if not any(o["function"] == f["function"] for o in bare["failed"]) and not any(u.startswith(str(f["function"]) + ":") or u.startswith("extraction") for u in bare["undecided"]): obl_failed.append(f)
    # C19: an obligation that fails in some configurations only
    if P == "C19":
        for r in vres:
            for f in r["failed"]:
                if f in obl_failed or f.get("undecided"): continue
                if any((not o["failed"]) and not o["undecided"] for o in vres if o is not r and o["unit"] == r["unit"]): obl_failed.append(f)
    hfail = next((r["fail"] for r in hres if r.get("fail")), None)
    pfails = [f for r in pres for f in r["fails"] if P in f[0].split()]
    broken = [r for r in hres if r.get("broken")]
    if broken and P in ("C05", "C19") and not hfail:
        b = broken[0]
        if b["broken"].startswith("compile error"): hfail = {"case": "compile", "keep": "", "text": "the client program of the harness (valid worlds and queries) is rejected in configuration [%s]:\n%s" % (b["spec"], b["broken"]), "build": b["spec"]}
    if obl_failed and not hfail and not pfails:
        # look longer for an input
        for h in hxs:
            if h.err: continue
            log("searching longer for a failing input [%s]" % h.spec)
            r = hx_run(h, pl.get("search", 25), SEED + 1000)
            if r.get("fail"): hfail = r["fail"]; break
    n_viol = 0
    if hfail or pfails or obl_failed:
        path = "%s/%s.replay.txt" % (EV, P); n_viol = 1
        with open(path, "w") as f:
            f.write("property %s, tier %s, seed %d, tree %s\n" % (P, TIER, SEED, REPO))
            if hfail:
                f.write("\n== failing input on the compiled crate (harness build [%s])\n" % hfail["build"])
                f.write("replay: python3 %s/run.py replay %s '%s' %s %s\n%s\n" % (ROOT, hfail.get("prop", P), hfail["build"], hfail["case"], hfail["keep"], hfail["text"]))
            for p_, msg, src in pfails[:5]:
                keep = "%s/%s.program.rs" % (EV, P); shutil.copyfile(src, keep)
                f.write("\n== failing client program (copied to %s)\n%s\n" % (keep, msg))
            for o in obl_failed:
                f.write("\n== failed obligation: %s [%s] %s\n   clause: %s\n%s\n" % (o["function"], o["config"], o["message"], o["clause"], o["rendered"]))
        print(open(path).read()[:6000])
        for o in obl_failed[:8]: log("failed obligation: %s: %s: %s" % (o["function"], o["message"], o["clause"][:200]))
        print("VIOLATION property=%s replay=%s%s" % (P, path, "" if (hfail or pfails) else " no-failing-input-found"), flush=True)
    # ---- evidence
    nob = lambda r: r["obligations"].get(P, 0) if P != "C19" and not (P == "C16" and r["unit"] == "gen") else sum(len(v) for v in r.get("fn_labels", {}).values())
    tot = sum(nob(r) for r in vres)
    und_cfg = [r for r in vres if r["undecided"]]
    bad = len(obl_failed)
    not_disch = sum(nob(r) for r in und_cfg)
    disch = max(0, tot - not_disch - bad)
    fns = {}
    for r in vres:
        for k, v in r.get("fn_labels", {}).items():
            if P in v or (P == "C16" and r["unit"] == "gen"): fns.setdefault(k, []).append(r["name"])
    cov = {"obligations": tot, "discharged": disch,
           "checker_cmd": vres[0].get("cmd", "verus") if vres else "none",
           "trusted_base": plan.TRUSTED[:2] + (plan.TRUSTED[2:] if any(c.unit != "macros" for c in vcfgs) else []) + pl.get("trusted", []),
           "backend": "Verus 0.2026.09.13 with Z3 (bundled)",
           "verifier_runs": [{k: r[k] for k in ("name", "functions", "verified", "errors", "smt_ms", "undecided", "uncontracted", "reshaped", "missing", "excluded", "not_accepted", "seeds")} | {"wall_s": round(r["wall_s"], 1), "obligations_labelled": nob(r)} for r in vres],
           "functions_under_contract_for_this_property": sorted(fns),
           "obligations_failed": [{"function": o["function"], "clause": o["clause"], "config": o["config"]} for o in obl_failed],
           "undecided": undecided[:40],
           "bounded": {"note": "bounded stand-ins, not counted as proved", "harness": [{k: v for k, v in r.items() if k not in ("out", "fail")} for r in hres],
                       "programs": [{k: (v if k != "fails" else len(v)) for k, v in r.items()} for r in pres]},
           "extraction_rules": vunits.rules()}
    ev = {"property": P, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": pl["level"], "coverage": cov,
          "assumptions": (plan.ASSUMPTIONS if any(c.unit != "macros" for c in vcfgs) else []) + pl.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": n_viol}
    if pl["level"] != "proof":
        ev["coverage"]["evaluations"] = sum(r.get("histories", 0) + r.get("exhaustive", 0) + r.get("drivers", 0) for r in hres) + sum(r["queries"] * 6 + r["negative"] * 2 for r in pres)
        ev["coverage"]["distinct_nontrivial"] = sum(r.get("histories", 0) + r.get("exhaustive", 0) for r in hres) + sum(r["queries"] + r["negative"] for r in pres)
        ev["coverage"]["rule"] = "seeded generated operation histories and client programs; a query counts once, and only if at least one archetype matches"
        ev["coverage"]["samples"] = [hres[0].get("out", "")[:200]] if hres else [str(pres[0]["queries"]) + " queries"]
    json.dump(ev, open("%s/%s.json" % (EV, P), "w"), indent=1)
    shutil.rmtree(WORK, ignore_errors=True)
    for line in open(ROOT + "/known-findings.txt"):
        if line.startswith("known: property=%s " % P): print("KNOWN-FINDING: property=%s %s" % (P, line.split(" ", 2)[2].strip()))
    log("obligations %d discharged %d undecided items %d; %s" % (tot, disch, len(undecided), "VIOLATION" if n_viol else "held"))
    sys.exit(1 if n_viol else 0)

def replay():
    h = hx_build(Hx(sys.argv[3]))
    if h.err: print(h.err); sys.exit(2)
    sys.exit(subprocess.run([h.bin, "case", sys.argv[2], sys.argv[4]] + sys.argv[5:6], env=ENV).returncode)
if P == "replay": replay()
else: main()
