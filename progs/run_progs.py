"""Builds gecs once, compiles and runs the generated client programs. -> dict with counts and failures"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import progs

def gecs_rlib(target_dir, harness, repo="/repo"):
    env = dict(os.environ, CARGO_TARGET_DIR=target_dir, RUSTFLAGS="-Awarnings")
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--manifest-path", harness + "/Cargo.toml", "-p", "gecs"], env=env, capture_output=True, text=True)
    lib = None
    for l in p.stdout.splitlines():
        if not l.startswith("{"): continue
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "gecs":
            for f in d["filenames"]:
                if f.endswith(".rlib"): lib = f
    if not lib: return None, p.stderr[-3000:]
    return lib, ""

def rustc(src, out, lib, extra):
    deps = os.path.join(os.path.dirname(lib), "deps")
    return subprocess.run(["rustc", "--edition", "2021", "-Awarnings", src, "-o", out, "--extern", "gecs=" + lib, "-L", "dependency=" + deps, "--cfg", 'feature="gpa"', "-Cdebuginfo=0"] + extra,
                          capture_output=True, text=True, timeout=400)

def run(mode, seed, tier, work, lib):
    quick = tier != "thorough"
    files, worlds, nq = (8, 5, 5) if quick else (32, 8, 6)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    pos = progs.positive(mode, seed, files, worlds, nq)
    negs = progs.negatives(mode)
    res = {"worlds": files * worlds, "queries": sum(n for _, n in pos), "negative": len(negs), "fails": [], "broken": []}
    def do_pos(i):
        src = "%s/p%d.rs" % (work, i); open(src, "w").write(pos[i][0])
        c = rustc(src, "%s/p%d" % (work, i), lib, [])
        if c.returncode: return [("C05 C15 C16", "a valid program is rejected by the compiler:\n" + c.stderr[:2500], src)]
        r = subprocess.run(["%s/p%d" % (work, i)], capture_output=True, text=True, timeout=120, env=dict(os.environ, RUST_BACKTRACE="0"))
        out = []
        for l in r.stdout.splitlines():
            if l.startswith("FAIL ["): out.append((l[6:l.index("]")], l[l.index("]") + 2:], src))
        if r.returncode and not out: out.append(("C05 C15 C16", "the program ended with %d: %s" % (r.returncode, r.stderr[:1500]), src))
        return out
    def do_neg(i):
        name, props, bad, good = negs[i]
        b, g = "%s/n%d_bad.rs" % (work, i), "%s/n%d_ok.rs" % (work, i)
        open(b, "w").write(bad); open(g, "w").write(good)
        out = []
        c = rustc(g, "%s/n%d_ok" % (work, i), lib, ["--emit=metadata"])
        if c.returncode: out.append((props, "%s: the valid twin is rejected:\n%s" % (name, c.stderr[:2000]), g))
        c = rustc(b, "%s/n%d_bad" % (work, i), lib, ["--emit=metadata"])
        if c.returncode == 0: out.append((props, "%s: accepted by the compiler" % name, b))
        return out
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(do_pos, i) for i in range(len(pos))] + [ex.submit(do_neg, i) for i in range(len(negs))]
        for f in fs:
            try: res["fails"] += f.result()
            except subprocess.TimeoutExpired: res["broken"].append("timeout")
    return res

if __name__ == "__main__":
    lib, err = gecs_rlib("/verif/.build/p", "/verif/harness")
    print(lib, err)
    r = run(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "quick", "/verif/.build/progs_" + sys.argv[1], lib)
    for f in r["fails"][:6]: print(f)
    print({k: v for k, v in r.items() if k != "fails"}, len(r["fails"]))
