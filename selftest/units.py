#!/usr/bin/env python3
"""Developer tool (no check uses it): every verifier unit of the quick tier on changed copies of /repo; prints the obligations that fail, of whatever
property. usage: units.py [-j N] [--dir DIR] [--specs 'a;b'] [id ...]     default DIR: /verif/selftest/refactors (nothing may fail there)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/verus"]
import vunits
a = sys.argv[1:]
def opt(n, d):
    if n in a: i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
jobs, base = int(opt("-j", "2")), opt("--dir", V + "/selftest/refactors")
specs = opt("--specs", "core dbg n2 events;core n3;core n1 wrapping_version;dataptr dbg;dataptr;macros;gen dbg events;gen dbg events cfg-;gen dbg events cfg-abc").split(";")
def one(i):
    s = tempfile.mkdtemp(prefix="units-", dir="/tmp")
    try:
        subprocess.run("mkdir %s/repo && cd /repo && git archive HEAD | tar -x -C %s/repo && cd %s/repo && git init -q . && git apply %s/%s/patch.diff" % (s, s, s, base, i), shell=True, check=True)
        bad, und = [], []
        for sp in specs:
            r = vunits.run_cfg(vunits.parse_cfg(sp), s + "/repo", s, 1, vunits.BUILDERS)
            bad += ["%s: %s: %s: %s" % (r["name"], f["function"], ",".join(f["labels"] or sorted(vunits.default_labels(f))), f["clause"][:160]) for f in r["failed"] if not f.get("undecided")]
            und += ["%s: %s" % (r["name"], u[:160]) for u in r["undecided"]]
        print("%-30s failed %d undecided %d" % (i, len(bad), len(und)), bad[:4], und[:3], flush=True)
        return len(bad)
    finally: shutil.rmtree(s, ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex: n = sum(ex.map(one, a or sorted(os.listdir(base))))
print("obligations failed: %d" % n)
