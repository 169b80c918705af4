"""Builds are reused only for the same source text (cargo alone goes by modification times)."""
import glob, hashlib, os, shutil
def tree_hash(repo, *more):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(repo)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "tests", "examples", "benches"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f); h.update(p.encode() + b"\0"); h.update(open(p, "rb").read())
    for d0 in more:
        for d, ds, fs in sorted(os.walk(d0)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs): h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]
def fresh(target, repo):
    """makes cargo rebuild gecs in `target` unless what is there was built from this very tree"""
    os.makedirs(target, exist_ok=True)
    st, h = target + "/gecs-tree", tree_hash(repo)
    if os.path.exists(st) and open(st).read() == h: return
    for p in glob.glob(target + "/*/.fingerprint/gecs*") + glob.glob(target + "/*/*/.fingerprint/gecs*"): shutil.rmtree(p, ignore_errors=True)
    open(st, "w").write(h)
