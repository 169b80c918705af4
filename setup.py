"""checks that the tools the checks use are present; the checks build everything themselves"""
import subprocess, sys, os
for c in (["verus", "--version"], ["cargo", "--version"], ["rustc", "+nightly", "--version"]):
    p = subprocess.run(c, capture_output=True, text=True); print(c[0], p.stdout.strip().split("\n")[0])
    if p.returncode: sys.exit(1)
os.makedirs(os.path.dirname(os.path.abspath(__file__)) + "/evidence", exist_ok=True)
