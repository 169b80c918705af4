#!/usr/bin/env python3
"""Developer tool (no check uses it): run checks on a changed copy of /repo, laid over /repo in a private mount
namespace (so /repo itself is never touched and several runs go on side by side).
usage: seeded.py [id ...] [--prop Cxx,Cyy|all] [-j N] [--dir DIR] [--verif COPY]    planted bugs of DIR (default /verif/seeded)"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
V = '/verif'
a = sys.argv[1:]
def opt(n, d):
    if n in a: i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
copy = opt('--verif', None)                              # a copy of /verif to be laid over /verif, so that editing can go on
props, jobs, base, tier = opt('--prop', None), int(opt('-j', '2')), opt('--dir', V + '/seeded'), opt('--tier', 'quick')
ALL = ["C%02d" % i for i in range(1, 20) if i != 18]
slots = queue.Queue()
for k in range(jobs): slots.put(k)
os.makedirs('/tmp/sd', exist_ok=True); os.makedirs('/tmp/bugs', exist_ok=True)
def one(job):
    i, p = job
    d = f'{base}/{i}'; k = slots.get(); s = f'/tmp/sd/{i}-{p}'
    try:
        shutil.rmtree(s, ignore_errors=True); os.makedirs(s + '/evidence')
        subprocess.run(f'mkdir {s}/repo && cd /repo && git archive HEAD | tar -x -C {s}/repo && cp -a .git {s}/repo/.git && cd {s}/repo && git apply {d}/patch.diff', shell=True, check=True)
        t = time.time()
        r = subprocess.run(['unshare', '-m', 'sh', '-c', f'mount --bind {s}/repo /repo; {f"mount --bind {copy} {V};" if copy else ""} mount --bind {s}/evidence {V}/evidence; cd {V}; VERIF_BUILD=/tmp/sd/build{k} python3 run.py {p} {tier}'], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        und = [l.strip()[:160] for l in r.stdout.splitlines() if 'undecided:' in l]
        obl = [l[l.index('failed obligation'):][:170] for l in r.stdout.splitlines() if '] failed obligation' in l]
        print(f'{i:34s} {p} rc={r.returncode} {time.time()-t:4.0f}s', 'none' if not v else 'obligation only' if v[0].endswith('found') else 'failing input', f'obligations {len(obl)}', obl[:1], und[:1] if not obl else '', flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-1500:])
        open(f'/tmp/bugs/out-{i}-{p}.txt', 'w').write(r.stdout + r.stderr)
        return (i, p, r.returncode)
    finally:
        slots.put(k); shutil.rmtree(s, ignore_errors=True)
ids = a or sorted(os.listdir(base))
work = []
for i in ids:
    mp = json.load(open(f'{base}/{i}/meta.json'))['property']
    for p in ([mp] if not props else ALL if props == 'all' else props.split(',')): work.append((i, p))
with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(one, work))
print('caught %d of %d' % (sum(r[2] == 1 for r in res), len(res)))
