#!/usr/bin/env python3
"""run_seeded.py [-j N] [ID...]: runs, for each planted bug, the quick check of its property against a scratch copy of
/repo with the bug applied (scratch copies of /verif and /repo under /tmp, removed afterwards), and prints caught / MISSED."""
import sys, os, subprocess, json, shutil, queue, concurrent.futures as cf, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; n = 2
if a and a[0] == "-j": n = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(V + "/seeded"))
slots = queue.Queue()
for i in range(n):
    d = f"/tmp/rs{os.getpid()}-{i}"; os.makedirs(d)
    subprocess.run(f"cp -a /repo {d}/repo; mkdir {d}/verif; cp -a {V}/check.py {V}/harness {V}/known_findings.json {d}/verif/; git -C {d}/repo checkout -q -- .", shell=True)
    slots.put(d)
def run(i):
    d = slots.get(); t = time.time()
    try:
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        subprocess.run(["git", "-C", d + "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
        r = subprocess.run(["python3", d + "/verif/check.py", prop, "quick"], capture_output=True, text=True, env=dict(os.environ, CODD_REPO=d + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED","1")))
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        ok = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        return i, prop, ok, r.returncode, time.time() - t, r.stdout.strip().split("\n")[0][:260]
    finally: slots.put(d)
try:
    with cf.ThreadPoolExecutor(n) as ex:
        for i, p, ok, rc, t, m in ex.map(run, ids): print("caught" if ok else "MISSED", i, p, f"rc={rc} {t:.0f}s", m, flush=True)
finally:
    while not slots.empty(): shutil.rmtree(slots.get(), ignore_errors=True)
