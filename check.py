#!/usr/bin/env python3
"""Runs the monitors that decide one property against /repo's current tree.

  check.py PROPERTY [quick|thorough]     run the check, write evidence/PROPERTY.json
  check.py --replay FILE                 re-run exactly the case a VIOLATION line names
  check.py --selftest                    verify that the tool chain works

Exit status: 0 the property held on everything explored, 1 a violation was observed (VIOLATION line),
2 the check could not be carried out (harness or library does not build, tool missing).
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CODD_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HAR = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
JOBS = os.cpu_count() or 4
BASE = ["-std=gnu++23", "-O1", "-g1", "-D_NDEBUG", "-w", "-I" + SRC, "-I" + HAR]
FLAV = {  # release as users run it; sanitized with assertions and the pool hooks
    "rel": (BASE + ["-DNDEBUG"], []),
    "asan": (BASE + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DCODD_VERIFY"],
             ["-fsanitize=address,undefined"]),
}
BINS = {"solver": ["solver_check", "families"], "ds": ["ds_check"], "mem": ["mem_check", "memcount", "families", "ds_check"],
        "disp": ["disp_check", "families"]}

SOLVER = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15", "C18", "C30", "C31"]
DS = ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C32", "C33"]

# property -> [(binary, flavour, property argument, quick cases, chunk)]
PLAN = {}
def plan(p, *jobs): PLAN.setdefault(p, []).extend(jobs)
_q = dict(C01=24000, C02=10000, C03=16000, C04=30000, C05=24000, C06=24000, C07=30000, C08=6000, C09=6000, C10=30000, C13=8000,
          C14=7000, C15=12000, C18=2500, C30=9000, C31=8000)
for p in SOLVER:
    plan(p, ("solver", "rel", p, _q[p], 250), ("solver", "asan", p, _q[p] // 16, 25))
_d = dict(C16=120000, C17=80000, C18=160000, C19=160000, C20=160000, C21=48000, C22=200000, C23=120000, C24=120000, C25=160000,
          C26=200000, C27=240000, C32=120000, C33=120000)
for p in DS:
    plan(p, ("ds", "rel", p, _d[p], 2500), ("ds", "asan", p, _d[p] // 16, 250))
plan("C29", ("solver", "rel", "C29", 2400, 50))
plan("C12", ("mem", "rel", "C12", 20000, 125))
plan("C28", ("disp", "rel", "C28", 2000, 50))
for p in SOLVER: plan("C11", ("solver", "asan", p, max(160, _q[p] // 20), 20), ("solver", "vg", p, 48, 6))
for p in DS: plan("C11", ("ds", "asan", p, _d[p] // 20, 250), ("ds", "vg", p, 240, 30))
plan("C11", ("disp", "asan", "C28", 96, 12))

RULES = {
 "solver": "random stage-structured dynamic programs over explicit tables (1-9 stages, up to 500 states per stage, 5 cost distributions, "
           "early sinks, infeasible instances, 7 local bounds, 6 dominance tests, 5 merge-refusal patterns, 5 hash functions) and six classic problem "
           "families on the library's own state types; widths 1-1500; judged by an independent backward-induction or brute-force oracle. "
           "A case is non-trivial when its signature was recorded: the search extracted more than one node, a diagram was inexact or merged, "
           "a callback history or reachable state space of more than 3 states (see the property's harness); signatures are hashes of model and configuration.",
 "ds": "random operation histories (construction, copy, move, growth, boundary values) replayed on the container and on a standard-library reference, "
       "every observable compared after every step. A case is non-trivial when its recorded history hash is distinct and has more than a handful of operations.",
 "mem": "random histories of search/compile/apply/duplicate/destroy with tagged, counted states and an interposed allocator; every history is run twice and "
        "live states and heap blocks compared around the second run, or one compilation is repeated 12 times. Non-trivial: more than 20 states tracked.",
 "disp": "compiled exact/restricted/relaxed diagrams of random models and families displayed with viewer/layout programs present, missing or failing; the DOT text "
         "is parsed and compared with the graph walked through the public accessors. Non-trivial: more than 3 nodes.",
}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

class BuildError(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for d in (SRC, HAR):
        for f in sorted(os.listdir(d)):
            if f.endswith((".hpp", ".cpp", ".h", ".c", ".cc")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    h.update(json.dumps(FLAV, sort_keys=True).encode())
    return h.hexdigest()[:20]

def build(wanted, only=None):
    """wanted: set of (binary, flavour); returns {(binary, flavour): path}"""
    out = os.path.join(BUILD, tree_hash() + (f"-{only}" if only else ""))
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if os.path.join(BUILD, d) != out: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    libsrc = sorted(f for f in os.listdir(SRC) if f.endswith((".cpp", ".cc", ".c")))
    todo, links = {}, []
    for b, f in sorted(wanted):
        objs = []
        extra = ["-DVF_MEM"] if b == "mem" else [f"-DVF_ONLY={only}"] if only else []
        for tu in BINS[b]:
            o = os.path.join(out, f"{tu}{'.mem' if b == 'mem' else ''}.{f}.o"); objs.append(o); todo[o] = (os.path.join(HAR, tu + ".cpp"), f, extra)
        for s in libsrc:
            o = os.path.join(out, f"lib_{s}.{f}.o"); objs.append(o); todo[o] = (os.path.join(SRC, s), f, [])
        links.append((os.path.join(out, f"{b}.{f}"), objs, f))
    def one(item):
        o, (src, f, extra) = item
        if os.path.exists(o): return
        r = sh(["g++", *FLAV[f][0], *extra, "-c", src, "-o", o + ".tmp"])
        if r.returncode: raise BuildError(f"compiling {src} ({f}) failed:\n" + r.stdout[-4000:])
        os.replace(o + ".tmp", o)
    def link(l):
        exe, objs, f = l
        if os.path.exists(exe): return
        r = sh(["g++", *FLAV[f][1], *objs, "-o", exe + ".tmp"])
        if r.returncode: raise BuildError(f"linking {exe} failed:\n" + r.stdout[-4000:])
        os.replace(exe + ".tmp", exe)
    # the big harness files first, so that they overlap with everything else
    items = sorted(todo.items(), key=lambda kv: -os.path.getsize(kv[1][0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for _ in ex.map(one, items): pass
        for _ in ex.map(link, links): pass
    return {(b, f): os.path.join(out, f"{b}.{f}") for b, f in wanted}

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=6000:abort_on_error=0:exitcode=97:allocator_may_return_null=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=97")
SAN = re.compile(r"ERROR: AddressSanitizer|runtime error:|Assertion .* failed|ERROR: UndefinedBehavior|hard rss limit")

def limits(flav):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flav == "rel": resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f

def execute(exe, flav, parg, seed, a, b, wd, tmo, keep=False):
    """one chunk of cases; returns dict(kind=ok|violation|crash|hang, ...)"""
    out = os.path.join(wd, f"{os.path.basename(exe)}.{parg}.{flav}.{seed}.{a}.json")
    cmd = [exe, "--prop", parg, "--seed", str(seed), "--from", str(a), "--to", str(b), "--out", out]
    if keep: cmd += ["--mode", "keepgoing"]
    if flav == "vg": cmd = ["valgrind", "-q", "--error-exitcode=97", "--show-mismatched-frees=no", "--num-callers=20", "--exit-on-first-error=yes"] + cmd
    err = open(out + ".err", "w+")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=ENV, preexec_fn=limits(flav), cwd=wd)
    try: rc = p.wait(tmo)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait(); rc = None
    err.seek(0); text = err.read(200000); err.close()
    try: case = int(open(out + ".progress").read().strip())
    except Exception: case = a
    res = None
    try: res = json.load(open(out))
    except Exception: pass
    for f in (out, out + ".err", out + ".progress"):
        try: os.unlink(f)
        except OSError: pass
    r = dict(exe=os.path.basename(exe), flav=flav, parg=parg, seed=seed, case=case, res=res, rc=rc, text=text)
    if rc is None: r["kind"] = "hang"; r["msg"] = f"case {case} did not finish within {tmo:.0f} s"
    elif rc == 0 and res is not None: r["kind"] = "ok"
    elif rc == 1 and res is not None and res.get("violation"): r["kind"] = "violation"; r["case"] = res["case"]; r["msg"] = res["message"]
    elif rc == 3: r["kind"] = "error"; r["msg"] = text[-500:]
    else:
        r["kind"] = "crash"
        lines = text.splitlines(); at = next((i for i, l in enumerate(lines) if SAN.search(l) or l.startswith("==")), 0)
        r["msg"] = f"abnormal end (status {rc}): " + " | ".join(l.strip() for l in lines[at:at + 12])[:1500]
    return r

def load_known(prop):
    f = os.path.join(HERE, "known_findings.json"); out = []
    if os.path.exists(f):
        for e in json.load(open(f)).get("open", []):
            if e["property"] == prop: out.append(e)
    return out

def main(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = PLAN[prop]; c11 = prop == "C11"
    scale = 1 if tier == "quick" else float(os.environ.get("VERIF_SCALE", "40"))
    budget = float(os.environ.get("VERIF_BUDGET_S", "240" if tier == "quick" else "720"))
    wanted = {(b, "rel" if f == "vg" else f) for b, f, *_ in jobs}
    try: bins = build(wanted)
    except BuildError:
        if prop not in DS: raise
        bins = build(wanted, int(prop[1:]))          # this property's monitors alone
    tb = time.time() - t0
    t1 = time.time(); limit = min(t1 + budget, t0 + 780) if tier == "quick" else t1 + budget   # a slow build must not eat the exploration
    wd = tempfile.mkdtemp(prefix="vf-run-"); 
    tmo = 150.0
    chunks = []
    for b, f, parg, n, size in jobs:
        n = int(n * scale); k = 0
        while k < n: chunks.append((k / n, b, f, parg, k, min(n, k + size))); k += size
    chunks.sort(key=lambda c: c[0])                # interleave the jobs so that a budget cut hits all alike
    known = load_known(prop); found = []; stop = threading.Event(); agg = dict(evals=0, skipped=0, slow=0, other=0)
    counters, sigs, samples, seen_known, errors = {}, set(), [], {}, []
    lock = threading.Lock()
    def absorb(r):
        if not r["res"]: return
        agg["evals"] += r["res"]["evaluations"]
        for k, v in r["res"]["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        sigs.update((r["parg"], s) for s in r["res"]["sigs"]) if c11 else sigs.update(r["res"]["sigs"])
        if len(samples) < 6: samples.extend(r["res"]["samples"][:2])
    def work(c):
        _, b, f, parg, a, z = c
        exe = bins[(b, "rel" if f == "vg" else f)]
        while a < z and not stop.is_set():
            if time.time() > limit:
                with lock: agg["skipped"] += z - a
                return
            r = execute(exe, f, parg, seed, a, z, wd, tmo, keep=c11)
            if r["kind"] == "hang":                 # confirm alone, with all its time to itself
                r2 = execute(exe, f, parg, seed, r["case"], r["case"] + 1, wd, tmo, keep=c11)
                if r2["kind"] == "ok" or c11 and r2["kind"] != "crash":
                    with lock: agg["slow"] += 1; absorb(r2)
                    a = r["case"] + 1; continue
                r = r2
            with lock:
                absorb(r)
                if r["kind"] == "ok": return
                if r["kind"] == "error": errors.append(r["msg"]); stop.set(); return
                r["bin"], r["to"] = b, z
                if c11 and r["kind"] == "violation": agg["other"] += 1; a = r["case"] + 1; continue
                k = next((e for e in known if re.search(e["match"], r["msg"])), None)
                if k: seen_known[k["id"]] = k; a = r["case"] + 1; continue
                found.append(r); stop.set(); return
    with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(work, chunks))
    shutil.rmtree(wd, ignore_errors=True)
    if not errors and not found and agg["evals"] == 0: errors.append("no case was run (machine too slow?)")
    if errors: print("check error:", errors[0]); return 2
    for k in seen_known.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if found:
        found.sort(key=lambda r: (r["flav"], r["case"])); r = found[0]; rc = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{r['bin']}-{r['flav']}-{r['parg']}-{r['seed']}-{r['case']}.json")
        json.dump(dict(property=prop, binary=r["bin"], flavour=r["flav"], prop_arg=r["parg"], seed=r["seed"], case=r["case"], kind=r["kind"],
                       message=r["msg"], output=r["text"][-6000:], command=f"python3 {os.path.abspath(__file__)} --replay {path}"), open(path, "w"), indent=1)
        print(f"{prop}: {r['kind']} in {r['bin']}/{r['flav']} {r['parg']} seed {r['seed']} case {r['case']}: {r['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    wall = time.time() - t0
    rule = " / ".join(RULES[b] for b in dict.fromkeys(j[0] for j in jobs))
    cov = dict(evaluations=agg["evals"], distinct_nontrivial=len(sigs), rule=rule, samples=samples, observed=counters,
               cases_not_started_budget=agg["skipped"], slow_chunks=agg["slow"],
               instruments=sorted({{"rel": "functional monitors, release build", "asan": "AddressSanitizer+UBSan+assertions+pool poisoning", "vg": "valgrind memcheck (uninitialised values)"}[j[1]] for j in jobs}),
               build_s=round(tb, 1))
    if c11: cov["cases_stopped_by_functional_monitor"] = agg["other"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 1), violations=len(found))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0: print(f"{prop}: held on {agg['evals']} cases ({len(sigs)} distinct non-trivial), build {tb:.0f} s, total {wall:.0f} s")
    return rc

def replay(path):
    d = json.load(open(path)); f = d["flavour"]
    bins = build({(d["binary"], "rel" if f == "vg" else f)}); wd = tempfile.mkdtemp(prefix="vf-replay-")
    r = execute(bins[(d["binary"], "rel" if f == "vg" else f)], f, d["prop_arg"], d["seed"], d["case"], d["case"] + 1, wd, 150.0, keep=d["property"] == "C11")
    shutil.rmtree(wd, ignore_errors=True)
    print(r["kind"], r.get("msg", "")); print(r["text"][-4000:])
    return 0 if r["kind"] == "ok" else 1

if __name__ == "__main__":
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        if len(sys.argv) == 2 and sys.argv[1] == "--selftest":
            for t in ("g++", "valgrind"):
                if not shutil.which(t): print("missing tool", t); sys.exit(2)
            sys.exit(0)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(sys.argv[1], tier if tier in ("quick", "thorough") else "quick"))
    except BuildError as e:
        print("BUILD FAILED:", e); sys.exit(2)
