#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's working tree (tier and seed from VERIF_TIER, VERIF_SEED)
check.py --replay FILE       run the case of a replay file again
check.py --build             only build (setup_cmd)"""
import sys, os, json, time, re, subprocess, hashlib, collections, random, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import runner, props
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for top in ("src", "include", "latency_bandwidth", "minclude.sh"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p): fs.append(p)
        for d, _, f in os.walk(p): fs += [os.path.join(d, x) for x in f if x.endswith((".c", ".h", ".txt", ".tmp", ".sh", ".cu", ".cc"))]
    for d in ("engine",):
        for x in os.listdir(os.path.join(HERE, d)): fs.append(os.path.join(HERE, d, x))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build(variants):
    """builds the library of the working tree together with the simulator; one directory per content of the sources"""
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash(); d = os.path.join(BUILD, h)
    for x in os.listdir(BUILD):
        if x not in (h, "lock"): shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    todo = [v for v in variants if not os.path.exists(os.path.join(d, v, "done"))]
    ps = []
    for v in todo:
        ps.append((v, subprocess.Popen(["bash", os.path.join(HERE, "engine", "build.sh"), os.path.join(d), v], env=dict(os.environ, REPO=REPO, BENCH_DIR=os.path.join(d, "bench_" + v)), stdout=open(os.path.join(d, "log_" + v), "w"), stderr=subprocess.STDOUT)))
    bad = [v for v, p in ps if p.wait()]
    if bad:
        for v in bad: sys.stdout.write(open(os.path.join(d, "log_" + v)).read()[-3000:])
        print("build of /repo for monitoring failed: %s" % bad); sys.exit(2)
    for v, _ in ps: open(os.path.join(d, v, "done"), "w").close()
    fcntl.flock(lock, fcntl.LOCK_UN)
    return d

def kind_of(r):
    if r.code == 11: return "crash"
    if r.code == 12: return "timeout"
    if r.code == 13: return "none"
    return r.msg.split(":")[0] if r.code == 10 else "ok"

def load_known():
    l = []
    f = os.path.join(HERE, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        line = line.strip()
        m = re.match(r"finding: property=(\w+) variant=(\w+) kinds=(\S+) case=\{(.*?)\} (.*)", line)
        if m: l.append(dict(property=m.group(1), variant=m.group(2), kinds=m.group(3).split(","), spec=m.group(4), what=m.group(5)))
    return l

def main():
    t0 = time.time()
    if sys.argv[1] == "--build": build(["mon", "asan"]); print("built"); return 0
    if sys.argv[1] == "--replay":
        d = {}
        for line in open(sys.argv[2]):
            if "=" in line: k, v = line.rstrip("\n").split("=", 1); d[k] = v
        b = build([d["variant"]])
        res, _ = runner.run(b, [(d["variant"], s) for s in d["case"].split(" ;; ")], timeout=120, workers=1)
        for r in res: print(r.code, kind_of(r), r.msg)
        return 1 if any(r.code in (10, 11) for r in res) else 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    P = props.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    R = random.Random("%s/%d/%s" % (pid, seed, tier))
    b = build(P.variants)
    tb = time.time()
    jobs = P.jobs(R, tier)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    res, cov = runner.run(b, jobs, timeout=P.timeout, workers=int(os.environ.get("VERIF_JOBS", "8")), chunk=P.chunk, deadline=deadline, enough=lambda rs: sum(kind_of(r) in P.kinds for r in rs) >= 25)
    if os.environ.get("VERIF_COVOUT"): json.dump({"build": b, "cov": {k: sorted(v) for k, v in cov.items()}}, open(os.environ["VERIF_COVOUT"] + "." + pid, "w"))
    bad = [r for r in res if kind_of(r) in P.kinds]
    bad.sort(key=lambda r: (int((re.search(r"\bn=(\d+)", r.spec) or [0, 0])[1]), len(r.spec)))
    extra = P.post(res) if P.post else []          # findings that need several cases
    known = [k for k in load_known() if k["property"] == pid]
    kf = []
    if known:
        kr, _ = runner.run(b, [(k["variant"], k["spec"]) for k in known], timeout=P.timeout, chunk=1)
        for k in known:
            r = next((r for r in kr if r.spec == k["spec"] and r.variant == k["variant"]), None)
            if r is None: continue
            if kind_of(r) in P.kinds: kf.append(k)        # the entry names this one case, whatever form the failure takes
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    n = 0
    for r in bad[:3]:
        f = os.path.join(EVID, "replay-%s-%d.txt" % (pid, n)); n += 1
        open(f, "w").write("property=%s\nvariant=%s\ncase=%s\nobserved=%s %s\nrun=python3 check.py --replay %s\n" % (pid, r.variant, r.spec, kind_of(r), r.msg, f))
        print("%s: [%s] %s => %s" % (pid, r.variant, r.spec, r.msg[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    for variant, specs, msg in extra[:3]:
        f = os.path.join(EVID, "replay-%s-%d.txt" % (pid, n)); n += 1
        open(f, "w").write("property=%s\nvariant=%s\ncase=%s\nobserved=%s\nrun=python3 check.py --replay %s\n" % (pid, variant, " ;; ".join(specs), msg, f))
        print("%s: %s" % (pid, msg)); print("VIOLATION property=%s replay=%s" % (pid, f))
    ok = [r for r in res if r.code == 0]
    tot = collections.Counter()
    for r in res:
        for k, v in r.stats.items():
            if k not in ("hash", "rhash"): tot[k] += v
    nontriv = set()
    for r in ok:
        if P.nontrivial(r): nontriv.add((r.variant, r.spec, r.stats.get("hash")))
    kinds = collections.Counter(kind_of(r) for r in res)
    cov_d = {"evaluations": len(res), "distinct_nontrivial": len(nontriv), "rule": P.rule,
             "samples": [{"variant": r.variant, "case": r.spec, "observed": {k: v for k, v in r.stats.items() if v}} for r in ok[:3]],
             "distinct_schedules": len({r.stats.get("hash") for r in ok}), "monitor_totals": dict(tot), "outcomes": dict(kinds),
             "code_blocks_reached": {k: len(v) for k, v in cov.items()}, "cases_not_run_for_time": len(jobs) - len(res),
             "known_findings_reproduced": [k["what"] for k in kf], "build_s": round(tb - t0, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov_d, "wall_s": round(time.time() - t0, 1), "violations": len(bad) + len(extra),
          "assumptions": ["the mini-MPI of engine/mpi.cpp behaves like an MPI library (asynchronous, eager or rendezvous, non-overtaking)", "sequentially consistent memory between the ranks of a node; unordered accesses are reported by the race monitor instead"]}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d nontrivial, outcomes %s, %.0f s (build %.0f s)" % (pid, tier, len(res), len(nontriv), dict(kinds), time.time() - t0, tb - t0))
    if bad or extra: return 1
    if not ok or len(ok) < 0.5 * len(jobs):
        print("not enough cases gave an answer"); return 2
    return 0
if __name__ == "__main__": sys.exit(main())
