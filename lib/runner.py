"""Runs simulator cases on all cores."""
import json, os, signal, subprocess, tempfile, threading, queue

class Result:
    __slots__ = ("spec", "code", "stats", "msg", "variant")
    def __init__(self, spec, code, stats, msg, variant):
        self.spec, self.code, self.stats, self.msg, self.variant = spec, code, stats, msg, variant

def _chunk(build, variant, specs, timeout, out, scratch, wid, limit):
    d = os.path.join(build, variant)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_segv=1:exitcode=77:detect_stack_use_after_return=0:symbolize=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    covf = os.path.join(scratch, "cov%s.%s" % (variant, wid)) ; env["SIM_COV"] = covf
    need = 1
    for s in specs:
        for t in s.split():
            if t.startswith("n="): need = max(need, int(t[2:]))
    p = subprocess.Popen([os.path.join(d, "sim"), "--libs", os.path.join(d, "lib_%d.so"), "--n", str(need), "--timeout", str(timeout), "--log", os.path.join(scratch, "log%s.%s" % (variant, wid))],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, errors="replace", start_new_session=True)
    try:
        so, _ = p.communicate("\n".join(specs) + "\n", timeout=max(30, min(timeout * len(specs) + 60, limit)))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); so, _ = p.communicate()
    seen = set()
    for line in so.splitlines():
        f = line.split("\t")
        if f[0] == "#cov" or len(f) < 4: continue
        i = int(f[0]); seen.add(i)
        try: st = json.loads(f[2])
        except ValueError: st = {}
        out.append(Result(specs[i], int(f[1]), st, f[3], variant))
    for i, s in enumerate(specs):
        if i not in seen: out.append(Result(s, 13, {}, "no result from the simulator", variant))

def run(build, jobs, timeout=60, workers=8, chunk=25, deadline=None, enough=None):
    """jobs: list of (variant, spec). Returns (results, coverage set per variant)"""
    import time
    q = queue.Queue()
    by = {}
    for v, s in jobs: by.setdefault(v, []).append(s)
    chunks = []
    for v, l in by.items():
        for i in range(0, len(l), chunk): chunks.append((v, l[i:i + chunk]))
    # interleave variants
    chunks.sort(key=lambda c: 0)
    for i, c in enumerate(chunks): q.put((i, c))
    res, lock, stop = [], threading.Lock(), threading.Event()
    cov = {}
    scratch = tempfile.mkdtemp(prefix="run", dir=build)
    def work(w):
        while True:
            try: i, (v, l) = q.get_nowait()
            except queue.Empty: return
            if deadline and time.time() > deadline or stop.is_set(): continue
            o = []
            _chunk(build, v, l, timeout, o, scratch, w, deadline + 40 - time.time() if deadline else 1e6)
            c = set()
            try:
                with open(os.path.join(scratch, "cov%s.%s" % (v, w))) as f: c = set(f.read().split())
            except OSError: pass
            with lock:
                res.extend(o)
                if enough and enough(res): stop.set()
                cov.setdefault(v, set()).update(c)
    th = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in th: t.start()
    for t in th: t.join()
    subprocess.run(["rm", "-rf", scratch])
    return res, cov
