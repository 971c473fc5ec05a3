"""The properties: what is run for each of them and which observations decide it."""
import gen, collections, re

DELIVERY = {"wrong-result", "deadlock", "livelock", "library-exit", "init-error", "start-error", "free-error", "crash"}

class Prop:
    def __init__(self, kinds, jobs, rule, variants=("mon", "asan"), timeout=60, chunk=20, nontrivial=None, post=None):
        self.kinds, self.jobs, self.rule, self.variants, self.timeout, self.chunk, self.post = set(kinds), jobs, rule, variants, timeout, chunk, post
        self.nontrivial = nontrivial or (lambda r: r.stats.get("results", 0) > 0)

def scale(tier, quick): return quick if tier == "quick" else quick * 25
def var(R, asan=.3): return "asan" if R.random() < asan else "mon"

def op_jobs(ops, quick=600):
    def f(R, tier):
        j = []
        for i in range(scale(tier, quick)):
            op = ops[i % len(ops)]
            t = R.random()
            kw = {}
            if t < .06: kw["count"] = gen.pick_count(R, True) // (1 if op in ("allreduce", "reduce", "bcast") else 6); kw["rounds"] = 1
            if t > .95: kw["n"] = gen.pick_n(R, True)
            tail = " cmpl=%d" % R.choice([0, 0, 1, 2, 4, 98])
            if op in gen.ROOTED and R.random() < .35: tail += " sig=1"
            if R.random() < .3: tail += " c0=%s ncomm=1" % R.choice(["dup", "rev", "shuf"])
            j.append((var(R), gen.single(R, op, tune=R.random() < .5, tail=tail, **kw)))
        for i in range(2 if tier == "quick" else 20): j += [gen.huge(R, op) for op in dict.fromkeys(ops)]
        return j
    return f

RULE = "a case is one simulated run: random communicator size, node layout, operation arguments, data, schedule policy, message timing; it is non-trivial when at least one result was compared with the reference computed from the inputs"

def tune_jobs(R, tier):
    j = []
    for i in range(scale(tier, 700)):
        op = gen.ALL[i % len(gen.ALL)]
        j.append((var(R), gen.tuned(R, op) if i % 7 else gen.tight(R, op)))
    return j

def history_jobs(R, tier):
    j = []
    for i in range(scale(tier, 450)):
        op = gen.ALL[i % len(gen.ALL)]
        n = R.choice([2, 3, 4, 4, 5, 6, 8])
        j.append(("mon" if R.random() < .8 else "asan", gen.single(R, op, n=n, debug=False, count=R.choice([1, 2, 5, 16, 33]), rounds=R.choice([4, 6, 9]), tail=" cycles=%d cmpl=%d firsttest=%d" % (R.choice([1, 1, 2]), R.choice([0, 0, 1, 98]), R.randrange(2)))))
    return j

COMMS = ["world", "dup", "rev", "shuf", "split2", "block2", "block3", "split3"]
def multi(R, nreq, cmpl, debug=0, maxn=8, traffic=None, extra=""):
    n = R.choice([2, 3, 4, 5, 6, 7, 8][:maxn - 1])
    nc = R.choice([1, 1, 2, 3])
    comms = [R.choice(COMMS) for _ in range(nc)]
    w = []
    if R.random() < .6: w.append("node=%d" % R.choice([1, 2, 3, 4]))
    if R.random() < .4: w.append("env.EXT_MPI_ALTERNATING=%d" % R.randrange(2))
    if R.random() < .2: w.append("env.EXT_MPI_NOT_RECURSIVE=1")
    rs = []
    for k in range(nreq):
        c = R.randrange(nc)
        size = n if comms[c] in ("world", "dup", "rev", "shuf") else 1
        rs.append("r%d=%s rc%d=%d" % (k, gen.req(R, R.choice(gen.ALL), size, count=R.choice([0, 1, 2, 3, 5, 8, 17, 40])), k, c))
    return "n=%d %s %s env.EXT_MPI_DEBUG=%d ncomm=%d %s nreq=%d %s rounds=%d cmpl=%d order=%d traffic=%d %s" % (
        n, gen.sched(R), " ".join(w), debug, nc, " ".join("c%d=%s" % (k, c) for k, c in enumerate(comms)), nreq, " ".join(rs), R.choice([1, 2, 3]), cmpl, R.choice([0, 0, 1, 2]),
        (R.random() < .5) if traffic is None else traffic, extra)

def multi_jobs(R, tier):
    return [(var(R, .25), multi(R, R.choice([2, 2, 3, 4]), R.choice([0, 2, 2, 3, 1]), debug=R.random() < .15, extra="cycles=%d freeorder=%d rest=%d" % (R.choice([1, 1, 2]), R.randrange(2), R.randrange(2)))) for i in range(scale(tier, 440))] + [(var(R, .25), gen.many(R, "cycles=%d traffic=1" % R.choice([1, 2]), huge=i % 5 == 4)) for i in range(scale(tier, 10))]

def cmpl_jobs(R, tier):
    j = []
    for i in range(scale(tier, 500)):
        c = [0, 1, 2, 3, 4, 5, 6, 7, 98, 99][i % 10]
        nreq = R.choice([1, 2, 2, 3, 3, 4])
        # every rank completes in the same order (DESIGN.md: blocking completion of one request does not progress the others)
        if (i // 10) % 2:    # ordinary requests, inactive and null ones in the same arrays
            if c == 98: c = R.choice([4, 5, 6, 7])
            s = multi(R, nreq, c, maxn=6, traffic=R.random() < .3, extra="mix=%d startall=%d rest=%d cycles=%d compact=%d" % (R.choice([1, 1, 2, 3]), R.randrange(2), R.randrange(2), R.choice([1, 1, 2]), R.randrange(2)))
        else: s = multi(R, nreq, c, maxn=6, traffic=R.random() < .3, extra="compact=%d firsttest=%d startall=%d" % (R.choice([0, 0, 1, 2]), R.randrange(2), R.random() < .2))
        if i % 12 == 0: s += " prog=1"
        j.append((var(R, .25), s))
    return j

def progress_jobs(R, tier):
    j = []
    for i in range(scale(tier, 600)):
        op = gen.ALL[i % len(gen.ALL)]
        if i % 4 == 3: s = multi(R, R.choice([2, 3]), R.choice([0, 1, 2, 3]), extra="cycles=%d" % R.choice([1, 2]))
        else:
            s = gen.single(R, op, debug=False, rounds=R.choice([2, 3]), tail=" cmpl=%d" % R.choice([0, 0, 1, 98]), count=R.choice([1, 3, 16, 100, 500]))
        s = re.sub(r"pol=\d", "pol=%d" % R.choice([1, 3, 4, 4, 2, 0]), s) + " eager=%d" % R.choice([0, 0, 50, 100])
        j.append(("mon", s))
    return j

def race_jobs(R, tier):
    j = []
    for i in range(scale(tier, 700)):
        op = gen.ALL[i % len(gen.ALL)]
        n = R.choice([2, 3, 4, 4, 5, 6, 8, 8])
        t = R.random() < .6
        w, info = gen.layout(R, n, op, t, shared=True)
        s = "n=%d %s %s env.EXT_MPI_DEBUG=0 r0=%s rounds=%d cmpl=%d" % (n, gen.sched(R), " ".join(w), gen.req(R, op, n, count=R.choice([1, 2, 5, 16, 40, 100, 257]), info=info), R.choice([2, 3, 4]), R.choice([0, 0, 1, 98]))
        s += " acc=%d" % R.choice([0, 1, 3, 10])
        j.append(("mon", s))
    return j

def mem_jobs(R, tier):
    j = [("asan", s) for s in gen.corners(R)] + [("asan", gen.many(R, "cycles=2", huge=i % 4 == 3)) for i in range(scale(tier, 4))]
    for i in range(scale(tier, 420)):
        op = gen.ALL[i % len(gen.ALL)]
        if i % 5 == 4: s = multi(R, R.choice([2, 3]), R.choice(range(8)), debug=R.random() < .5, extra="cycles=%d freeorder=1" % R.choice([1, 2]))
        elif i % 5 == 3: s = gen.tuned(R, op) if R.random() < .3 else gen.tight(R, op)
        else: s = gen.single(R, op, tune=R.random() < .6, debug=R.random() < .5)
        j.append(("asan", s))
    return j

def mpi_jobs(R, tier):
    j = []
    for i in range(scale(tier, 500)):
        if i % 2: s = multi(R, R.choice([1, 2, 3]), R.choice([0, 2, 3, 1]), traffic=1, debug=R.random() < .2, extra="cycles=%d" % R.choice([1, 2]))
        else: s = gen.single(R, gen.ALL[(i // 2) % len(gen.ALL)], tune=True, tail=" traffic=1")
        j.append(("mon", s))
    return j

def buffer_jobs(R, tier):
    j = []
    for i in range(scale(tier, 600)):
        op = gen.ALL[i % len(gen.ALL)]
        if i % 6 == 5: s = multi(R, 2, R.choice([0, 1, 2, 3]), extra="initperm=0")
        else: s = gen.single(R, op, tune=R.random() < .6, debug=False, rounds=R.choice([1, 2, 3]), tail=" initperm=0 cmpl=%d" % R.choice([0, 1, 98]))
        j.append(("mon", s))
    return j

def leak_jobs(R, tier):
    j = []
    for i in range(scale(tier, 350)):
        op = gen.ALL[i % len(gen.ALL)]
        if i % 60 == 30: s = gen.many(R, "cycles=4 leak=1")
        elif i % 4 == 3: s = multi(R, R.choice([2, 3]), R.choice([0, 2]), maxn=5, debug=R.random() < .3, extra="cycles=4 leak=1 freeorder=%d" % R.randrange(2))
        else: s = gen.single(R, op, n=R.choice([1, 2, 3, 4, 4, 6]), tune=R.random() < .5, count=R.choice([0, 1, 5, 33]), rounds=1, tail=" cycles=4 leak=1")
        j.append(("mon", s))
    return j

def repro_jobs(R, tier):
    j = []
    for i in range(scale(tier, 130)):
        n = R.choice([2, 3, 4, 4, 5, 6, 7, 8])
        op = R.choice(["allreduce", "allreduce", "reduce", "reduce_scatter", "reduce_scatter_block"])
        cross = R.random() < .5                 # one rank per node: no measured decision, all runs must agree
        w = ["node=1"] if cross else (["node=%d" % R.choice([2, 3, 4])] if R.random() < .5 else [])
        if R.random() < .35: w.append("env.EXT_MPI_ALTERNATING=%d" % R.randrange(2))
        if R.random() < .2: w.append("env.EXT_MPI_NOT_RECURSIVE=1")
        if cross and R.random() < .4:
            p = gen.ports(R, op, n)
            if p: w.append("env.EXT_MPI_NUM_PORTS=" + p)
        r = gen.req(R, op, n, dt=R.choice(["float", "double"]), count=R.choice([1, 3, 8, 17, 64, 100, 257]), inplace=False) + ",inexact=2"
        base = "n=%d dseed=%d %s env.EXT_MPI_DEBUG=0 r0=%s rounds=4" % (n, R.randrange(1 << 30), " ".join(w), r)
        for k in range(4): j.append(("mon", base + " " + gen.sched(R) + " cmpl=%d" % R.choice([0, 1, 98]) + (" group=1" if cross else "")))
    return j
def repro_post(res):
    g = collections.defaultdict(list)
    for r in res:
        if r.code == 0 and " group=1" in r.spec: g[re.sub(r" (seed|pol|eager|net|clock|acc|cmpl)=\d+", "", r.spec)].append(r)
    return [("mon", [r.spec for r in l], "runs with the same input and settings but different schedules give different bits") for l in g.values() if len({r.stats["rhash"] for r in l}) > 1]

def agree_jobs(R, tier):
    j = []
    for i in range(scale(tier, 550)):
        op = gen.ALL[i % len(gen.ALL)]
        s = gen.single(R, op, tune=R.random() < .75, n=R.choice([2, 3, 4, 4, 6, 8]), tail=" noenv=1") if i % 3 else gen.single(R, op, tune=False, n=R.choice([2, 3, 4, 4, 6, 8]), debug=False, count=R.choice([1, 16, 257, 1000, 5000]), rounds=1)
        s = re.sub(r"clock=\d", "", s) + " clock=%d" % R.randrange(3)
        j.append((var(R, .2), s))
    return j

def debug_jobs(R, tier):
    j = []
    for i in range(scale(tier, 500)):
        op = gen.ALL[i % len(gen.ALL)]
        s = gen.single(R, op, tune=R.random() < .5, debug=True, n=R.choice([1, 2, 3, 4, 4, 5, 6, 8]), rounds=1, tail=" initperm=0")
        if R.random() < .3: s = s.replace("env.EXT_MPI_DEBUG=1", "")      # it is the default
        j.append((var(R, .25), s))
    return j

def pass_jobs(R, tier):
    j = []
    for i in range(scale(tier, 300)):
        s = multi(R, R.choice([1, 2, 3]), R.choice([0, 2, 3, 4, 5, 6, 7]), maxn=7, traffic=1, extra="pass=1 mix=%d cycles=%d compact=%d" % (R.choice([1, 2, 3]), R.choice([1, 2]), R.randrange(2)))
        j.append((var(R, .25), s))
    return j

def fortran_jobs(R, tier):
    j = []
    for i in range(scale(tier, 300)):
        t = R.random() < .4
        s = gen.single(R, "allreduce", n=R.choice([1, 2, 3, 4, 5, 6]), tune=t, count=R.choice([0, 1, 2, 5, 16, 33, 100]), inplace=R.random() < .4, tail=" f08=1 pass=1 cmpl=0 cycles=%d" % R.choice([1, 2]))
        if R.random() < .4: s += " ncomm=1 c0=%s" % R.choice(COMMS[:4] if t else COMMS)
        j.append((var(R, .3), s))
    return j

def text_jobs(R, tier):
    j = []
    for i in range(scale(tier, 400)):
        op = gen.ALL[i % len(gen.ALL)]
        k = i // len(gen.ALL) % 4
        s = gen.tuned(R, op) if k == 0 else gen.tight(R, op) if k == 1 else gen.single(R, op, tune=R.random() < .5, count=R.choice([0, 1, 2, 5, 16, 33, 100]))
        j.append((var(R, .4), s + " ascii=1"))
    return j

PROPS = {
    "P01": Prop(DELIVERY, op_jobs(["allreduce", "reduce", "allreduce"]), RULE),
    "P02": Prop(DELIVERY, op_jobs(["reduce_scatter", "reduce_scatter_block"]), RULE),
    "P03": Prop(DELIVERY, op_jobs(["allgather", "allgatherv"]), RULE),
    "P04": Prop(DELIVERY, op_jobs(["bcast"]), RULE),
    "P05": Prop(DELIVERY, op_jobs(["gather", "gatherv"]), RULE),
    "P06": Prop(DELIVERY, op_jobs(["scatter", "scatterv"]), RULE),
    "P07": Prop(DELIVERY, tune_jobs, RULE + "; every case sets tuning parameters by environment or MPI_Info"),
    "P08": Prop(DELIVERY, history_jobs, RULE + "; 4 to 9 executions of the same request with fresh data each"),
    "P09": Prop(DELIVERY | {"isolation", "completion"}, multi_jobs, RULE + "; two to four requests on one to three communicators are outstanding together, with point-to-point traffic of the application in between"),
    "P10": Prop({"buffer", "sendbuf"}, buffer_jobs, "a case is one simulated run in which every byte the library or its MPI calls touch in user memory is checked against the permission the MPI standard gives at that moment (none outside start..completion); non-trivial when user buffers were accessed", variants=("mon",), nontrivial=lambda r: r.stats.get("ubuf_reads", 0) + r.stats.get("ubuf_writes", 0) > 0),
    "P11": Prop(DELIVERY | {"completion"}, cmpl_jobs, RULE + "; requests are completed through all eight completion calls over arrays with inactive, null and removed entries"),
    "P12": Prop({"deadlock", "livelock"}, progress_jobs, RULE + "; adversarial schedules (starvation, run-to-block, PCT) and rendezvous-only messages; a wait-for fixpoint or no progress within the step budget is a violation", variants=("mon",)),
    "P13": Prop({"race"}, race_jobs, "a case is one simulated run with a vector-clock race detector on every access to shared memory segments; non-trivial when accesses were checked", variants=("mon",), nontrivial=lambda r: r.stats.get("race_checks", 0) > 0),
    "P14": Prop({"crash"}, mem_jobs, "a case is one simulated run of the library compiled with AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial when at least one result was compared", variants=("asan",)),
    "P15": Prop({"conservation", "mpi-usage", "isolation"}, mpi_jobs, "a case is one simulated run over an MPI implementation that checks the use of every call (arguments, matching, sizes, completion, leftovers); non-trivial when messages were exchanged", variants=("mon",), nontrivial=lambda r: r.stats.get("msgs", 0) > 0),
    "P16": Prop({"leak"}, leak_jobs, "a case is four cycles of init, start, complete and free with an inventory of shared memory, heap, MPI requests, messages and communicators after each; non-trivial when requests were freed", variants=("mon",), nontrivial=lambda r: r.stats.get("frees_req", 0) > 0),
    "P17": Prop({"wrong-result", "bit-reproducible", "bit-identical"}, repro_jobs, "groups of four runs with the same floating point input (sums that round) under different schedules, four executions each; non-trivial when bits were compared", variants=("mon",), nontrivial=lambda r: r.stats.get("bit_checks", 0) + r.stats.get("results", 0) > 0, post=repro_post),
    "P18": Prop(DELIVERY | {"conservation", "mpi-usage"}, agree_jobs, RULE + "; only rank 0 has the environment variables, clocks differ between the ranks"),
    "P19": Prop(DELIVERY | {"buffer", "sendbuf", "mpi-usage"}, debug_jobs, RULE + "; the internal check of EXT_MPI_DEBUG=1 runs while the user buffers are inaccessible"),
    "P20": Prop({"pass-through", "isolation", "completion", "free-error", "start-error", "conservation", "mpi-usage", "crash", "deadlock", "livelock"}, pass_jobs, "a case is one simulated run in which the application uses its own point-to-point and persistent requests, blocking collectives and communicator constructors through the functions the library intercepts, next to persistent collectives; non-trivial when such calls were checked", nontrivial=lambda r: r.stats.get("mixed", 0) > 0),
    "P21": Prop(DELIVERY | {"pass-through", "completion", "mpi-usage"}, fortran_jobs, RULE + "; all calls go through the Fortran interface with the Fortran names of the types"),
    "P22": Prop(DELIVERY | {"mpi-usage", "conservation"}, text_jobs, RULE + "; all passes that generate the schedule exchange text instead of binary code", nontrivial=lambda r: r.stats.get("text_passes", 0) > 0 and r.stats.get("results", 0) > 0),
}
