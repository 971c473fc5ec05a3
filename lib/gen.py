"""Random case specifications (see engine/work.cpp for their meaning). Every generated case lies inside the domain on which the
properties are claimed; DESIGN.md section "Domain" says what is left out and why."""
import random

ALL = ["allreduce", "reduce", "reduce_scatter", "reduce_scatter_block", "allgather", "allgatherv", "bcast", "gather", "gatherv", "scatter", "scatterv"]
RED = ("allreduce", "reduce", "reduce_scatter", "reduce_scatter_block")
ROOTED = ("reduce", "bcast", "gather", "gatherv", "scatter", "scatterv")
VEC = ("reduce_scatter", "allgatherv", "gatherv", "scatterv")

def pick_n(R, big=False):
    if big: return R.choice([9, 10, 11, 12, 13, 14, 15, 16])
    return R.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 8])

def pick_count(R, big=False):
    if big: return R.choice([1000, 2500, 4096, 8191, 12000, 20000])
    return R.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 100, 257])

def facs(n):
    if n == 1: return [[]]
    return [[f] + r for f in range(2, n + 1) if n % f == 0 for r in facs(n // f)]

def cyc(n, R):
    l, p = [], 1
    while p < n:
        f = min(R.randint(2, 6), -(-n // p)); l.append(f); p *= f
    return l

def ports(R, op, nodes):
    """a valid EXT_MPI_NUM_PORTS for `nodes` groups of tasks"""
    if nodes < 2: return None
    f = R.choice(facs(nodes)) if R.random() < .6 else cyc(nodes, R)
    if op in ("reduce", "bcast") and len(f) > 2: f = R.choice(facs(nodes))
    if op in ("allreduce", "reduce", "bcast") and R.random() < .4:
        f = R.choice(facs(nodes))
        p = [-(x - 1) for x in f] + [x - 1 for x in reversed(f)]
    else: p = [x - 1 for x in f]
    return "%d(%s)" % (nodes, "_".join(map(str, p)))

def req(R, op, n, count=None, dt=None, cv=None, inplace=None, info=None, extra=""):
    if dt is None: dt = R.choice(["int", "long", "float", "double"] + ([] if op in RED else ["char"]))
    if count is None: count = pick_count(R)
    s = "%s,%s,%d" % (op, dt, count)
    if op in ROOTED: s += ",root=%d" % R.randrange(max(1, n))
    if op in VEC:
        c = R.randrange(5) if cv is None else cv
        if c: s += ",cv=%d" % c
    if op in ("allreduce", "reduce") and (inplace if inplace is not None else R.random() < .25): s += ",inplace"
    for k, v in (info or []): s += ",@%s:%s" % (k, v)
    return s + extra

def divisors(n): return [d for d in range(1, n + 1) if n % d == 0]

def copyin(R, m):
    """a valid EXT_MPI_COPYIN for nodes of m tasks: method;factors, the factors multiply to m, or 1;1 2 2 .. if m is no power of two"""
    t = R.random()
    if t < .35 or m == 1:
        f = [1]; p = 1
        while p < m: f.append(2); p *= 2
        return "%d;%s" % (1 if m & (m - 1) else 0, "_".join(map(str, f)))
    f = R.choice(facs(m))
    if R.random() < .5: f = [1] + f
    return "0;%s" % "_".join(map(str, f))

def layout(R, n, op, tune, shared=False):
    """node layout and tuning parameters; returns list of words and info list"""
    w, info = [], []
    node = 0
    if n > 1 and R.random() < .55:
        node = R.choice([2, 2, 3, 4] if shared else [1, 1, 2, 2, 3, 4])
        if node < n: w.append("node=%d" % node)
        else: node = 0
    if not tune: return w, info
    even = node == 0 or n % node == 0
    t = R.random()
    if t < .25 and node and even and n // node >= 2:
        p = ports(R, op, n // node)
        if p: w.append("env.EXT_MPI_NUM_PORTS=" + p)
    elif t < .35 and node == 0 and n > 1:
        w.append("env.EXT_MPI_NUM_TASKS_PER_SOCKET=%d" % R.choice(divisors(n)))
    elif t < .45 and op in ("allreduce", "reduce", "bcast") and even:
        per = node or n
        s = [k for k in (2, 4) if per % k == 0]
        if s: w.append("env.EXT_MPI_NUM_SOCKETS_PER_NODE=%d" % R.choice(s))
    m = next((int(x.split("=")[1]) for x in w if "TASKS_PER_SOCKET" in x), node or n)
    if even and R.random() < .15 and not any("SOCKETS_PER_NODE" in x for x in w): w.append("env.EXT_MPI_COPYIN=" + copyin(R, m))
    if R.random() < .08: w.append("env.EXT_MPI_VERBOSE=1")
    if R.random() < .2: w.append("env.EXT_MPI_NOT_RECURSIVE=1")
    if R.random() < .35: w.append("env.EXT_MPI_ALTERNATING=%d" % R.randrange(2))
    if op == "allreduce" and R.random() < .1: info.append(("ext_mpi_bit_identical", "1"))
    if op in ("allreduce", "reduce") and R.random() < .2 and (node == 0 or any("NOT_REC" in x for x in w)) and not any("PORTS" in x or "SOCKET" in x for x in w): info.append(("ext_mpi_bit_reproducible", "0"))
    return w, info

def sched(R, mon=True):
    s = "seed=%d pol=%d" % (R.randrange(1 << 30), R.randrange(5))
    if R.random() < .5: s += " eager=%d" % R.choice([0, 100, 20, 80])
    if R.random() < .4: s += " net=%d" % R.choice([0, 5, 60, 95])
    if R.random() < .3: s += " clock=%d" % R.randrange(3)
    if R.random() < .4: s += " acc=%d" % R.choice([1, 3, 10])
    return s

def single(R, op, tune=True, debug=None, n=None, count=None, rounds=None, tail="", **kw):
    n = n if n is not None else pick_n(R)
    w, info = layout(R, n, op, tune)
    d = R.random() < .3 if debug is None else debug
    w.append("env.EXT_MPI_DEBUG=%d" % (1 if d else 0))
    r = req(R, op, n, count=count, info=info, **kw)
    return "n=%d %s %s r0=%s rounds=%d %s" % (n, sched(R), " ".join(w), r, rounds if rounds is not None else R.choice([1, 2, 3]), tail)

def tuned(R, op, **kw):
    """always with tuning parameters, by environment or by MPI_Info"""
    for _ in range(20):
        n = R.choice([2, 3, 4, 4, 5, 6, 6, 7, 8, 8])
        w, info = layout(R, n, op, True)
        if any(x.startswith("env.") for x in w) or info: break
    if R.random() < .4: # the same parameters through the info object
        rest = []
        for x in w:
            if x.startswith("env.EXT_MPI_") and "NOT_REC" not in x and "VERBOSE" not in x:
                k, v = x[4:].split("=", 1); info.append((k.lower(), v.replace("_", " ") if 0 else v))
            else: rest.append(x)
        w = rest
    # the minimum computation of 7 groups takes three inexact steps (known finding for reduce)
    if R.random() < .2: info.append(("ext_mpi_minimum_computation", R.choice(["0", "1"]) if (op, n) != ("reduce", 7) else "0"))
    r = req(R, op, n, info=info)
    return "n=%d %s %s env.EXT_MPI_DEBUG=%d r0=%s rounds=%d" % (n, sched(R), " ".join(w), R.random() < .25, r, R.choice([1, 2, 3]))

def tight(R, op, n=None, node=1, two=None):
    """small communicators with as many steps as possible: every array of the planning is filled to its end"""
    if n is None:
        n = R.choice([2, 2, 2, 3, 3, 4, 5])
        if R.random() < .3 and n in (2, 4): n *= 2; node = 2
    m = n // node
    if op in ("allreduce", "reduce", "bcast") and (R.random() < .7 if two is None else two):
        f = facs(m)[0] if m > 1 else []
        p = [-(x - 1) for x in f] + [x - 1 for x in reversed(f)]
    else:
        p, q = [], 1
        while q < m: p.append(1); q *= 2
        if op in ("reduce", "bcast") and len(p) > 2: p = [m - 1]
    v = "%d(%s)" % (m, "_".join(map(str, p)))
    w = ["env.EXT_MPI_NUM_PORTS=" + v] if R.random() < .6 else []
    info = [] if w else [("ext_mpi_num_ports", v)]
    if R.random() < .3: w.append("env.EXT_MPI_COPYIN=" + copyin(R, node))
    if R.random() < .2: w.append("env.EXT_MPI_VERBOSE=1")
    if node > 1 or R.random() < .5: w.append("node=%d" % node)
    else: w.append("env.EXT_MPI_NUM_TASKS_PER_SOCKET=1")
    return "n=%d %s %s env.EXT_MPI_DEBUG=%d r0=%s rounds=%d" % (n, sched(R), " ".join(w), R.random() < .3, req(R, op, n, info=info), R.choice([1, 2]))

def corners(R):
    """every operation on the smallest communicators, each with the default and the longest plans"""
    l = []
    for op in ALL:
        for n in (1, 2, 3): l.append("n=%d %s %s env.EXT_MPI_DEBUG=%d r0=%s rounds=2" % (n, sched(R), "node=1" if R.random() < .5 else "", R.random() < .5, req(R, op, n)))
        for n, node in ((2, 1), (3, 1), (4, 1), (4, 2)):
            for two in ((0, 1) if op in ("allreduce", "reduce", "bcast") else (0,)): l.append(tight(R, op, n, node, two))
    return l

SMALL = ["allreduce,int,2", "allreduce,double,1,inplace", "bcast,int,3,root=1", "gather,int,1,root=0", "scatter,char,3,root=1", "allgather,int,2", "reduce,long,2,root=0", "reduce_scatter,int,2", "scatterv,float,2,cv=1,root=0", "allgatherv,long,2,cv=3"]
def many(R, extra="", huge=False):
    """more requests than the tables for handles (50) and requests (256) hold at first"""
    n, k = (R.choice([1, 2]), R.choice([257, 260, 270])) if huge else (R.choice([1, 2, 2, 3]), R.choice([49, 50, 51, 52, 60, 75, 101, 105]))
    return "n=%d %s %s env.EXT_MPI_DEBUG=0 nreq=%d %s rounds=%d cmpl=%d order=1 freeorder=1 rest=%d %s" % (
        n, sched(R), "node=%d" % R.choice([1, 2]) if R.random() < .5 else "", k, " ".join("r%d=%s" % (i, R.choice(SMALL)) for i in range(k)), R.choice([1, 2]), R.choice([0, 2, 3]), R.randrange(2), extra)

def huge(R, op):
    """messages above 10,000,000 bytes, for which the two sets of shared memory are not alternated"""
    n, node = R.choice([(2, 1), (2, 2), (3, 1), (3, 3), (4, 2)])
    k = lambda total, dt: "%s,%s,%d" % (op, dt, total // {"char": 1, "int": 4, "float": 4, "long": 8, "double": 8}[dt])
    r = k(R.choice([10000008, 10400000]), R.choice(["int", "long", "float", "double"])) if op in RED or op == "bcast" else ""
    if op in ("reduce_scatter", "reduce_scatter_block", "allgather", "allgatherv", "gather", "gatherv", "scatter", "scatterv"): r = k(10400000 // n, R.choice(["int", "long", "float", "double"]))
    if op in ROOTED: r += ",root=%d" % R.randrange(n)
    if op in VEC and R.random() < .5: r += ",cv=%d" % R.choice([1, 2])
    # the recorded variant is too slow for the reductions
    return ("asan" if op in RED or R.random() < .5 else "mon", "n=%d %s node=%d env.EXT_MPI_DEBUG=0 r0=%s rounds=%d polls=50 acc=0" % (n, sched(R), node, r, R.choice([1, 2, 3])))
