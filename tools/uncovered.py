"""uncovered.py PREFIX : source lines of the library that no case of the checks reached.
Run the checks with VERIF_COVOUT=PREFIX first (each writes PREFIX.<id>)."""
import sys, json, glob, subprocess, collections, os
got = set(); build = None
for f in glob.glob(sys.argv[1] + ".P*"):
    d = json.load(open(f))
    if "mon" in d["cov"]: got |= {int(x, 16) for x in d["cov"]["mon"]}; build = d["build"]
lib = build + "/mon/lib_0.so"
dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", lib], capture_output=True, text=True).stdout
pts, pend = [], False
for l in dis.splitlines():
    if ":\t" not in l: continue
    a = l.split(":")[0].strip()
    if pend: pts.append(int(a, 16)); pend = False
    if "__sanitizer_cov_trace_pc" in l and "call" in l: pend = True
miss = [p for p in pts if p not in got]
print("%d of %d blocks reached" % (len(pts) - len(miss), len(pts)))
out = subprocess.run(["addr2line", "-f", "-e", lib], input="\n".join("%x" % (p - 1) for p in pts), capture_output=True, text=True).stdout.splitlines()
line = {p: (out[2 * i], out[2 * i + 1].split(" ")[0]) for i, p in enumerate(pts)}
by = collections.defaultdict(lambda: collections.defaultdict(set)); tot = collections.Counter(); mis = collections.Counter()
for p in pts: tot[line[p][1].rsplit(":", 1)[0]] += 1
for p in miss:
    fn, fl = line[p]; f, l = fl.rsplit(":", 1); mis[f] += 1; by[f][fn].add(l)
for f in sorted(by):
    print("%s: %d of %d missed" % (os.path.relpath(f, "/repo") if f[0] == "/" else f, mis[f], tot[f]))
    for fn in by[f]: print("   %s: %s" % (fn, " ".join(sorted(by[f][fn], key=lambda x: int(x) if x.isdigit() else 0))))
