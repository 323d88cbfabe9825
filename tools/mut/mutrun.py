#!/usr/bin/env python3
"""mutrun.py SEED COUNT WORKERS LOG [FILEPATTERN]: plants COUNT small changes in scratch copies of /repo and says which quick check notices each.
Changes that no check notices are run through the unit tests of their package."""
import sys, os, subprocess, random, re, shutil, threading, time, fnmatch
seed, count, workers, log = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
pat = sys.argv[5] if len(sys.argv) > 5 else "*"
SRC = os.environ.get("MUT_REPO", "/repo"); HAR = os.environ.get("MUT_HARNESS", "/verif/harness"); MUT = "/tmp/mut"
MAP = [
 ("formula/factory.go", "P01 P03 P06 P02 P10 P09"), ("formula/printer.go", "P02"), ("formula/graphical.go", "P30"), ("formula/set.go", "P05 P03 P01 P04 P20"),
 ("formula/formula_profile.go", "P05 P29"), ("formula/*", "P01 P05 P03 P02 P07"), ("assignment/*", "P03 P20 P17"), ("parser/*", "P02"),
 ("transformation/*", "P04 P25"), ("normalform/*", "P06 P07 P13 P10"), ("np/*", "P27 P25"),
 ("encoding/pbc*", "P09 P11"), ("encoding/normalize.go", "P09 P01"), ("encoding/*", "P08 P09 P11 P18"),
 ("sat/proofs.go", "P14 P15 P10"), ("sat/unsat_core.go", "P14 P15 P10"), ("sat/backbone.go", "P16 P12 P10"), ("sat/optimizer_function.go", "P17 P12"),
 ("sat/dnnf_solver.go", "P21 P13"), ("sat/pigeon_hole.go", "P29"), ("sat/queen.go", "P29"), ("sat/*", "P10 P11 P14 P16 P17 P12 P20"),
 ("maxsat/reader.go", "P26"), ("maxsat/*", "P18 P19 P13"),
 ("bdd/graphical.go", "P30"), ("bdd/ordering.go", "P29 P22"), ("bdd/reordering.go", "P23"), ("bdd/tree.go", "P23"), ("bdd/*", "P22 P23 P13 P06"),
 ("dnnf/*", "P21 P13"), ("model/count/*", "P21 P20 P12"), ("model/*", "P20 P12 P06"), ("explanation/*", "P15 P13"), ("primeimplicant/*", "P24 P13 P25"),
 ("simplification/*", "P25 P13"), ("io/*", "P26"), ("graph/*", "P27 P30"), ("graphical/*", "P30"), ("randomizer/*", "P29"), ("handler/*", "P12 P13"),
]
def props(f):
    for p, v in MAP:
        if fnmatch.fnmatch(f, p): return v.split()
    return ["P01"]
rnd = random.Random(seed)
files = subprocess.run("git ls-files '*.go' | grep -v _test.go | grep -v parser/logic | grep -v _string.go | grep -v doc.go | grep -v testdata", shell=True, cwd=SRC, capture_output=True, text=True).stdout.split()
done = set()
for l in open(log) if os.path.exists(log) else []:
    m = re.match(r"\S+ (\S+)#(\d+) ", l)
    if m: done.add((m[1], int(m[2])))
pool = []
for f in files:
    if not fnmatch.fnmatch(f, pat): continue
    l = subprocess.run([MUT, "list", f], cwd=SRC, capture_output=True, text=True).stdout.splitlines()
    k = min(len(l), max(2, int(len(l) ** 0.62)))
    pool += [(f, int(x.split()[0]), x) for x in rnd.sample(l, k)]
rnd.shuffle(pool)
pool = [p for p in pool if (p[0], p[1]) not in done][:count]
lock = threading.Lock()
out = open(log, "a")
def work(w):
    base = f"/tmp/mw{w}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.run(["cp", "-a", SRC, base + "/repo"]); subprocess.run(["cp", "-a", HAR, base + "/harness"])
    gm = re.sub(r"=> \S+", f"=> {base}/repo", open(base + "/harness/go.mod").read()); open(base + "/harness/go.mod", "w").write(gm)
    env = dict(os.environ, GOFLAGS="-mod=mod", LNG_NOEVIDENCE="1", LNG_HANG_S="20", LNG_MEM_GB="5", GOMAXPROCS=os.environ.get("MUT_PROCS", "3"), LNG_LIMIT_S="200")
    env.pop("LNG_RACE", None)
    while True:
        with lock:
            if not pool: break
            f, n, what = pool.pop()
        t0 = time.time()
        orig = open(f"{base}/repo/{f}").read()
        new = subprocess.run([MUT, "apply", f, str(n)], cwd=base + "/repo", capture_output=True, text=True).stdout
        open(f"{base}/repo/{f}", "w").write(new)
        res = ""
        b = subprocess.run(["go", "build", "-o", base + "/lng", "."], cwd=base + "/harness", env=env, capture_output=True, text=True)
        if b.returncode:
            res = "NOBUILD"
        else:
            for p in props(f):
                try:
                    r = subprocess.run([base + "/lng", "-child", p, "quick", ""], cwd="/verif", env=env, capture_output=True, text=True, timeout=320)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 5
                if rc:
                    res = f"KILLED by {p} rc={rc}"; break
            if not res:
                try:
                    r = subprocess.run(["go", "test", "./" + os.path.dirname(f) + "/..."], cwd=base + "/repo", env=env, capture_output=True, text=True, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 1
                res = "SURVIVED" + (" (unit tests fail)" if rc else "")
        open(f"{base}/repo/{f}", "w").write(orig)
        with lock:
            out.write(f"{res.split()[0]} {f}#{n} {res} {time.time()-t0:.0f}s {what}\n"); out.flush()
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
