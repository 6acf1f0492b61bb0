#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree (real slugs + CUDD sources) plus /verif/sim.
Objects are cached by content hash in /verif/build (git-ignored)."""
import os, sys, glob, hashlib, subprocess, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
SRC = REPO + "/src"; CUDD = REPO + "/lib/cudd-3.0.0"; SIM = VERIF + "/sim"
DEFS = ["-DUSE_CUDD", "-DNDEBUG", "-DHAVE_IEEE_754", "-DBSD", "-DSIZEOF_VOID_P=8", "-DSIZEOF_LONG=8", "-DCUDD_COMPILER_OPTIONS_SET"]
INC = ["-I" + SRC, "-I" + CUDD] + ["-I%s/%s" % (CUDD, d) for d in ("cudd", "mtr", "epd", "st", "util", "dddmp")] + ["-I" + SRC + "/BFAbstractionLibrary", "-I" + SIM + "/config"]
COV = ["-fsanitize-coverage=trace-pc"]
INIT = ["-ftrivial-auto-var-init=pattern"]
WRAP = ["-Wl,--wrap=exit", "-Wl,--wrap=fopen", "-Wl,--wrap=fopen64", "-Wl,--wrap=cuddUniqueInter", "-Wl,--wrap=cuddUniqueInterZdd", "-Wl,--wrap=Cudd_Init"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def treehash(pats):
    fs = sorted(f for p in pats for f in glob.glob(p))
    return sha(*[x for f in fs for x in (os.path.relpath(f, "/"), rd(f))])

def repo_hash():
    return treehash([SRC + "/*.[ch]pp", SRC + "/BFAbstractionLibrary/*.cpp", SRC + "/BFAbstractionLibrary/*.h"] +
                    [CUDD + "/%s/*.[ch]" % d for d in ("cudd", "mtr", "epd", "st", "util", "dddmp")])

def units(withsim=True):
    chash = treehash([CUDD + "/config.h"] + [CUDD + "/%s/*.h" % d for d in ("cudd", "mtr", "epd", "st", "util", "dddmp")])
    shash = treehash([SRC + "/*.hpp", SRC + "/*.h", SRC + "/BFAbstractionLibrary/*.h"])
    simh = treehash([SIM + "/*.h"])
    skip = {"testcudd.c", "testextra.c", "testmtr.c", "testst.c", "cpu_stats.c", "testdddmp.c"}
    us = []
    us.append((SRC + "/main.cpp", ["g++", "-std=c++11", "-O0", "-g1", "-Dmain=slugs_main", "-w"] + COV + INIT + DEFS + INC, chash + shash))
    for f in sorted(glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/BFAbstractionLibrary/*.cpp")):
        if os.path.basename(f) == "main.cpp": continue
        us.append((f, ["g++", "-std=c++11", "-O1", "-g1", "-w"] + COV + INIT + DEFS + INC, chash + shash))
    for d in ("cudd", "dddmp", "mtr", "epd", "st", "util"):
        fs = sorted(glob.glob("%s/%s/*.c" % (CUDD, d)), key=lambda f: -os.path.getsize(f))
        for f in fs:
            if os.path.basename(f) in skip: continue
            us.append((f, ["gcc", "-O1", "-g1", "-w"] + COV + INIT + DEFS + INC, chash))
    if withsim:
        for f in sorted(glob.glob(SIM + "/*.cpp")):
            us.append((f, ["g++", "-std=c++17", "-O1" , "-g1", "-Wall", "-Wno-unused-function", "-Wno-misleading-indentation", "-I" + SIM] + DEFS + INC, simh + chash))
        us.append((SIM + "/cuddhooks.c", ["gcc", "-O1", "-g1"] + DEFS + INC, chash))
    return us

def build(quiet=False):
    t0 = time.time(); os.makedirs(OUT + "/obj", exist_ok=True)
    jobs = []
    objs = []
    for f, cmd, dep in units():
        k = sha(" ".join(cmd), dep, f, rd(f)); o = "%s/obj/%s-%s.o" % (OUT, os.path.basename(f), k)
        objs.append(o)
        if not os.path.exists(o): jobs.append((f, cmd, o))
    # longest first: main.cpp and the simulator's own units take longest
    jobs.sort(key=lambda j: -(10**9 if j[0].endswith("/main.cpp") else 10**8 if j[0].startswith(SIM) else os.path.getsize(j[0])))
    errs = []
    def run(j):
        f, cmd, o = j
        p = subprocess.run(cmd + ["-c", f, "-o", o + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        if p.returncode: errs.append((f, p.stderr)); return
        os.rename(o + ".tmp%d" % os.getpid(), o)
        if p.stderr and f.startswith(SIM) and not quiet: sys.stderr.write(p.stderr)
    with ThreadPoolExecutor(max_workers=max(8, os.cpu_count() or 8)) as ex: list(ex.map(run, jobs))
    if errs:
        for f, e in errs: sys.stderr.write("BUILD ERROR %s\n%s\n" % (f, e[:4000]))
        raise SystemExit("simulator build failed")
    exe = "%s/slugsim-%s" % (OUT, sha(*objs))
    if not os.path.exists(exe):
        p = subprocess.run(["g++", "-o", exe + ".tmp", "-rdynamic"] + WRAP + objs + ["-ldl", "-lm"], capture_output=True, text=True)
        if p.returncode: sys.stderr.write(p.stderr[:4000]); raise SystemExit("simulator link failed")
        os.rename(exe + ".tmp", exe)
        keep = set(objs)
        for o in glob.glob(OUT + "/obj/*.o"):
            if o not in keep and time.time() - os.path.getmtime(o) > 6*3600: os.unlink(o)
        for e in sorted(glob.glob(OUT + "/slugsim-*"), key=os.path.getmtime)[:-6]: os.unlink(e)
    return exe, time.time() - t0, len(jobs)

if __name__ == "__main__":
    exe, t, n = build(); print(exe, "%.1fs, %d compiled" % (t, n))
