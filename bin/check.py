#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--budget SECONDS]
Builds the simulator from /repo's working tree, runs the seeded search for one property, gates every violation
(same run twice in the search process, then twice in fresh processes from the minimised replay file), applies the
committed known-findings file, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: 'VIOLATION property=<id> replay=<path>'. Exit 2: error of the check."""
import os, sys, json, subprocess, time, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
import build
BUDGET = {"quick": 22.0, "thorough": 600.0}
OVERRIDE = {}   # property -> (quick budget, thorough budget)

def known():
    out = []
    for l in open(VERIF + "/known_findings.txt"):
        if l.startswith("open:"): out.append(json.loads(l[5:]))
    return out

def replay(exe, f):
    p = subprocess.run(exe + ["replay", f], capture_output=True, text=True, errors="replace")
    m = re.search(r"class=(\S+) digest=(\w+)", p.stdout)
    return p.returncode, (m.group(1), m.group(2)) if m else None, p.stdout

def main():
    a = sys.argv[1:]; prop = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if prop.startswith("T"): exe, bsecs, ncomp = [sys.executable, VERIF + "/sim/tsim.py"], 0.0, 0     # the parts written in Python
    else:
        exe, bsecs, ncomp = build.build(quiet=True); exe = [exe]
    q = OVERRIDE.get(prop, (BUDGET["quick"], BUDGET["thorough"]))
    budget = float(opt.get("--budget", q[0] if tier == "quick" else q[1]))
    jobs = int(opt.get("--jobs", min(16, os.cpu_count() or 8)))
    tmp = tempfile.mkdtemp(prefix="dst-check-"); out = tmp + "/r.json"
    try:
        p = subprocess.run(exe + ["campaign", "--prop", prop, "--seed", str(seed), "--runs", opt.get("--runs", "100000000"), "--jobs", str(jobs),
                            "--budget", str(budget), "--tier", "1" if tier == "thorough" else "0", "--out", out, "--min", "25" if tier == "quick" else "90"], capture_output=True, text=True, errors="replace")
        if p.stderr.strip(): sys.stderr.write(p.stderr)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("ERROR: search process ended with %d" % p.returncode); return 2
        r = json.load(open(out))
        kf = [e for e in known() if e["property"] == prop]
        viol = 0; printed = set(); err = 0
        for e in kf:      # every listed finding is replayed; it is announced as long as it still fails
            rc, cls, txt = replay(exe, VERIF + "/" + e["replay"])
            if rc == 1 and cls[0] == e["class"]: print("KNOWN-FINDING: property=%s %s" % (prop, e["what"])); printed.add(e["what"])
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, v in enumerate(r["violations"]):
            rp = VERIF + "/replays/%s-%d-%d.replay" % (prop, seed, i + 1); shutil.copy(v["file"], rp)
            one, two = replay(exe, rp), replay(exe, rp)
            if one[0] != 1 or two[0] != 1 or one[1] != two[1] or one[1][0] != v["class"]:
                print("ERROR: violation %s of run %d does not replay identically in fresh processes" % (v["class"], v["run"])); err = 1; continue
            hit = [e for e in kf if e["class"] == v["class"] and re.search(e["match"], one[2], re.S)]
            if hit:
                if hit[0]["what"] not in printed: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"])); printed.add(hit[0]["what"])
                continue
            viol += 1
            print("seed=%d run=%d case-seed=%d class=%s" % (seed, v["run"], v["seed"], v["class"])); print(v["msg"][:3000])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        wall = time.time() - t0; s = r["stat"]; runs = s.get("runs", 0); sw = max(r["wall"], 1e-3)
        if r["nondet"]: print("ERROR: %d runs were not repeatable" % r["nondet"]); err = 1
        if r["lost"]: print("ERROR: a worker was lost"); err = 1
        if runs == 0: print("ERROR: no run finished"); err = 1
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": runs, "distinct_nontrivial": r["states"], "rule": r["rule"], "samples": r["samples"][:4],
                  "exhaustive": False,
                  "simulated_processes": s.get("execs", 0), "runs_per_hour": int(runs / sw * 3600), "seeds_per_hour": int(runs / sw * 3600),
                  "simulated_time": {"program_steps (basic blocks executed under the simulator)": s.get("steps", 0), "decision diagram nodes requested": s.get("nodes", 0), "heap allocations": s.get("allocs", 0), "simulated clock ms": s.get("clockms", 0)},
                  "faults_injected": r["fired"], "garbage_collections_run": s.get("gcs", 0), "reorderings_run": s.get("reorders", 0),
                  "distinct_interleavings": {"count": r["interleavings"], "measure": "distinct (workload state, exact sequence of fired schedule/fault events with their positions)"},
                  "code_blocks_reached": r["coverage_blocks"],
                  "determinism": {"runs repeated in the same worker and compared": s.get("det", 0), "differences": s.get("detbad", 0), "digest": r["digest"]},
                  "reached": r["counters"], "components_real": r["real"], "components_stub": r["stub"],
                  "search_wall_s": r["wall"], "build_wall_s": bsecs, "objects_compiled": ncomp, "workers": jobs},
              "assumptions": (["the Python interpreter of the sandbox; raw file devices, standard output and resource limits are the simulator's"] if prop.startswith("T") else ["g++ -O0/-O1 builds of /repo's sources without -DNDEBUG differences to the shipped build; system clock, heap, files and standard streams are the simulator's"]) +
                             ["sampling: a clean batch is evidence for the explored seeds, not a proof"],
              "wall_s": wall, "violations": viol}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        print("%s %s: %d runs, %d simulated processes, %d distinct non-trivial, faults %s, %.1fs" % (prop, tier, runs, s.get("execs", 0), r["states"], r["fired"], wall))
        if viol: return 1
        return 2 if err else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
