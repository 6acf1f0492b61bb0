#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 docs/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
TECH = "deterministic simulation with fault injection (seeded search)"
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, technique=None, note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe_at=observe, hook_needed=None)),
        technique or TECH, note))
def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, text, why, files, mechanism, observe); NA.append((id, reason))
exec(open(os.path.join(V, "docs", "properties.inc.py")).read())
DEFNOTE = "Seeded sampling of executions, not exhaustive: a clean batch shows the property for the executions reached. Trusts the simulator's file, stream, heap and clock model and the explicit-state reference model in sim/game.cpp; covers small games (state space up to 2^5, thorough 2^6 where stated) in which the real slugs and CUDD code runs."
with open(V + "/properties.jsonl", "w") as f:
    for p, t, n in P: f.write(json.dumps(p) + "\n")
nas = {i for i, _ in NA}
m = dict(version=1, setup_cmd="python3 bin/build.py",
  hooks=dict(guard="none needed", enable="No guarded change to /repo: all seams are link-time (--wrap, interposed libc symbols, -fsanitize-coverage step counter); bin/build.py compiles /repo's unmodified sources", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="python3 bin/check.py %s" % p["id"], thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n or DEFNOTE) for p, t, n in P if p["id"] not in nas],
  not_applicable=[dict(property=i, reason=r) for i, r in NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
