#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
N = []   # not applicable

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="exploration", note="", tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level=level, note=note, tech=tech))

def na(id, title, statement, over, text, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=(), observe=(), reason=reason))

exec(open(os.path.join(V, "tools", "properties.py")).read())

def row(p):
    assert len(p["title"]) <= 80, p["title"]
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             observe_at=list(p["observe"]), hook_needed=None))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + N:
        f.write(json.dumps(row(p)) + "\n")

TECH = "deterministic simulation: seeded search over goroutine schedules, clock and injected faults, with history oracles"
m = dict(version=1, setup_cmd="bash /verif/run.sh setup",
         hooks=dict(guard="none: every seam is a build overlay over the Go runtime, package os and an instrumented copy of /repo's sources, made by the checks",
                    enable="go build -overlay /verif/.build/ov/overlay.json (made by /verif/sim/cmd/mkoverlay from the current /repo tree)",
                    source_commits=[]),
         checks=[], not_applicable=[],
         notes="Replay a violation with: bash /verif/run.sh replay FILE. Determinism self-check: bash /verif/run.sh determinism.")
for p in P:
    m["checks"].append(dict(property=p["id"], quick_cmd="bash /verif/run.sh check %s quick" % p["id"],
                            thorough_cmd="bash /verif/run.sh check %s thorough" % p["id"],
                            technique=p["tech"] or TECH, level=p["level"], level_note=p["note"]))
for p in N:
    m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "claimed", len(N), "not applicable")
