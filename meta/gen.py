#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, claimed=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, claimed=claimed))

exec(open(os.path.join(HERE, "props.py")).read())

NA = json.load(open(os.path.join(HERE, "na.json")))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
    "technique": "deterministic simulation with fault injection: seeded schedule, network and fault search over the real code in one process, with invariants during the run and an oracle over the history",
    "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]} for p in P if p["claimed"]]
na = [{"property": p["id"], "reason": NA.get(p["id"], "the scenario is not built yet")} for p in P if not p["claimed"]]
json.dump({"version": 1, "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hook in /repo: the simulator rewrites copies of the sources at build time (go build -overlay) and replaces the Go runtime's scheduler choice, clock and the net package's dial and listen", "source_commits": []},
    "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
