#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALL = ["schedules", "inputs", "fault_sequences", "configurations"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, claimed=True, reason="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], claimed=claimed, reason=reason, note=note))

exec(open(os.path.join(here, "spec", "list.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if not p["claimed"]:
        na.append({"property": p["id"], "reason": p["reason"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and fault sequences of the real code",
        "level": "exploration",
        "level_note": "Seeded sampling, not exhaustion: no violation in the explored runs. Trusts the seeded runtime scheduler and simulated network of /verif/overlay, the statement-level yield points, and the oracle in /verif/harness. " + p["note"]})
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
    "notes": "No hook is committed in /repo: scheduler, clock, timers, network and file faults come in through a build overlay of the Go runtime, net and os packages and of instrumented copies of /repo's files, all made at build time from /repo's working tree."},
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not applicable")
