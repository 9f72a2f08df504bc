#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, claimed=claimed, reason=reason))
EXP = "exploration"
MC = "model_checking"
FE = "fault_enumeration"
BE = "bounded-exhaustive explicit enumeration of executions of the real code against an independent reference model"

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": m.split("@")[0].strip(), "where": m.split("@")[1].strip()} for m in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"] and os.path.isdir(os.path.join(V, "harness", "cmd", p["id"])):
        checks.append({"property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none (no changes to /repo; schedule points are inserted by a generated go build -overlay outside /repo)",
               "enable": "run.sh generates the overlay from /repo's working tree and builds with -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks rebuild from /repo's working tree. run.sh <ID> <tier>; VERIF_CASE='<space>:<index>' replays one case."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P), "properties,", len(checks), "claimed,", len(na), "not")
