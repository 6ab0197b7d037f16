#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=(), observe=("values returned by evaluation",), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=list(observe), na=na))


exec(open(os.path.join(V, "tools", "proptable.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] or not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": p["na"] or "its check is still being built"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3-vt checks/%s.py" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/%s.py" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt lib/build.py", "checks": checks, "not_applicable": na,
     "notes": "All checks drive the real runtime built from /repo's working tree (lib/build.py). No hooks are added to /repo; "
              "the commits there are fix: commits only. known-findings.json lists open and fixed defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
