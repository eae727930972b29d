#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique, state=(), claim=True, hook=None, thorough=True):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})
    if claim:
        c = {"property": id, "quick_cmd": f"bash check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {id}",
             "evidence_file": f"evidence/{id}.json", "technique": technique, "level": "model_checking", "level_note": level_note}
        if not thorough:
            del c["thorough_cmd"]
        CHECKS.append(c)

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash check.sh warm", "checks": CHECKS, "not_applicable": NA,
               "hooks": {"guard": "none", "enable": "no hooks in /repo: checks import its packages through a go.mod replace directive; the concurrency check compiles an instrumented copy of the current tree", "source_commits": []},
               "notes": "check.sh replay FILE re-runs the case stored in replays/<id>.json. Known findings and fixes: known_findings.json."}, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECKS), "checks")
