#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the claims."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, CHECKS, NA = [], [], []

def prop(id, title, statement, over, qtext, why, files, mech, harness, technique, note,
         level="model_checking", state=None, observe=None, hook=None, thorough=True):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook is not None: a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})
    c = {"property": id, "quick_cmd": f"bash run.sh {harness} {id}",
         "evidence_file": f"evidence/{id}.json", "technique": technique, "level": level, "level_note": note}
    if thorough: c["thorough_cmd"] = c["quick_cmd"]
    CHECKS.append(c)

exec(open(os.path.join(HERE, "claims_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": HOOKS,
     "checks": CHECKS, "not_applicable": NA,
     "notes": "Every check enumerates a bounded space completely on the real code; see DESIGN.md. claims.py regenerates this file and properties.jsonl from claims_list.py."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
