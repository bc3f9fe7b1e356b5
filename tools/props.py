#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note))
def na(id, reason): NA.append({"property": id, "reason": reason})

exec(open(os.path.join(ROOT, 'tools/props_list.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P: f.write(json.dumps(d) + "\n")
nas = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [
    {"property": d["id"], "quick_cmd": f"bash check.sh {d['id']}", "thorough_cmd": f"bash check.sh {d['id']} thorough", "evidence_file": f"evidence/{d['id']}.json",
     "technique": t, "level": "model_checking", "level_note": n} for d, t, n in P if d["id"] not in nas],
    "not_applicable": NA}
if 'HOOKS' in globals(): m["hooks"] = HOOKS
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write("\n")
