#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook),
        note=note, technique=technique))
exec(open(os.path.join(ROOT, "meta", "table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "technique")}) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="cfg(masstree_verif)", enable='RUSTFLAGS="--cfg masstree_verif" (set by build.sh)',
        source_commits=HOOKS),
    checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p.get("level", "exploration"), level_note=p["note"]) for p in P if p["id"] not in NA],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for n, s in (("MANIFEST", m),):
    jsonschema.validate(s, json.load(open(f"/root/.vp/{n}.schema.json")))
sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(ROOT, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sc)
print(len(P), "properties")
