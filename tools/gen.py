"""Regenerates properties.jsonl and MANIFEST.json from the property tables."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
ROOT = os.path.dirname(HERE)
props, tech, notes, na = [], {}, {}, []
for name in sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("props_") and f.endswith(".py")):
    m = importlib.import_module(name)
    props += m.PROPS
    tech.update(m.TECH)
    notes.update(m.NOTES)
    na += getattr(m, "NOT_APPLICABLE", [])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
skip = {x["property"] for x in na}
PY = "/opt/venv/bin/python"
man = {"version": 1, "setup_cmd": f"{PY} tools/selfcheck.py",
       "checks": [{"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
                   "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": tech[p["id"]], "level": "other",
                   "level_note": notes[p["id"]]} for p in props if p["id"] not in skip],
       "not_applicable": na,
       "notes": "Pure static analysis: no repository code is imported or run by any check; no hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(props))
except ImportError:
    print("no jsonschema")
for p in props:
    n = p["statement"].count(". ") + 1
    if n > 3:
        print("long statement", p["id"], n)
