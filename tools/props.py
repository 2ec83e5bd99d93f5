#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None,
         technique=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook),
        _technique=technique, _level=level, _note=note, _na=na))
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
claimed = set(open(os.path.join(HERE, "tools", "claimed.txt")).read().split())
m = dict(version=1, setup_cmd="bash ./run.sh setup", checks=[], not_applicable=[])
for p in P:
    if p["id"] in claimed:
        m["checks"].append(dict(property=p["id"],
            quick_cmd=f"bash ./run.sh {p['id']} quick", thorough_cmd=f"bash ./run.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p["_technique"], level=p["_level"], level_note=p["_note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_na"] or "check not built yet"))
m["notes"] = "One Rust harness (harness/) with a bounded exhaustive explorer; one subcommand per property. See DESIGN.md."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")): jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties", len(m["checks"]), "claimed")
except ImportError:
    print("jsonschema missing: not validated")
for p in P:
    n = p["statement"].count(". ") + 1
    if n > 3: print("statement too long:", p["id"], n)
    if len(p["title"]) > 80: print("title too long", p["id"])
