#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                            "technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid;", len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
except ImportError:
    print("no jsonschema")

# --- DESIGN.md: the tables are filled in from the evidence files and the seeded bugs
import glob
src = os.path.join(here, "DESIGN.in")
tab = ["| id | technique | obligations (quick) |", "|---|---|---|"]
for p in sorted(PROPS, key=lambda p: p["id"]):
    n = "not applicable"
    if "na" not in p:
        try:
            n = str(json.load(open(os.path.join(root, "evidence", p["id"] + ".json")))["coverage"]["obligations"])
        except Exception:
            n = "?"
    tab.append(f"| {p['id']} {p['title']} | {p['tech'] if 'na' not in p else '–'} | {n} |")
seeds = ["| change | property (and check that reports it) | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    by = m["property"] if m.get("caught", True) else m["property"] + " (not reported)"
    seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {by} | {m['needs']} | {m['what_it_breaks']} |")
t = open(src).read().replace("| id | decided by | obligations (quick) |\n|---|---|---|\n@TABLE@", "\n".join(tab)).replace("@SEEDS@", "\n".join(seeds))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
