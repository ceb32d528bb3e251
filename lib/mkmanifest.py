"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = [p for p in props.PROPS if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in have:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "level": "model_checking",
                 "technique": "TLA+ specification checked with TLC; its behaviours replayed on the code and recorded traces validated against it",
                 "level_note": p["note"]} for p in have],
     "not_applicable": [], "notes": "The specification is in spec/*.tla; see DESIGN.md. Checks build the sources of /repo/src/main/c in a scratch directory."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
try:
    import jsonschema
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(have), "properties, valid")
except ImportError: print(len(have), "properties (not validated: run with python3-vt)")
