"""writes properties.jsonl, MANIFEST.json and harness/index.json from props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa

props_out, checks, na, index = [], [], [], {}
for p in props.PROPS:
    props_out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": p.get("observe", ["public API"]),
            "hook_needed": None,
        },
    })
    assert len(p["title"]) <= 80, p["title"]
    if p.get("harness") and os.path.exists(
            os.path.join(ROOT, "harness", p["harness"] + ".py")):
        index[p["id"]] = p["harness"]
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "technique": p.get("technique", props.TECHNIQUE),
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"],
                   "reason": p.get("na") or "check not built yet"})

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props_out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "harness", "index.json"), "w") as f:
    json.dump(index, f, indent=1)
    f.write("\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": checks,
        "not_applicable": na,
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")

try:
    import jsonschema
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
for p in props_out:
    jsonschema.validate(p, ps)
jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), ms)
print(len(checks), "checks;", len(na), "not applicable")
