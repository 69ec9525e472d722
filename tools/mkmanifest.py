"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=n.get("technique", "TLA+ specification model-checked with TLC; TLC validates traces recorded from the code"),
                           level="model_checking",
                           level_note=n.get("note", "Exhaustive on the specification within the stated bounds; the code is bound to it by traces of generated scenarios, so conformance holds for the scenarios executed.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
