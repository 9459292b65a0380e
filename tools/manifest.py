"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from plans import PLANS, TECH, NOTE, LEVEL
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PLANS:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=TECH, level=LEVEL, level_note=NOTE + (" " + PLANS[i]["note"] if "note" in PLANS[i] else "")))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, Go harness in harness/, one driver check.py; no hooks in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
