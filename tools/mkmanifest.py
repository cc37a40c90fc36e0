#!/usr/bin/env python3
"""MANIFEST.json from checks_config.py and properties.jsonl"""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R))
from checks_config import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(R / "properties.jsonl")]
checks = [dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
               evidence_file=f"evidence/{i}.json", technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"])
          for i in ids if i in CHECKS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="qrai: abstract interpreter over the crate's MIR; see DESIGN.md. No hooks in /repo: analysis entry points are added in memory.")
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", [x["property"] for x in na])
