#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/plans.py and properties.jsonl."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import plans  # noqa: E402

props = [json.loads(x)["id"] for x in open(V / "properties.jsonl")]
checks = []
for pid in props:
    if pid not in plans.PLANS:
        continue
    p = plans.PLANS[pid]
    design = ", ".join(sorted({d["module"] for d in p.get("design", [])}))
    tr = []
    for d in p["drivers"]:
        tr += [d["trace"]] if isinstance(d["trace"], str) else list(d["trace"].values())
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 bin/check.py {pid} --tier quick",
        "thorough_cmd": f"python3 bin/check.py {pid} --tier thorough",
        "technique": p.get("technique", f"TLA+ specification checked with TLC ({design}); traces of the real code "
                                        f"validated against it ({', '.join(sorted(set(tr)))})"),
        "level": p.get("level", "model_checking"),
        "level_note": p.get("note", "Exhaustive on the specification within the constants of its cfg files; the code is "
                                    "bound by trace validation of driven executions (bounded, seeded), so code paths no "
                                    "driven execution reaches are not covered. Trusts TLC, the driver's projection and "
                                    "numpy/pandas/xarray."),
    })
na = [{"property": pid, "reason": plans.NOT_APPLICABLE.get(pid, "check not built yet")}
      for pid in props if pid not in plans.PLANS]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the drivers observe public state, outputs and errors only. "
              "TLA+ with TLC; see DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
