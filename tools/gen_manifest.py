"""Writes MANIFEST.json: claims every property that has a module in mon/props."""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
NA = {}
checks, na = [], []
for p in props:
    f = ROOT / "mon" / "props" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no monitor built yet")})
        continue
    mod = {n.targets[0].id: n.value for n in ast.parse(f.read_text()).body
           if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    tech = ast.literal_eval(mod["TECHNIQUE"])
    note = ast.literal_eval(mod["NOTE"])
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}",
                   "thorough_cmd": f"./check {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": tech, "level": "exploration", "level_note": note})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: monitors wrap the public operations at run time. DESIGN.md describes each check, "
                "KNOWN_FINDINGS.jsonl the genuine defects (fixed and open)."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
