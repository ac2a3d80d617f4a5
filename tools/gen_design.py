"""Writes DESIGN.md from tools/design_head.md, the check modules, the seeded bugs and tools/design_tail.md."""
import ast, glob, json, os
from pathlib import Path

R = Path(__file__).resolve().parent.parent
out = (R / "tools/design_head.md").read_text()
props = [json.loads(x) for x in (R / "properties.jsonl").read_text().splitlines()]
for p in props:
    f = R / "mon/props" / f"{p['id'].lower()}.py"
    mod = {n.targets[0].id: n.value for n in ast.parse(f.read_text()).body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    g = lambda x: ast.literal_eval(mod[x])                           # noqa: E731
    sc = ", ".join(f"{c.args[0].value} ({c.args[2].value}/{c.args[3].value})" for c in mod["SCENARIOS"].elts)
    out += f"### {p['id']} {p['title']}\n\n"
    out += f"* Decided by: {g('TECHNIQUE')}. {g('NOTE')}\n* Observed: {g('RULE')}.\n* Scenarios (cases quick/thorough): {sc}.\n"
    out += "* At least: " + ", ".join(f"{k} {v}" for k, v in g("REQUIRED").items()) + ".\n"
    out += "* Assumes: " + "; ".join(g("ASSUMPTIONS")) + ".\n\n"
out += (R / "tools/design_tail.md").read_text()
rem = dict(l.rstrip("\n").split("\t", 1) for l in (R / "tools/caught.tsv").read_text().splitlines() if l.strip())
out += "### Planted bugs\n\nReported by the check of its property unless stated otherwise.\n\n| bug | property | needs | remark |\n|---|---|---|---|\n"
for d in sorted(glob.glob(str(R / "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out += f"| {i} | {m['property']} | {m['needs']} | {rem.get(i, 'caught')} |\n"
(R / "DESIGN.md").write_text(out)
