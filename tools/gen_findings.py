"""Rewrites the 'fixed:' lines of KNOWN_FINDINGS.jsonl from the fix commits in /repo.
tools/fix_props.txt holds 'subject prefix<TAB>property'."""
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
tags = dict(x.split("\t")[::-1][::-1] for x in (ROOT / "tools/fix_props.txt").read_text().splitlines() if "\t" in x)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in tags.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    out.append(f"fixed: property={p[0]} {h} {s}")
f = ROOT / "KNOWN_FINDINGS.jsonl"
keep = [x for x in f.read_text().splitlines() if not x.startswith("fixed:")]
f.write_text("\n".join(keep + out) + "\n")
print(len(out), "fixed")
