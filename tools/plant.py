"""Build and confirm the planted bugs: python3 tools/plant.py [-j N] [--check] [ids...]

Specs live in tools/plants/*.py (a list PLANTS of dicts: id, property, edits [(file, old, new)], demo, needs, breaks).
Each is applied to a scratch copy of /repo; the patch, demo.sh, demo.py and meta.json go to seeded/<id>/.
Reported: original (lines changed belong to the root commit), demo (0 unpatched, nonzero patched), tests, check.
"""
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ROOT_COMMIT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "plants", "*.py"))):
        for s in runpy.run_path(f)["PLANTS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(d, "repo")
    sh(["cp", "-a", "/repo", repo])
    os.makedirs(os.path.join(d, "path"))
    os.symlink(os.path.join(repo, "eval"), os.path.join(d, "path", "esat_eval"))
    return d, repo, {"PYTHONPATH": f"{repo}:{d}/path", "PYTHONDONTWRITEBYTECODE": "1"}


def apply(repo, s):
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        b = open(p, "rb").read().decode()
        crlf = "\r\n" in b
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if b.count(old) != 1:
            raise SystemExit(f"{s['id']}: {b.count(old)} matches in {f}: {old[:60]!r}")
        open(p, "wb").write(b.replace(old, new).encode())


def original(repo, diff):
    """Every removed line must come from the root commit (or, for pure additions, its neighbours)."""
    bad = []
    cur = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            n = int(m.group(2) or 1)
            if n == 0:
                continue
            r = sh(["git", "blame", "-s", "-l", "-L", f"{m.group(1)},+{n}", "HEAD", "--", cur], cwd=repo).stdout
            bad += [x for x in r.splitlines() if not x.lstrip("^").startswith(ROOT_COMMIT[:38])]
    return bad


def tests(d, repo, env):
    x = os.path.join(d, "junit.xml"); o = os.path.join(d, "out.json")
    env = dict(env, PYTHONHASHSEED="0")
    ign = ["cli/test_cli", "error/test_bootstrap", "error/test_displacement", "eval/test_perturbation", "model/test_batchsa", "rotational/test_constrained"]
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"] + [f"--ignore=tests/{i}.py" for i in ign], cwd=repo, env=env)
    sh(["python3", "/opt/vp/results.py", o, f"junit:{x}"], cwd=repo)
    txt = open(o).read()
    res = json.loads(txt)
    passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else {k for k, v in res.items() if v in ("passed", "pass", True)}
    return [t for t in STABLE if t not in passed]


def one(s, check):
    d, repo, env = scratch()
    try:
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# exit 0 when the property holds, nonzero when it is broken\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = sh(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=env, timeout=300)
        apply(repo, s)
        diff = sh(["git", "diff", "-U3"], cwd=repo)
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        u0 = subprocess.run(["git", "diff", "-U0"], cwd=repo, capture_output=True).stdout.decode()
        bad = original(repo, u0)
        r1 = sh(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=env, timeout=300)
        ft = tests(d, repo, env)
        ok = r0.returncode == 0 and r1.returncode != 0 and not ft and not bad
        msg = f"{s['id']:28s} {s['property']} {'valid' if ok else 'INVALID'}"
        if r0.returncode: msg += f"\n   demo fails unpatched: {(r0.stdout + r0.stderr)[-600:]}"
        if not r1.returncode: msg += "\n   demo passes with the patch"
        if ft: msg += f"\n   tests fail: {ft}"
        if bad: msg += f"\n   not original: {bad[:3]}"
        if ok: msg += f"  demo: {(r1.stdout + r1.stderr).strip().splitlines()[-1][:110] if (r1.stdout + r1.stderr).strip() else '-'}"
        if check:
            e = dict(env, ESAT_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d)
            c = sh(["./check", s["property"]], cwd=HERE, env=e)
            hit = c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout
            msg += f"\n   check: {'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode} " + next((l for l in c.stdout.splitlines() if l.startswith("VIOLATION")), c.stdout[-300:] + c.stderr[-300:])[:200]
        return msg
    except Exception as ex:
        import traceback
        return f"{s['id']}: {traceback.format_exc()[-800:]}"
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    check = "--check" in a; a = [x for x in a if x != "--check"]
    j = 4
    if "-j" in a:
        i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    al = specs()
    ids = a or list(al)
    with ThreadPoolExecutor(j) as ex:
        for m in ex.map(lambda i: one(al[i], check), ids):
            print(m, flush=True)


main()
