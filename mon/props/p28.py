"""P28: without the compiled extension every module imports and the whole workflow completes with finite results."""
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

from mon import core, flow
from mon.core import Scenario
from mon.instr import limited

TECHNIQUE = "runtime monitoring of the whole workflow, in-process and in processes of its own, with a completeness and finiteness checker over its log"
NOTE = ("Every importable module is imported alone in a fresh process where any compiled-extension import fails; the workflow (single, batch, error methods, "
        "constrained, estimator, simulator, catalog, perturbation, save/load) runs over drawn configurations and its log is checked for completeness.")
RULE = "each case is one module import or one pass through the workflow; distinct by module or (algorithm, modes, sizes, stages, process)"
ASSUMPTIONS = ["developer scripts (esat/main.py, eval/*_test.py, runtime_*, rust_*) that need tools outside the declared requirements are not part of the workflow"]
REQUIRED = {"imports": 20, "workflows": 4, "models_checked": 80, "own_process": 1}

SCRIPTS = ("main.py",)
GUARD = ("import sys, importlib.abc\n"
         "class G(importlib.abc.MetaPathFinder):\n"
         "    def find_spec(self, name, path=None, target=None):\n"
         "        if name.split('.')[-1] == 'esat_rust':\n"
         "            raise ModuleNotFoundError(\"No module named '%s'\" % name, name=name)\n"
         "sys.meta_path.insert(0, G())\n")


def modules():
    out = []
    for top, pkg in (("esat", "esat"), ("eval", "esat_eval")):
        root = core.REPO / top
        for p in sorted(root.rglob("*.py")):
            rel = p.relative_to(root)
            if p.name in SCRIPTS or p.name.endswith("_test.py") or p.name.startswith(("runtime_", "rust_")):
                continue
            parts = [pkg] + list(rel.with_suffix("").parts)
            out.append(".".join(x for x in parts if x != "__init__"))
    return out


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("TQDM_DISABLE", "PYTHONWARNINGS", "TERM")}
    e["PYTHONPATH"] = os.pathsep.join([str(core.VERIF)] + [x for x in e.get("PYTHONPATH", "").split(os.pathsep) if x])
    return e


def imports(ctx):
    every = modules()
    ctx.require(len(every) >= 15, "modules-missing", f"{every}")
    done = 0
    running = []
    for m in every:
        running.append((m, subprocess.Popen([sys.executable, "-c", GUARD + f"import {m}"], cwd=ctx.scratch, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        if len(running) >= 8:
            done += 1
            reap(ctx, *running.pop(0))
    for r in running:
        reap(ctx, *r)


def reap(ctx, m, p):
    try:
        err = p.communicate(timeout=240)[1].decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        ctx.fail("import-hang", m)
        return
    ctx.count("imports")
    ctx.distinct(m)
    ctx.check(p.returncode == 0, "import-failed", f"{m}: {err.strip().splitlines()[-1:]}")


def config(rng):
    n = int(rng.integers(4, 7))
    return dict(seed=int(rng.integers(1, 1 << 20)), m=int(rng.integers(18, 40)), n=n, k=int(rng.integers(2, 4)), method=["ls-nmf", "ws-nmf"][rng.integers(2)],
                parallel=bool(rng.integers(2)), verbose=bool(rng.integers(2)), max_iter=int(rng.choice([1, 25, 60])), models=int(rng.integers(1, 5)),
                bs_n=int(rng.integers(1, 4)), keep_H=bool(rng.integers(2)), reuse_bs=bool(rng.integers(2)), max_search=15,
                features=None if rng.random() < 0.5 else sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False)),
                samples=int(rng.integers(3, 8)))


def judge_model(ctx, m, cfg, rows, what):
    ctx.count("models_checked")
    ok = m is not None and m["W"]["finite"] and m["H"]["finite"] and np.isfinite(m["Qtrue"]) and np.isfinite(m["Qrobust"])
    if not ctx.check(ok, "not-finite", f"{what}: {m}"):
        return
    ctx.check(m["H"]["shape"] == [cfg["k"], cfg["n"]] and m["W"]["shape"][1] == cfg["k"] and (rows is None or m["W"]["shape"][0] == rows), "shape", f"{what}: {m}")
    ctx.check(m["H"]["min"] >= 0 and (cfg["method"] == "ws-nmf" or m["W"]["min"] >= 0), "negative", f"{what}: {m}")
    ctx.check(abs(m["Q"] - m["Qtrue"]) <= 1e-4 * max(1.0, abs(m["Q"])) + m["noise"], "loss", f"{what}: reported {m['Qtrue']}, matrices give {m['Q']}")
    ctx.check(not m["optimized"], "extension-assumed", f"{what}")


def judge(ctx, log, cfg, what):
    m, n, k = cfg["m"], cfg["n"], cfg["k"]
    d = log["data"]
    ctx.check(d["V"]["shape"] == [m, n] and d["U"]["shape"] == [m, n] and d["V"]["finite"] and d["U"]["finite"] and d["U"]["min"] > 0, "data", f"{what}: {d}")
    judge_model(ctx, log["sa"], cfg, m, f"{what} model")
    ctx.check(log["sa_loaded"] == log["sa"], "reloaded-model", f"{what}")
    b = log["batch"]
    ctx.require(len(b["models"]) == cfg["models"] and all(x is not None for x in b["models"]), "batch-incomplete", f"{what}: {b}")
    for i, x in enumerate(b["models"]):
        judge_model(ctx, x, cfg, m, f"{what} batch model {i}")
    ctx.check(0 <= b["best"] < cfg["models"] and b["models"][b["best"]]["Qrobust"] <= min(x["Qrobust"] for x in b["models"]) * (1 + 1e-6), "batch-best", f"{what}: {b['best']}")
    ctx.check(log["batch_loaded"] == b["models"], "reloaded-batch", f"{what}")
    if "analysis" in log:
        a = log["analysis"]
        ctx.check(a["rows"] == n and a["figures"] >= a["wanted"] and not a["empty"], "analysis", f"{what}: {a}")
    if "bs" in log:
        ctx.count("error_methods", 3)
        ctx.check(log["bs"]["runs"] == cfg["bs_n"] == len(log["bs"]["models"]) == log["bs_loaded"], "bootstrap-incomplete", f"{what}: {log['bs']['runs']} of {cfg['bs_n']}")
        for i, x in enumerate(log["bs"]["models"]):
            judge_model(ctx, x, cfg, m, f"{what} bootstrap {i}")
        ctx.check(log["bs"]["mapped"] >= cfg["bs_n"] * k, "bootstrap-mapping", f"{what}: {log['bs']['mapped']} factors accounted for")
        ctx.check(log["disp"]["rows"] == k * n * 4 == log["disp_loaded"] and log["disp"]["finite"], "displacement-incomplete", f"{what}: {log['disp']}")
        ctx.check(log["bsdisp"]["runs"] == cfg["bs_n"] == log["bsdisp_loaded"] and log["bsdisp"]["rows"] == k * n * 4, "bsdisp-incomplete", f"{what}: {log['bsdisp']}")
        ctx.check(log["error"]["figures"] >= 4 * k and not log["error"]["empty"], "error-figures", f"{what}: {log['error']}")
    if "constrained" in log:
        judge_model(ctx, log["constrained"], cfg, m, f"{what} constrained")
        ctx.check(log["constrained_loaded"] == log["constrained"], "reloaded-constrained", f"{what}")
    if "estimator" in log:
        ctx.check(log["estimator"]["rows"] == 3, "estimator", f"{what}: {log['estimator']}")
    if "simulator" in log:
        s = log["simulator"]
        for i, x in enumerate(s["models"]):
            judge_model(ctx, x, cfg, m, f"{what} simulated {i}")
        ctx.check(s["V"]["shape"] == [m, n] and s["V"]["finite"] and 0 <= s["best"] < 2 and 0 <= s["r2"] <= 1 + 1e-9 and s["figures"] >= 2, "simulator", f"{what}: {s}")
        ctx.check(log["catalog"]["filed"] == log["catalog"]["wanted"], "catalog", f"{what}: {log['catalog']}")
    if "perturbation" in log:
        p = log["perturbation"]
        judge_model(ctx, p["base"], cfg, m, f"{what} perturbation base")
        ctx.check(len(p["models"]) == 2, "perturbation-incomplete", f"{what}: {len(p['models'])}")
        for i, x in enumerate(p["models"]):
            judge_model(ctx, x, cfg, m, f"{what} perturbed {i}")


def workflow(ctx):
    import plotly.graph_objects as go
    cfg = config(ctx.rng)
    ctx.note(**cfg)
    show = go.Figure.__dict__.get("show")
    try:
        with ctx.quiet(), limited(ctx, 300, "the workflow"):
            log = flow.run(cfg, ctx.scratch)
    finally:
        if show is None:
            del go.Figure.show
        else:
            go.Figure.show = show
    log = json.loads(json.dumps(log))
    judge(ctx, log, cfg, f"{cfg['method']}")
    ctx.count("workflows")
    ctx.distinct((cfg["method"], cfg["parallel"], cfg["k"], cfg["n"], cfg["models"], str(cfg["features"])))


def own(ctx):
    cfg = config(ctx.rng)
    ctx.note(**cfg)
    (ctx.scratch / "c.json").write_text(json.dumps(cfg))
    script = GUARD + f"sys.argv = ['flow', {str(ctx.scratch / 'c.json')!r}, {str(ctx.scratch / 'o.json')!r}]\nfrom mon import flow\nflow.main()\n"
    (ctx.scratch / "go.py").write_text(script)
    p = subprocess.Popen([sys.executable, str(ctx.scratch / "go.py")], cwd=ctx.scratch, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        txt = p.communicate(timeout=300)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        ctx.require(False, "hang", "the workflow in a process of its own did not finish within 300 s")
    ctx.require(p.returncode == 0 and (ctx.scratch / "o.json").exists(), "workflow-failed", f"exit {p.returncode}: {txt.strip().splitlines()[-3:]}")
    log = json.loads((ctx.scratch / "o.json").read_text())
    judge(ctx, log, cfg, f"own process {cfg['method']}")
    ctx.check(not any("rust" in m for m in log["modules"]), "extension-loaded", f"{log['modules']}")
    ctx.count("own_process")
    ctx.count("workflows")
    ctx.distinct((cfg["method"], cfg["parallel"], cfg["k"], cfg["n"], cfg["models"], "own"))


SCENARIOS = [Scenario("imports", imports, 1, 1), Scenario("workflow", workflow, 6, 120), Scenario("own", own, 2, 20)]
