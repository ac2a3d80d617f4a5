"""P11: saving and loading a batch."""
import os
import re
from pathlib import Path

import numpy as np

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props.p09 import parse, same_model, tree
from esat.model.sa import SA
from esat.model.batch_sa import BatchSA

TECHNIQUE = "runtime round-trip monitoring of batch files, file-system watch on refusals"
NOTE = ("Every batch save form is written, re-read independently and compared with the models in memory; refused requests are "
        "watched for writes. Sampled batches and path kinds.")
RULE = ("each case trains a small batch, saves it in every form, reloads, and tries refused paths; distinct by "
        "(models, method, header, name, path kind)")
ASSUMPTIONS = []
REQUIRED = {"batch_round_trips": 20, "model_exports": 60, "refusals": 100}


def io(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, m=int(rng.integers(5, 20)), n=int(rng.integers(2, 8)), positive=method == "ls-nmf" or bool(rng.integers(2)))
    models = int(rng.choice([1, 2, 3, 5, 11], p=[0.15, 0.3, 0.3, 0.2, 0.05]))
    header = [None, gen.names(rng, V.shape[1])][rng.integers(2)]
    name = str(rng.choice(["batch", "b-1", "run 2", "x.y"]))
    root = ctx.scratch
    ctx.note(kind=kind, method=method, models=models, header=header is not None, name=name)
    ctx.distinct((models, method, header is not None, name))
    with ctx.quiet(), limited(ctx, 120, "batch"):
        b = BatchSA(V=V, U=U, factors=k, models=models, method=method, seed=int(rng.integers(1 << 20)),
                    max_iter=int(rng.integers(1, 15)), converge_delta=float(rng.choice([-1e9, 1.0])), converge_n=3,
                    best_robust=bool(rng.integers(2)), parallel=bool(rng.random() < 0.1), cores=2, verbose=False)
        ok = b.train()
        ctx.require(ok[0] is True, "batch-failed", f"{ok}")
        d1, d2, d3 = root / "one", root / "two", root / "three"
        for d in (d1, d2, d3):
            d.mkdir()
        p = b.save(batch_name=name, output_directory=str(d1) if rng.integers(2) else d1)
        ctx.require(p is not None and os.path.isfile(p) and Path(p).parent == d1, "save-path", f"{p!r}")
        ctx.check(len(tree(d1)) == 1, "save-extra-files", f"{tree(d1)}")
        c = BatchSA.load(str(p))
        ctx.count("batch_round_trips")
        ctx.require(isinstance(c, BatchSA), "load-result", f"{c!r}")
        for n in ("factors", "method", "models", "max_iter", "converge_delta", "converge_n", "best_robust", "seed", "init_method",
                  "init_norm", "hold_h", "delay_h", "best_model", "parallel", "runtime"):
            ctx.check(getattr(b, n) == getattr(c, n), "reloaded-differs", f"{n}: {getattr(b, n)!r} became {getattr(c, n)!r}")
        ctx.check(np.array_equal(b.V, c.V) and np.array_equal(b.U, c.U), "reloaded-differs", "data")
        ctx.require(len(c.results) == len(b.results), "reloaded-differs", f"{len(c.results)} models of {len(b.results)}")
        for i, (x, y) in enumerate(zip(b.results, c.results)):
            bad = same_model(x, y)
            ctx.check(not bad, "reloaded-differs", f"model {i}: {bad}")
        # exports, text
        r = b.save(batch_name=name, output_directory=str(d2), pickle_model=False, pickle_batch=False, header=header)
        ctx.check(r is not None and Path(r) == d2, "save-path", f"{r!r}")
        files = sorted(tree(d2))
        for nm, mat in (("profile", "H"), ("contribution", "W"), ("vprime", "WH"), ("residuals", None)):
            fs = [f for f in files if nm in f[len(name):]]
            ctx.require(len(fs) == models, "export-missing", f"{nm}: {len(fs)} files for {models} models")
            fs.sort(key=lambda f: int(re.findall(r"\d+", f[len(name):])[0]))
            for i, f in enumerate(fs):
                ctx.count("model_exports")
                got, head = parse(d2 / f)
                sa = b.results[i]
                want = np.asarray(getattr(sa, mat) if mat else sa.V - sa.WH, float)
                ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=0), "export-differs", f"{f} is not model {i}")
                if header is not None and nm != "contribution":
                    ctx.check(head is not None and head.split(",") == header, "export-header", f"{head!r}")
        ctx.check(sum(f.endswith(".json") for f in files) == models, "export-missing", "metadata files")
        # exports, one pickle per model
        b.save(batch_name=name, output_directory=str(d3), pickle_model=True, pickle_batch=False)
        fs = sorted(tree(d3), key=lambda f: int(re.findall(r"\d+", f[len(name):])[0]))
        ctx.require(len(fs) == models, "export-missing", f"{len(fs)} model pickles for {models} models")
        for i, f in enumerate(fs):
            ctx.count("model_exports")
            y = SA.load(str(d3 / f))
            bad = same_model(b.results[i], y)
            ctx.check(not bad, "export-differs", f"pickle {f}: {bad}")
        cwd = os.getcwd()
        os.chdir(root)
        try:
            (root / "bad.pkl").write_bytes(b"junk file")
            before = tree(root)
            for pb in (True, False):
                for target in ("one", "./one", str(root / "missing")):
                    ctx.count("refusals")
                    r = b.save(batch_name="z", output_directory=target, pickle_batch=pb, pickle_model=bool(rng.integers(2)))
                    ctx.check(r is None, "bad-path-accepted", f"{target}: {r!r}")
            for target in ("one/" + Path(p).name, str(root / "missing.pkl"), "missing.pkl", str(root / "bad.pkl")):
                ctx.count("refusals")
                ctx.check(BatchSA.load(target) is None, "bad-path-accepted", f"load {target}")
            ctx.check(tree(root) == before, "refusal-wrote", f"{set(tree(root)) ^ set(before)}")
        finally:
            os.chdir(cwd)


SCENARIOS = [Scenario("io", io, 45, 900)]
