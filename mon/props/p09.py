"""P09: saving and loading a single model."""
import json
import os
from pathlib import Path

import numpy as np

from mon import gen
from mon.core import Scenario
from esat.model.sa import SA

TECHNIQUE = "runtime round-trip monitoring: files written are re-read and compared with the model, file-system watch on refusals"
NOTE = ("Every save/load form on trained models of all kinds, re-read by an independent parser; a directory watch decides "
        "that refused requests write nothing. Sampled models and path kinds.")
RULE = ("each case trains a model, saves it in one or both forms (with or without headers), reloads and re-parses it, continues "
        "both copies, and tries one refused path; distinct by (method, form, header, refusal)")
ASSUMPTIONS = ["text values are compared at the printed precision (exact for float32/float64 in %.18e)"]
REQUIRED = {"pickle_round_trips": 60, "text_round_trips": 60, "refusals": 100}


def parse(path):
    rows, head = [], None
    for line in Path(path).read_text().splitlines():
        line = line.strip()
        if not line:
            continue
        try:
            rows.append([float(x) for x in line.split(",")])
        except ValueError:
            head = line
    return np.array(rows), head


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = os.path.getsize(p)
    return out


def same_number(a, b):
    """Equal, or both not a number (a model whose factors overflowed)."""
    return float(a) == float(b) or np.isnan(float(a)) and np.isnan(float(b))


def same_model(a, b):
    bad = []
    for n in ("V", "U", "We", "W", "H", "WH"):
        if not np.array_equal(getattr(a, n), getattr(b, n), equal_nan=True):
            bad.append(n)
    for n in ("Qtrue", "Qrobust"):
        if not same_number(getattr(a, n), getattr(b, n)):
            bad.append(n)
    if len(a.q_list) != len(b.q_list) or not all(same_number(x, y) for x, y in zip(a.q_list, b.q_list)):
        bad.append("q_list")
    for n in ("metadata", "factors", "method", "seed", "model_i", "converged", "converge_steps", "m", "n", "init_method"):
        if getattr(a, n) != getattr(b, n):
            bad.append(n)
    return bad


def io(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, positive=method == "ls-nmf" or bool(rng.integers(2)))
    if rng.random() < 0.15:
        V, U = V[:, :1], U[:, :1]
        k = 1
    steps = int(rng.integers(1, 15))
    root = ctx.scratch
    out = root / "out"
    out.mkdir()
    name = str(rng.choice(["m", "model-1", "my model", "a.b"]))
    header = [None, gen.names(rng, V.shape[1])][rng.integers(2)]
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1 << 20)))
        sa.initialize()
        sa.train(max_iter=steps, converge_delta=float(rng.choice([-1e9, 1.0])), converge_n=3, model_i=int(rng.integers(1, 5)))
        keep = [np.array(x, copy=True) for x in (sa.W, sa.H, sa.WH)]
        form = ["pickle", "text", "both"][rng.integers(3)]
        ctx.note(kind=kind, method=method, shape=V.shape, k=k, form=form, header=header is not None, name=name)
        ctx.distinct((method, form, header is not None, name, V.shape[1] == 1))
        if form in ("pickle", "both"):
            ctx.count("pickle_round_trips")
            p = sa.save(model_name=name, output_directory=str(out) if rng.integers(2) else out, pickle_model=True)
            ctx.require(p is not None and os.path.isfile(p), "save-path", f"pickle save returned {p!r}")
            ctx.check(Path(p).parent == out, "save-path", f"file written to {p}")
            other = SA.load(str(p))
            ctx.require(isinstance(other, SA), "load-result", f"load returned {other!r}")
            bad = same_model(sa, other)
            ctx.check(not bad, "reloaded-differs", f"{bad}")
            c1, c2 = SA.load(str(p)), sa
            more = int(rng.integers(1, 6))
            c1.train(max_iter=more, converge_delta=-1e9)
            if form == "pickle":
                c2.train(max_iter=more, converge_delta=-1e9)
                bad = [b for b in same_model(c1, c2) if b != "metadata"]
                ctx.check(not bad, "continuation-differs", f"{bad}")
        if form in ("text", "both"):
            ctx.count("text_round_trips")
            before = tree(out)
            p = sa.save(model_name=name, output_directory=str(out), **gen.omit(rng, {"pickle_model": False}, pickle_model=False),
                        **({} if header is None and rng.integers(2) else {"header": header}))
            ctx.require(p is not None and Path(p).exists(), "save-path", f"text save returned {p!r}")
            new = sorted(set(tree(out)) - set(before))
            want = {"profile": sa.H, "contribution": sa.W, "vprime": sa.WH, "residuals": sa.V - sa.WH}
            fac = [f"Factor {i + 1}" for i in range(k)]
            for nm, mat in want.items():
                fs = [f for f in new if f.startswith(name) and nm in f]
                ctx.require(len(fs) == 1, "export-missing", f"{nm}: files {new}")
                got, head = parse(out / fs[0])
                mat = np.asarray(mat, dtype=np.float64)
                ctx.check(got.shape == mat.shape and np.allclose(got, mat, rtol=1e-9, atol=0), "export-differs",
                          f"{nm} file does not hold the model's matrix: {got.shape} vs {mat.shape}")
                if header is not None:
                    want_head = fac if nm == "contribution" else header
                    ctx.check(head is not None and [h.strip() for h in head.split(",")] == want_head, "export-header",
                              f"{nm}: {head!r}", want=want_head)
            fs = [f for f in new if f.endswith(".json")]
            ctx.require(len(fs) == 1, "export-missing", f"metadata: {new}")
            md = json.loads((out / fs[0]).read_text())
            ctx.check(md == json.loads(json.dumps(sa.metadata, default=float)), "export-metadata", "metadata file differs from the model's metadata")
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (sa.W, sa.H, sa.WH))), "save-changed-model", "")
        # refusals
        cwd = os.getcwd()
        os.chdir(root)
        try:
            before = tree(root)
            for pk in (True, False):
                ctx.count("refusals")
                r = sa.save(model_name=name, output_directory=["out", "./out", "../" + root.name][rng.integers(3)], pickle_model=pk, header=header)
                ctx.check(r is None, "relative-path-accepted", f"returned {r!r}")
                ctx.count("refusals")
                r = sa.save(model_name=name, output_directory=str(root / "missing"), pickle_model=pk, header=header)
                ctx.check(r is None, "missing-path-accepted", f"returned {r!r}")
            (root / "x.pkl").write_bytes(b"not a pickle")
            before["x.pkl"] = len(b"not a pickle")
            ctx.count("refusals", 3)
            ctx.check(SA.load("x.pkl") is None, "relative-path-accepted", "load of a relative path")
            if form != "text":
                rel = os.path.relpath(out / f"{name}.pkl", root)
                ctx.check(SA.load(rel) is None, "relative-path-accepted", "load of a relative path of a good file")
            ctx.check(SA.load(str(root / "none.pkl")) is None, "missing-path-accepted", "load of a missing file")
            ctx.check(SA.load(str(root / "x.pkl")) is None, "corrupt-file-accepted", "load of a corrupt file")
            ctx.check(tree(root) == before, "refusal-wrote", f"{set(tree(root)) ^ set(before)}")
        finally:
            os.chdir(cwd)


SCENARIOS = [Scenario("io", io, 150, 3000)]
