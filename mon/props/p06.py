"""P06: reproducibility of a model from its seed; the caller's arrays stay as they were."""
import random

import numpy as np

from mon import gen
from mon.core import Scenario
from esat.model.sa import SA

TECHNIQUE = "differential runtime monitoring: paired executions under perturbed global state, argument-snapshot monitor"
NOTE = ("Executions of pairs/triples of models under different global random state and with other models trained in "
        "between, compared bit for bit; argument snapshots catch writes into the caller's arrays. Sampled inputs.")
RULE = ("each case draws a dataset, dtype, method, seed and start kind, builds the same model twice with another model and a "
        "changed global random state in between, and snapshots every array passed in; distinct by (method, start, dtype, kind)")
ASSUMPTIONS = ["both executions happen on the same machine and library versions"]
REQUIRED = {"pairs": 150, "seed_pairs": 100, "argument_snapshots": 300, "singular_clusters": 10}


def repro(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    start = ["default", "given", "given_h", "given_w", "partial_h", "kmeans", "kmeans_given"][rng.integers(7)]
    km = start.startswith("kmeans")
    kind = ["noisy", "heavy", "spiky"][rng.integers(3)] if km else None
    n = int(rng.integers(3, 7)) if km else None
    V, U, kind, k = gen.dataset(rng, kind=kind, n=n, m=int(rng.integers(20, 40)) if km else None,
                                k=int(rng.integers(2, 4)) if km else None,
                                positive=method == "ls-nmf" or bool(rng.integers(2)))
    if km and rng.random() < 0.3:
        # two features in a fixed proportion: the clusters cannot be started from the covariance
        V[:, 1], U[:, 1] = 2 * V[:, 0], 2 * U[:, 0]
        ctx.count("singular_clusters")
    dt = [np.float64, np.float32][rng.integers(2)]
    order = "CF"[rng.integers(2)]
    V, U = np.array(V, dtype=dt, order=order), np.array(U, dtype=dt, order=order)
    if rng.random() < 0.3:
        U[rng.random(U.shape) < 0.1] = 0.0
    W, H = gen.factors_for(rng, V, k, signed=False)
    H[rng.random(H.shape) < 0.15] = 0.0
    if rng.random() < 0.3:
        H[rng.random(H.shape) < 0.1] *= -1
    W, H = W.astype(dt), H.astype(dt)
    seed = int(rng.integers(0, 2 ** 31))
    steps = int(rng.integers(1, 15))
    kw = {}
    if start in ("given", "given_h", "kmeans_given"):
        kw["H"] = H
    if start in ("given", "given_w", "kmeans_given"):
        kw["W"] = W
    if start == "partial_h":
        if k < 2:
            start = "default"
        else:
            kw["H"] = np.abs(H[: k - 1]) + 1e-6
    if km:
        kw["init_method"] = "kmeans"
        kw["init_norm"] = bool(rng.integers(2))
    tkw = dict(max_iter=steps, converge_delta=float(rng.choice([-1e9, 0.1, 1.0])), converge_n=int(rng.integers(1, 6)))
    if rng.random() < 0.3:
        tkw.update(hold_h=True, delay_h=int(rng.choice([-1, 2])))
    snaps = {"V": V.copy(), "U": U.copy(), **{a: b.copy() for a, b in kw.items() if isinstance(b, np.ndarray)}}
    ctx.note(kind=kind, method=method, start=start, shape=V.shape, k=k, dtype=str(dt), seed=seed)
    ctx.distinct((kind, method, start, str(dt)))

    def build(s):
        sa = SA(V=V, U=U, factors=k, method=method, seed=s)
        sa.initialize(**kw)
        st = (np.array(sa.W), np.array(sa.H))
        return sa, st
    with ctx.quiet():
        np.random.seed(1)
        random.seed(1)
        a, a0 = build(seed)
        a.train(**tkw)
        other = SA(V=V * 1.5, U=U, factors=k, method=method, seed=seed + 11)
        other.initialize()
        other.train(max_iter=3)
        np.random.seed(99)
        random.seed(99)
        np.random.random(17)
        b, b0 = build(seed)
        o2, o20 = build(seed + 1)          # interleaved construction
        b.train(**tkw)
    ctx.count("pairs")
    for nm, x, y in (("start W", a0[0], b0[0]), ("start H", a0[1], b0[1]), ("W", a.W, b.W), ("H", a.H, b.H),
                     ("WH", a.WH, b.WH), ("q_list", np.array(a.q_list), np.array(b.q_list)),
                     ("Qtrue", np.array(a.Qtrue), np.array(b.Qtrue)), ("Qrobust", np.array(a.Qrobust), np.array(b.Qrobust))):
        ctx.check(np.array_equal(x, y, equal_nan=True), "not-reproducible", f"{nm} differs between two runs with one seed ({start})")
    ctx.check((a.converged, a.converge_steps) == (b.converged, b.converge_steps), "not-reproducible", "convergence report")
    generated_w, generated_h = "W" not in kw, "H" not in kw
    free = generated_w * a0[0].size + generated_h * a0[1].size      # half of them may start at the floor, whatever the seed
    if free >= 30:
        ctx.count("seed_pairs")
        same = (np.array_equal(a0[0], o20[0]) if generated_w else True) and (np.array_equal(a0[1], o20[1]) if generated_h else True)
        ctx.check(not same, "seed-ignored", f"seeds {seed} and {seed + 1} start from identical matrices ({start})")
    for nm, s in snaps.items():
        ctx.count("argument_snapshots")
        now = {"V": V, "U": U, **kw}[nm]
        ctx.check(np.array_equal(s, now), "caller-array-modified", f"{nm} ({dt.__name__}, order {order}, start {start})")


def many(ctx):
    """A pool of models trained in a random interleaving of short legs equals the same legs run alone."""
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng)
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    nm = int(rng.integers(2, 5))
    legs = [[int(rng.integers(1, 5)) for _ in range(rng.integers(1, 4))] for _ in range(nm)]
    order = [i for i, x in enumerate(legs) for _ in x]
    rng.shuffle(order)
    ctx.note(kind=kind, method=method, models=nm, interleaving=order)
    ctx.distinct((method, tuple(order)))

    def run(seq):
        ms, left = {}, {i: list(x) for i, x in enumerate(legs)}
        for i in seq:
            if i not in ms:
                ms[i] = SA(V=V, U=U, factors=k, method=method, seed=100 + i)
                ms[i].initialize()
            ms[i].train(max_iter=left[i].pop(0), converge_delta=-1e9)
        return ms
    with ctx.quiet():
        x = run(order)
        y = run(sorted(order))
    for i in x:
        ctx.count("pairs")
        ctx.check(np.array_equal(x[i].W, y[i].W, equal_nan=True) and np.array_equal(x[i].H, y[i].H, equal_nan=True),
                  "not-reproducible", f"model {i} depends on the interleaving {order}")


SCENARIOS = [Scenario("repro", repro, 350, 8000), Scenario("interleave", many, 60, 1500)]
