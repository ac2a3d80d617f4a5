"""P23: factor-count estimation trains without its test cells and reports the errors of exactly its samples."""
import os
import time
import uuid

import numpy as np

from mon import gen, ref
from mon.core import Scenario
from mon.instr import limited, patched
from mon.props.p17 import near, shown
from esat.estimator import FactorEstimator
from esat.model.sa import SA

TECHNIQUE = "runtime monitoring: every training of every worker process is logged and the results table is recomputed from the log"
NOTE = ("An offline checker joins the log of all worker trainings (weights, factors, final matrices) with the reported table: held-out "
        "cells, errors per count, ratios, estimate. Finishing orders are shuffled and a worker fault is injected. Sampled runs.")
RULE = "each case is one estimation run over worker processes; distinct by (shape, range, samples, test share, scale, disturbance)"
ASSUMPTIONS = ["a cell is held out when its training weight is at most 1e-9 of the weight its uncertainty gives it"]
REQUIRED = {"trainings_logged": 250, "held_out_cells": 1500, "counts_without_sample": 3, "single_count": 1, "faults": 2, "plots": 3,
            "shuffled": 5, "used_again": 6, "repeats": 2, "spreads": 3}


class Log:
    """Logs every SA.train of this process and of the worker processes forked from it."""

    def __init__(self, folder, delay=0.0, fail=None):
        self.folder, self.delay, self.fail = folder, delay, fail

    def __enter__(self):
        orig, folder, delay, fail = SA.train, self.folder, self.delay, self.fail

        def train(sa, *a, **k):
            if fail is not None and sa.factors == fail:
                raise RuntimeError("injected fault")
            out = orig(sa, *a, **k)
            np.savez(os.path.join(folder, f"t{uuid.uuid4().hex}.npz"), V=sa.V, U=sa.U, W=sa.W, H=sa.H, k=sa.factors, seed=sa.seed,
                     method=sa.method, steps=sa.converge_steps,
                     asked=np.array([sa.metadata.get(x, np.nan) for x in ("max_iterations", "converge_delta", "converge_n")], float))
            if delay:
                time.sleep(delay * ((int(sa.seed) * 2654435761) % 97) / 97)
            return out
        self.p = patched(SA, "train", train)
        self.p.__enter__()
        return self

    def __exit__(self, *e):
        return self.p.__exit__(*e)

    def records(self):
        out = []
        for f in sorted(os.listdir(self.folder)):
            with np.load(os.path.join(self.folder, f)) as z:
                out.append({n: z[n] for n in z.files})
            os.remove(os.path.join(self.folder, f))
        return out


def mse(V, W, H, cells):
    V, W, H = np.asarray(V, np.float64), np.asarray(W, np.float64), np.asarray(H, np.float64)
    r = (V - W @ H)[cells]
    e = 1e-6 * (np.abs(V) + (H.shape[0] + 2) * (np.abs(W) @ np.abs(H)))[cells]
    n = max(1, cells.sum())
    return float((r * r).sum() / n), float((2 * np.abs(r) * e + e * e).sum() / n)


def check_log(ctx, V, U, recs, lo, hi, samples, percent):
    ctx.require(len(recs) == samples, "samples-run", f"{len(recs)} trainings for {samples} samples")
    per = {k: [] for k in range(lo, hi + 1)}
    held, masks = 0, set()
    for r in recs:
        k = int(r["k"])
        ctx.require(k in per, "factor-count-outside", f"{k} outside {lo}..{hi}")
        ctx.check(near(r["V"], V, 1e-30, 1e-6), "training-data", "the training data are not the given data")
        share = (np.asarray(U, np.float64) / np.asarray(r["U"], np.float64)) ** 2
        out = share <= 1e-9
        ctx.check(near(share[~out], np.ones((~out).sum()), 1e-5, 0), "training-weights", f"weights of training cells changed by {share[~out].min()}..{share[~out].max()}")
        held += int(out.sum())
        masks.add(out.tobytes())
        tr, trn = mse(V, r["W"], r["H"], ~out)
        te, ten = mse(V, r["W"], r["H"], out)
        per[k].append((tr, te, gen.wq(V, U, r["W"], r["H"]), ref.qrobust(V, U, r["W"], r["H"], 4.0), trn, ten,
                       gen.wq_noise(V, U, r["W"], r["H"], 1e-6), out.any()))
    n = samples * V.size
    ctx.count("trainings_logged", len(recs))
    ctx.count("held_out_cells", held)
    ctx.check(abs(held - percent * n) <= 6 * np.sqrt(n * percent * (1 - percent)) + 1, "held-out-share", f"{held} cells of {n} held out, asked {percent}")
    if samples > 1 and V.size * percent > 5:
        ctx.check(len(masks) > 1, "same-mask", f"all {samples} samples held out the same cells")
        ctx.check(len({int(r["seed"]) for r in recs}) > 1, "same-seed", "all samples have the same seed")
    return per


def check_table(ctx, est, df, per, lo, hi, coef):
    ks = list(range(lo, hi + 1))
    ctx.require([int(x) for x in df["Factors"]] == ks, "factor-counts", f"{list(df['Factors'])}")
    mean = {}
    for row, k in enumerate(ks):
        s = per[k]
        if not s:
            ctx.count("counts_without_sample")
            for c in ("Train MSE", "Test MSE", "Q(True)", "Q(Robust)"):
                ctx.check(np.isnan(df[c].iloc[row]), "error-without-sample", f"count {k}: {c} is {df[c].iloc[row]} without any sample")
            continue
        m = np.mean(np.array([x[:7] for x in s], float), axis=0)
        mean[k] = m
        for c, i, tol in (("Train MSE", 0, m[4]), ("Test MSE", 1, m[5]), ("Q(True)", 2, m[6]), ("Q(Robust)", 3, m[6])):
            got = float(df[c].iloc[row])
            ctx.check(abs(got - m[i]) <= tol + 1e-5 * abs(m[i]), c.lower().replace(" ", "-"), f"count {k}: {got} reported, {m[i]} for its {len(s)} samples")
    te = np.asarray(df["Test MSE"], float)
    d = te[:-1] - te[1:]
    ctx.check(np.isnan(df["Delta MSE"].iloc[0]) and near(df["Delta MSE"].iloc[1:], d, 1e-12 * np.nanmax(te), 1e-9), "delta", f"{list(df['Delta MSE'])} against {d}")
    ratio = np.full(len(ks), np.nan)
    if len(d) and not np.isnan(d).all():
        with np.errstate(all="ignore"):
            ratio[1:-1] = 1.01 * np.nanmax(d) * (d[:-1] / d[1:])
    got = np.asarray(df["Delta Ratio"], float)
    ok = np.isfinite(ratio)
    ctx.check(near(got[ok], ratio[ok], 1e-12, 1e-6) and np.isnan(got[np.isnan(ratio)]).all(), "delta-ratio", f"{got} against {ratio}")
    kest = np.nanmin(te) / (te * np.power(np.array(ks, float), coef))
    ctx.check(near(df["K Estimate"], kest, 1e-12, 1e-9), "k-estimate", f"{list(df['K Estimate'])} against {kest}")
    best = np.sort(kest[~np.isnan(kest)])[::-1]
    if len(best) == 1 or best[0] > best[1] * (1 + 1e-9):
        ctx.check(est.estimated_factor == ks[int(np.nanargmax(kest))], "estimated-count", f"{est.estimated_factor} for {kest}")


def check_plot(ctx, est, df, lo, hi):
    ctx.count("plots")
    actual = int(ctx.rng.integers(lo, hi + 1)) if ctx.rng.random() < 0.7 else None
    with shown() as figs:
        est.plot(actual_count=actual)
    ctx.require(len(figs) == 1, "figure", f"{len(figs)}")
    names = {"Ratio Delta": "Delta Ratio"}
    traces = {t.name: t for t in figs[0].data}
    ctx.check(set(traces) == {"Train MSE", "Test MSE", "Delta MSE", "Ratio Delta", "K Estimate", "Q(True)"}, "plot-lines", f"{sorted(traces)}")
    for n, t in traces.items():
        ctx.check(list(t.x) == list(range(lo, hi + 1)) and near(t.y, df[names.get(n, n)], 1e-12, 1e-9), "plot-values", f"{n}")
    lines = sorted(s.x0 for s in figs[0].layout.shapes if s.x0 == s.x1)
    ctx.check(lines == sorted([est.estimated_factor] + ([actual] if actual else [])), "plot-markers", f"{lines}, estimated {est.estimated_factor}, actual {actual}")


def estimation(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 5))
    V, U, kind, k = gen.dataset(rng, kind=["noisy", "lowrank", "tiny", "large", "mixedscale", "heavy"][rng.integers(6)], m=int(rng.integers(12, 30)),
                                n=int(rng.integers(6, 10)), k=k)
    lo = int(rng.integers(1, 4))
    hi = lo + int(rng.integers(0, 4))
    samples = int(rng.integers(1, 16))
    percent = float(rng.choice([0.1, 0.2, 0.35]))
    coef = float(rng.choice([1.0, 0.5, 2.0]))
    kw = dict(samples=samples, min_factors=lo, max_factors=hi, max_iterations=int(rng.integers(2, 60)), converge_delta=float(rng.choice([0.0, 1.0])),
              converge_n=int(rng.integers(2, 12)))
    delay = 0.3 if rng.random() < 0.3 else 0.0
    seed = int(rng.integers(1 << 20))
    ctx.note(kind=kind, shape=V.shape, test_percent=percent, k_coef=coef, seed=seed, delay=delay, **kw)
    V0, U0 = V.copy(), U.copy()
    with ctx.quiet(), limited(ctx, 120, "factor estimation"):
        est = FactorEstimator(V, U, seed=seed, test_percent=percent, k_coef=coef)
        again = rng.random() < 0.25
        if again:
            # an estimator is used again: what it found before does not count
            ctx.count("used_again")
            est.run(samples=int(rng.integers(2, 6)), min_factors=int(rng.integers(1, 3)), max_factors=int(rng.integers(3, 5)), max_iterations=3)
        with Log(str(ctx.scratch), delay) as log:
            df = est.run(**kw)
            recs = log.records()
        ctx.count("shuffled", bool(delay))
        ctx.count("single_count", lo == hi)
        ctx.check(np.array_equal(V, V0) and np.array_equal(U, U0), "input-modified", "")
        ctx.check(all(int(r["steps"]) <= kw["max_iterations"] for r in recs), "iterations", f"{[int(r["steps"]) for r in recs]} of {kw["max_iterations"]}")
        ctx.check(all(list(r["asked"]) == [kw["max_iterations"], kw["converge_delta"], kw["converge_n"]] for r in recs), "settings",
                  f"trained with {[list(r['asked']) for r in recs][:3]} for {kw}")
        per = check_log(ctx, V, U, recs, lo, hi, samples, percent)
        if all(s[7] for p in per.values() for s in p):
            check_table(ctx, est, df, per, lo, hi, coef)
        if rng.random() < 0.4:
            check_plot(ctx, est, df, lo, hi)
        if rng.random() < 0.3 and not again:
            ctx.count("repeats")
            df2 = FactorEstimator(V, U, seed=seed, test_percent=percent, k_coef=coef).run(**kw)
            ctx.check(near(df2.drop(columns=["Delta Ratio"]).to_numpy(float), df.drop(columns=["Delta Ratio"]).to_numpy(float), 1e-9 * float(V.max()), 1e-6),
                      "not-reproducible", "the same seed gives other results")
    ctx.distinct((V.shape, lo, hi, samples, percent, kind, delay))


def fault(ctx):
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, kind="noisy", m=14, n=6, k=2)
    est = FactorEstimator(V, U, seed=int(rng.integers(1000)), test_percent=0.2)
    raised = None
    with ctx.quiet(), limited(ctx, 60, "factor estimation with a failing sample"):
        with Log(str(ctx.scratch), fail=2) as log:
            try:
                est.run(samples=10, min_factors=2, max_factors=3, max_iterations=5)
            except RuntimeError as ex:
                raised = str(ex)
            done = len(log.records())
    ctx.count("faults", done < 10)
    ctx.note(finished=done, raised=raised)
    ctx.check(raised == "injected fault" or done == 10, "fault-hidden", f"{10 - done} samples failed and the estimation reported results")
    ctx.distinct(("fault", done))


def spread(ctx):
    """Enough small samples that a count, a feature or a data row that is never drawn is not chance (below 1e-9)."""
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, kind="noisy", m=12, n=6, k=2)
    lo = int(rng.integers(1, 4))
    hi = lo + int(rng.integers(1, 4))
    samples = 30 * (hi - lo + 1)
    seed = int(rng.integers(1 << 20))
    ctx.note(low=lo, high=hi, samples=samples, seed=seed)
    with ctx.quiet(), limited(ctx, 60, "factor estimation"):
        with Log(str(ctx.scratch)) as log:
            FactorEstimator(V, U, seed=seed, test_percent=0.2).run(samples=samples, min_factors=lo, max_factors=hi, max_iterations=3)
            recs = log.records()
    drawn = {int(r["k"]) for r in recs}
    ctx.check(drawn == set(range(lo, hi + 1)), "count-never-drawn", f"{samples} samples of {lo}..{hi} drew only {sorted(drawn)}")
    held = sum((np.asarray(U, float) / r["U"]) ** 2 <= 1e-9 for r in recs)
    for axis, what in ((0, "feature"), (1, "sample")):
        t = held.sum(axis=axis)
        ctx.check(t.min() > 0, "cell-never-drawn", f"{what} {t.argmin()} is never held out in {samples} samples")
        ctx.check(t.max() < len(recs) * V.shape[axis], "cell-always-drawn", f"{what} {t.argmax()} is always held out in {samples} samples")
    ctx.check(len({int(r["seed"]) for r in recs}) > samples // 2, "seeds-repeat", f"{len({int(r['seed']) for r in recs})} seeds in {samples} samples")
    ctx.count("spreads")
    ctx.distinct(("spread", lo, hi))


SCENARIOS = [Scenario("spread", spread, 4, 40), Scenario("estimation", estimation, 60, 900), Scenario("fault", fault, 3, 20)]
