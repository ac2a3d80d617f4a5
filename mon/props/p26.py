"""P26: uncertainty perturbation touches only the selected share of cells, and every model is trained from the base with its own matrix."""
import os
import uuid

import numpy as np

from mon import gen
from mon.core import Scenario
from mon.instr import limited, patched
from mon.props.p17 import near, shown
from mon.props.p25 import oracle_v2
from esat.model.sa import SA
from esat_eval.perturbation import Perturbation

TECHNIQUE = "runtime monitoring: an invariant monitor on the perturbed matrices and an offline checker over the logged worker trainings"
NOTE = ("Multipliers, selected cells and matrices are judged per call, the trainings of all workers are logged and joined with the reported models, "
        "the comparison tables and figures are recomputed. Sampled datasets, shares, sigmas, seeds.")
RULE = "each case is one perturbation setting or one complete analysis; distinct by (shape, share, sigma, models, method, disturbance)"
ASSUMPTIONS = ["the share is a probability per cell, judged within six standard deviations"]
REQUIRED = {"matrices": 150, "cells_changed": 3000, "cells_kept": 3000, "per_feature_settings": 30, "trainings_logged": 40, "compared": 10,
            "figures": 30, "own_base": 2, "longer_cycles": 3, "zero_uncertainties": 20}


class TrainLog:
    def __init__(self, folder, delay=0.0):
        self.folder, self.delay = folder, delay

    def __enter__(self):
        import time
        orig, folder, delay = SA.train, self.folder, self.delay

        def train(sa, *a, **k):
            W0, H0 = np.array(sa.W, copy=True), np.array(sa.H, copy=True)
            out = orig(sa, *a, **k)
            np.savez(os.path.join(folder, uuid.uuid4().hex + ".npz"), V=sa.V, U=sa.U, W0=W0, H0=H0, W=sa.W, H=sa.H, k=sa.factors, pid=os.getpid(),
                     seed=-1 if sa.seed is None else sa.seed, steps=sa.converge_steps, method=sa.method)
            if delay:
                time.sleep(delay * ((int(sa.seed or 0) * 2654435761) % 97) / 97)
            return out
        self.p = patched(SA, "train", train)
        self.p.__enter__()
        return self

    def __exit__(self, *e):
        return self.p.__exit__(*e)

    def records(self):
        out = []
        for f in sorted(os.listdir(self.folder)):
            with np.load(os.path.join(self.folder, f)) as z:
                out.append({n: z[n] for n in z.files})
        return out


def spec(rng, n, choices):
    """A share or sigma setting and the value it means for every feature."""
    r = rng.random()
    if r < 0.5:
        v = choices[rng.integers(len(choices))]
        return v, np.full(n, float(v))
    v = [float(choices[rng.integers(len(choices))]) for _ in range(n)]
    if r < 0.8:
        return v, np.array(v)
    if r < 0.9:
        v = (v + [float(choices[0])]) if rng.random() < 0.5 else v[:-1]
        return v, np.full(n, v[0])
    return np.array(v), np.array(v)


def judge_matrix(ctx, U, u, m, share, sigma):
    ctx.count("matrices")
    ctx.require(np.shape(u) == U.shape and np.shape(m) == U.shape, "shape", f"{np.shape(u)} {np.shape(m)}")
    ctx.check(np.isfinite(u).all() and (np.asarray(u) > 0).all(), "not-positive", f"smallest {np.min(u)}")
    ctx.check(near(u, np.maximum(U * m, 1e-12 * (U * m <= 0)), 0, 1e-12), "not-product", "the matrix is not the original times its multipliers")
    ch = np.asarray(m) != 1.0
    ctx.count("cells_changed", ch.sum())
    ctx.count("cells_kept", (~ch).sum())
    zero = U <= 0
    ctx.count("zero_uncertainties", zero.sum())
    ctx.check(np.array_equal(np.asarray(u)[~ch & ~zero], U[~ch & ~zero]), "kept-cell-changed", "")
    rows = U.shape[0]
    drawn = sigma > 0
    for j in range(U.shape[1]):
        p = share[j] if drawn[j] else 0.0
        got = ch[:, j].sum()
        ctx.check(abs(got - rows * p) <= 6 * np.sqrt(rows * p * (1 - p)) + (1 if 0 < p < 1 else 0), "share", f"feature {j}: {got} of {rows} changed, share {p}")
    e = (rows * share * drawn).sum()
    s = np.sqrt((rows * share * (1 - share) * drawn).sum())
    ctx.check(abs(ch.sum() - e) <= 6 * s + 1e-9, "share", f"{ch.sum()} cells changed, expected {e}")
    z = (np.log(m) / np.where(drawn, sigma, 1))[ch]
    if z.size:
        ctx.check(np.abs(z).max() < 8, "multiplier-size", f"a multiplier at {np.abs(z).max()} sigmas")
        ctx.check(abs(z.mean()) <= 6 / np.sqrt(z.size) and (z.size < 30 or abs(z.std() - 1) <= 6 / np.sqrt(2 * z.size)), "multiplier-distribution",
                  f"log multipliers over sigma: mean {z.mean()} deviation {z.std()} of {z.size}")
    return ch


def matrix(ctx):
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, m=int(rng.integers(5, 120)), n=int(rng.integers(2, 12)))
    if rng.random() < 0.1:
        U = np.ceil(U / U.min()).astype(int)
        ctx.count("integer_matrices")
    elif rng.random() < 0.2:
        U = U.copy()
        U[rng.random(U.shape) < 0.1] = 0.0
    n = U.shape[1]
    ps, share = spec(rng, n, [1.0, 0.5, 0.1, 0.9, 0.0, 1, 0.3])
    ss, sigma = spec(rng, n, [0.33, 0.1, 1.0, 1, 2, 0.05])
    ctx.count("per_feature_settings", not np.isscalar(ps) or not np.isscalar(ss))
    ctx.note(shape=U.shape, share=ps, sigma=ss)
    U0, V0 = U.copy(), V.copy()
    with ctx.quiet():
        p = Perturbation(V, U, factors=2, random_seed=int(rng.integers(1000)), perturb_percent=ps, sigma=ss)
        seen = []
        for seed in rng.choice(100000, 3, replace=False):
            u, m = p.perturb(int(seed))
            judge_matrix(ctx, U, u, m, share, sigma)
            u2, m2 = Perturbation(V, U, factors=2, random_seed=int(rng.integers(1000)), perturb_percent=ps, sigma=ss).perturb(int(seed))
            ctx.check(np.array_equal(u, u2) and np.array_equal(m, m2), "not-reproducible", f"seed {seed}")
            seen.append(m)
            ctx.check(np.array_equal(U, U0) and np.array_equal(V, V0), "input-modified", "")
        if (share * sigma * U.shape[0]).sum() > 30:
            ctx.check(not np.array_equal(seen[0], seen[1]) and not np.array_equal(seen[1], seen[2]), "same-matrix", "different seeds give the same matrix")
        ctx.check(all(np.array_equal(p.perturb(int(s))[1], p.perturb(int(s))[1]) for s in (1, 2)), "not-reproducible", "")
    ctx.distinct((U.shape, str(ps), str(ss)))


def shares(W, H):
    return np.asarray(W, float) / np.asarray(W, float).sum(axis=1, keepdims=True), np.asarray(H, float) / np.asarray(H, float).sum(axis=0)


def judge_comparison(ctx, p, method):
    base, models = p.base_model, p.perturbed_models
    k = base.factors
    bW, bH = shares(base.W, base.H)
    ctx.require(sorted(p.perturb_mapping) == sorted(p.perturb_correlations) == list(range(len(models))), "mapping-models", "")
    pH, pW = [], []
    for i, m in enumerate(models):
        got = [int(x) for x in p.perturb_mapping[i]]
        ctx.require(sorted(got) == list(range(k)), "mapping-not-one-to-one", f"{got}")
        t = oracle_v2(base, m)[method]
        ctx.check(near(p.perturb_correlations[i], [t[j, got[j]] for j in range(k)], 6e-5, 1e-4), "mapping-values", f"{method}: {p.perturb_correlations[i]}")
        ident = sum(t[j, j] for j in range(k))
        mine = sum(t[j, got[j]] for j in range(k))
        ctx.check(mine <= ident + 1e-4 if method == "raae" else mine >= ident - 1e-4, "mapping-worse", f"{method}: {mine} against {ident} unpermuted")
        W, H = shares(m.W, m.H)
        pH.append(H[got])
        pW.append(W[:, got].T)
    pH, pW = np.dstack(pH), np.dstack(pW)
    ctx.check(near(p.perturb_H, pH, 1e-5, 1e-4), "mapped-profiles", "")
    ctx.check(near(p.perturb_W, pW, 1e-5, 1e-4), "mapped-contributions", "")
    q = np.mean([np.percentile(m, [1, 25, 50, 75, 99]) for m in p.perturbed_multipliers], axis=0)
    ctx.check(near([float(p.multiplier_stats[x]) for x in ("first", "25th", "50th", "75th", "99th")], q, 1e-12, 1e-9), "multiplier-statistics", f"{p.multiplier_stats}")
    ctx.check(p.multiplier_stats["sigma"] is p.sigma or np.array_equal(p.multiplier_stats["sigma"], p.sigma), "multiplier-statistics", "sigma")
    df = p.perturbed_H_df
    ctx.require(df.shape == (k * base.H.shape[1], 6), "profile-table", f"{df.shape}")
    for i in range(k):
        d = df.loc[f"Factor {i + 1}"]
        ctx.check(list(d.index) == [f"Feature {j + 1}" for j in range(base.H.shape[1])], "profile-table", f"{list(d.index)}")
        mean = pH[i].mean(axis=1)
        for c, want in (("Base", bH[i]), ("Mean Perturb", mean), ("STD Perturb", pH[i].std(axis=1)), ("Min Perturb", pH[i].min(axis=1)), ("Max Perturb", pH[i].max(axis=1))):
            ctx.check(near(d[c], want, 1e-5, 1e-4), "profile-table", f"factor {i + 1}: {c}")
        clear = (mean > 1e-3) & (bH[i] > 1e-3)
        pct = 100 * (mean - bH[i]) / ((mean + bH[i]) / 2)
        ctx.check(near(d["% diff"].to_numpy()[clear], pct[clear], 2e-1, 1e-3), "profile-table", f"factor {i + 1}: % diff")
    return pH, pW, bH, bW


def judge_figures(ctx, p, pH, pW, bH, bW):
    k = p.base_model.factors
    names = [f"Factor {i + 1}" for i in range(k)]
    f1, f2, f3 = (getattr(p, n)(return_figure=True) for n in ("plot_norm_perturb_contributions", "plot_average_source_contributions", "plot_correlation_metrics"))
    d = {t.name: t for t in f1.data}
    ctx.check(list(d["Perturbed W"].x) == names == list(d["Base W"].x) and near(d["Perturbed W"].y, 100 * pW.mean(axis=(1, 2)), 1e-3, 1e-4)
              and near(d["Base W"].y, 100 * bW.mean(axis=0), 1e-3, 1e-4), "figure-contributions", "")
    d = {t.name: t for t in f2.data}
    ctx.check(all(near(np.sort(d[names[i]].y), np.sort(pW[i].mean(axis=0)), 1e-5, 1e-4) for i in range(k)) and near(d["Base"].y, bW.mean(axis=0), 1e-5, 1e-4),
              "figure-average", "")
    corr = np.array([p.perturb_correlations[i] for i in range(len(p.perturbed_models))], float)
    d = {t.name: t for t in f3.data}
    ctx.check(all(near(np.sort(d[names[i]].y), np.sort(corr[:, i]), 1e-9) for i in range(k)) and near([s.y0 for s in f3.layout.shapes], [corr.mean()], 1e-9), "figure-correlation", "")
    ctx.check(f3.layout.yaxis.title.text == p.compare_method.upper(), "figure-correlation", f"{f3.layout.yaxis.title.text}")
    ctx.count("figures", 3)
    for i in range(k):
        f = p.plot_perturbed_factor(i, return_figure=True)
        d = {t.name: t for t in f.data}
        ctx.count("figures")
        ctx.check(all(near(np.sort(d[f"Feature {j + 1}"].y), np.sort(pH[i, j]), 1e-5, 1e-4) for j in range(pH.shape[1])) and near(d["Base"].y, bH[i], 1e-5, 1e-4), "figure-factor", f"factor {i}")
    with shown() as figs:
        p.plot_perturbed_factor(0)
        out = p.plot_perturbed_factor(k, return_figure=True)
    for i, name in enumerate(("plot_norm_perturb_contributions", "plot_average_source_contributions", "plot_correlation_metrics")):
        with shown() as again:
            getattr(p, name)()
        ctx.check(len(again) == 1 and again[0].to_dict().keys() == (f1, f2, f3)[i].to_dict().keys() and again[0].to_json() == (f1, f2, f3)[i].to_json(),
                  "figure-shown", f"{name}: {len(again)} figures shown, or another one than the one returned")
    ctx.check(len(figs) == 1 and out is None, "figure-factor", f"{len(figs)} shown, {out} for an index out of range")


def analysis(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 5))
    V, U, kind, k = gen.dataset(rng, m=int(rng.integers(8, 20)), n=int(rng.integers(k + 1, 8)), k=k, kind=["lowrank", "noisy", "tiny", "large", "spiky"][rng.integers(5)])
    ps, share = spec(rng, U.shape[1], [1.0, 0.5, 0.2])
    ss, sigma = spec(rng, U.shape[1], [0.33, 0.1, 1])
    method = "ls-nmf" if rng.random() < 0.75 else "ws-nmf"
    own = rng.random() < 0.3
    compare = ["raae", "emc", "corr"][rng.integers(3)]
    kw = dict(max_iterations=int(rng.integers(1, 60)), converge_n=int(rng.integers(2, 10)), converge_delta=float(rng.choice([0.0, 0.01, 1.0])))
    seed = int(rng.integers(10000))
    delay = 0.3 if rng.random() < 0.3 else 0.0
    n_models = int(rng.integers(1, 9))
    ctx.note(kind=kind, shape=V.shape, factors=k, method=method, share=ps, sigma=ss, models=n_models, compare=compare, own_base=own, delay=delay, **kw)
    V0, U0 = V.copy(), U.copy()
    with ctx.quiet(), limited(ctx, 120, "perturbation analysis"):
        base = None
        if not own:
            base = SA(V=V, U=U, factors=k, seed=3, method=method)
            base.initialize()
            base.train(max_iter=80)
            bW, bH = np.array(base.W, copy=True), np.array(base.H, copy=True)
        p = Perturbation(V, U, factors=k, base_model=base, method=method if own else "ls-nmf", random_seed=seed, perturb_percent=ps, sigma=ss, models=n_models,
                         compare_method=compare, **kw)
        ctx.check(p.method == method, "method", f"{p.method}, base trained with {method}")
        ctx.check(all(getattr(p, n)(return_figure=True) is None for n in ("plot_norm_perturb_contributions", "plot_average_source_contributions",
                                                                         "plot_correlation_metrics")) and p.plot_perturbed_factor(0) is None, "figure-before-comparison", "")
        with TrainLog(str(ctx.scratch), delay) as log:
            p.run()
        recs = [r for r in log.records() if int(r["pid"]) != os.getpid()]
        local = [r for r in log.records() if int(r["pid"]) == os.getpid()]
        ctx.count("trainings_logged", len(recs))
        if own:
            ctx.count("own_base")
            ctx.require(len(local) == 1 and p.base_model is not None and p.base_model.Qtrue is not None, "base", f"{len(local)} base trainings")
            ctx.check(near(local[0]["U"], U, 0, 1e-6), "base", "the base was not trained with the original uncertainty")
            bW, bH = np.array(p.base_model.W, copy=True), np.array(p.base_model.H, copy=True)
        ctx.check((own or p.base_model is base) and np.array_equal(p.base_model.W, bW) and np.array_equal(p.base_model.H, bH), "base-modified", "")
        ctx.check(np.array_equal(V, V0) and np.array_equal(U, U0), "input-modified", "")
        ctx.require(len(p.perturbed_models) == len(p.perturbed_multipliers) == len(recs) == n_models, "model-count", f"{len(p.perturbed_models)} models, {len(recs)} trainings, asked {n_models}")
        for i, (m, mult) in enumerate(zip(p.perturbed_models, p.perturbed_multipliers)):
            ch = judge_matrix(ctx, U, U * mult, mult, share, sigma)
            ctx.check(near(m.U, U * mult, 0, 1e-5) and near(m.V, V, 0, 1e-5), "model-data", f"model {i} was not given the matrix of its multipliers")
            mine = [r for r in recs if near(r["U"], U * mult, 0, 1e-5)]
            ctx.require(len(mine) >= 1, "training-data", f"no training used the matrix of model {i}")
            r = mine[0]
            ctx.check(any(np.array_equal(r["W"], m.W) and np.array_equal(r["H"], m.H) for r in mine), "model-result", f"model {i} is not the result of the training with its matrix")
            s = 1e-6 * np.abs(bW).max(), 1e-6 * np.abs(bH).max()
            ctx.check(near(r["W0"], bW, s[0], 1e-5) and near(r["H0"], bH, s[1], 1e-5), "start", f"model {i} does not start from the base solution")
            ctx.check(str(r["method"]) == method and int(r["k"]) == k, "training-method", f"{r["method"]} with {r["k"]} factors")
            ctx.check(int(r["steps"]) <= kw["max_iterations"], "iterations", f"{r["steps"]} of {kw["max_iterations"]}")
            ctx.check(m.metadata.get("max_iterations") == kw["max_iterations"] and m.metadata.get("converge_n") == kw["converge_n"]
                      and m.metadata.get("converge_delta") == kw["converge_delta"], "training-settings", f"model {i}: {m.metadata}")
            q = gen.wq(V, U * mult, m.W, m.H)
            ctx.check(abs(m.Qtrue - q) <= 1e-4 * q + 3 * gen.wq_noise(V, U * mult, m.W, m.H, 1e-6), "loss", f"model {i}: {m.Qtrue} against {q}")
            ctx.distinct((i, int(ch.sum()), V.shape))
        if n_models > 1 and (share * sigma * U.shape[0]).sum() > 30:
            ctx.check(not any(np.array_equal(p.perturbed_multipliers[0], x) for x in p.perturbed_multipliers[1:]), "same-matrix", "two models got the same matrix")
        if rng.random() < 0.3:
            p2 = Perturbation(V, U, factors=k, base_model=p.base_model, random_seed=seed, perturb_percent=ps, sigma=ss, models=n_models, **kw)
            p2.run()
            ctx.check(all(np.array_equal(a, b) for a, b in zip(p.perturbed_multipliers, p2.perturbed_multipliers)), "run-not-reproducible", "multipliers")
            ctx.require(len(p2.perturbed_models) == len(p2.perturbed_multipliers) == n_models, "model-count", f"{len(p2.perturbed_models)} models, asked {n_models}")
            ctx.check(all(near(a.W, b.W, 1e-5 * np.abs(a.W).max(), 1e-4) for a, b in zip(p.perturbed_models, p2.perturbed_models)), "run-not-reproducible", "models")
        if rng.random() < 0.5:
            # a second run replaces the first
            ctx.count("second_runs")
            p.run()
            ctx.require(len(p.perturbed_models) == len(p.perturbed_multipliers) == n_models, "model-count", f"second run: {len(p.perturbed_models)} models and "
                        f"{len(p.perturbed_multipliers)} matrices, asked {n_models}")
            for i, (m, mult) in enumerate(zip(p.perturbed_models, p.perturbed_multipliers)):
                judge_matrix(ctx, U, U * mult, mult, share, sigma)
                ctx.check(near(m.U, U * mult, 0, 1e-5) and near(m.V, V, 0, 1e-5), "model-data", f"second run: model {i} was not given the matrix of its multipliers")
        if method != "ls-nmf" or any((m.H.sum(axis=0) <= 1e-9).any() or (m.W.sum(axis=1) <= 1e-9).any() or (m.W.sum(axis=0) <= 1e-9).any() or np.asarray(m.H).std(axis=1).min() <= 1e-7
                                     or np.asarray(m.W).std(axis=0).min() <= 1e-7 for m in p.perturbed_models + [p.base_model]):
            return
        ctx.count("compared")
        if rng.random() < 0.6:
            for m in p.perturbed_models:
                order = rng.permutation(k)
                m.W, m.H = np.ascontiguousarray(np.asarray(m.W)[:, order]), np.ascontiguousarray(np.asarray(m.H)[order])
                ctx.count("longer_cycles", (order[order] != np.arange(k)).any())
        p.compare()
        judge_comparison(ctx, p, compare)
        other = ["raae", "emc", "corr", "RAAE"][rng.integers(4)]
        p.compare(compare_method=other)
        ctx.check(p.compare_method == other.lower(), "compare-method", f"{p.compare_method} for {other}")
        r = judge_comparison(ctx, p, other.lower())
        judge_figures(ctx, p, *r)


SCENARIOS = [Scenario("matrix", matrix, 80, 3000), Scenario("analysis", analysis, 25, 400)]
