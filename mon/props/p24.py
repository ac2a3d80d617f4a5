"""P24: simulated datasets obey their generating model."""
import numpy as np
import pandas as pd

from mon import gen, ref
from mon.core import Scenario
from mon.props.p17 import near, shown
try:
    from esat_eval.simulator import Simulator
except ModuleNotFoundError:
    from eval.simulator import Simulator

TECHNIQUE = "runtime monitoring of simulator histories against a statistical oracle for the generating model"
NOTE = ("After every operation of a random history of updates the exposed data are explained from the exposed factors: every cell must be "
        "the product, changed only by noise and outliers of the requested size, with requested shares (6.5 sigma). Sampled configurations.")
RULE = "each case is one simulator with a random configuration and history of updates; distinct by (dimensions, noise, outliers, curves, profiles)"
ASSUMPTIONS = ["statistics are judged at 6.5 sigma, so a correct generator alarms about once in 1e10 evaluations"]
REQUIRED = {"datasets_explained": 150, "cells": 100000, "outlier_cells": 1500, "curves": 150, "custom_profiles": 20, "reloaded": 20,
            "repeats": 25, "single_factor": 4}
SIG = 6.5


def mean_between(ctx, x, lo, hi, sd, kind, what):
    """mean of a normal sample whose own mean is somewhere in [lo, hi]"""
    n = len(x)
    if n < 8:
        return
    m, e = float(np.mean(x)), SIG * sd / np.sqrt(n) + 1e-9 * max(abs(lo), abs(hi), 1e-3)
    ctx.check(lo - e <= m <= hi + e, kind, f"{what}: mean {m} outside [{lo}, {hi}] (sigma {sd})")
    if n >= 60 and sd > 0:
        s = float(np.std(x, ddof=1))
        ctx.check(abs(s - sd) <= SIG * sd / np.sqrt(2 * n) * 1.3, kind + "-spread", f"{what}: spread {s} for sigma {sd}")


def explain(ctx, sim, c):
    """the offline oracle: exposed data against exposed factors"""
    W, H = sim.syn_contributions_df.to_numpy(), sim.syn_profiles_df.to_numpy().T
    D, U = sim.syn_data_df.to_numpy(), sim.syn_uncertainty_df.to_numpy()
    m, n = D.shape
    ctx.count("datasets_explained")
    ctx.count("cells", D.size)
    ctx.check(W.shape == (c["samples_n"], c["factors_n"]) and H.shape == (c["factors_n"], c["features_n"]) and D.shape == U.shape == (c["samples_n"], c["features_n"]),
              "shapes", f"{W.shape} {H.shape} {D.shape} {U.shape}")
    ctx.check(np.isfinite(D).all() and np.isfinite(U).all() and (D > 0).all() and (U > 0).all() and (W >= 0).all() and (H > 0).all(), "not-positive", "")
    ctx.check(np.array_equal(W, sim.syn_contributions) and np.array_equal(H, sim.syn_profiles) and np.array_equal(D, sim.syn_data)
              and np.array_equal(U, sim.syn_uncertainty), "frames-differ", "the frames are not the matrices of the simulator")
    base = W @ H
    ratio = D / base
    b = c["noise_mean_max"] + SIG * c["noise_scale"]
    mag = c["outlier_mag"]
    groups = [1.0, mag, 1.0 / mag] if c["outliers"] else [1.0]
    tiny = D <= 2e-12
    err = np.min([np.abs(ratio / g - 1) for g in groups], axis=0)
    ctx.check((err[~tiny] <= b + 1e-9).all(), "data-not-explained", f"relative distance {err[~tiny].max():.3g} from the product of the factors, noise up to {b:.3g}")
    if b < 0.9 * (1 - 1 / mag) / (1 + 1 / mag) if c["outliers"] else True:
        which = np.argmin([np.abs(ratio / g - 1) for g in groups], axis=0)
        rel = ratio / np.array(groups)[which] - 1
        if c["outliers"]:
            p = c["outlier_p"] / 2
            up, down = int((which == 1).sum()), int((which == 2).sum())
            ctx.count("outlier_cells", up + down)
            e = SIG * np.sqrt(D.size * p * (1 - p)) + 1
            ctx.check(abs(up - p * D.size) <= e and abs(down - p * D.size) <= e, "outlier-share", f"{up} raised and {down} lowered cells of {D.size}, expected {p * D.size:.1f} each")
        neg = int((rel < 0).sum())
        if c["noise_mean_min"] > 0 or c["noise_scale"] > 0:
            ctx.check(abs(neg - D.size / 2) <= SIG * np.sqrt(D.size) / 2 + 1, "noise-sign", f"{neg} of {D.size} cells have negative noise")
        if c["noise_mean_min"] >= 5 * c["noise_scale"]:
            for j in range(n):
                mean_between(ctx, np.abs(rel[:, j]), c["noise_mean_min"], c["noise_mean_max"], c["noise_scale"], "noise-size", f"noise of feature {j}")
    un = U / D
    lost = (U == 1e-4)
    if c["uncertainty_mean_min"] > SIG * c["uncertainty_scale"]:
        ctx.check((un >= c["uncertainty_mean_min"] - SIG * c["uncertainty_scale"] - 1e-12).all()
                  and (un <= c["uncertainty_mean_max"] + SIG * c["uncertainty_scale"] + 1e-12).all(), "uncertainty-range", f"{un.min()}..{un.max()}")
        for j in range(n):
            mean_between(ctx, un[:, j], c["uncertainty_mean_min"], c["uncertainty_mean_max"], c["uncertainty_scale"], "uncertainty-size", f"uncertainty of feature {j}")
    else:
        ctx.check((un[~lost] <= c["uncertainty_mean_max"] + SIG * c["uncertainty_scale"] + 1e-12).all(), "uncertainty-range", f"{un[~lost].max()}")
    t = pd.DatetimeIndex(sim.syn_data_df.index)
    ctx.check(len(t) == m and (np.diff(t.to_numpy()) == np.timedelta64(1, "m")).all() and sim.syn_data_df.index.equals(sim.syn_uncertainty_df.index),
              "time-steps", f"{t[:3]}")
    ctx.check(list(sim.syn_data_df.columns) == [f"Feature {i + 1}" for i in range(n)] == list(sim.syn_uncertainty_df.columns)
              and list(sim.syn_profiles_df.columns) == [f"Factor {i + 1}" for i in range(H.shape[0])] == list(sim.syn_contributions_df.columns), "labels", "")
    sa = sim.syn_sa
    ctx.check(near(sa.V, D, 1e-30, 1e-6) and near(sa.U, U, 1e-12, 1e-6) and near(sa.W, W, 1e-30, 1e-6) and near(sa.H, H, 1e-30, 1e-6)
              and near(sa.WH, base, 1e-30, 1e-5), "synthetic-solution", "matrices differ")
    q, r = gen.wq(sa.V, sa.U, W, H), ref.qrobust(sa.V, sa.U, W, H, 4.0)
    ctx.check(abs(float(sa.Qtrue) - q) <= 1e-4 * q + 1e-6 and abs(float(sa.Qrobust) - r) <= 1e-4 * r + 1e-6, "synthetic-solution-loss", f"{sa.Qtrue} {sa.Qrobust} against {q} {r}")


def default_factors(ctx, sim, c):
    H, W = sim.syn_profiles, sim.syn_contributions
    k = c["factors_n"]
    used = (H > 1e-12).sum(axis=0)
    ctx.check((H < 1).all() and (used >= 1).all() and (used <= max(1, k - 1)).all(), "default-profiles", f"{used.min()}..{used.max()} of {k} factors per feature")
    ctx.check((W >= 0).all() and (W <= c["contribution_max"]).all() and W.max() > 0.7 * c["contribution_max"], "default-contributions", f"{W.min()}..{W.max()}")
    mean = W.mean()
    ctx.check(abs(mean - c["contribution_max"] / 2) <= SIG * c["contribution_max"] / np.sqrt(12 * W.size), "default-contributions", f"mean {mean}")


def curve(ctx, sim, c, i, kw):
    """the curve without scatter, then with it"""
    ctx.count("curves")
    lo, hi = sorted((kw["minimum"], kw["maximum"]))
    others = [j for j in range(c["factors_n"]) if j != i]
    before = sim.syn_contributions[:, others].copy()
    exact = dict(kw, scale=0.0)
    sim.update_contribution(factor_i=i, **exact)
    y = sim.syn_contributions[:, i].copy()
    m = len(y)
    eps = 1e-9 * max(1.0, hi)
    ctx.check((y >= lo - eps).all() and (y <= hi + eps).all(), "curve-bounds", f"{kw}: {y.min()}..{y.max()}")
    kind, span = kw["curve_type"], hi - lo
    if kind in ("increasing", "decreasing"):
        want = np.linspace(lo, hi, m)
        ctx.check(near(y, want if kind == "increasing" else want[::-1], eps, 1e-9), "curve-shape", f"{kw}: {y[:3]}..{y[-3:]}")
    elif kind in ("logistic", "periodic"):
        periods = int(1 / kw["frequency"]) + 1
        if m >= 12 * periods:
            hit = (y > hi - 0.2 * span).any() and (y < lo + 0.2 * span).any()
            ctx.check(hit, "curve-shape", f"{kw}: range {y.min()}..{y.max()}")
            turns = int((np.diff((y > lo + 0.5001 * span).astype(int)) != 0).sum())
            if kind == "logistic":
                ctx.check(y[0] < lo + 0.1 * span and periods <= turns <= periods + 1, "curve-shape", f"{kw}: {turns} crossings for {periods} rises and falls")
            else:
                peaks = int(((y > lo + 0.75 * span)[1:] & ~(y > lo + 0.75 * span)[:-1]).sum())
                ctx.check(periods <= peaks <= periods * 12 / 11 + 2, "curve-shape", f"{kw}: {peaks} peaks for {periods} periods")
    else:
        ctx.check(abs(y.mean() - (lo + hi) / 2) <= SIG * span / np.sqrt(12 * m) and (m < 60 or y.max() - y.min() > 0.8 * span), "curve-shape", f"{kw}: mean {y.mean()}")
    sim.update_contribution(factor_i=i, **kw)
    z = sim.syn_contributions[:, i]
    s = kw["scale"]
    ctx.check((z > 0).all(), "curve-not-positive", f"{kw}")
    if kind in ("logistic", "periodic", "increasing", "decreasing"):
        ctx.check((np.abs(z - np.maximum(y, 1e-12)) <= SIG * s + eps).all(), "curve-scatter", f"{kw}: {np.abs(z - y).max()}")
        free = y > SIG * s
        if s > 0 and free.sum() >= 60:
            mean_between(ctx, (z - y)[free], 0.0, 0.0, s, "curve-scatter", f"{kw}")
    else:
        ctx.check((z >= max(lo - SIG * s, 0)).all() and (z <= hi + SIG * s + eps).all(), "curve-scatter", f"{kw}: {z.min()}..{z.max()}")
    ctx.check(np.array_equal(before, sim.syn_contributions[:, others]), "other-contributions-changed", f"{kw}")


def custom(ctx, sim, c):
    rng = ctx.rng
    ctx.count("custom_profiles")
    k, n = c["factors_n"], c["features_n"]
    rows = int(rng.integers(1, k + 1))
    P = rng.random((rows, n)) * 5
    P[rng.random(P.shape) < 0.2] = 0.0
    P0 = P.copy()
    sim.generate_profiles(P)
    ctx.check(np.array_equal(P, P0), "custom-profile-modified", "the matrix of the caller changed")
    ctx.check(np.array_equal(sim.syn_profiles[:rows], np.where(P0 <= 0, 1e-12, P0)), "custom-profile", f"{rows} of {k} profiles")
    ctx.check((sim.syn_profiles > 0).all() and sim.syn_profiles.shape == (k, n), "custom-profile", "")
    P += 1.0
    ctx.check(np.array_equal(sim.syn_profiles[:rows], np.where(P0 <= 0, 1e-12, P0)), "custom-profile-shared", "later changes of the matrix reach the simulator")


def config(rng):
    noise = [(0.0, 0.0, 0.0), (0.1, 0.12, 0.02), (0.03, 0.05, 0.005), (0.02, 0.02, 0.0), (0.2, 0.3, 0.05)][rng.integers(5)]
    unc = [(0.05, 0.05, 0.005), (0.04, 0.06, 0.001), (0.05, 0.05, 0.03), (0.1, 0.3, 0.0)][rng.integers(4)]
    return dict(seed=int(rng.integers(1 << 20)), factors_n=int(rng.integers(1, 7)), features_n=int(rng.integers(2, 15)), samples_n=int(rng.integers(20, 160)),
                outliers=bool(rng.random() < 0.7), outlier_p=float(rng.choice([0.0, 0.1, 0.3, 0.04])), outlier_mag=float(rng.choice([1.5, 2.0, 5.0])),
                contribution_max=int(rng.choice([1, 10, 200])), noise_mean_min=noise[0], noise_mean_max=noise[1], noise_scale=noise[2],
                uncertainty_mean_min=unc[0], uncertainty_mean_max=unc[1], uncertainty_scale=unc[2], verbose=bool(rng.random() < 0.1))


def saved(ctx, sim):
    ctx.count("reloaded")
    out = str(ctx.scratch)
    ctx.require(sim.save(sim_name="s", output_directory=out) is True, "save", "")
    for name, df, kw in (("data", sim.syn_data_df, {"index_col": 0}), ("uncertainty", sim.syn_uncertainty_df, {"index_col": 0}),
                         ("profiles", sim.syn_profiles_df, {"index_col": 0}), ("contributions", sim.syn_contributions_df, {"index_col": 0})):
        got = pd.read_csv(f"{out}/s_{name}.csv", **kw)
        ctx.check(list(got.columns) == list(df.columns) and near(got.to_numpy(), df.to_numpy(), 1e-300, 1e-12), "saved-file", name)
        if name in ("data", "uncertainty"):
            ctx.check(list(pd.to_datetime(got.index, format="mixed")) == list(df.index), "saved-file", f"{name} dates")
    other = Simulator.load(f"{out}/esat_simulator.pkl")
    ctx.require(isinstance(other, Simulator), "load", f"{other}")
    ctx.check(other.syn_data_df.equals(sim.syn_data_df) and other.syn_uncertainty_df.equals(sim.syn_uncertainty_df)
              and other.syn_profiles_df.equals(sim.syn_profiles_df) and other.syn_contributions_df.equals(sim.syn_contributions_df), "load", "")
    ctx.check(sim.save(output_directory="rel") is False and sim.save(output_directory=out + "/none") is False
              and Simulator.load("rel.pkl") is None and Simulator.load(out + "/no.pkl") is None, "save-refusal", "")
    a, b = sim.get_data(), other.get_data()
    ctx.check(all(x.equals(y) for x, y in zip(a, b)), "load", "the loaded simulator continues differently")


def history(ctx, c, ops):
    sim = Simulator(**c)
    for op in ops:
        op(sim)
    return sim


def simulate(ctx):
    rng = ctx.rng
    c = config(rng)
    ctx.count("single_factor", c["factors_n"] == 1)
    curves = []
    with ctx.quiet():
        sim = Simulator(**c)
        default_factors(ctx, sim, c)
        log = []
        if rng.random() < 0.15:
            saved(ctx, sim)
        for _ in range(int(rng.integers(1, 6))):
            op = ["data", "curve", "curve", "profiles", "profiles-again"][rng.integers(5)]
            log.append(op)
            if op == "data":
                df = sim.get_data()
                ctx.check(df[0] is sim.syn_data_df and df[1] is sim.syn_uncertainty_df, "get-data", "")
                explain(ctx, sim, c)
            elif op == "curve":
                lo, hi = rng.choice([0.1, 0.3, 1.0, 2.5, 40.0], 2, replace=False)
                kw = dict(curve_type=str(rng.choice(["uniform", "increasing", "decreasing", "logistic", "periodic", "unknown"])), scale=float(rng.choice([0.0, 0.01, 0.1])),
                          frequency=float(rng.choice([0.5, 0.1, 0.25, 1.0, 2.0, 0.34, 0.05])), minimum=float(lo), maximum=float(hi))
                curves.append(kw["curve_type"])
                fresh = sim.syn_data is not None
                curve(ctx, sim, c, int(rng.integers(c["factors_n"])), kw)
                if fresh:
                    explain(ctx, sim, c)
            elif op == "profiles":
                custom(ctx, sim, c)
                sim.get_data()
                explain(ctx, sim, c)
            else:
                sim.generate_profiles()
                sim.get_data()
                explain(ctx, sim, c)
        ctx.note(operations=log, curves=curves, **c)
        sim.get_data()
        explain(ctx, sim, c)
        if rng.random() < 0.25:
            saved(ctx, sim)
            explain(ctx, sim, c)
        with shown() as figs:
            sim.plot_synthetic_contributions()
        ctx.require(len(figs) == 1 and len(figs[0].data) == c["factors_n"], "figure", "")
        for i, t in enumerate(figs[0].data):
            ctx.check(near(t.y, sim.syn_contributions[:, i], 1e-30, 1e-9) and t.name == f"Factor {i + 1}", "figure", f"factor {i}")
    ctx.distinct((c["factors_n"], c["features_n"], c["samples_n"], c["outliers"], c["noise_mean_min"], tuple(curves)))


def repeat(ctx):
    rng = ctx.rng
    ctx.count("repeats")
    c = config(rng)
    i = int(rng.integers(c["factors_n"]))
    kind = str(rng.choice(["uniform", "logistic", "increasing", "periodic"]))
    P = rng.random((c["factors_n"], c["features_n"])) if rng.random() < 0.5 else None

    def run(seed, disturb):
        if disturb:
            np.random.seed(disturb)
            np.random.random(5)
        sim = Simulator(**dict(c, seed=seed))
        sim.update_contribution(i, kind, scale=0.05)
        first = [x.copy() for x in sim.get_data()]
        sim.generate_profiles(P)
        second = [x.copy() for x in sim.get_data()]
        return [x.to_numpy() for x in first + second] + [sim.syn_contributions.copy(), sim.syn_profiles.copy()]
    with ctx.quiet():
        a, b, d = run(c["seed"], 1), run(c["seed"], 2), run(c["seed"] + 1, 1)
    ctx.note(curve=kind, **c)
    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)), "not-reproducible", "the same seed and calls give other data")
    ctx.check(not np.array_equal(a[0], d[0]) and not np.array_equal(a[4], d[4]), "seed-ignored", "another seed gives the same data")
    ctx.distinct(("repeat", kind, c["factors_n"], c["seed"]))


SCENARIOS = [Scenario("simulate", simulate, 150, 4000), Scenario("repeat", repeat, 30, 500)]
