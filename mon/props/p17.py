"""P17: bootstrap tables, intervals and figures are the statistics of the runs, whatever order they finish in."""
import contextlib
import json

import numpy as np
import pandas as pd

from mon import gen
from mon.core import Scenario
from mon.instr import Delays, limited, patched
from mon.props.p09 import same_model
from mon.props.p16 import base, check_table, same_snap, snap
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap

TECHNIQUE = "offline checking of recorded tables and figures against the observed runs, with injected worker delays"
NOTE = ("Every collected profile, contribution, table cell and plotted box is recomputed from the runs' own models; parallel runs "
        "under forced finishing orders are compared with the sequential run of the same seed. Sampled runs and orders.")
RULE = ("each case runs a bootstrap (sequential or parallel with a drawn finishing order) and recomputes its tables, shown "
        "figures and saved files; distinct by (mode, runs, factors, features, finishing order)")
ASSUMPTIONS = ["worker processes are forked, so the injected delays reach them", "figures are captured at plotly's show"]
REQUIRED = {"runs_aggregated": 150, "tables_checked": 60, "parallel_runs": 6, "forced_orders": 6, "saved": 10, "run_twice": 12, "runs_beyond_nine": 1, "boxes_checked": 200}


@contextlib.contextmanager
def shown():
    """captures the figures the code shows"""
    import plotly.basedatatypes as bd
    figs = []
    with patched(bd.BaseFigure, "show", lambda self, *a, **k: figs.append(self)):
        yield figs


def cells(fig):
    t = fig.data[0]
    return dict(zip([str(x) for x in t.header.values], [list(x) if np.ndim(x) else [x] for x in t.cells.values]))


def near(a, b, atol, rtol=1e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b)))


def aggregate(ctx, b, sa):
    k = sa.factors
    keys = list(b.bs_results)
    ctx.check(keys == sorted(keys), "run-order", f"{keys}")
    models = [b.bs_results[i]["model"] for i in sorted(keys)]
    ctx.count("runs_aggregated", len(models))
    q = np.asarray(b.q_results, float).ravel()
    ctx.check(near(q, [float(m.Qrobust) for m in models], 0, 1e-6), "q-results", f"{q} against {[float(m.Qrobust) for m in models]}")
    for f in range(k):
        H = np.array([np.asarray(m.H, np.float64) for m in models])
        with np.errstate(all="ignore"):
            share = H[:, f] / H.sum(axis=1)
        mass = np.array([np.asarray(m.W, np.float64)[:, f].sum() * np.asarray(m.H, np.float64)[f] for m in models])
        ctx.check(near(b.factor_tables[f], H[:, f], 1e-4), "collected-profile", f"factor {f}")
        ctx.check(near(b.bs_profiles[f], share, 1e-4), "collected-share", f"factor {f}")
        size = np.array([np.abs(np.asarray(m.W, np.float64)[:, f]).sum() * np.asarray(m.H, np.float64)[f] for m in models])
        ctx.check(near(b.bs_factor_contributions[f], np.maximum(mass, 0), 1e-4 + 1e-5 * size, 2e-4), "collected-contribution", f"factor {f}")


def tables(ctx, b, sa):
    k = sa.factors
    H = np.array([np.asarray(b.bs_results[i]["model"].H, np.float64) for i in b.bs_results])
    n = len(H)
    base_H, base_W = np.array(sa.H, np.float64), np.array(sa.W, np.float64)
    labels = [str(x) for x in b.feature_labels]
    with shown() as figs:
        b.show_mapping_table()
        b.show_q_table()
        for f in range(k):
            b.show_factor_results(f + 1)
            b.plot_results(f + 1)
        b.show_factor_results(k + 1)
        b.plot_results(0)
    ctx.require(len(figs) == 2 + 3 * k, "figures-shown", f"{len(figs)} for {k} factors")
    with shown() as more:
        b.summary()
    for c, d in zip(more, figs[:2] + figs[2::3]):
        ctx.check(c.data[0].type == "table" and str(cells(c)) == str(cells(d)), "summary", "another table than that of its factor")
    ctx.check(len(more) == 2 + k, "summary", f"{len(more)} tables for {k} factors")
    c = cells(figs[0])
    ctx.check(all(list(c[str(n)]) == list(b.mapping_df[n]) for n in b.mapping_df.columns), "mapping-table-shown", str(c)[:300])
    q = np.array([float(b.bs_results[i]["model"].Qrobust) for i in b.bs_results])
    want = [float(sa.Qrobust), q.min(), *np.quantile(q, [0.25, 0.5, 0.75]), q.max()]
    got = [float(np.ravel(x)[0]) for x in cells(figs[1]).values()]
    ctx.check(near(got, want, 0.51, 1e-6), "q-table", f"{got} against {want}")
    for f in range(k):
        c = cells(figs[2 + 3 * f])
        ctx.count("tables_checked")
        X = np.round(H[:, f], 4)
        X[X < 1e-5] = 0
        tol = 1.2e-4
        ctx.check([str(x) for x in c["features"]] == labels, "factor-table", "labels")
        for name, v in (("BS Mean", X.mean(axis=0)), ("BS 5th", np.quantile(X, .05, axis=0)), ("BS 25th", np.quantile(X, .25, axis=0)),
                        ("BS Median", np.median(X, axis=0)), ("BS 75th", np.quantile(X, .75, axis=0)), ("BS 95th", np.quantile(X, .95, axis=0)),
                        ("Base Run Profile", base_H[f])):
            ctx.check(near(c[name], v, tol), f"factor-table:{name}", f"factor {f}: {c[name]} against {v}")
        if n > 1:
            ctx.check(near(c["BS Std. Dev."], X.std(axis=0, ddof=1), tol, 1e-3), "factor-table:BS Std. Dev.", f"factor {f}: {c['BS Std. Dev.']}")
        lo, hi = np.quantile(X, .25, axis=0), np.quantile(X, .75, axis=0)
        inside, margin = (base_H[f] >= lo) & (base_H[f] <= hi), 2 * tol + 1e-4 * np.abs(base_H[f])
        none = (base_H[f] < 9e-6) & (H[:, f].max(axis=0) < 4e-5)      # all runs and the base agree on zero
        ctx.count("agreed_zeros", none.sum())
        ctx.check(np.array(c["Within IQR"], bool)[none].all(), "factor-table:Within IQR", f"factor {f}: {c['Within IQR']} where every profile is zero")
        clear = (np.abs(base_H[f] - lo) > margin) & (np.abs(base_H[f] - hi) > margin)
        ctx.check(np.array_equal(np.array(c["Within IQR"], bool)[clear], inside[clear]), "factor-table:Within IQR", f"factor {f}: {c['Within IQR']}")
        for fig, val, ref, what, tol in (
                (figs[3 + 3 * f], 100 * H[:, f] / H.sum(axis=1), 100 * base_H[f] / base_H.sum(axis=0), "percent", 1.2e-2),
                # ws-nmf contributions can be negative; the concentrations are shown on a log axis, from 1e-4
                (figs[4 + 3 * f], np.maximum([np.asarray(b.bs_results[i]["model"].W, np.float64)[:, f].sum() * H[r, f] for r, i in enumerate(b.bs_results)], 0),
                 np.maximum(base_W[:, f].sum() * base_H[f], 0), "concentration", None)):
            boxes = [t for t in fig.data if t.type == "box"]
            marks = [t for t in fig.data if t.type == "scatter"]
            ctx.require(len(boxes) == len(labels) and len(marks) == 1, "box-plot", f"{what}: {len(boxes)} boxes")
            if tol is None:      # float32 sums of contributions of both signs
                tol = 2.5e-4 + 1e-5 * max(np.abs(base_W[:, f]).sum() * base_H[f].max(), max(
                    np.abs(np.asarray(b.bs_results[i]["model"].W, np.float64)[:, f]).sum() * H[r, f].max() for r, i in enumerate(b.bs_results)))
            for j, t in enumerate(boxes):
                ctx.count("boxes_checked")
                ctx.check(str(t.name) == labels[j] and near(t.y, val[:, j], tol, 5e-4), f"box-plot-{what}", f"factor {f} feature {j}: {t.y} against {val[:, j]}")
            ctx.check([str(x) for x in marks[0].x] == labels, f"box-plot-base-{what}", f"at {marks[0].x}")
            ctx.check(near(marks[0].y, ref, tol, 5e-4), f"box-plot-base-{what}", f"factor {f}: {marks[0].y} against {ref}")


def same_bootstrap(a, b):
    """differences between two finished bootstraps"""
    out = []
    if list(a.bs_results) != list(b.bs_results):
        return [f"run order {list(a.bs_results)} / {list(b.bs_results)}"]
    for i in a.bs_results:
        x, y = a.bs_results[i], b.bs_results[i]
        if [int(v) for v in x["index"]] != [int(v) for v in y["index"]]:
            out.append(f"rows of run {i}")
        out += [f"model of run {i}: {z}" for z in same_model(x["model"], y["model"]) if z != "metadata"]
        if {f: (v["match"], bool(v["mapped"])) for f, v in x["mapping"].items()} != {f: (v["match"], bool(v["mapped"])) for f, v in y["mapping"].items()}:
            out.append(f"mapping of run {i}")
    if not a.mapping_df.equals(b.mapping_df):
        out.append("mapping table")
    if not np.array_equal(np.asarray(a.q_results, float), np.asarray(b.q_results, float)):
        out.append("losses")
    for name in ("factor_tables", "bs_profiles", "bs_factor_contributions"):
        x, y = getattr(a, name), getattr(b, name)
        if any(not np.array_equal(np.array(x[f]), np.array(y[f]), equal_nan=True) for f in x):
            out.append(name)
    return out


def config(rng, sa, nmax=8):
    labels = None if rng.random() < 0.4 else gen.names(rng, sa.V.shape[1])
    return (dict(sa=sa, feature_labels=labels, bootstrap_n=int(rng.integers(1, nmax)), block_size=int(rng.integers(1, 8)),
                 threshold=float(rng.choice([0.3, 0.6, 0.9, 0.99, 0.9999])), seed=int(rng.integers(1 << 20))),
            dict(keep_H=bool(rng.random() < 0.7), reuse_seed=bool(rng.random() < 0.8), block=bool(rng.random() < 0.8),
                 overlapping=bool(rng.random() < 0.3)))


def sequential(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "bootstrap"):
        sa, kind, method = base(rng)
        kw, rk = config(rng, sa)
        before = snap(sa)
        b = Bootstrap(parallel=False, **kw)
        b.run(**rk)
        again = bool(rng.random() < 0.25)
        if again:
            # the results are those of the last run only
            old = {i: b.bs_results[i]["model"] for i in b.bs_results}
            b.run(**rk)
            ctx.check(list(b.bs_results) == list(old) and not any(b.bs_results[i]["model"] is old[i] for i in old), "second-run", "holds models of the first")
            ctx.count("run_twice")
        models = {i: snap(b.bs_results[i]["model"]) for i in b.bs_results}
        aggregate(ctx, b, sa)
        if rng.random() < 0.4:
            tables(ctx, b, sa)
        check_table(ctx, b, sa, kw["bootstrap_n"])
        ctx.check(not same_snap(before, snap(sa)), "base-model-modified", f"{same_snap(before, snap(sa))}")
        ctx.check(all(not same_snap(models[i], snap(b.bs_results[i]["model"])) for i in models), "run-model-modified", "by the tables")
        c = Bootstrap(parallel=False, **kw)
        c.run(**rk)
        if again:
            c.run(**rk)
        ctx.check(not same_bootstrap(b, c), "not-reproducible", f"{same_bootstrap(b, c)[:5]}")
        if rng.random() < 0.5:
            save(ctx, b, sa)
    ctx.note(kind=kind, runs=kw["bootstrap_n"], factors=sa.factors, **rk)
    ctx.distinct(("seq", kw["bootstrap_n"], sa.factors, sa.V.shape[1]))


def save(ctx, b, sa):
    d = str(ctx.scratch)
    path = b.save("boot", d)
    ctx.count("saved")
    ctx.require(path is not None and str(path).endswith("boot.pkl"), "save-path", f"{path}")
    c = Bootstrap.load(str(path))
    ctx.check(c is not None and not same_bootstrap(b, c), "save-load", f"{None if c is None else same_bootstrap(b, c)[:5]}")
    ctx.require(b.save("boot", d, pickle_result=False) is not None, "save-path", "csv")
    m = pd.read_csv(f"{d}/boot-mapping.csv")
    ctx.check(np.array_equal(m.iloc[:, 1:].to_numpy(float), b.mapping_df.iloc[:, 1:].to_numpy(float)), "save-csv", "mapping")
    q = pd.read_csv(f"{d}/boot-qtable.csv", index_col=0)
    ctx.check(near(q.to_numpy(float).ravel(), np.asarray(b.q_results, float).ravel(), 0, 1e-6), "save-csv", "losses")
    for name, attr in (("ftables", "factor_tables"), ("profiles", "bs_profiles"), ("contributions", "bs_factor_contributions")):
        j = json.load(open(f"{d}/boot-{name}.json"))
        have = getattr(b, attr)
        ctx.check(all(near(j[str(f)], have[f], 1e-12, 1e-6) for f in have) and len(j) == len(have), "save-json", name)
    meta = json.load(open(f"{d}/boot-metadata.json"))
    ctx.check(meta["bootstrap_n"] == b.bootstrap_n and meta["threshold"] == b.threshold, "save-json", "metadata")
    ctx.check(b.save("x", "relative/dir") is None and b.save("x", d + "/missing") is None, "save-refusal", "")
    ctx.check(Bootstrap.load("relative.pkl") is None and Bootstrap.load(d + "/missing.pkl") is None, "load-refusal", "")


def parallel(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 150, "parallel bootstrap"):
        sa, kind, method = base(rng)
        kw, rk = config(rng, sa, nmax=7)
        n = kw["bootstrap_n"] = max(kw["bootstrap_n"], 3) if rng.random() < 0.5 else int(rng.integers(10, 13))
        ctx.count("runs_beyond_nine", n > 9)
        order = rng.permutation(n) + 1
        if rng.random() < 0.3:
            order = np.arange(n, 0, -1)
        delays = {int(i): 0.15 * min(1, 7 / n) * r for r, i in enumerate(order)}
        a = Bootstrap(parallel=False, **kw)
        a.run(**rk)
        b = Bootstrap(parallel=True, **({} if ctx.rng.random() < 0.3 else {"cpus": n}), **kw)
        with Delays(SA, "train", lambda o, x, k: k.get("model_i", 0), delays):
            b.run(**rk)
        ctx.count("parallel_runs")
        if list(order) != sorted(order):
            ctx.count("forced_orders")
        ctx.check(not same_bootstrap(a, b), "parallel-sequential-differ", f"{same_bootstrap(a, b)[:5]}", order=order)
        aggregate(ctx, b, sa)
    ctx.distinct(("par", tuple(int(x) for x in order), sa.factors))


SCENARIOS = [Scenario("sequential", sequential, 100, 2000), Scenario("parallel", parallel, 10, 150)]
