"""P19: displacement tables and figures attribute every result to its factor, feature and allowed change."""
import json
import re

import numpy as np
import pandas as pd

from mon import gen
from mon.core import Scenario
from mon.instr import Delays, limited
from mon.props.p17 import cells, near, shown
from mon.props.p18 import base, config
from mon.props.p21 import listening
from esat.model.sa import SA
from esat.error.displacement import Displacement

TECHNIQUE = "offline checking of tables, figures and files against recorded results, with injected worker delays"
NOTE = ("Counts, swap percentages, intervals, plots and saved files are recomputed from the recorded results; parallel runs under "
        "forced finishing orders are compared with sequential runs. Sampled base models and orders.")
RULE = ("each case runs a displacement (sequential or parallel with a drawn finishing order) and recomputes everything derived "
        "from its results; distinct by (mode, factors, features, selected features, order)")
ASSUMPTIONS = ["worker processes are forked, so the injected delays reach them", "figures are captured at plotly's show"]
REQUIRED = {"rows_checked": 500, "parallel_runs": 8, "swaps_counted": 20, "excluded_rows": 20, "saved": 8, "uneven_swaps": 5, "drops_seen": 10, "wide_runs": 2}


def level_rows(d):
    """(increase, decrease) results in table order, as one list of (level index, factor, result)"""
    for res in (d.increase_results, d.decrease_results):
        for i in range(d.factors):
            for fk, r in res[f"factor-{i + 1}"].items():
                for li, dQ in enumerate(d.dQmax):
                    yield li, i, r[dQ]


def check_tables(ctx, d, what):
    count = np.zeros((len(d.dQmax), d.factors))
    swap = np.zeros_like(count)
    for li, i, r in level_rows(d):
        count[li, i] += 1
        swap[li, i] += bool(r["swap"])
    ctx.count("swaps_counted", swap.sum())
    ctx.count("uneven_swaps", len(set(swap.sum(axis=0))) > 1 or len(set(swap.sum(axis=1))) > 1)
    ctx.check(np.array_equal(d.count_table, count), "count-table", f"{what}: {d.count_table.tolist()} against {count.tolist()}")
    ctx.check(np.array_equal(d.swap_table, swap), "swap-table", f"{what}: {d.swap_table.tolist()} against {swap.tolist()}")
    return {dQ: 100 * swap[li] / count[li] for li, dQ in enumerate(d.dQmax)}


def check_compiled(ctx, d, sa, what):
    df = d.compiled_results
    H, W = np.asarray(d.H, np.float64), np.asarray(sa.W, np.float64)
    share, n = H / H.sum(axis=0), H.shape[1]
    feats = set(range(n) if d.features is None else d.features)
    keys = list(zip(df["dQ"], df["factor"], df["feature"]))
    want = {(q, i, str(d.feature_labels[j])): (q, i, j) for q in d.dQmax for i in range(d.factors) for j in range(n)}
    ctx.require(len(keys) == len(want) and set(keys) == set(want), "compiled-keys", f"{what}: {len(keys)} rows, {len(want)} expected")
    for row in df.to_dict("records"):
        q, i, j = want[(row["dQ"], row["factor"], row["feature"])]
        ctx.count("rows_checked")
        conc = W[:, i].sum() * H[i, j]
        size = np.abs(W[:, i]).sum() * H[i, j]
        tag = f"{what} dQ {q} factor {i} feature {j}"
        if j in feats:
            up = d.increase_results[f"factor-{i + 1}"][f"feature-{j}"][q]
            dn = d.decrease_results[f"factor-{i + 1}"][f"feature-{j}"][q]
            hi, lo, chi, clo = (float(x) for x in (up["percent"], dn["percent"], up["conc"], dn["conc"]))
            drop = min(float(up["Q_drop"]), float(dn["Q_drop"]), 0.0)
        else:
            ctx.count("excluded_rows")
            hi = lo = share[i, j]
            chi = clo = conc
            drop = 0.0
        ctx.count("drops_seen", drop < 0)
        eps = 1e-6
        ctx.check(abs(row["profile"] - share[i, j]) <= 1e-5, "compiled-profile", f"{tag}: {row['profile']} against {share[i, j]}")
        ctx.check(abs(row["profile_max"] - hi) <= eps and abs(row["profile_min"] - lo) <= eps, "compiled-interval",
                  f"{tag}: [{row['profile_min']}, {row['profile_max']}] against [{lo}, {hi}]")
        tol = 1e-4 * size + 1e-8
        ctx.check(abs(row["conc"] - conc) <= tol, "compiled-conc", f"{tag}: {row['conc']} against {conc}")
        ctx.check(abs(row["conc_max"] - max(chi, 1e-4)) <= tol + 1e-6 * abs(chi) and abs(row["conc_min"] - max(clo, 1e-4)) <= tol + 1e-6 * abs(clo),
                  "compiled-conc-interval", f"{tag}: [{row['conc_min']}, {row['conc_max']}] against [{clo}, {chi}]")
        ctx.check(abs(row["dQ_drop"] - drop) <= 1e-6 * abs(drop) + 1e-12, "compiled-drop", f"{tag}: {row['dQ_drop']} against {drop}")
        ctx.check(row["profile_min"] <= row["profile"] + 1e-5 and row["profile"] <= row["profile_max"] + 1e-5, "interval-excludes-base",
                  f"{tag}: {row['profile']} not in [{row['profile_min']}, {row['profile_max']}]")


def check_shown(ctx, d, percent, what):
    n, k = len(d.feature_labels), d.factors
    df = d.compiled_results
    with shown() as figs, listening("esat.error.displacement") as seen:
        d.summary()
    found = re.search(r"Largest dQ Decrease: (?:np.float64\()?([-0-9.e+]+)", " ".join(seen.lines))
    low = float(df["dQ_drop"].min())
    ctx.check(found and abs(float(found[1]) - low) <= 0.0051 + 1e-6 * abs(low), "summary-drop", f"{what}: {seen.lines[:3]} for {low}")
    ctx.require(len(figs) == 1, "summary-shown", f"{what}")
    c = cells(figs[0])
    check_swap_rows(ctx, np.array([c[x] for x in c], dtype=float).T, percent, k, what)
    with shown() as figs:
        for i in range(k):
            for q in d.dQmax:
                d.plot_results(factor=i + 1, dQ=q)
        d.plot_results(factor=k + 1)
        d.plot_results(factor=0)
    ctx.require(len(figs) == 2 * k * len(d.dQmax), "figures-shown", f"{what}: {len(figs)}")
    p = 0
    for i in range(k):
        for q in d.dQmax:
            sel = df[(df["factor"] == i) & (df["dQ"] == q)]
            for fig, lo, mid, hi, mul in ((figs[p], "profile_min", "profile", "profile_max", 100), (figs[p + 1], "conc_min", "conc", "conc_max", 1)):
                dots = [t for t in fig.data if t.type == "scatter"][0]
                bars = [t for t in fig.data if t.type == "bar"][0]
                x = [str(z) for z in sel["feature"]]
                ctx.check([str(z) for z in dots.x] == x and [str(z) for z in bars.x] == x, "plot-labels", f"{what} factor {i} dQ {q}")
                m = mul * sel[mid].to_numpy(float)
                if mul == 1:
                    m = np.maximum(m, 1e-4)
                ctx.check(near(dots.y, m, 1e-9, 1e-5), "plot-base", f"{what} {mid} factor {i} dQ {q}: {dots.y} against {m}")
                b, y = np.asarray(bars.base, float), np.asarray(bars.y, float)
                ctx.check(near(b, mul * sel[lo].to_numpy(float), 1e-9, 1e-5) and near(b + y, mul * sel[hi].to_numpy(float), 1e-7, 1e-4), "plot-range",
                          f"{what} {lo} factor {i} dQ {q}")
            p += 2


def check_swap_rows(ctx, rows, percent, k, what):
    """rows: one per allowed change, its level first, then a percentage per factor"""
    rows = np.asarray(rows, float)
    ctx.require(rows.shape == (len(percent), k + 1), "swap-rows", f"{what}: {rows.shape}")
    got = {r[0]: r[1:] for r in rows}
    ctx.check(set(got) == {float(q) for q in percent}, "swap-rows", f"{what}: levels {sorted(got)}")
    for q, v in percent.items():
        if float(q) in got:
            ctx.check(near(got[float(q)], v, 0.006), "swap-percent", f"{what}: dQ {q}: {got[float(q)]} against {v}")


def check_saved(ctx, d, percent, what):
    out = str(ctx.scratch)
    ctx.count("saved")
    path = d.save("disp", out)
    ctx.require(path is not None and str(path).endswith("disp.pkl"), "save-path", f"{path}")
    e = Displacement.load(str(path))
    ctx.check(e is not None and not same_displacement(d, e), "save-load", f"{same_displacement(d, e) if e is not None else None}")
    ctx.require(d.save("disp", out, pickle_result=False) is not None, "save-path", "csv")
    t = np.atleast_2d(np.genfromtxt(f"{out}/disp-swaptable.csv", delimiter=","))
    check_swap_rows(ctx, t, percent, d.factors, what + " saved")
    meta = json.load(open(f"{out}/disp-metadata.json"))
    ctx.check(meta["selected_model"] == d.selected_model and meta["threshold_dQ"] == d.threshold_dQ and meta["max_search"] == d.max_search
              and list(meta["features"]) == list(d.features)
              and meta["excluded_features"] == [j for j in range(len(d.feature_labels)) if j not in d.features], "save-metadata", f"{meta}")
    r = pd.read_csv(f"{out}/disp-results.csv")
    ctx.check(list(r["feature"].astype(str)) == list(d.compiled_results["feature"].astype(str)) and all(
        near(r[c], d.compiled_results[c], 1e-12, 1e-5) for c in r.columns if c != "feature"), "save-csv", "compiled results")
    for name, res in (("increase", d.increase_results), ("decrease", d.decrease_results)):
        j = json.load(open(f"{out}/disp-{name}-disp.json"))
        ok = set(j) == set(res)
        for f in res:
            for s in res[f]:
                for q in res[f][s]:
                    a, b = j[f][s][str(q)], res[f][s][q]
                    ok = ok and all(abs(float(a[x]) - float(b[x])) <= 1e-6 * abs(float(b[x])) + 1e-12 for x in ("dQ", "value", "percent", "conc", "Q_drop"))
                    ok = ok and bool(a["swap"]) == bool(b["swap"])
        ctx.check(ok, "save-json", name)


def same_displacement(a, b):
    out = []
    for name in ("increase_results", "decrease_results"):
        x, y = getattr(a, name), getattr(b, name)
        if set(x) != set(y):
            out.append(f"{name}: factors {list(x)} / {list(y)}")
            continue
        for f in x:
            if set(x[f]) != set(y[f]):
                out.append(f"{name} {f}: features {list(x[f])} / {list(y[f])}")
            for s in x[f]:
                for q in x[f][s]:
                    u, v = x[f][s][q], y.get(f, {}).get(s, {}).get(q)
                    if v is None or any(not np.array_equal(np.asarray(u[z], float), np.asarray(v[z], float), equal_nan=True) for z in u):
                        out.append(f"{name} {f} {s} {q}")
    for name in ("swap_table", "count_table"):
        if not np.array_equal(getattr(a, name), getattr(b, name)):
            out.append(name)
    if not a.compiled_results.equals(b.compiled_results):
        out.append("compiled results")
    return out


def aggregate(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "displacement"):
        sa, kind = base(rng, factors=int(rng.integers(2, 4)), n=int(rng.integers(4, 6)), long=bool(rng.random() < 0.6))
        kw = config(rng, sa)
        kw["max_search"] = 20
        if rng.random() < 0.3:
            kw["features"] = [int(x) for x in rng.permutation(sa.V.shape[1])]
        d = Displacement(parallel=False, **kw)
        if rng.random() < 0.2:
            d.dQmax = [4, 2, 1, 0.5]
        for again in range(2 if rng.random() < 0.2 else 1):
            d.run()
        percent = check_tables(ctx, d, "sequential")
        check_compiled(ctx, d, sa, "sequential")
        ctx.count("sequential_runs")
        if rng.random() < 0.5:
            check_shown(ctx, d, percent, "sequential")
        if rng.random() < 0.5:
            check_saved(ctx, d, percent, "sequential")
    ctx.note(kind=kind, factors=sa.factors, features=kw["features"])
    ctx.distinct(("seq", sa.factors, sa.V.shape[1], str(kw["features"])))


def parallel(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 150, "parallel displacement"):
        sa, kind = base(rng, factors=int(rng.integers(2, 4)), n=4, long=False)
        sa.train(max_iter=2, converge_delta=0.0, converge_n=5)
        kw = config(rng, sa)
        kw["max_search"] = 20
        nf = sa.V.shape[1] if kw["features"] is None else len(kw["features"])
        ids = [i * nf + j + 1 for i in range(sa.factors) for j in (range(sa.V.shape[1]) if kw["features"] is None else kw["features"])]
        order = [int(x) for x in rng.permutation(ids)] if rng.random() < 0.6 else sorted(ids, reverse=True)
        a = Displacement(parallel=False, **kw)
        a.run()
        b = Displacement(parallel=True, cores=min(len(ids), 16), **kw)
        with Delays(SA, "train", lambda o, x, k: k.get("model_i", 0), {m: 0.012 * r for r, m in enumerate(order)}):
            b.run()
        ctx.count("parallel_runs")
        ctx.check(not same_displacement(a, b), "parallel-sequential-differ", f"{same_displacement(a, b)[:4]}", order=order)
        check_tables(ctx, b, "parallel")
        check_compiled(ctx, b, sa, "parallel")
    ctx.distinct(("par", sa.factors, sa.V.shape[1], str(kw["features"]), tuple(order)))


def wide(ctx):
    """More than nine factors and features."""
    rng = ctx.rng
    k, n = int(rng.integers(10, 13)), int(rng.integers(11, 14))
    with ctx.quiet(), limited(ctx, 150, "parallel displacement"):
        V, U, kind, _ = gen.dataset(rng, kind="noisy", m=14, n=n, k=4)
        sa = SA(V=V, U=U, factors=k, seed=int(rng.integers(1 << 20)))
        sa.initialize()
        sa.train(max_iter=2, converge_delta=0.0, converge_n=5)
        kw = dict(sa=sa, feature_labels=gen.names(rng, n), model_selected=0, max_search=6,
                  features=[int(x) for x in rng.permutation(n)[:int(rng.integers(1, 4))]])
        a = Displacement(parallel=False, **kw)
        a.run()
        b = Displacement(parallel=True, cores=4, **kw)
        b.run()
        ctx.count("wide_runs")
        ctx.check(not same_displacement(a, b), "parallel-sequential-differ", f"{same_displacement(a, b)[:4]}")
        percent = check_tables(ctx, b, "wide")
        check_compiled(ctx, b, sa, "wide")
        check_shown(ctx, b, percent, "wide")
    ctx.note(factors=k, features=n, selected=kw["features"])
    ctx.distinct(("wide", k, n, str(kw["features"])))


SCENARIOS = [Scenario("aggregate", aggregate, 36, 700), Scenario("parallel", parallel, 10, 150), Scenario("wide", wide, 2, 20)]
