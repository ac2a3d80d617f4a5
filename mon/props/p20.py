"""P20: bootstrap-displacement covers every bootstrap run once and aggregates all of them."""
import contextlib
from pathlib import Path

import numpy as np
import pandas as pd

from mon.core import Scenario
from mon.instr import Delays, limited, patched
from mon.props.p17 import cells, near, same_bootstrap, shown
from mon.props.p18 import base, expected_keys
from mon.props.p19 import check_compiled, check_swap_rows, check_tables, level_rows, same_displacement
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement

TECHNIQUE = "differential runtime monitoring of the combined analysis against its parts run alone, with injected worker delays"
NOTE = ("Each displacement of the combined analysis is compared with the same displacement run alone and the aggregate is "
        "recomputed from all of them, in both execution modes and under forced finishing orders. Sampled models and orders.")
RULE = ("each case runs a bootstrap-displacement (given or own bootstrap, both modes) and recomputes its aggregate; distinct by "
        "(mode, runs, factors, features, finishing order)")
ASSUMPTIONS = ["worker processes are forked, so the injected delays reach them", "figures are captured at plotly's show"]
REQUIRED = {"combined_runs": 14, "displacements_alone": 15, "parallel_modes": 3, "rows_checked": 300, "own_bootstrap": 1, "drawn_swaps": 5}


def check_aggregate(ctx, b, sa, what):
    keys = sorted(b.bootstrap.bs_results)
    ctx.require(set(b.disp_results) == set(keys), "runs-covered", f"{what}: displaced {list(b.disp_results)}, bootstrap {keys}")
    ds = [b.disp_results[x] for x in keys]
    for key, d in zip(keys, ds):
        ctx.check(np.array_equal(np.asarray(d.H), np.asarray(b.bootstrap.bs_results[key]["model"].H) + 1e-12) or
                  near(d.H, b.bootstrap.bs_results[key]["model"].H, 1e-11, 1e-6), "wrong-model", f"{what}: run {key}")
        check_tables(ctx, d, f"{what} run {key}")
        check_compiled(ctx, d, b.bootstrap.bs_results[key]["model"], f"{what} run {key}")
    df = b.compiled_results
    ctx.require(df is not None and len(df) == len(ds[0].compiled_results), "compiled-keys", f"{what}")
    for c in ("dQ", "factor", "feature"):
        ctx.check(list(df[c]) == list(ds[0].compiled_results[c]), "compiled-keys", f"{what} {c}")
    for c, fn in (("profile", np.mean), ("conc", np.mean), ("profile_max", np.max), ("conc_max", np.max), ("profile_min", np.min),
                  ("conc_min", np.min), ("dQ_drop", np.min)):
        want = fn([x.compiled_results[c].to_numpy(float) for x in ds], axis=0)
        ctx.check(near(df[c], want, 1e-9, 1e-5), f"aggregate-{c}", f"{what}: {np.round(df[c].to_numpy()[:6], 6)} against {np.round(want[:6], 6)}")
    ctx.check(b.n_drops == sum(bool((x.compiled_results["dQ_drop"] < 0).any()) for x in ds), "aggregate-drops", f"{what}: {b.n_drops}")
    ctx.check(np.array_equal(b.swap_table, sum(x.swap_table for x in ds)), "aggregate-swaps", f"{what}")
    ctx.check(np.array_equal(b.count_table, sum(x.count_table for x in ds)), "aggregate-counts", f"{what}: {b.count_table.tolist()}")
    ctx.check(b.disp_swap == sum(bool(x.swap_table.any()) for x in ds), "aggregate-swap-runs", f"{what}: {b.disp_swap}")
    table = b.bootstrap.mapping_df.iloc[:, 1:1 + sa.factors].to_numpy(float)
    ctx.check(b.fit_swaps == int((np.diag(table) < len(keys)).sum()), "aggregate-fit-swaps", f"{what}: {b.fit_swaps}, {table.tolist()}")
    with np.errstate(all="ignore"):
        pct = 100 * b.swap_table / b.count_table
    return {q: pct[i] for i, q in enumerate(b.dQmax)}


def check_shown(ctx, b, percent, k, what):
    # swaps are rare, the shown percentages are judged on drawn counts
    old = b.swap_table
    b.swap_table = np.round(b.count_table * ctx.rng.random(old.shape))
    with np.errstate(all="ignore"):
        percent = {q: (100 * b.swap_table / b.count_table)[i] for i, q in enumerate(b.dQmax)}
    with shown() as figs:
        b.summary()
        b.swap_table = old
        for i in range(k):
            for q in b.dQmax:
                b.plot_results(factor=i + 1, dQ=q)
        b.plot_results(factor=k + 1)
        b.plot_profile(factor=1, dQ=77)
        b.plot_contribution(factor=1, dQ=77)
    ctx.require(len(figs) == 1 + 2 * k * len(b.dQmax) + 2, "figures-shown", f"{what}: {len(figs)}")
    c = cells(figs[0])
    check_swap_rows(ctx, np.array([c[x] for x in c], dtype=float).T, percent, k, what)
    df, p = b.compiled_results, 1
    for i, q in [(i, q) for i in range(k) for q in b.dQmax] + [(0, 0.5)]:
        sel = df[(df["factor"] == i) & (df["dQ"] == q)]
        for fig, lo, mid, hi, mul in ((figs[p], "profile_min", "profile", "profile_max", 100), (figs[p + 1], "conc_min", "conc", "conc_max", 1)):
            dots = [t for t in fig.data if t.type == "scatter"][0]
            bars = [t for t in fig.data if t.type == "bar"][0]
            x = [str(z) for z in sel["feature"]]
            ctx.check([str(z) for z in dots.x] == x and [str(z) for z in bars.x] == x, "plot-labels", f"{what} factor {i} dQ {q}")
            m = mul * sel[mid].to_numpy(float)
            ctx.check(near(dots.y, np.maximum(m, 1e-4) if mul == 1 else m, 1e-9, 1e-5), "plot-base", f"{what} {mid} factor {i} dQ {q}: {dots.y} against {m}")
            lows, y = np.asarray(bars.base, float), np.asarray(bars.y, float)
            ctx.check(near(lows, mul * sel[lo].to_numpy(float), 1e-9, 1e-5) and near(lows + y, mul * sel[hi].to_numpy(float), 1e-7, 1e-4),
                      "plot-range", f"{what} {lo} factor {i} dQ {q}")
        p += 2


def check_saved(ctx, b, what):
    out = str(ctx.scratch)
    path = b.save("bsd", out)
    ctx.require(path is not None and str(path).endswith("bsd.pkl"), "save-path", f"{path}")
    e = BSDISP.load(str(path))
    ctx.check(e is not None and not same_combined(b, e), "save-load", f"{None if e is None else same_combined(b, e)[:4]}")
    path = b.save("bsd2", out, pickle_result=False)
    ctx.require(path is not None and Path(str(path)).exists(), "save-path", f"csv {path}")
    b.save("bsd", out, pickle_result=False)
    r = pd.read_csv(f"{out}/bsd-results.csv")
    ctx.check(all(near(r[c], b.compiled_results[c], 1e-12, 1e-5) for c in r.columns if c != "feature"), "save-csv", "compiled results")
    for k in b.disp_results:
        r = pd.read_csv(f"{out}/bsd-{k}-results.csv")
        ctx.check(all(near(r[c], b.disp_results[k].compiled_results[c], 1e-12, 1e-5) for c in r.columns if c != "feature"), "save-csv", f"run {k}")


def same_combined(a, b):
    out = same_bootstrap(a.bootstrap, b.bootstrap)
    if list(a.disp_results) != list(b.disp_results):
        out.append(f"runs {list(a.disp_results)} / {list(b.disp_results)}")
    for k in a.disp_results:
        if k in b.disp_results:
            out += [f"run {k}: {x}" for x in same_displacement(a.disp_results[k], b.disp_results[k])]
    if not a.compiled_results.equals(b.compiled_results):
        out.append("compiled results")
    for n in ("swap_table", "count_table", "n_drops", "disp_swap", "fit_swaps"):
        if not np.array_equal(getattr(a, n), getattr(b, n)):
            out.append(f"{n} {getattr(a, n)} / {getattr(b, n)}")
    return out


def swapping(orig, which):
    """Swaps are rare: some displacements report drawn ones, in their rows and in their table."""
    def run(d, *a, **k):
        out = orig(d, *a, **k)
        key = k.get("batch", a[0] if a else 0)
        rows = list(level_rows(d))
        for j in which.get(key, []):
            rows[j % len(rows)][2]["swap"] = True
        table = np.zeros_like(d.swap_table)
        for li, i, r in rows:
            table[li, i] += bool(r["swap"])
        d.swap_table = table
        return out
    return run


def combined(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "bootstrap-displacement"), contextlib.ExitStack() as stack:
        sa, kind = base(rng, factors=int(rng.integers(2, 4)), n=int(rng.integers(4, 6)), long=bool(rng.random() < 0.5))
        sa.train(max_iter=int(rng.integers(1, 4)), converge_delta=0.0, converge_n=6)
        n = sa.V.shape[1]
        feats = None if rng.random() < 0.4 else sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
        runs = int(rng.integers(1, 5))
        if rng.random() < 0.06:
            runs, feats = int(rng.integers(10, 13)), [int(rng.integers(n))]
        labels = [f"s{j}" for j in range(n)]
        bk = dict(block_size=int(rng.integers(1, 6)), threshold=float(rng.choice([0.3, 0.6, 0.95])), seed=int(rng.integers(1 << 20)))
        rk = dict(keep_H=bool(rng.random() < 0.7), reuse_seed=bool(rng.random() < 0.7), overlapping=bool(rng.random() < 0.3))
        dk = dict(max_search=20, threshold_dQ=0.05, features=feats)
        own = bool(rng.random() < 0.4)
        ctx.note(kind=kind, runs=runs, factors=sa.factors, features=feats, own_bootstrap=own)
        boot = Bootstrap(sa=sa, feature_labels=labels, bootstrap_n=runs, parallel=False, **bk)
        boot.run(**rk)
        kw = dict(sa=sa, feature_labels=labels, bootstrap_n=runs, **bk) if own else dict(sa=sa, feature_labels=labels, bootstrap=boot)
        order = [int(x) for x in rng.permutation(runs) + 1]
        if rng.random() < 0.5:
            ctx.count("drawn_swaps")
            which = {r: [int(x) for x in rng.integers(0, 1000, int(rng.choice([0, 1, 1, 5])))] for r in range(1, runs + 1)}
            stack.enter_context(patched(Displacement, "run", swapping(Displacement.run, which)))
        modes = {}
        for parallel in ((True, False) if rng.random() < 0.6 else (bool(rng.integers(2)),)):
            b = BSDISP(**kw, **dk)
            if own:
                ctx.count("own_bootstrap")
            # the displacement of run r finishes in the drawn order
            with Delays(Displacement, "run", lambda o, x, k: k.get("batch", x[0] if x else 0), {m: 0.25 * r for r, m in enumerate(order)} if parallel else {}):
                b.run(parallel=parallel, **rk)
            what = "parallel" if parallel else "sequential"
            ctx.count("combined_runs")
            ctx.count("parallel_modes", parallel)
            ctx.require(len(b.bootstrap.bs_results) == runs, "bootstrap-runs", f"{what}: {len(b.bootstrap.bs_results)} of {runs}")
            ctx.check(not same_bootstrap(boot, b.bootstrap), "bootstrap-differs", f"{what}: {same_bootstrap(boot, b.bootstrap)[:3]}")
            percent = check_aggregate(ctx, b, sa, what)
            modes[parallel] = b
            if not parallel and rng.random() < 0.3:
                b.run(parallel=False, **rk)
                percent = check_aggregate(ctx, b, sa, "sequential, run twice")
        for key in boot.bs_results:
            d = Displacement(sa=boot.bs_results[key]["model"], feature_labels=labels, parallel=False, **dk)
            d.dQmax = BSDISP.dQmax
            d.run(batch=key)
            expected_keys(ctx, d, sa, f"run {key}")
            ctx.count("displacements_alone")
            for p, b in modes.items():
                bad = same_displacement(d, b.disp_results[key])
                ctx.check(not bad, "displacement-differs-from-alone", f"{'parallel' if p else 'sequential'} run {key}: {bad[:4]}")
        if len(modes) == 2:
            bad = same_combined(modes[True], modes[False])
            ctx.check(not bad, "parallel-sequential-differ", f"{bad[:4]}", order=order)
        if rng.random() < 0.4:
            check_shown(ctx, b, percent, sa.factors, what)
        if rng.random() < 0.4:
            check_saved(ctx, b, what)
        ctx.check(list(b.dQmax) == [4, 2, 1, 0.5], "levels", f"{b.dQmax}")
    ctx.distinct((tuple(sorted(modes)), runs, sa.factors, str(feats), tuple(order)))


SCENARIOS = [Scenario("combined", combined, 20, 250)]
