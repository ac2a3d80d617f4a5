"""P29: analysis tables and figures show the model's own numbers."""
import types

import numpy as np
import pandas as pd
from scipy import stats

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props.p17 import near, shown
from esat.data.analysis import BatchAnalysis, ModelAnalysis
from esat.data.datahandler import DataHandler
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel

TECHNIQUE = "runtime monitoring: every figure and table is captured as produced and its numbers recomputed from the matrices and the source table"
NOTE = ("All figures of single models, batches, constrained models and datasets are captured at their boundary and each trace is recomputed in "
        "float64 from the matrices and the generated table, for short and binned long series. Sampled datasets; layout and colours are not judged.")
RULE = "each case draws a table with gaps, extra columns, categories and a time axis, and captures all figures of one kind; distinct by (kind, shape, time axis, binning, categories)"
ASSUMPTIONS = ["figures are captured at plotly's show or as returned", "a long series is shown as means of consecutive samples"]
REQUIRED = {"figures": 700, "traces": 1500, "binned_tables": 10, "tables_with_gaps": 15, "hourly": 5, "irregular": 8, "tables": 50, "normality_tests": 40, "constrained_figures": 60}

STEPS = {"hourly": 3600, "daily": 86400, "3h": 10800, "10min": 600, "30s": 30, "weekly": 604800, "90s": 90, "36h": 129600, "90min": 5400, "150s": 150, "10d": 864000, "100min": 6000}


def table(rng, m):
    """(v, u, features, loc columns, drop columns, kind of time axis): a labelled table pair on a time axis"""
    n = int(rng.integers(2, 8)) if rng.random() < 0.8 else int(rng.integers(9, 15))
    cols = [f"el {i}" for i in range(n)]
    rng.shuffle(cols)
    k = min(n, 3)
    scale = 10.0 ** rng.uniform(-2, 2, n)
    V = (rng.gamma(1.0, 1.0, (m, k)) @ (rng.gamma(0.7, 1.0, (k, n)) + 1e-2)) * rng.lognormal(0, 0.2, (m, n)) * scale + 1e-3 * scale
    U = V * rng.uniform(0.05, 0.5, (m, n)) + 0.01 * scale
    if rng.random() < 0.4:
        V[rng.random(V.shape) < 0.03] = np.nan
        U[rng.random(V.shape) < 0.03] = np.nan
    kind = ["hourly", "hourly", "daily", "3h", "10min", "30s", "weekly", "90s", "36h", "irregular", "repeated", "unordered", "reversed", "90min", "150s", "10d", "100min", "hourly"][rng.integers(18)]
    start = pd.Timestamp("2021-03-05 07:00") + pd.Timedelta(hours=int(rng.integers(500)))
    if kind == "irregular":
        t = np.cumsum(rng.integers(1, 6, m)) * 3600
    elif kind == "repeated":
        t = np.repeat(np.arange(m), 2)[:m] * 86400
    elif kind == "unordered":
        t = rng.permutation(m) * 3600
    elif kind == "reversed":
        t = np.arange(m)[::-1] * 86400
    else:
        t = np.arange(m) * STEPS[kind]
    idx = pd.Index([str(x) for x in start + pd.to_timedelta(t, unit="s")], name="Date")
    v, u = pd.DataFrame(V, columns=cols, index=idx), pd.DataFrame(U, columns=cols, index=idx)
    locs, drops = [], []
    if rng.random() < 0.25:
        locs = ["site"]
    if rng.random() < 0.25:
        drops = ["note"]
    for c in locs + drops:
        at = int(rng.integers(0, v.shape[1] + 1))
        val = rng.choice(["a", "b"], m)
        v.insert(at, c, val)
        u.insert(at, c, val)
    return v, u, cols, locs, drops, kind


class Setting:
    """A data handler over a generated table, and what the prepared data must be."""

    def __init__(self, ctx, m=None, max_n=None):
        rng = ctx.rng
        self.m = int(m or rng.integers(8, 45))
        v, u, self.cols, self.locs, self.drops, self.axis = table(rng, self.m)
        self.v, self.u = v.copy(), u.copy()
        ctx.count("hourly", self.axis == "hourly")
        ctx.count("irregular", self.axis in ("irregular", "repeated", "unordered", "reversed"))
        ctx.count("binned_tables", max_n is not None and max_n < self.m)
        if max_n is None and not self.locs and not self.drops and rng.random() < 0.5:
            self.dh, self.max_n = DataHandler.load_dataframe(v, u), 10000
        else:
            v.to_csv(ctx.scratch / "v.csv")
            u.to_csv(ctx.scratch / "u.csv")
            self.max_n = max_n or 10000
            self.dh = DataHandler(str(ctx.scratch / "v.csv"), str(ctx.scratch / "u.csv"), index_col="Date", loc_cols=self.locs or None,
                                  drop_col=self.drops or None, max_plotting_n=self.max_n)
        order = [c for c in v.columns if c in self.cols]
        self.all = order
        self.raw, self.rawu = self.v[order].astype(float), self.u[order].astype(float)
        keep = ~(self.v.isna().all(axis=1) | self.u.isna().all(axis=1))
        self.raw, self.rawu = self.raw[keep], self.rawu[keep]
        self.cat = {c: "strong" for c in order}
        for c in order:
            if rng.random() < 0.15 and sum(x != "bad" for x in self.cat.values()) > 2:
                self.cat[c] = ["weak", "bad"][rng.integers(2)]
                self.dh.set_category(c, self.cat[c])
        self.features = [c for c in order if self.cat[c] != "bad"]
        # rows with any gap are not modelled, whatever the category
        sub = self.raw[self.features].notna().all(axis=1) & self.rawu[self.features].notna().all(axis=1)
        self.rows = sub.to_numpy()
        ctx.count("tables_with_gaps", not sub.all())
        self.V, self.U = self.dh.get_data()
        self.times = pd.to_datetime(self.raw.index[self.rows])
        self.label = (self.m, len(self.features), self.axis, self.max_n < self.m, tuple(self.cat.values()))

    def bins(self, x):
        """Means over bins of consecutive samples, at most max_n of them."""
        x = np.asarray(x, float)
        if len(x) <= self.max_n:
            return x
        s = -(-len(x) // self.max_n)
        return np.array([np.nanmean(x[i:i + s], axis=0) for i in range(0, len(x), s)])

    def bin_times(self, t):
        return t if len(t) <= self.max_n else t[::-(-len(t) // self.max_n)]


def enough(s):
    return len(s.V) >= 6 and len(s.features) >= 2


def model(rng, V, U, k, method=None):
    sa = SA(V=V, U=U, factors=k, seed=int(rng.integers(1 << 20)), method=method or "ls-nmf")
    sa.initialize()
    sa.train(max_iter=int(rng.integers(2, 60)))
    return sa


def grab(ctx, fn, *a, many=False, show=None, **k):
    """The figures of a call, shown or returned."""
    show = bool(ctx.rng.random() < 0.5) if show is None else show
    with shown() as figs:
        out = fn(*a, show=show, **k)
    if not show:
        ctx.check(not figs, "figure-shown", f"{fn.__name__} showed a figure with show=False")
        figs = list(out) if many else [out]
    else:
        ctx.check(out is None, "figure-returned", f"{fn.__name__} returned {type(out)} with show=True")
    ctx.count("figures", len(figs))
    ctx.check(all(f is not None for f in figs) and figs, "figure-missing", fn.__name__)
    return figs


def same(ctx, kind, got, want, msg="", atol=0.0, rtol=2e-5):
    ctx.count("traces")
    want = np.asarray(want, float)
    got = np.asarray(list(got), float)
    s = np.nanmax(np.abs(want)) if want.size and not np.isnan(want).all() else 0.0
    ctx.check(got.shape == want.shape and near(got, want, atol + 2e-5 * s, rtol), kind, msg or f"{got[:6]} against {want[:6]}")


def series(ctx, kind, trace, times, values):
    """A time series trace against the samples: one point per distinct time, the mean of its samples, at its time."""
    ctx.count("traces")
    want = pd.Series(np.asarray(values, float), index=pd.DatetimeIndex(times)).groupby(level=0).mean().dropna()
    y = np.asarray(list(trace.y), float)
    x = pd.DatetimeIndex(pd.to_datetime(np.asarray(trace.x)))
    ok = ~np.isnan(y)
    x, y = x[ok], y[ok]
    if not ctx.check(len(y) == len(want), kind, f"{len(y)} points for {len(want)} distinct times"):
        return
    step = want.index.to_series().diff().min() if len(want) > 1 else pd.Timedelta(days=1)
    late = want.index - x
    ctx.check(bool((late >= pd.Timedelta(0)).all() and (late < max(step, pd.Timedelta(1, "s"))).all()), kind + "-time", f"points at {list(x[:4])}, samples at {list(want.index[:4])}")
    s = np.abs(want).max()
    ctx.check(near(y, want.to_numpy(), 2e-5 * s, 2e-5), kind, f"{y[:6]} against {want.to_numpy()[:6]}")


def by_name(fig):
    out = {}
    for t in fig.data:
        out.setdefault(t.name, t)
    return out


def f64(*xs):
    return [np.asarray(x, np.float64) for x in xs]


def judge_tables(ctx, s, sa, ma):
    V, U, W, H = f64(sa.V, sa.U, sa.W, sa.H)
    P = W @ H
    ctx.count("tables", 2)
    df = ma.features_metrics()
    ctx.require(list(df["Feature"]) == s.features and ma.residual_metrics is df, "metrics-features", f"{list(df["Feature"])}")
    for c, want in (("Input Mean", V.mean(axis=0)), ("Input Var", V.var(axis=0)), ("Est Mean", P.mean(axis=0)), ("Est Var", P.var(axis=0)),
                    ("RMSE", np.sqrt(((V - P) ** 2).mean(axis=0)))):
        same(ctx, "metrics-" + c.lower().replace(" ", "-"), df[c], want, f"{c}: {list(df[c])} against {want}", atol=6e-5, rtol=1e-3)
    E = P * np.exp(0.1 * np.sin(np.arange(P.size))).reshape(P.shape)
    d2 = ma.features_metrics(est_V=E)
    same(ctx, "metrics-override", d2["RMSE"], np.sqrt(((V - E) ** 2).mean(axis=0)), atol=6e-5, rtol=1e-3)
    override = E if ctx.rng.random() < 0.4 else None
    ma.calculate_statistics(results=override)
    Q = P if override is None else E
    st = ma.statistics
    ctx.require(list(st["Features"]) == s.features, "statistics-features", f"{list(st["Features"])}")
    ctx.check(list(st["Category"]) == [s.cat[f] for f in s.features], "statistics-category", f"{list(st["Category"])}")
    for j, f in enumerate(s.features):
        r = st.iloc[j]
        x, y = V[:, j], Q[:, j]
        z = (x - y) / U[:, j]
        if np.std(y) < 1e-6 * np.abs(y).max() or np.std(z) < 1e-6 * np.abs(z).max():
            continue
        reg = stats.linregress(x, y)
        for c, want, tol in (("r2", reg.rvalue ** 2, 1e-5), ("Slope", reg.slope, 1e-5), ("Intercept", reg.intercept, 1e-5 * np.abs(y).max()),
                             ("Slope SE", reg.stderr, 1e-5), ("Intercept SE", reg.intercept_stderr, 1e-5 * np.abs(y).max()),
                             ("SE", np.std(x - y) / np.sqrt(len(x)), 1e-6 * np.abs(x).max()),
                             ("SE Regression", np.sqrt(max(0.0, 1 - reg.rvalue ** 2)) * np.std(y), 1e-4 * np.abs(y).max())):
            ctx.check(abs(r[c] - want) <= tol + 1e-3 * abs(want), "statistics-" + c.lower().replace(" ", "-"), f"{f}: {r[c]} against {want}")
        if np.median(np.abs(x - y)) < 1e-3 * np.abs(x).max():      # residuals at the rounding of the estimate: the tests judge noise
            continue
        ctx.count("normality_tests")
        sh = stats.shapiro(z)
        an = stats.anderson(z, dist="norm")
        ks = stats.ks_1samp(z, stats.norm(z.mean(), z.std(ddof=1)).cdf)
        for c, want, tol in (("Shapiro PValue", sh.pvalue, 2e-3), ("Anderson Statistic", an.statistic, 2e-3), ("KS PValue", ks.pvalue, 5e-3), ("KS Statistic", ks.statistic, 2e-3)):
            ctx.check(abs(r[c] - want) <= tol + 1e-2 * abs(want), "statistics-" + c.lower().replace(" ", "-"), f"{f}: {r[c]} against {want}")
        for c, p in (("Shapiro Normal Residuals", r["Shapiro PValue"]), ("KS Normal Residuals", r["KS PValue"])):
            ctx.check(r[c] == ("Yes" if p >= 0.05 else "No"), "statistics-verdict", f"{f}: {c} {r[c]} for p {p}")
        crit = an.critical_values
        if np.abs(crit - an.statistic).min() > 5e-3:
            lv = [str(x) for x, c in zip(an.significance_level, crit) if an.statistic < c]
            ctx.check(r["Anderson Normal Residual"] == (lv[0] if lv else "No"), "statistics-verdict", f"{f}: Anderson {r["Anderson Normal Residual"]} for {an.statistic}")


def judge_feature_figures(ctx, s, sa, ma, title):
    rng = ctx.rng
    V, U, W, H = f64(sa.V, sa.U, sa.W, sa.H)
    P = W @ H
    j = int(rng.integers(len(s.features)))
    f = s.features[j]
    how = {"feature_idx": j} if rng.random() < 0.5 else {"feature_name": f}
    est = P * 1.1 if rng.random() < 0.3 else None
    limit = float(rng.choice([0.5, 3.0, -1]))
    with shown() as figs:
        fig, tab = ma.plot_residual_histogram(abs_threshold=limit, est_V=est, show=False, **how)
    ctx.count("figures")
    z = (V[:, j] - (P if est is None else est)[:, j]) / U[:, j]
    zs = np.abs(z).max()
    d = by_name(fig)
    tol = 1e-4 * (np.abs(V[:, j]).max() + np.abs(P[:, j]).max()) / U[:, j].min()
    for n in ("Histogram", "Dist"):
        same(ctx, "residual-histogram", d[n].x, z, f"{n}", atol=tol)
    if z.std() > 100 * tol:
        nx = np.asarray(d["Normal"].x, float)
        same(ctx, "residual-normal", d["Normal"].y, stats.norm(z.mean(), z.std()).pdf(nx), rtol=2e-2, atol=1e-2 / z.std())
        kx = np.asarray(d["KDE"].x, float)
        same(ctx, "residual-kde", d["KDE"].y, stats.gaussian_kde(z)(kx), rtol=2e-2, atol=1e-2 / z.std())
    want = np.abs(z) > limit
    if limit == -1 or np.abs(np.abs(z) - limit).min() > 2 * tol:
        ctx.check(list(tab.columns) == [f] and len(tab) == want.sum() and list(pd.to_datetime(tab.index)) == list(s.times[want]), "residual-list",
                  f"{len(tab)} of {want.sum()} residuals beyond {limit}")
        if len(tab) == want.sum():
            same(ctx, "residual-list", tab[f], z[want], atol=tol)
    grab(ctx, ma.plot_residual_histogram, show=True, **how)
    xy = grab(ctx, ma.plot_estimated_observed, **how)[0]
    bo, bp = s.bins(V[:, j]), s.bins(P[:, j])
    d = by_name(xy)
    same(ctx, "observed-predicted", d["Data"].x, bo, f"observed: {np.asarray(d["Data"].x)[:5]} against {bo[:5]}")
    same(ctx, "observed-predicted", d["Data"].y, bp, f"predicted: {np.asarray(d["Data"].y)[:5]} against {bp[:5]}")
    if bo.std() > 1e-3 * bo.max():
        c = np.polyfit(bo, bp, 1)
        same(ctx, "observed-regression", d["Regression"].y, np.polyval(c, bo), atol=1e-3 * bp.max())
        same(ctx, "observed-one-to-one", d["One-to-One"].y, bo, atol=1e-3 * bo.max())
    ctx.check(f in xy.layout.title.text, "figure-title", xy.layout.title.text)
    ts = grab(ctx, ma.plot_estimated_timeseries, **how)[0]
    d = by_name(ts)
    t = s.bin_times(s.times)
    series(ctx, "observed-series", d["Observed Concentrations"], t, bo)
    series(ctx, "predicted-series", d["Predicted Concentrations"], t, bp)
    ctx.check(len(d["Residuals"].y) == len(d["Observed Concentrations"].y), "residual-series", "")
    same(ctx, "residual-series", d["Residuals"].y, np.asarray(d["Observed Concentrations"].y, float) - np.asarray(d["Predicted Concentrations"].y, float))
    ctx.check(f in ts.layout.title.text and title in ts.layout.title.text, "figure-title", f"{ts.layout.title.text} for {f}, {title}")
    for bad in ({"feature_idx": len(s.features)}, {"feature_idx": -1}, {"feature_name": "no such"}, {}):
        with shown() as figs:
            out = [getattr(ma, n)(**bad) for n in ("plot_residual_histogram", "plot_estimated_observed", "plot_estimated_timeseries")]
        ctx.check(not figs and out == [None] * 3, "invalid-feature", f"{bad}: {len(figs)} figures")


def percents(H):
    return 100 * H / H.sum(axis=0)


def judge_factor_figures(ctx, s, sa, ma, title):
    rng = ctx.rng
    W, H = f64(sa.W, sa.H)
    k = sa.factors
    override = rng.random() < 0.3
    kw = {}
    if override:
        W, H = W * rng.lognormal(0, 0.3, W.shape), H * rng.lognormal(0, 0.3, H.shape)
        kw = {"W": W.astype(np.float32) if rng.random() < 0.5 else W, "H": H}
    mass = W.sum(axis=0)[:, None] * H
    pct = percents(H)
    x = list(s.features)
    for i in sorted({1, k, int(rng.integers(1, k + 1))}):
        prof, cont = grab(ctx, ma.plot_factor_profile, i, many=True, **kw)
        d = by_name(prof)
        ctx.check(all(list(t.x) == x for t in prof.data), "profile-labels", "")
        same(ctx, "profile-percent", d["% of Features"].y, pct[i - 1])
        same(ctx, "profile-mass", d["Conc. of Features"].y, np.maximum(mass[i - 1], 1e-12), rtol=1e-4)
        series(ctx, "contribution-series", cont.data[0], s.times, W[:, i - 1] / W[:, i - 1].mean())
        ctx.check(all(f"Factor {i}" in f.layout.title.text and title in f.layout.title.text for f in (prof, cont)), "figure-title", prof.layout.title.text)
    with shown() as figs:
        out = [ma.plot_factor_profile(0), ma.plot_factor_profile(k + 1), ma.plot_g_space(0, 1), ma.plot_g_space(1, k + 1), ma.plot_factor_contributions(-1),
               ma.plot_factor_contributions(len(x)), ma.plot_factor_contributions(0, contribution_threshold=-0.5), ma.plot_factor_contributions(0, contribution_threshold=60)]
    ctx.check(not figs and out == [None] * 8, "invalid-factor", f"{len(figs)} figures")
    allf = grab(ctx, ma.plot_all_factors, **kw)[0]
    bars = [t for t in allf.data if t.type == "bar"]
    dots = [t for t in allf.data if t.type == "scatter"]
    ctx.require(len(bars) == len(dots) == k, "all-factors", f"{len(bars)} profiles for {k} factors")
    for i in range(k):
        same(ctx, "all-factors-mass", bars[i].y, np.maximum(mass[i], 1e-12), rtol=1e-4)
        same(ctx, "all-factors-percent", dots[i].y, pct[i])
    some = sorted(int(z) for z in rng.choice(k, size=int(rng.integers(1, k + 1)), replace=False))
    part = grab(ctx, ma.plot_all_factors, some, **kw)[0]
    rows = {a.y: a.text for a in part.layout.annotations}
    for kind, want in (("bar", np.maximum(mass, 1e-12)), ("scatter", pct)):
        drawn = [t for t in part.data if t.type == kind]
        ctx.require(len(drawn) == len(some), "listed-factors", f"{len(drawn)} {kind} for factors {some}")
        for t, i in zip(drawn, some):
            same(ctx, "listed-factors", t.y, want[i], rtol=1e-4)
            ctx.check(list(t.x) == x, "profile-labels", f"{list(t.x)}")
    for t, i in zip([t for t in part.data if t.type == "bar"], some):
        top = part.layout["yaxis" + t.yaxis[1:]].domain[1]
        near_title = min(rows, key=lambda y: abs(y - top))
        ctx.check(rows[near_title] == f"Factor {i + 1}", "factor-title", f"factor {i + 1} under {rows[near_title]!r}")
    for kind in ("profile", "conc", "both"):
        f3 = grab(ctx, ma.plot_all_factors_3d, plot_type=kind, **kw)[0]
        want = {"profile": [pct], "conc": [np.log10(mass + 1)], "both": [np.log10(mass + 1), pct]}[kind]
        ctx.require(len(f3.data) == len(want), "factors-3d", f"{kind}: {len(f3.data)} meshes")
        for t, w in zip(f3.data, want):
            h = np.asarray(t.z, float).reshape(k, len(x), 8).max(axis=2)
            same(ctx, "factors-3d-heights", h.ravel(), w.ravel(), rtol=1e-4)
            ctx.check(np.asarray(t.x, float).reshape(k, len(x), 8).mean(axis=2).round(6).tolist() == [list(map(float, range(len(x))))] * k
                      and np.asarray(t.y, float).reshape(k, len(x), 8).mean(axis=2).round(6).tolist() == [[float(i)] * len(x) for i in range(k)], "factors-3d-position", kind)
            faces = np.sort(np.column_stack([np.asarray(c, int) for c in (t.i, t.j, t.k)]), axis=1)
            edges = np.unique(np.vstack([faces[:, [0, 1]], faces[:, [0, 2]], faces[:, [1, 2]]]), axis=0, return_counts=True)
            ctx.check((faces[:, 0] // 8 == faces[:, 2] // 8).all() and set((faces // 8).ravel()) == set(range(k * len(x))) and (edges[1] == 2).all(),
                      "factors-3d-bars", f"{kind}: the bars are not closed")
            text = np.asarray(t.hovertext if t.hovertext is not None else t.text, object).reshape(k, len(x), 8)
            ctx.check(all(f"Factor: {i + 1}<" in a and f"Feature: {x[j]}<" in a for i in range(k) for j in range(len(x)) for a in text[i, j]), "factors-3d-text", kind)
    W, H = f64(sa.W, sa.H)
    pct, mass = percents(H), None
    for grouped in (False, True):
        fp = grab(ctx, ma.plot_factor_fingerprints, grouped=grouped)[0]
        d = by_name(fp)
        ctx.check(set(d) == {f"Factor {i + 1}" for i in range(k)} and title in fp.layout.title.text, "fingerprints", f"{set(d)}")
        for i in range(k):
            same(ctx, "fingerprints", d[f"Factor {i + 1}"].y, pct[i])
    a, b = int(rng.integers(1, k + 1)), int(rng.integers(1, k + 1))
    g = grab(ctx, ma.plot_g_space, a, b)[0]
    same(ctx, "g-space", g.data[0].x, W[:, a - 1] / W[:, a - 1].mean())
    same(ctx, "g-space", g.data[0].y, W[:, b - 1] / W[:, b - 1].mean())
    ctx.check(f"Factor {a} " in g.layout.xaxis.title.text and f"Factor {b} " in g.layout.yaxis.title.text, "g-space-axes", f"{g.layout.xaxis.title.text} {g.layout.yaxis.title.text}")
    j = int(rng.integers(len(x)))
    limit = float(rng.choice([0.05, 10.0, 30.0]))
    pie, cont = grab(ctx, ma.plot_factor_contributions, j, contribution_threshold=limit, many=True)
    judge_pie(ctx, pie, pct[:, j], limit, x[j])
    d = by_name(cont)
    for i in range(k):
        series(ctx, "contributions", d[f"Factor {i + 1}"], s.times, W[:, i] / W[:, i].mean())
    ctx.check(title in pie.layout.title.text and ("Unconverged" in cont.layout.title.text) == (not sa.converged), "figure-title", cont.layout.title.text)
    with shown() as figs:
        ma.plot_factor_composition()
        i = int(rng.integers(1, k + 1))
        ma.plot_factor_surface(factor_idx=i, percentage=True)
        ma.plot_factor_surface(factor_idx=i, percentage=False)
        ma.plot_factor_surface(factor_idx=None, feature_idx=j + 1, percentage=True)
        ma.plot_factor_surface(factor_idx=None, feature_idx=j + 1, percentage=False)
        shown_ok = len(figs)
        ma.plot_factor_surface(factor_idx=None)
        ma.plot_factor_surface(factor_idx=k + 1)
        ma.plot_factor_surface(factor_idx=None, feature_idx=len(x) + 1)
    ctx.count("figures", 5)
    ctx.require(shown_ok == 5 and len(figs) == 5, "figures-shown", f"{shown_ok} valid, {len(figs) - shown_ok} invalid")
    d = by_name(figs[0])
    for f in range(k):
        same(ctx, "composition", d[f"Factor {f + 1}"].r, pct[f] / 100)
        ctx.check(list(d[f"Factor {f + 1}"].theta) == x, "composition", "labels")
    P = W @ H
    for fig, share in ((figs[1], True), (figs[2], False)):
        M = np.outer(W[:, i - 1], H[i - 1])
        M = 100 * M / P if share else M
        named = dict(zip(fig.layout.scene.xaxis.tickvals, fig.layout.scene.xaxis.ticktext))
        for f in range(len(x)):
            if not (np.abs(M[:, f] - 1e-4) <= 1e-6).any():
                ctx.check(named.get(f) == (x[f] if (M[:, f] > 1e-4).any() else None), "surface-labels", f"{x[f]}: {named}")
        z = np.asarray(fig.data[0].z, float)
        clear = np.abs(M - 1e-4) > 1e-6
        ctx.check(z.shape == M.shape and near(np.where(clear, z, 0), np.where(clear, np.where(M < 1e-4, np.nan, M), 0), 1e-4 * np.abs(M).max(), 1e-3), "surface", f"share {share}")
    for fig, share in ((figs[3], True), (figs[4], False)):
        M = W * H[:, j]
        M = 100 * M / P[:, j:j + 1] if share else M
        same(ctx, "surface-feature", np.asarray(fig.data[0].z, float).ravel(), M.ravel(), rtol=1e-3, atol=1e-4 * np.abs(M).max())
        ctx.check(x[j] in fig.layout.title.text, "figure-title", fig.layout.title.text)


def judge_pie(ctx, pie, shares, limit, feature):
    got = dict(zip(pie.data[0].labels or [], np.asarray(pie.data[0].values if pie.data[0].values is not None else [], float)))
    for i, p in enumerate(shares):
        if abs(p - limit) > 1e-3:
            ctx.check((f"Factor {i + 1}" in got) == (p > limit), "pie", f"factor {i + 1} with {p}% at limit {limit}: {got}")
        if f"Factor {i + 1}" in got:
            ctx.check(abs(got[f"Factor {i + 1}"] - p) <= 1e-3, "pie", f"{got} against {shares}")
    ctx.check(feature in pie.layout.title.text, "figure-title", pie.layout.title.text)


def untouched(ctx, s, sas):
    before = [(np.array(m.V), np.array(m.U), np.array(m.W), np.array(m.H)) for m in sas]
    data = s.dh.input_data.copy(), s.dh.uncertainty_data.copy(), s.dh.input_data_df.copy(), s.dh.uncertainty_data_df.copy()

    def verify():
        ctx.check(all(np.array_equal(a, b) for m, x in zip(sas, before) for a, b in zip(x, (m.V, m.U, m.W, m.H))), "model-modified", "")
        ctx.check(all(a.equals(b) for a, b in zip(data, (s.dh.input_data, s.dh.uncertainty_data, s.dh.input_data_df, s.dh.uncertainty_data_df))), "dataset-modified", "")
    return verify


def models(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "model figures"):
        m = int(rng.integers(8, 45))
        s = Setting(ctx, m, int(rng.integers(4, m)) if rng.random() < 0.4 else None)
        if not enough(s):
            return
        k = int(rng.integers(1, len(s.features) + 1))
        if len(s.features) > 8 and rng.random() < 0.7:
            k = int(rng.integers(8, len(s.features) + 1))
        ctx.count("many_factors", k >= 8)
        sa = model(rng, s.V, s.U, k)
        sel = None if rng.random() < 0.3 else int(rng.integers(0, 20))
        ma = ModelAnalysis(s.dh, sa) if sel is None else ModelAnalysis(s.dh, sa, selected_model=sel)
        title = "" if sel is None else f"Model {sel + 1}"
        ctx.note(shape=s.V.shape, axis=s.axis, max_plotting_n=s.max_n, categories=s.cat, factors=k, selected=sel)
        ctx.check(s.V.shape == (s.rows.sum(), len(s.features)), "prepared-shape", f"{s.V.shape}")
        verify = untouched(ctx, s, [sa])
        judge_tables(ctx, s, sa, ma)
        judge_feature_figures(ctx, s, sa, ma, title)
        judge_factor_figures(ctx, s, sa, ma, title)
        verify()
    ctx.distinct(("model", s.label, k))


def batches(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "batch figures"):
        m = int(rng.integers(8, 45))
        s = Setting(ctx, m, int(rng.integers(4, m)) if rng.random() < 0.5 else None)
        if not enough(s):
            return
        k = int(rng.integers(1, len(s.features) + 1))
        b = BatchSA(V=s.V, U=s.U, factors=k, models=int(rng.integers(2, 5)), seed=int(rng.integers(1000)), max_iter=int(rng.integers(2, 40)), parallel=False, verbose=False)
        b.train()
        if rng.random() < 0.4:
            gone = int(rng.integers(len(b.results)))
            if gone != b.best_model:
                b.results[gone] = None
        alive = [i for i, r in enumerate(b.results) if r is not None]
        plain = rng.random() < 0.4
        ba = BatchAnalysis(b) if plain else BatchAnalysis(b, data_handler=s.dh)
        verify = untouched(ctx, s, [b.results[i] for i in alive])
        d = by_name(grab(ctx, ba.plot_loss)[0])
        ctx.check(set(d) == {f"Model {i + 1}" for i in alive}, "loss-models", f"{set(d)}, models {alive}")
        for i in alive:
            t = d[f"Model {i + 1}"]
            same(ctx, "loss", t.y, b.results[i].q_list)
            ctx.check(list(t.x) == list(range(len(b.results[i].q_list))), "loss-steps", "")
        d = by_name(grab(ctx, ba.plot_loss_distribution)[0])
        same(ctx, "loss-distribution", np.sort(d["Q(True)"].y), np.sort([b.results[i].Qtrue for i in alive]))
        same(ctx, "loss-distribution", np.sort(d["Q(Robust)"].y), np.sort([b.results[i].Qrobust for i in alive]))
        qt = np.asarray(d["Q(True)"].y, float)
        if d["Q(True)"].text is not None:
            ctx.check(all(abs(float(b.results[int(i)].Qtrue) - q) <= 1e-5 * q for i, q in zip(d["Q(True)"].text, qt)), "loss-labels", "")
        for j in sorted({0, int(rng.integers(len(s.features)))}):
            fig = grab(ctx, ba.plot_temporal_residuals, j)[0]
            d = by_name(fig)
            V = np.asarray(s.V, float)
            want = V if plain else s.bins(V)
            same(ctx, "temporal-input", d["Input"].y, want[:, j])
            ctx.check(set(d) == {"Input"} | {f"Model {i + 1}" for i in alive}, "temporal-models", f"{set(d)}, models {alive}")
            for i in alive:
                r = b.results[i]
                P = np.asarray(r.W, float) @ np.asarray(r.H, float)
                t = d[f"Model {i + 1}"]
                same(ctx, "temporal-residuals", t.y, want[:, j] - (P if plain else s.bins(P))[:, j], atol=1e-5 * np.abs(want[:, j]).max())
                ctx.check((t.visible is True) == (i == b.best_model), "temporal-visible", f"model {i} {t.visible}, best {b.best_model}")
            if not plain:
                ctx.check(list(pd.to_datetime(np.asarray(d["Input"].x))) == list(s.bin_times(s.times)), "temporal-times", "")
                ctx.check(s.features[j] in fig.layout.title.text, "figure-title", fig.layout.title.text)
        verify()
    ctx.note(shape=s.V.shape, axis=s.axis, max_plotting_n=s.max_n, models=len(b.results), plain=plain)
    ctx.distinct(("batch", s.label, k, plain))


def datasets(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "dataset figures"):
        m = int(rng.integers(8, 80))
        s = Setting(ctx, m, int(rng.integers(4, m)) if rng.random() < 0.5 else None)
        dh = s.dh
        raw, rawu = s.bins(s.raw), s.bins(s.rawu)
        if len(raw) < 4 or np.isnan(raw).sum(axis=0).max() > len(raw) - 4:
            return
        t = s.bin_times(pd.to_datetime(s.raw.index))
        cols = s.all
        n = len(cols)
        before = dh.input_data.copy()
        ctx.check(list(dh.input_data_plot.columns) == cols and near(dh.input_data_plot.to_numpy(float), raw, 1e-9, 1e-6)
                  and near(dh.uncertainty_data_plot.to_numpy(float), rawu, 1e-9, 1e-6), "plot-data", f"{dh.input_data_plot.shape} for {raw.shape}")
        fig = grab(ctx, dh.plot_data_uncertainty)[0]
        ctx.require([x.name for x in fig.data] == cols, "uncertainty-features", f"{[x.name for x in fig.data]}")
        for j in range(n):
            same(ctx, "uncertainty-figure", fig.data[j].x, raw[:, j])
            same(ctx, "uncertainty-figure", fig.data[j].y, rawu[:, j])
            btn = fig.layout.updatemenus[0].buttons[j]
            ctx.check(btn.label == cols[j] and list(btn.args[0]["visible"]) == [i == j for i in range(n)], "uncertainty-menu", f"{btn.label}")
        j = int(rng.integers(n))
        fig = grab(ctx, dh.plot_data_uncertainty, include_menu=False, feature_idx=j)[0]
        ctx.check([x.name for x in fig.data] == [cols[j]] and cols[j] in fig.layout.title.text, "uncertainty-one", "")
        same(ctx, "uncertainty-one", fig.data[0].x, raw[:, j])
        i, j = int(rng.integers(n)), int(rng.integers(n))
        ok = ~np.isnan(raw[:, i]) & ~np.isnan(raw[:, j])
        if ok.sum() > 3:
            fig = grab(ctx, dh.plot_feature_data, i, j)[0]
            d = by_name(fig)
            x, y = raw[ok, i], raw[ok, j]
            same(ctx, "feature-data", d["Data"].x, x)
            same(ctx, "feature-data", d["Data"].y, y)
            if x.std() > 1e-3 * x.max():
                same(ctx, "feature-regression", d["Regression"].y, np.polyval(np.polyfit(x, y, 1), x), atol=1e-6 * y.max())
            same(ctx, "feature-one-to-one", d["One-to-One"].y, x)
            ctx.check(fig.layout.xaxis.title.text == cols[i] and fig.layout.yaxis.title.text == cols[j], "feature-axes", "")
        with shown() as figs:
            dh.plot_feature_data(n, 0)
            dh.plot_feature_data(0, -1)
        ctx.check(not figs, "invalid-feature", f"{len(figs)}")
        full = ~np.isnan(raw).any(axis=1)
        if full.sum() > 2:
            pick = [int(x) for x in rng.choice(n, int(rng.integers(1, n + 1)), replace=False)]
            for sel, want in ((pick, pick), (pick[0], [pick[0]]), (cols[pick[0]], [pick[0]]), (pick[0] + n, [pick[0]])):
                fig = grab(ctx, dh.plot_feature_timeseries, sel)[0]
                ctx.require([x.name for x in fig.data] == [cols[x] for x in want], "timeseries-features", f"{sel}: {[x.name for x in fig.data]}")
                for tr, x in zip(fig.data, want):
                    series(ctx, "timeseries", tr, t[full], raw[full, x])
        fr = pd.DataFrame(raw, columns=cols)
        for method in ("pearson", "spearman"):
            fig = grab(ctx, dh.plot_feature_correlation_heatmap, method=method)[0]
            ctx.check(list(fig.data[0].x) == cols == list(fig.data[0].y), "heatmap", "labels")
            want = np.empty((n, n))
            for a in range(n):
                for c in range(n):
                    g = ~np.isnan(raw[:, a]) & ~np.isnan(raw[:, c])
                    want[a, c] = (stats.pearsonr if method == "pearson" else stats.spearmanr)(raw[g, a], raw[g, c])[0] if g.sum() > 1 else np.nan
            same(ctx, "heatmap", np.asarray(fig.data[0].z, float).ravel(), want.ravel(), atol=1e-6)
        fig = grab(ctx, dh.plot_superimposed_histograms)[0]
        ctx.check([x.name for x in fig.data] == cols, "histograms", "")
        for a in range(n):
            same(ctx, "histograms", fig.data[a].x, raw[:, a])
        fig = grab(ctx, dh.plot_2d_histogram, cols[i], cols[j])[0]
        same(ctx, "histogram-2d", fig.data[0].x, raw[:, i])
        same(ctx, "histogram-2d", fig.data[0].y, raw[:, j])
        log = bool(rng.random() < 0.5)
        fig = grab(ctx, dh.plot_ridgeline, log_x=log)[0]
        ctx.check([x.name for x in fig.data] == cols, "ridgeline", "")
        for a in range(n):
            v = raw[~np.isnan(raw[:, a]), a]
            v = np.log10(v[v > 0]) if log else v
            tr = fig.data[a]
            x, off = np.asarray(tr.x, float), float(fig.layout.yaxis.tickvals[a])
            ctx.check(abs(x.min() - v.min()) < 1e-6 * (1 + abs(v.min())) and abs(x.max() - v.max()) < 1e-6 * (1 + abs(v.max())), "ridgeline", "range")
            same(ctx, "ridgeline", np.asarray(tr.y, float) - off, stats.gaussian_kde(v)(x), atol=1e-6)
        ctx.check(dh.input_data.equals(before), "dataset-modified", "")
    ctx.note(shape=s.raw.shape, axis=s.axis, max_plotting_n=s.max_n)
    ctx.distinct(("data", s.label))


def constrained(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "constrained figures"):
        s = Setting(ctx)
        if not enough(s):
            return
        k = int(rng.integers(2, len(s.features) + 1)) if rng.random() < 0.95 or len(s.features) < 3 else 2
        if rng.random() < 0.15:
            k = int(rng.integers(11, 14))
            ctx.count("more_factors_than_colours")
        base = model(rng, s.V, s.U, k)
        cm = ConstrainedModel(base_model=base, data_handler=s.dh)
        touched = []
        for _ in range(int(rng.integers(1, 3))):
            ix = (int(rng.integers(k)), int(rng.integers(len(s.features))))
            cm.add_constraint(constraint_type="set to zero" if rng.random() < 0.5 else "set to base value", index=ix, target="feature")
            touched.append(ix)
        cm.train(max_iterations=int(rng.integers(2, 20)))
        con = cm.constrained_model
        if (np.asarray(con.H).sum(axis=0) <= 0).any() or (np.asarray(con.W).mean(axis=0) <= 0).any():
            return
        verify = untouched(ctx, s, [base, con])
        bW, bH, W, H = f64(base.W, base.H, con.W, con.H)
        b_p, c_p = percents(bH), percents(H)
        x = list(s.features)
        i = int(rng.integers(1, k + 1))
        with shown() as figs:
            cm.plot_profile_contributions(i)
            n1 = len(figs)
            cm.plot_profile_contributions(0)
            cm.plot_profile_contributions(k + 1)
            cm.plot_g_space(0, 1)
            cm.plot_g_space(1, k + 1)
            cm.plot_factor_contributions(len(x) + 1)
            ctx.check(len(figs) == n1 == 2, "invalid-factor", f"{n1} and {len(figs) - n1}")
            cm.plot_factor_fingerprints()
            a, b = int(rng.integers(1, k + 1)), int(rng.integers(1, k + 1))
            cm.plot_g_space(a, b)
            cm.plot_g_space(a, b, show_base=True)
            cm.plot_g_space(a, b, show_delta=True)
            j = int(rng.integers(len(x)))
            limit = float(rng.choice([0.06, 20.0]))
            cm.plot_factor_contributions(j + 1, threshold=limit)
        ctx.require(len(figs) == 8, "figures-shown", f"{len(figs)}")
        ctx.count("constrained_figures", len(figs))
        ctx.count("figures", len(figs))
        d = by_name(figs[0])
        same(ctx, "constrained-profile", d["Base % of Features"].y, b_p[i - 1], atol=6e-3)
        same(ctx, "constrained-profile", d["Constrained % of Features"].y, c_p[i - 1], atol=6e-3)
        same(ctx, "constrained-profile", d["Base Conc. of Features"].y, np.maximum(bW[:, i - 1].sum() * bH[i - 1], 1e-12), rtol=1e-4)
        same(ctx, "constrained-profile", d["Constrained Conc. of Features"].y, np.maximum(W[:, i - 1].sum() * H[i - 1], 1e-12), rtol=1e-4)
        ctx.check(all(list(t.x) == x for t in figs[0].data), "constrained-labels", "")
        line = d["Constrained Conc. of Features"].marker.line.color
        line = list(line) if not isinstance(line, str) else [line] * len(x)
        marked = {q for q in range(len(x)) if line[q] != line[[z for z in range(len(x)) if (i - 1, z) not in touched][0]]} if any((i - 1, z) not in touched for z in range(len(x))) else None
        if marked is not None:
            ctx.check(marked == {q for p, q in touched if p == i - 1}, "constrained-highlight", f"{marked}, constrained {touched}, factor {i - 1}")
        d = by_name(figs[1])
        series(ctx, "constrained-contributions", d["Base Factor Contributions"], s.times, bW[:, i - 1] / bW[:, i - 1].mean())
        series(ctx, "constrained-contributions", d["Constrained Factor Contributions"], s.times, W[:, i - 1] / W[:, i - 1].mean())
        bars = figs[2].data
        for f in range(k):
            mine = [t for t in bars if t.name == f"Factor {f + 1}"]
            ctx.require(len(mine) == 2, "constrained-fingerprints", f"{len(mine)}")
            for t in mine:
                same(ctx, "constrained-fingerprints", t.y, (b_p if t.hovertext == "Base" else c_p)[f])
        nb, nc = bW / bW.mean(axis=0), W / W.mean(axis=0)
        for fig, names in ((figs[3], {"Constrained"}), (figs[4], {"Constrained", "Base"}), (figs[5], {"Constrained", "Base"})):
            d = {t.name: t for t in fig.data if t.mode == "markers"}
            ctx.require(set(d) == names, "constrained-g-space", f"{set(d)}")
            for name, w in (("Constrained", nc), ("Base", nb)):
                if name in d:
                    same(ctx, "constrained-g-space", d[name].x, w[:, a - 1])
                    same(ctx, "constrained-g-space", d[name].y, w[:, b - 1])
            ctx.check(f"Factor {a} " in fig.layout.xaxis.title.text and f"Factor {b} " in fig.layout.yaxis.title.text, "constrained-g-axes", f"{fig.layout.xaxis.title.text}")
        judge_pie(ctx, figs[6], c_p[:, j], limit, x[j])
        d = by_name(figs[7])
        for f in range(k):
            series(ctx, "constrained-all-contributions", d[f"Factor {f + 1}"], s.times, W[:, f] / W[:, f].mean())
        verify()
    ctx.note(shape=s.V.shape, axis=s.axis, factors=k)
    ctx.distinct(("constrained", s.label, k))


SCENARIOS = [Scenario("models", models, 40, 700), Scenario("batches", batches, 25, 400), Scenario("datasets", datasets, 30, 500), Scenario("constrained", constrained, 30, 400)]
