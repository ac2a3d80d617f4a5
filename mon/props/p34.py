"""P34: figures comparing a reference solution with two models show the matched factors' own numbers."""
import numpy as np
import pandas as pd

from mon.core import Scenario, Violation
from mon.props.p17 import near, shown
from esat.data.test_tools import CompareAnalyzer

TECHNIQUE = "offline checking of captured comparison figures against values recomputed in float64 from the compared matrices"
NOTE = ("Every trace of every captured figure (profiles, fingerprints, shares, time series, residual histograms and their table) is recomputed "
        "from the three solutions and the factor matching. Sampled solutions, matchings and features.")
RULE = ("each case draws a dataset and three solutions with a matching of their factors and draws every figure; "
        "distinct by (factors, features, samples, matching)")
ASSUMPTIONS = ["figures are captured at plotly's show", "every feature has a positive total in every solution",
               "time labels are distinct and either timestamps or text in the form PMF5 writes"]
REQUIRED = {"comparison_figures": 300, "traces": 2000, "permuted": 20, "many_factors": 8}


def solution(rng, W, H, names, features):
    p = pd.DataFrame(H.T, columns=names)
    p.insert(int(rng.integers(0, 2)) * p.shape[1], "species", features)
    return p, pd.DataFrame(W, columns=names)


def figures(ctx):
    rng = ctx.rng
    k, n = int(rng.integers(1, 10)), int(rng.integers(2, 8))
    m = int(rng.integers(3, 60))
    names = [f"Factor {i + 1}" for i in range(k)]
    feats = [f"f {j}" for j in rng.permutation(n)]
    step = pd.Timedelta(minutes=int(rng.choice([60, 360, 1440, 4320])))
    when = pd.date_range("2019-03-01 06:00", periods=m, freq=step)
    stamps = list(when) if rng.integers(2) else when.strftime("%m/%d/%y %H:%M")
    V = pd.DataFrame(rng.gamma(1, 1, (m, n)) * 10.0 ** rng.uniform(-2, 2, n), columns=feats, index=pd.Index(when, name="Date"))
    sol = {}
    for w in ("PMF", "LS", "WS"):
        H, W = rng.gamma(1, 1, (k, n)) + 1e-3, rng.gamma(1, 1, (m, k))
        H[rng.random(H.shape) < 0.1] = 0.0
        H[0] += 0.01
        if w == "WS" and rng.integers(2):
            W *= rng.choice([-1, 1, 1], W.shape)
        sol[w] = (W, H)
    maps = {"PMF": np.arange(k), "LS": rng.permutation(k), "WS": rng.permutation(k)}
    ctx.count("permuted", int(k > 2 and not np.array_equal(maps["LS"], maps["WS"])))
    ctx.count("many_factors", int(k > 6))
    dfs = {w: solution(rng, *sol[w], names, feats) for w in sol}
    listed = [np.array, pd.Index][rng.integers(2)]
    ctx.note(factors=k, features=n, samples=m, features_as=listed.__name__)
    ctx.distinct((k, n, m, str(maps["LS"]), str(maps["WS"])))
    before = {w: (dfs[w][0].copy(), dfs[w][1].copy()) for w in dfs}
    ca = CompareAnalyzer(input_df=V, pmf_profile_df=dfs["PMF"][0], pmf_contributions_df=dfs["PMF"][1], ls_profile_df=dfs["LS"][0],
                         ws_profile_df=dfs["WS"][0], ls_mapping=[names[i] for i in maps["LS"]], ws_mapping=[names[i] for i in maps["WS"]],
                         ls_contributions_df=dfs["LS"][1], ws_contributions_df=dfs["WS"][1], features=listed(feats), datetimestamps=stamps)
    share = {w: sol[w][1] / sol[w][1].sum(axis=0) for w in sol}           # of every feature, over the factors
    long = {"PMF": "PMF", "LS": "LS-NMF", "WS": "WS-NMF"}

    def one(fn, *a, count=1, **kw):
        with shown() as figs, ctx.quiet():
            fn(*a, **kw)
        ctx.count("comparison_figures", len(figs))
        ctx.require(len(figs) == count, "figure-missing", f"{fn.__name__}: {len(figs)} figures, {count} expected")
        return figs[0] if count == 1 else figs

    def trace(t, y, name, kind, x=None):
        ctx.count("traces")
        ctx.check(t.name == name, kind, f"trace {t.name!r}, expected {name!r}")
        ctx.check(near(t.y if x is not None else t.x, y, 1e-9, 1e-6), kind, f"{name}: {t.y} against {y}")
        if x is not None:
            at = [str(a) for a in t.x] if isinstance(x[0], str) else [pd.Timestamp(a) for a in t.x]
            ctx.check(at == list(x), kind, f"{name}: at {list(t.x)[:4]}")

    j = int(rng.integers(n))
    how = [{"feature": feats[j]}, {"feature_i": j}, {"feature": "unknown", "feature_i": j}][rng.integers(3)]
    fig = one(ca.plot_factor_contribution, **how)
    for t, w in zip(fig.data, sol):
        ctx.count("traces")
        ctx.check(t.name == long[w] and list(t.labels) == names and near(t.values, share[w][:, j], 1e-9, 1e-6), "shares", f"{w} {feats[j]}: {t.values}")
    ctx.check(len(fig.data) == 3 and feats[j] in fig.layout.title.text, "shares", f"{fig.layout.title.text}")

    figs = one(ca.plot_fingerprints, float(rng.choice([-1, 0.5])), float(rng.choice([-1, 0.75])), count=3)
    for fig, w in zip(figs, ("PMF", "LS", "WS")):
        ctx.require(len(fig.data) == k and fig.layout.title.text.startswith(long[w]), "fingerprints", f"{len(fig.data)} bars, {fig.layout.title.text}")
        for t, f in zip(fig.data, range(k - 1, -1, -1)):
            g = maps[w][f]
            trace(t, 100 * share[w][g], names[g], "fingerprints", feats)

    try:
        fig = one(ca.plot_factors)
    except Exception as ex:
        if k <= 6 or isinstance(ex, Violation):
            raise
        # the figure has six rows only
        ctx.check(False, "profiles-beyond-six-factors", f"{k} factors: {type(ex).__name__}: {ex}")
        fig = None
    if fig is not None:
        ctx.require(len(fig.data) == 3 * k, "profiles", f"{len(fig.data)} profiles for {k} factors")
        for f in range(k):
            for t, w in zip(fig.data[3 * f: 3 * f + 3], ("PMF", "WS", "LS")):
                g = maps[w][f]
                trace(t, share[w][g], f"{long[w]} {names[g]}", "profiles", feats)
                ctx.check(t.xaxis == fig.data[3 * f].xaxis and (f == 0 or t.xaxis != fig.data[3 * f - 1].xaxis), "profiles", "matched factors are not beside each other")

    f = int(rng.integers(k))
    pick = [j, [int(x) for x in rng.permutation(n)[:2]], "all"][rng.integers(3)]
    want = [pick] if isinstance(pick, int) else list(range(n)) if pick == "all" else pick
    with_input = bool(rng.integers(2))
    figs = one(ca.plot_feature_timeseries, f, pick, show_input=with_input, count=len(want))
    for fig, i in zip(figs if len(want) > 1 else [figs], want):
        ctx.require(len(fig.data) == 3 + with_input, "factor-series", f"{len(fig.data)} traces")
        for t, w in zip(fig.data, ("PMF", "LS", "WS")):
            g = maps[w][f]
            trace(t, sol[w][0][:, g] * sol[w][1][g, i], f"{w} - {feats[i]}", "factor-series", stamps)
        if with_input:
            trace(fig.data[3], V[feats[i]], f"Input - {feats[i]}", "factor-series", stamps)

    fig = one(ca.timeseries_plot, **how)
    days = when.normalize()
    grid = pd.date_range(days[0], days[-1], freq="D")
    series = {w: (sol[w][0] @ sol[w][1])[:, j] for w in sol}
    ctx.require(len(fig.data) == 4, "series", f"{len(fig.data)} traces")
    for t, (w, y) in zip(fig.data, [*series.items(), ("Input", V[feats[j]].to_numpy())]):
        mean = [y[days == d].mean() if (days == d).any() else np.nan for d in grid]
        trace(t, mean, f"{w} - {feats[j]}", "series", grid)

    limit = float(rng.choice([3.0, 0.5]))
    fig = one(ca.feature_histogram, **how, **({} if limit == 3.0 and rng.integers(2) else {"threshold": limit}), normalized=bool(rng.integers(2)))
    ctx.require(len(fig.data) == 4, "residuals", f"{len(fig.data)} traces")
    head = [str(x) for x in fig.data[3].header.values]
    table = dict(zip(head, fig.data[3].cells.values))
    for t, w in zip(fig.data, sol):
        r = V[feats[j]].to_numpy() - series[w]
        trace(t, r, long[w], "residuals")
        got = [float(x) for x in table[long[w]]]
        ctx.check(near(got[:3], [r.min(), r.mean(), r.max()], 1e-9, 1e-6), "residual-table", f"{w}: {got}")
        edge = np.abs(np.abs(r) - limit) < 1e-6 * limit
        ctx.check((np.abs(r) >= limit)[~edge].sum() <= got[3] <= (np.abs(r) >= limit)[~edge].sum() + edge.sum(), "residual-table", f"{w}: {got[3]} beyond {limit}")
    ctx.check(all(before[w][i].equals(dfs[w][i]) for w in dfs for i in (0, 1)), "solution-modified", "by drawing")


def listed(ctx):
    """The feature names given as a list, as documented."""
    rng = ctx.rng
    k, n, m = 2, int(rng.integers(2, 5)), 8
    names, feats = [f"Factor {i + 1}" for i in range(k)], [f"f{j}" for j in range(n)]
    when = pd.date_range("2020-01-01", periods=m)
    V = pd.DataFrame(rng.gamma(1, 1, (m, n)), columns=feats, index=pd.Index(when, name="Date"))
    (p1, c1), (p2, c2), (p3, c3) = (solution(rng, rng.gamma(1, 1, (m, k)), rng.gamma(1, 1, (k, n)) + 0.1, names, feats) for _ in range(3))
    ctx.distinct(n)
    ca = CompareAnalyzer(input_df=V, pmf_profile_df=p1, pmf_contributions_df=c1, ls_profile_df=p2, ws_profile_df=p3, ls_mapping=names,
                         ws_mapping=names, ls_contributions_df=c2, ws_contributions_df=c3, features=feats, datetimestamps=list(when))
    j = int(rng.integers(n))
    for fn in (ca.plot_factor_contribution, ca.timeseries_plot, ca.feature_histogram):
        try:
            with shown() as figs, ctx.quiet():
                fn(feature=feats[j])
        except Exception as ex:
            ctx.check(False, "features-as-list" if fn == ca.plot_factor_contribution else "figure-fails", f"{fn.__name__}: {type(ex).__name__}: {ex}")
            continue
        ctx.require(len(figs) == 1, "figure-missing", f"{fn.__name__}: {len(figs)} figures")
        ctx.check(feats[j] in str(figs[0].layout.title.text) or feats[j] in str([t.name for t in figs[0].data]), "other-feature", f"{fn.__name__}: {figs[0].layout.title.text}")


SCENARIOS = [Scenario("figures", figures, 60, 1500), Scenario("listed", listed, 4, 40)]
