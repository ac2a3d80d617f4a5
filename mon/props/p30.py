"""P30: the combined error summary shows every method's own interval around the base contribution."""
import numpy as np

from mon.core import Scenario
from mon.instr import limited
from mon.props.p16 import snap, same_snap
from mon.props.p17 import config as boot_config, near, shown
from mon.props.p18 import base
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.error.error import Error

TECHNIQUE = "offline checking of the captured summary figure against intervals recomputed from the recorded runs and displacements"
NOTE = ("Every bar and base mark of the captured figure is recomputed in float64 from the bootstrap models and from the recorded "
        "displacement results, for every combination of methods and every factor. Sampled base models and analyses.")
RULE = ("each case runs a bootstrap, a displacement and a combined analysis of one base model and draws the summary of drawn "
        "combinations for every factor; distinct by (combination, factors, features, selected features, runs)")
ASSUMPTIONS = ["figures are captured at plotly's show", "the analyses include the allowed loss change of 4 the summary is drawn for"]
REQUIRED = {"summaries": 60, "bars_checked": 100, "all_three": 8, "partial_features": 10, "refused": 30}
FLOOR = 1e-4


def mass(W, H, f):
    """contribution of factor f to every feature, and the size of the terms it is summed from"""
    w, h = np.asarray(W, np.float64)[:, f], np.asarray(H, np.float64)[f]
    return w.sum() * h, np.abs(w).sum() * np.abs(h)


def disp_interval(d, f):
    """lowest and highest contribution found for the allowed change of 4"""
    m, size = mass(d.W, d.H, f)
    lo, hi = m.copy(), m.copy()
    for j in (range(len(m)) if d.features is None else d.features):
        hi[j] = float(d.increase_results[f"factor-{f + 1}"][f"feature-{j}"][4]["conc"])
        lo[j] = float(d.decrease_results[f"factor-{f + 1}"][f"feature-{j}"][4]["conc"])
    return lo, hi, size


def intervals(boot, disp, comb, f):
    out = {}
    if boot is not None:
        ms = [mass(r["model"].W, r["model"].H, f) for r in boot.bs_results.values()]
        lo, hi = np.min([m for m, _ in ms], axis=0), np.max([m for m, _ in ms], axis=0)
        out["BS"] = (lo, hi, np.max([s for _, s in ms], axis=0))
    if disp is not None:
        out["Disp"] = disp_interval(disp, f)
    if comb is not None:
        rs = [disp_interval(d, f) for d in comb.disp_results.values()]
        out["BS-Disp"] = (np.min([r[0] for r in rs], axis=0), np.max([r[1] for r in rs], axis=0), np.max([r[2] for r in rs], axis=0))
    return out


def summary(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "error summary"):
        sa, kind = base(rng)
        k, n = sa.factors, sa.V.shape[1]
        kw, rk = boot_config(rng, sa, 6)
        labels = [f"s{j}" for j in rng.permutation(n)]
        kw["feature_labels"] = labels
        kw["model_selected"] = number = int(rng.integers(0, 30))
        boot = Bootstrap(parallel=False, **kw)
        boot.run(**rk)

        def feats():
            return None if rng.random() < 0.5 else sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
        df, cf = feats(), feats()
        disp = Displacement(sa=sa, feature_labels=labels, features=df, model_selected=number, max_search=20, threshold_dQ=0.1, parallel=False)
        disp.run()
        comb = None
        if rng.random() < 0.5:
            comb = BSDISP(sa=sa, feature_labels=labels, bootstrap=boot, model_selected=number, max_search=12, threshold_dQ=0.1, features=cf)
            comb.run(parallel=False)
        ctx.note(kind=kind, factors=k, features=n, runs=kw["bootstrap_n"], disp_features=df, bsdisp_features=cf)
        frames = [x.compiled_results.copy(deep=True) for x in (disp, comb) if x is not None]
        before = [snap(sa)] + [snap(r["model"]) for r in boot.bs_results.values()]
        contrib = {f: np.array(boot.bs_factor_contributions[f]) for f in range(k)}

        combos = [(1, 0, 0), (0, 1, 0), (1, 1, 0)] + ([(1, 1, 1), (1, 0, 1), (0, 1, 1)] if comb is not None else [])
        for c in combos:
            sel = dict(zip(("bs", "disp", "bsdisp"), (x if on else None for x, on in zip((boot, disp, comb), c))))
            e = Error(**sel)
            with shown() as figs:
                for bad in (0, k + 1, -1, k + 7):
                    e.plot_summary(factor=bad)
                    ctx.count("refused")
            ctx.check(not figs, "bad-factor-shown", f"{len(figs)} figures for factors outside 1..{k}")
            for f in range(k):
                with shown() as figs:
                    e.plot_summary(factor=f + 1)
                ctx.require(len(figs) == 1, "summary-shown", f"{len(figs)} figures for factor {f + 1}, methods {c}")
                ctx.count("summaries")
                ctx.count("all_three", all(c))
                fig = figs[0]
                bars = {t.name: t for t in fig.data if t.type == "bar"}
                marks = [t for t in fig.data if t.type == "scatter"]
                want = intervals(sel["bs"], sel["disp"], sel["bsdisp"], f)
                ctx.require(set(bars) == set(want) and len(marks) == 1 and len(fig.data) == len(want) + 1, "summary-traces",
                            f"{[t.name for t in fig.data]} for {list(want)}")
                ctx.check(f"Factor {f + 1}" in str(fig.layout.title.text), "summary-title", f"{fig.layout.title.text!r} for factor {f + 1}")
                ctx.check(f"Model {number} " in str(fig.layout.title.text), "summary-model", f"{fig.layout.title.text!r} for model {number}")
                for name, (lo, hi, size) in want.items():
                    t = bars[name]
                    ctx.count("bars_checked", len(lo))
                    ctx.check([str(x) for x in t.x] == labels, "summary-labels", f"{name}: {t.x}")
                    lo, hi = np.maximum(lo, FLOOR), np.maximum(hi, FLOOR)
                    tol = 2.5e-4 + 1e-4 * size
                    b, y = np.asarray(t.base, float), np.asarray(t.y, float)
                    ctx.check(near(b, lo, tol, 2e-4), "summary-low", f"{name} factor {f + 1}: {b} against {lo}")
                    ctx.check(b.shape == y.shape and near(b + y, hi, tol, 2e-4), "summary-high", f"{name} factor {f + 1}: {b + y} against {hi}")
                    ctx.check(np.all(y >= -1e-12) and np.all(b > 0), "summary-negative", f"{name} factor {f + 1}: heights {y}, from {b}")
                m, size = mass(sa.W, sa.H, f)
                ctx.check([str(x) for x in marks[0].x] == labels, "summary-labels", f"base: {marks[0].x}")
                # a displacement starts from the profiles plus 1e-12, which shows in factors scaled to that size
                eps = 1.01e-12 * np.abs(np.asarray(sa.W, np.float64)[:, f]).sum() * bool(c[1])
                ctx.check(near(marks[0].y, np.maximum(m, FLOOR), 2.5e-4 + eps + 1e-5 * (size + eps), 2e-4), "summary-base",
                          f"factor {f + 1}: {marks[0].y} against {m}")
        with shown() as figs:
            Error().plot_summary(factor=1)
        ctx.check(not figs, "nothing-shown", "a summary of no method")
        after = [snap(sa)] + [snap(r["model"]) for r in boot.bs_results.values()]
        ctx.check(all(not same_snap(a, b) for a, b in zip(before, after)), "model-modified", "by the summary")
        ctx.check(all(a.equals(x.compiled_results) for a, x in zip(frames, [x for x in (disp, comb) if x is not None])), "results-modified", "by the summary")
        ctx.check(all(np.array_equal(contrib[f], np.array(boot.bs_factor_contributions[f])) for f in range(k)), "results-modified", "bootstrap contributions")
        ctx.count("partial_features", (df is not None) + (comb is not None and cf is not None))
    ctx.distinct((tuple(combos), k, n, str(df), str(cf), kw["bootstrap_n"]))


SCENARIOS = [Scenario("summary", summary, 30, 700)]
