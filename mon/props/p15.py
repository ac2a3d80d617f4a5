"""P15: imputation."""
import numpy as np
import pandas as pd

from mon.core import Scenario
from esat.data.datahandler import DataHandler
from esat.data.impute import DataImputer

TECHNIQUE = "runtime monitoring of imputation results cell by cell against the loaded tables, with snapshots of the sources"
NOTE = ("Every cell of every result is judged: observed cells must be unchanged, missing ones filled, simple methods checked "
        "against their definition. Sampled tables, missing patterns, markers and methods.")
RULE = ("each case draws a table pair with a missing pattern and marker, imputes with one method and judges every cell; distinct by "
        "(method, marker, pattern, shape)")
ASSUMPTIONS = ["every feature has an observed value and every sample an observed value in both tables"]
REQUIRED = {"filled_cells": 1000, "observed_cells": 5000, "simple_fills": 300, "neighbour_fills": 60, "iterative_fills": 30, "other_columns": 20, "imputed_again": 30}


def neighbours(X, n_neighbors=5, weights="uniform"):
    """The mean, or the mean weighted by the inverse distance, of the nearest samples in which the feature was observed; the distance is over the
    features observed in both, scaled to all of them. Second result: where no tie leaves the answer open."""
    m, n = X.shape
    out, sure = X.copy(), np.ones(X.shape, bool)
    for i, j in np.argwhere(np.isnan(X)):
        d = []
        for r in np.flatnonzero(~np.isnan(X[:, j])):
            both = ~np.isnan(X[i]) & ~np.isnan(X[r])
            if both.any():
                d.append((np.sqrt(n / both.sum() * ((X[i, both] - X[r, both]) ** 2).sum()), X[r, j]))
        if not d:
            out[i, j] = np.nanmean(X[:, j])
            continue
        d.sort()
        k = min(n_neighbors, len(d))
        # samples without a common feature stand behind the others and weigh nothing; rows closer than rounding leave the answer open
        size = np.nanmax(np.abs(X)) * np.sqrt(n)
        sure[i, j] = (k == len(d) or d[k][0] - d[k - 1][0] > 1e-6 * size) and d[0][0] > 1e-3 * size and len(d) >= n_neighbors
        dist, val = np.array(d[:k]).T
        w = 1 / np.maximum(dist, 1e-300) if weights == "distance" else np.ones(k)
        out[i, j] = (w * val).sum() / w.sum()
    return out, sure


def impute(ctx):
    rng = ctx.rng
    m, n = int(rng.integers(5, 40)), int(rng.integers(2, 8))
    if rng.random() < 0.05:
        m, n = int(rng.integers(100, 300)), int(rng.integers(8, 20))
    cols = [f"c{i}" for i in rng.permutation(n)]
    scale = 10.0 ** rng.uniform(-2, 3, n)
    V = rng.gamma(1.5, 1.0, (m, n)) * scale
    U = V * rng.uniform(0.05, 0.5, (m, n)) + 0.01 * scale
    if rng.integers(2):
        V, U = np.round(V, 1) + 0.1, np.round(U, 1) + 0.1       # repeated values: modes are meaningful
    marker = [np.nan, np.nan, -999.0, -1.0, 0.0][rng.integers(5)]
    pattern = ["both", "data", "uncertainty", "independent", "none", "block"][rng.integers(6)]
    mask = rng.random((m, n)) < rng.uniform(0.02, 0.35)
    if pattern == "block":
        mask[:] = False
        mask[: m // 2, rng.integers(n)] = True
    mask[rng.integers(m)] = False                               # every feature observed somewhere
    for i in np.flatnonzero(mask.all(axis=1)):
        mask[i, rng.integers(n)] = False
    mv = mask if pattern in ("both", "data", "independent", "block") else np.zeros_like(mask)
    mu = {"both": mask, "block": mask, "uncertainty": mask}.get(pattern, np.zeros_like(mask))
    if pattern == "independent":
        mu = np.roll(mask, 1, axis=0)
    if rng.random() < 0.3 and marker == marker:
        extra = np.zeros_like(mask)
        extra[rng.integers(m), rng.integers(n)] = True
        a = V.copy()
        a[mv] = marker
        a[extra] = np.nan                                        # plain gaps beside the marker
        mv = mv | extra
        mv[np.flatnonzero(mv.all(axis=1))] &= ~extra[np.flatnonzero(mv.all(axis=1))]
    V = np.where(mv, marker, V)
    U = np.where(mu, marker, U)
    if marker == marker and rng.random() < 0.3 and mv.any():
        i, j = np.argwhere(mv)[0]
        V[i, j] = np.nan
    if mv.all(axis=0).any() or mu.all(axis=0).any() or mv.all(axis=1).any() or mu.all(axis=1).any():
        from mon.core import Skip
        raise Skip()
    idx = pd.Index([f"2021-{i}" for i in rng.permutation(m)], name="Date")
    v, u = pd.DataFrame(V, columns=cols, index=idx), pd.DataFrame(U, columns=cols, index=idx)
    method = ["mean", "median", "most_frequent", "knn", "iterative"][rng.choice(5, p=[0.24, 0.24, 0.24, 0.2, 0.08])]
    args = None
    if method == "knn" and rng.integers(2):
        args = {"n_neighbors": int(rng.integers(1, 6)), "weights": str(rng.choice(["uniform", "distance"]))}
    if method == "iterative":
        args = {"max_iter": int(rng.integers(1, 5)), "tol": float(rng.choice([1e-3, 1e-6, 0.1]))}
        if rng.random() < 0.3:
            args = None                                  # ten rounds, to 1e-3
    seed = int(rng.integers(1 << 20))
    ctx.note(method=method, marker=str(marker), pattern=pattern, shape=(m, n), args=args)
    ctx.distinct((method, str(marker), pattern, m, n))
    snap = v.copy(deep=True), u.copy(deep=True)
    others = rng.random() < 0.25
    with ctx.quiet():
        if others:
            # location and dropped columns, numbers or text, are no features
            ctx.count("other_columns")
            loc = [c for c in ("site", "county") if rng.integers(2)]
            drop = [c for c in ("flag", "level") if rng.integers(2) or not loc]
            w, x = v.copy(), u.copy()
            for c in loc + drop:
                val = rng.choice(["a", "b"], m) if rng.integers(2) else rng.choice([1.5, 400.0, -2.0], m)
                at = int(rng.integers(0, w.shape[1] + 1))
                w.insert(at, c, val)
                x.insert(at, c, val)
            w.to_csv(ctx.scratch / "v.csv")
            x.to_csv(ctx.scratch / "u.csv")
            dh = DataHandler(str(ctx.scratch / "v.csv"), str(ctx.scratch / "u.csv"), index_col="Date", loc_cols=loc or None, drop_col=drop or None)
            v, u = dh.input_data[cols].copy(), dh.uncertainty_data[cols].copy()
            snap = v.copy(deep=True), u.copy(deep=True)
        else:
            dh = DataHandler.load_dataframe(input_df=v, uncertainty_df=u)
        l0, l1 = dh.input_data.copy(deep=True), dh.uncertainty_data.copy(deep=True)

        def run():
            im = DataImputer(dh, random_seed=seed, missing_value=marker)
            r = im.impute(strategy=method, args=args)
            return im, r
        im, (a, b) = run()
        np.random.seed(4)
        im2, (a2, b2) = run()
        if rng.integers(2):
            # what an imputer did before does not matter
            ctx.count("imputed_again")
            if rng.random() < 0.6:
                im2 = DataImputer(dh, random_seed=seed, missing_value=marker)
                if rng.random() < 0.5:
                    # the handler's tables had other gaps then
                    ctx.count("other_gaps_before")
                    dh.input_data = dh.input_data.iloc[::-1].set_axis(l0.index)
                    dh.uncertainty_data = dh.uncertainty_data.iloc[::-1].set_axis(l1.index)
            im2.impute(strategy=str(rng.choice(["mean", "median", "most_frequent", "knn"])))
            dh.input_data, dh.uncertainty_data = l0.copy(deep=True), l1.copy(deep=True)
            im2.impute(strategy=method, args=args)
            a2, b2 = im2.imputed_data, im2.imputed_uncertainty
            ctx.check(np.array_equal(np.asarray(im2.imputation_mask, bool), mv | mu), "imputation-mask", f"{method} {pattern}, second call")
    ctx.check(v.equals(snap[0]) and u.equals(snap[1]) and dh.input_data.equals(l0) and dh.uncertainty_data.equals(l1), "source-table-modified", method)
    for nm, got, src, miss in (("data", a, v, mv), ("uncertainty", b, u, mu)):
        ctx.require(isinstance(got, pd.DataFrame) and got.shape == (m, n), "result-shape", f"{nm}: {getattr(got, 'shape', None)} for {(m, n)}")
        ctx.check(list(got.columns) == cols and list(got.index) == list(idx), "result-labels", f"{nm}")
        g, s = got.to_numpy(float), src.to_numpy(float)
        ctx.count("observed_cells", (~miss).sum())
        ctx.count("filled_cells", miss.sum())
        ctx.check(np.array_equal(g[~miss], s[~miss]), f"observed-{nm}-changed", f"{method} marker {marker} pattern {pattern}")
        ctx.check(np.isfinite(g).all(), f"missing-{nm}-not-filled", f"{method} marker {marker} pattern {pattern}")
        if method in ("mean", "median", "most_frequent"):
            for j in range(n):
                if not miss[:, j].any():
                    continue
                x = s[~miss[:, j], j]
                if method == "mean":
                    ok = np.isclose(g[miss[:, j], j], x.mean(), rtol=1e-9)
                elif method == "median":
                    ok = np.isclose(g[miss[:, j], j], np.median(x), rtol=1e-9)
                else:
                    val, cnt = np.unique(x, return_counts=True)
                    ok = np.isin(g[miss[:, j], j], val[cnt == cnt.max()])
                ctx.count("simple_fills", miss[:, j].sum())
                ctx.check(ok.all(), f"fill-value-{method}", f"{nm} feature {cols[j]}: {g[miss[:, j], j][:3]}")
        if method == "knn":
            near, sure = neighbours(np.where(miss, np.nan, s), **(args or {}))
            ctx.count("neighbour_fills", int((miss & sure).sum()))
            bad = miss & sure & ~np.isclose(g, near, rtol=1e-7)
            ctx.check(not bad.any(), "fill-value-knn", f"{nm} {args}: {g[bad][:3]} against {near[bad][:3]}")
        if method == "iterative":
            from sklearn.experimental import enable_iterative_imputer       # noqa: F401
            from sklearn.impute import IterativeImputer
            want = IterativeImputer(random_state=seed, **(args or dict(max_iter=10, tol=1e-3))).fit_transform(np.where(miss, np.nan, s))
            ctx.count("iterative_fills", int(miss.sum()))
            ctx.check(np.allclose(g, want, rtol=1e-5, atol=1e-9), "fill-value-iterative", f"{nm} {args}: {np.abs(g - want).max()}")
        if method == "knn":
            for j in range(n):
                if miss[:, j].any():
                    x = s[~miss[:, j], j]
                    w = g[miss[:, j], j]
                    ctx.check((w >= x.min() - 1e-9 * abs(x.min())).all() and (w <= x.max() * (1 + 1e-9) + 1e-12).all(), "fill-value-knn", f"{nm} {cols[j]}")
    ctx.check(im.imputation_mask is not None and np.array_equal(np.asarray(im.imputation_mask, bool), mv | mu), "imputation-mask", f"{method} {pattern}")
    ctx.check(im.imputed_data.equals(a) and im.imputed_uncertainty.equals(b), "result-attributes", method)
    ctx.check(a.equals(a2) and b.equals(b2), "not-reproducible", method)


def refused(ctx):
    """An unknown method is refused with an error and leaves nothing behind."""
    rng = ctx.rng
    v = pd.DataFrame(rng.random((5, 3)), columns=list("abc"))
    with ctx.quiet():
        im = DataImputer(DataHandler.load_dataframe(input_df=v, uncertainty_df=v * 0.1))
        try:
            im.impute(strategy=str(rng.choice(["nope", "", "KNN", "zero"])))
            ctx.fail("unknown-method-accepted")
        except ValueError:
            pass
    ctx.check(im.imputed_data is None, "unknown-method-accepted", "")


SCENARIOS = [Scenario("impute", impute, 160, 3000), Scenario("refused", refused, 5, 20)]
