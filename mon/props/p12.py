"""P12: prepared matrices against an independent model of the cleaning rules, over histories of category changes."""
import numpy as np
import pandas as pd

from mon.core import Scenario, Skip
from esat.data.datahandler import DataHandler

TECHNIQUE = "model-based runtime monitoring of call histories (category changes and data requests) on generated tables"
NOTE = ("After every operation of a random history the prepared matrices, labels and source tables are compared with an "
        "independent model of the cleaning rules. Sampled tables and histories, from files and from memory.")
RULE = ("each case draws a labelled table pair with missing and zero values, dropped and location columns, loads it from memory "
        "or files and applies a random history of category changes and data requests; distinct by (source, columns, history)")
ASSUMPTIONS = ["both tables carry the same index and column labels in the same order, with at least two complete samples"]
REQUIRED = {"single_precision_tables": 15, "whole_number_tables": 3, "data_requests": 300, "rows_dropped_one_sided": 100, "zeros_replaced": 100, "weak_features_seen": 50, "bad_features_seen": 50,
            "refused_changes": 50, "default_index_loads": 10, "xlsx_files": 3,
            "marked_files": 5, "refused_files": 10}


NAMES = ["PM 2.5", "SO4=", "NO3 -", "Na+", "m/z 44", "44", "1,2,4-Trimethylbenzene", "2,2-Dimethylbutane", "Si (XRF)", "OC/EC", "a:b", "PM₂", "Fe|x",
         "it's", "Organic Carbon", "x;y", "#1", "K.1", "%", '5" pipe', "index", "Total"]


def table(rng, locs=0, drops=0, m=None):
    m = int(m or rng.integers(6, 60))
    n = int(rng.integers(2, 9))
    if rng.random() < 0.05:
        m, n = (m if m < 25 else int(rng.integers(100, 400))), int(rng.integers(9, 30))
    cols = [f"f{i}" for i in range(n)]
    if n <= len(NAMES) and rng.integers(2):
        cols = [str(x) for x in rng.choice(NAMES, n, replace=False)]
    rng.shuffle(cols)
    scale = 10.0 ** rng.uniform(-3, 3, n)
    V = rng.gamma(1.0, 1.0, (m, n)) * scale
    U = V * rng.uniform(0.05, 2.0, (m, n)) + 0.01 * scale
    if rng.integers(2):
        V[rng.random(V.shape) < 0.05] = 0.0
        U[rng.random(V.shape) < 0.05] = 0.0
    if rng.random() < 0.2:
        V[rng.random(V.shape) < 0.05] *= -1
    r = rng.integers(5)
    if r in (0, 2):
        V[rng.random(V.shape) < 0.05] = np.nan
    if r in (1, 2):
        U[rng.random(V.shape) < 0.05] = np.nan
    if rng.random() < 0.2:
        i = rng.integers(m)
        V[i], U[i] = np.nan, np.nan
    start = pd.Timestamp("2020-01-01") + pd.Timedelta(days=int(rng.integers(400)))
    idx = start + pd.to_timedelta(np.arange(m) * int(rng.choice([1, 3, 24])), unit="h")
    if rng.random() < 0.25:
        idx = idx[rng.integers(0, m, m)]         # repeated, unsorted labels
    idx = pd.Index([str(x) for x in idx], name="Date")
    v, u = pd.DataFrame(V, columns=cols, index=idx), pd.DataFrame(U, columns=cols, index=idx)
    extra_l, extra_d = [], []
    for j in range(locs):
        c = ["latitude", "longitude"][j] if locs == 2 else "site"
        val = rng.choice(["north", "south", "b 3"], m) if locs == 1 and rng.integers(2) else np.round(rng.choice([1.5, 2.25, -3.125], m), 6)
        at = int(rng.integers(0, v.shape[1] + 1))
        v.insert(at, c, val)
        u.insert(at, c, val)
        extra_l.append(c)
    for j in range(drops):
        c = f"drop{j}"
        val = rng.choice(["x", "y"], m) if rng.integers(2) else rng.random(m)
        at = int(rng.integers(0, v.shape[1] + 1))
        v.insert(at, c, val)
        u.insert(at, c, val)
        extra_d.append(c)
    return v, u, extra_l, extra_d


def make(ctx, v, u, locs, drops):
    rng = ctx.rng
    if not locs and not drops and rng.integers(2):
        return DataHandler.load_dataframe(input_df=v, uncertainty_df=u), "memory"
    ext, sep = [("csv", ","), ("txt", "\t"), ("csv", "\t"), ("csv", ","), ("xlsx", None)][min(4, rng.integers(9) // 2)]
    folder = ctx.scratch / str(rng.choice(["in", "my data", "v1.2"]))
    folder.mkdir(exist_ok=True)
    a, b = folder / f"con.{ext}", folder / f"unc.{ext}"
    style = {"sep": sep, "encoding": str(rng.choice(["utf-8", "utf-8", "utf-8-sig"])), "lineterminator": str(rng.choice(["\n", "\r\n"]))}
    for x, f in ((v, a), (u, b)):
        if sep:
            x.to_csv(f, **style)
        else:
            x.to_excel(f)
    ctx.count(f"{ext}_files")
    ctx.count("marked_files", bool(style["encoding"] != "utf-8" and sep))
    ctx.note(file=[ext, style])
    kw = {} if rng.random() < 0.35 else {"index_col": "Date"}      # the first column is the default index
    if locs:
        kw["loc_cols"] = locs if len(locs) > 1 or rng.integers(2) else locs[0]
    if drops:
        kw["drop_col"] = drops
    return DataHandler(input_path=str(a), uncertainty_path=str(b), **kw), "file-" + ext + ("" if "index_col" in kw else "-default-index")


def expected(v, u, feats, cats):
    keep = [f for f in feats if cats[f] != "bad"]
    a, b = v[keep].to_numpy(dtype=float), u[keep].to_numpy(dtype=float).copy()
    for j, f in enumerate(keep):
        if cats[f] == "weak":
            b[:, j] *= 3.0
    ok = ~(np.isnan(a).any(axis=1) | np.isnan(b).any(axis=1))
    return keep, ok, a[ok], b[ok]


def judge(ctx, dh, got, v, u, feats, cats, where):
    keep, ok, a, b = expected(v, u, feats, cats)
    ctx.count("data_requests")
    V, U = np.asarray(got[0]), np.asarray(got[1])
    ctx.require(V.shape == a.shape and U.shape == b.shape, "prepared-shape", f"{where}: data {V.shape}, uncertainty {U.shape}, expected {a.shape}")
    nan_v, nan_u = v[keep].isna().any(axis=1).to_numpy(), u[keep].isna().any(axis=1).to_numpy()
    ctx.count("rows_dropped_one_sided", (nan_v ^ nan_u).sum())
    ctx.check(not np.isnan(V).any() and not np.isnan(U).any(), "missing-value-kept", where)
    for nm, got_m, want in (("data", V, a), ("uncertainty", U, b)):
        z = want == 0
        ctx.count("zeros_replaced", z.sum())
        ctx.check((np.abs(got_m[~z] - want[~z]) <= 2e-6 * np.abs(want[~z])).all(), f"prepared-{nm}-values", f"{where}: {nm} differ from the source table")
        ctx.check((got_m[z] > 0).all() and (got_m[z] < 1e-6).all(), f"zero-{nm}-not-replaced", f"{where}: zeros became {got_m[z][:5]}")
    ctx.check(list(dh.features) == keep, "feature-labels", f"{where}: {list(dh.features)} expected {keep}")
    labels = [str(x) for x in v.index[ok]]
    for nm, df in (("data", dh.input_data_df), ("uncertainty", dh.uncertainty_data_df)):
        ctx.check(list(df.columns) == keep and [str(x) for x in df.index] == labels, "index-labels", f"{where}: {nm} frame labels")
        ctx.check(df.shape == a.shape and np.allclose(df.to_numpy(float), a if nm == "data" else b, rtol=2e-6, atol=1e-6), f"prepared-{nm}-frame", where)


def history(ctx):
    rng = ctx.rng
    v, u, locs, drops = table(rng, locs=int(rng.choice([0, 0, 0, 1, 2])), drops=int(rng.choice([0, 0, 0, 1, 2])))
    feats = [c for c in v.columns if c not in locs and c not in drops]
    r = rng.random()
    if r < 0.2:
        ctx.count("single_precision_tables")
        v, u = (x.astype({f: "float32" for f in feats}) for x in (v, u))
    elif r < 0.42 and not v[feats].isna().any(axis=None) and not u[feats].isna().any(axis=None):
        ctx.count("whole_number_tables")
        for x in (v, u):
            x[feats] = np.clip(np.round(x[feats] * 10), -1e6, 1e6)
        v, u = (x.astype({f: "int64" for f in feats}) for x in (v, u))
    v0, u0 = v.copy(deep=True), u.copy(deep=True)
    if expected(v, u, feats, {f: "strong" for f in feats})[1].sum() < 2:
        raise Skip()
    with ctx.quiet():
        dh, src = make(ctx, v, u, locs, drops)
        ctx.count("default_index_loads", src.endswith("default-index"))
        cats = {f: "strong" for f in feats}
        hist = []
        s0, s1 = dh.input_data.copy(deep=True), dh.uncertainty_data.copy(deep=True)
        for step in range(int(rng.integers(3, 10))):
            r = rng.random()
            if r < 0.45 or step == 0:
                hist.append("get")
                got = dh.get_data()
                judge(ctx, dh, got, v, u, feats, cats, f"{src} step {step} after {hist}")
                if rng.random() < 0.3:
                    # what the caller does with its matrices has no part in later requests
                    for x in got:
                        x *= 0.5
            elif r < 0.9:
                f, c = str(rng.choice(feats)), str(rng.choice(["weak", "bad", "strong", "weak", "bad"]))
                if c == "bad" and sum(x != "bad" for x in cats.values()) <= 1:
                    continue
                trial = {**cats, f: c}
                if expected(v, u, feats, trial)[1].sum() < 2:
                    continue
                hist.append((f, c))
                ctx.count(f"{c}_features_seen")
                ctx.check(dh.set_category(f, c) is True, "category-refused", f"{f} {c}")
                cats = trial
            else:
                f, c = [("nosuch", "bad"), (None, "weak"), (str(rng.choice(feats)), "awful"), ("nosuch", "strong")][rng.integers(4)]
                hist.append((f, c))
                ctx.count("refused_changes")
                ctx.check(dh.set_category(f, c) is False, "bad-change-accepted", f"{f} {c}")
        judge(ctx, dh, dh.get_data(), v, u, feats, cats, f"{src} end of {hist}")
        V1, U1 = (np.array(x, copy=True) for x in dh.get_data())
        V2, U2 = dh.get_data()
        ctx.check(np.array_equal(V1, V2) and np.array_equal(U1, U2), "request-not-idempotent", f"{src}")
        ctx.check({f: dh.metrics.loc[f, "Category"] for f in feats} == cats, "categories-recorded", f"{hist}")
    ctx.check(v.equals(v0) and u.equals(u0), "source-table-modified", f"{src} caller's tables")
    ctx.check(dh.input_data.equals(s0) and dh.uncertainty_data.equals(s1), "source-table-modified", f"{src} loaded tables")
    ctx.note(source=src, shape=v.shape, locations=locs, dropped=drops, history=hist)
    ctx.distinct((src, len(feats), bool(locs), bool(drops), str(hist)))


def files(ctx):
    """Paths that hold no table are refused: nothing is loaded and nothing is written."""
    rng = ctx.rng
    v, u, _, _ = table(rng)
    good = ctx.scratch / "a.csv"
    v.to_csv(good)
    (ctx.scratch / "a.dat").write_text(good.read_text())
    (ctx.scratch / "d.csv").mkdir()
    (ctx.scratch / "e.csv").write_text("")
    bad = ctx.scratch / ["b.csv", "no/b.csv", "a.dat", "d.csv", "e.csv"][rng.integers(5)]
    pair = [good, bad][:: int(rng.choice([1, -1]))]
    before = sorted(str(x) for x in ctx.scratch.rglob("*"))
    with ctx.quiet():
        dh = None
        try:
            dh = DataHandler(input_path=str(pair[0]), uncertainty_path=str(pair[1]))
        except (Exception, SystemExit):
            ctx.count("refused_files")
        ctx.check(dh is None, "file-accepted", f"{pair[0].name}, {pair[1].name}")
    ctx.check(sorted(str(x) for x in ctx.scratch.rglob("*")) == before, "refusal-wrote", f"{pair}")
    ctx.distinct((bad.name, pair[0] is bad))


SCENARIOS = [Scenario("files", files, 12, 100), Scenario("history", history, 160, 3500)]
