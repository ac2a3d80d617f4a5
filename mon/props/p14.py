"""P14: splitting by location and merging conserve samples."""
import numpy as np
import pandas as pd

from mon.core import Scenario, Skip
from mon.props.p12 import make, table
from esat.data.datahandler import DataHandler

TECHNIQUE = "conservation monitoring: every sample carries a unique token that is accounted for after split and merge"
NOTE = ("Each sample is tagged through its values; after every split/merge the multiset of (token, uncertainty, label, site) is "
        "compared with the source. Sampled partitions, numeric and textual locations, histories of merge and split.")
RULE = ("each case draws a located table and splits it, or draws several tables and merges, prepares and splits them back; "
        "distinct by (operation, sites, sizes, location kind)")
ASSUMPTIONS = ["samples without a location, or without a part of one, make up a location of their own"]
REQUIRED = {"missing_locations": 8, "located_merges": 10, "splits": 60, "jittered_coordinates": 10, "merges": 40, "samples_accounted": 1500, "refused_merges": 40, "refused_splits": 8, "other_pairs": 5, "prepared_before_merge": 10}


def rows(v, u, labels=None):
    out = []
    for i in range(len(v)):
        out.append((str(v.index[i]) if labels is None else labels[i], v.iloc[i].tolist(), u.iloc[i].tolist()))
    return out


def eq(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and np.allclose(np.array(x[1], float), np.array(y[1], float), rtol=1e-11, atol=0, equal_nan=True)
                                    and np.allclose(np.array(x[2], float), np.array(y[2], float), rtol=1e-11, atol=0, equal_nan=True) for x, y in zip(a, b))


def known(x):
    return None if x is None or x != x else x


def split(ctx):
    rng = ctx.rng
    v, u, locs, drops = table(rng, locs=int(rng.choice([1, 1, 2, 2])), drops=int(rng.choice([0, 0, 1])))
    feats = [c for c in v.columns if c not in locs + drops]
    if rng.random() < 0.4:
        # numeric or textual locations with many values
        for c in locs:
            vals = rng.integers(0, 6, len(v)) if rng.integers(2) or len(locs) == 2 else np.array([f"s{i}" for i in rng.integers(0, 6, len(v))])
            v[c] = u[c] = vals
    if len(locs) == 2 and rng.random() < 0.4:
        # any two columns can make up a location
        new = dict(zip(locs, [["state", "county"], ["site", "inlet"], ["latitude", "height"]][rng.integers(3)]))
        v, u, locs = v.rename(columns=new), u.rename(columns=new), [new[c] for c in locs]
        if rng.integers(2):
            v[locs[1]] = u[locs[1]] = np.array([f"c{i}" for i in rng.integers(0, 3, len(v))])
        ctx.count("other_pairs")
    if rng.random() < 0.3:
        # the location of some samples is not known
        ctx.count("missing_locations")
        for c in locs:
            lost = rng.random(len(v)) < 0.15
            v[c] = v[c].astype(object).where(~lost, np.nan) if v[c].dtype == object else v[c].where(~lost, np.nan)
            u[c] = v[c]
    site = v[locs].copy()
    if locs == ["latitude", "longitude"] and rng.random() < 0.7:
        # positions reported with more decimals than a site is told apart by
        ctx.count("jittered_coordinates")
        for c in locs:
            base = v[c].astype(float) + float(rng.choice([0.0, 0.12345, -71.05]))
            fine = base + rng.choice([0.0, 1e-7, -2e-7, 2e-6], len(v))
            site[c] = base
            v[c] = u[c] = fine
    some = ~(v[feats].isna().all(axis=1) | u[feats].isna().all(axis=1))
    if not site.assign(_k=some).groupby(locs, dropna=False)["_k"].any().all():
        raise Skip()                                   # a site without any sample
    with ctx.quiet():
        dh, src = make(ctx, v, u, locs, drops)
        before = (dh.input_data.copy(deep=True), dh.uncertainty_data.copy(deep=True))
        parts = dh.split_locations()
    gone = (v.isna().all(axis=1) | u.isna().all(axis=1)).to_numpy()
    V, U = v[~gone], u[~gone]
    key = [tuple(map(known, x)) for x in site[~gone].to_numpy().tolist()]
    order = list(dict.fromkeys(key))
    ctx.count("splits")
    ctx.note(source=src, samples=len(V), sites=len(order), locations=locs)
    ctx.distinct((len(order), len(V), tuple(locs), str(V[locs[0]].dtype)))
    ctx.require(len(parts) == len(order), "site-count", f"{len(parts)} parts for {len(order)} locations")
    seen = set()
    for p in parts:
        loc = tuple(known(p.metadata["location"][c]) for c in locs)
        hit = [k for k in order if k == loc or all(x == y or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) < 1e-5) for x, y in zip(k, loc))]
        ctx.require(len(hit) == 1 and hit[0] not in seen, "site-label", f"{loc} among {order}")
        seen.add(hit[0])
        mask = np.array([k == hit[0] for k in key])
        fv, fu = V.loc[mask, feats], U.loc[mask, feats]
        empty = (fv.isna().all(axis=1) | fu.isna().all(axis=1)).to_numpy()
        fv, fu = fv[~empty], fu[~empty]
        ctx.count("samples_accounted", len(fv))
        ctx.require(all(f in p.input_data.columns for f in feats), "features-lost", f"{list(p.input_data.columns)}")
        ctx.check(eq(rows(fv, fu), rows(p.input_data[feats], p.uncertainty_data[feats])), "samples-not-conserved",
                  f"site {loc}: {len(p.input_data)} samples for {len(fv)} of the source, or other values, labels or order")
        if len(fv.dropna()) >= 2 and len((fv + fu).dropna()) >= 2:
            with ctx.quiet():
                a, b = p.get_data()
            ok = ~(fv.isna().any(axis=1) | fu.isna().any(axis=1)).to_numpy()
            ctx.check(a.shape == (ok.sum(), len(feats)) and np.allclose(a, np.where(fv[ok] == 0, 0, fv[ok]), rtol=2e-6, atol=1e-30)
                      and np.allclose(b, fu[ok], rtol=2e-6, atol=1e-30), "site-prepared-data",
                      f"site {loc}: prepared matrices {a.shape} for {ok.sum()} samples of {len(feats)} features")
    ctx.check(before[0].equals(dh.input_data) and before[1].equals(dh.uncertainty_data), "source-table-modified", "split changed its source")


def merge(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(9, 14))
    tabs = []
    v, u, _, _ = table(rng)
    tabs.append((v, u))
    for _ in range(k):
        m = int(rng.integers(2, 25))
        pick = rng.integers(0, len(v), m)
        a = v.iloc[pick] * rng.uniform(0.5, 2.0, (m, v.shape[1]))
        b = u.iloc[pick] * rng.uniform(0.5, 2.0, (m, v.shape[1]))
        tabs.append((a, b))
    labels = [f"site {i}" for i in range(k)]
    with ctx.quiet():
        hs = [DataHandler.load_dataframe(input_df=a.copy(), uncertainty_df=b.copy()) for a, b in tabs]
        self, others = hs[0], hs[1:]
        src = [(h.input_data.copy(deep=True), h.uncertainty_data.copy(deep=True)) for h in hs]
        # refusals first
        odd = DataHandler.load_dataframe(input_df=v.rename(columns={v.columns[0]: "zz"}), uncertainty_df=u.rename(columns={u.columns[0]: "zz"}))
        fewer = DataHandler.load_dataframe(input_df=v.iloc[:, 1:].copy(), uncertainty_df=u.iloc[:, 1:].copy())
        for args in (([], []), (others, labels[:-1]), (others + [odd], labels + ["x"]), ([fewer], ["x"])):
            ctx.count("refused_merges")
            ctx.check(self.merge(*args) is False, "bad-merge-accepted", f"{len(args[0])} handlers, {len(args[1])} labels")
            ctx.check(self.input_data.equals(src[0][0]) and self.uncertainty_data.equals(src[0][1]), "refused-merge-changed", "")
        chosen = {str(f): str(rng.choice(["weak", "bad"])) for f in v.columns if rng.random() < 0.25} if rng.random() < 0.5 else {}
        if len(chosen) == v.shape[1]:
            chosen = {}
        for f, c in chosen.items():
            self.set_category(f, c)
        ready = ~(src[0][0].isna().any(axis=1) | src[0][1].isna().any(axis=1))
        if rng.random() < 0.5 and ready.sum() >= 2:
            # prepared alone before it is merged
            ctx.count("prepared_before_merge")
            self.get_data()
        ok = self.merge(others, labels)
    ctx.count("merges")
    ctx.note(sources=k, sizes=[len(a) for a, _ in src])
    ctx.distinct((k, tuple(len(a) for a, _ in src)))
    ctx.require(ok is True, "merge-refused", f"{ok!r}")
    D, E = self.input_data, self.uncertainty_data
    feats = list(v.columns)
    ctx.check(list(self.features) == feats, "features-lost", f"{self.features} for {feats}")
    ctx.require("source_label" in D.columns and "source_label" in E.columns, "source-label", f"{list(D.columns)}")
    ctx.check(D["source_label"].tolist() == E["source_label"].tolist() and len(D) == len(E), "merge-misaligned", "")
    total = 0
    for (a, b), lab in zip(src[1:] + src[:1], labels + ["self"]):
        sel = (D["source_label"] == lab).to_numpy()
        if lab == "self" and not sel.any():
            sel = ~D["source_label"].isin(labels).to_numpy()
        total += sel.sum()
        ctx.count("samples_accounted", len(a))
        blank = [""] * len(a)
        ctx.check(eq(rows(a[feats], b[feats], blank), rows(D.loc[sel, feats], E.loc[sel, feats], [""] * int(sel.sum()))), "samples-not-conserved",
                  f"source {lab}: {int(sel.sum())} samples for {len(a)}, or other values or order")
    ctx.check(total == len(D), "samples-not-conserved", f"{len(D)} merged samples, {total} accounted for")
    for h, (a, b) in zip(others, src[1:]):
        ctx.check(h.input_data.equals(a) and h.uncertainty_data.equals(b), "source-table-modified", "merge changed a source")
    used = [f for f in feats if chosen.get(f) != "bad"]
    good = ~(D[used].isna().any(axis=1) | E[used].isna().any(axis=1)).to_numpy()
    with ctx.quiet():
        if good.sum() >= 2:
            V, U = self.get_data()
            times = np.array([3.0 if chosen.get(f) == "weak" else 1.0 for f in used])
            ctx.check(V.shape == (good.sum(), len(used)) and np.allclose(V, D.loc[good, used], rtol=2e-6, atol=1e-30)
                      and np.allclose(U, E.loc[good, used] * times, rtol=2e-6, atol=1e-30), "merged-prepared-data", f"{V.shape} for {good.sum()} samples, categories {chosen}")
        parts = self.split_locations()
    ctx.require(len(parts) == k + 1, "site-count", f"{len(parts)} parts for {k + 1} merged sources")
    for p, (a, b) in zip(parts, src[1:] + src[:1]):
        blank = [""] * len(a)
        ctx.check(eq(rows(a[feats], b[feats], blank), rows(p.input_data[feats], p.uncertainty_data[feats], [""] * len(p.input_data))),
                  "round-trip", f"{p.metadata}: {len(p.input_data)} samples for {len(a)}")


def whole(ctx):
    """A dataset without locations, or with other locations than its columns, is not split."""
    rng = ctx.rng
    v, u, _, _ = table(rng)
    with ctx.quiet():
        dh = DataHandler.load_dataframe(input_df=v, uncertainty_df=u)
        if rng.integers(2):
            dh.loc_cols = [["nowhere"], "nowhere", [str(v.columns[0]), "nowhere"]][rng.integers(3)]
        before = dh.input_data.copy(deep=True), dh.uncertainty_data.copy(deep=True)
        parts = dh.split_locations()
    ctx.count("refused_splits")
    ctx.distinct(str(dh.loc_cols))
    ctx.check(isinstance(parts, list) and not parts, "split-without-locations", f"{len(parts)} parts by {dh.loc_cols}")
    ctx.check(before[0].equals(dh.input_data) and before[1].equals(dh.uncertainty_data), "source-table-modified", "refused split")


def located(ctx):
    """Sources which have sites of their own: merged and split into every site of every source."""
    rng = ctx.rng
    v, u, locs, _ = table(rng, locs=1)
    feats = [c for c in v.columns if c not in locs]
    n = int(rng.integers(2, 4))
    tabs = []
    with ctx.quiet():
        for i in range(n):
            m = int(rng.integers(2, 25))
            pick = np.sort(rng.integers(0, len(v), m))
            a, b = v.iloc[pick].copy(), u.iloc[pick].copy()
            w = rng.uniform(0.5, 2.0, (m, len(feats)))
            a[feats], b[feats] = np.abs(a[feats].fillna(1.0)) * w + 1e-3, np.abs(b[feats].fillna(1.0)) * w + 1e-3
            tabs.append((a, b))
        hs = []
        for i, (a, b) in enumerate(tabs):
            x, y = ctx.scratch / f"v{i}.csv", ctx.scratch / f"u{i}.csv"
            a.to_csv(x)
            b.to_csv(y)
            hs.append(DataHandler(str(x), str(y), index_col="Date", loc_cols=locs if rng.integers(2) else locs[0]))
        labels = [f"network {i}" for i in range(n - 1)]
        ctx.require(hs[0].merge(hs[1:], labels) is True, "merge-refused", "")
        V, U = hs[0].get_data()
        feat_names = list(hs[0].features)
        parts = hs[0].split_locations()
    ctx.count("located_merges")
    ctx.distinct((n, tuple(len(a) for a, _ in tabs), str(v[locs[0]].dtype)))
    tabs = tabs[1:] + tabs[:1]
    ctx.check(feat_names == feats, "features-lost", f"{feat_names} for {feats}")
    A, B = (np.vstack([t[i][feats].to_numpy(float) for t in tabs]) for i in (0, 1))
    ctx.check(V.shape == A.shape and np.allclose(V, A, rtol=2e-6, atol=1e-30) and np.allclose(U, B, rtol=2e-6, atol=1e-30), "merged-prepared-data", f"{V.shape} of {A.shape}")
    want = {}
    for (a, b), lab in zip(tabs, labels + ["self"]):
        for s in dict.fromkeys(a[locs[0]]):
            sel = (a[locs[0]] == s).to_numpy()
            want[(s, lab)] = (a.loc[sel, feats], b.loc[sel, feats])
    ctx.require(len(parts) == len(want), "site-count", f"{len(parts)} parts for {len(want)} sites of the sources")
    for p in parts:
        k = (p.metadata["location"][locs[0]], p.metadata["location"]["source_label"])
        ctx.require(k in want, "site-label", f"{k} among {list(want)}")
        a, b = want.pop(k)
        ctx.count("samples_accounted", len(a))
        blank = [""] * len(a)
        ctx.check(eq(rows(a, b, blank), rows(p.input_data[feats], p.uncertainty_data[feats], [""] * len(p.input_data))), "samples-not-conserved", f"{k}: {len(p.input_data)} samples for {len(a)}")


SCENARIOS = [Scenario("located", located, 20, 400), Scenario("whole", whole, 8, 60), Scenario("split", split, 110, 2000), Scenario("merge", merge, 60, 1300)]
