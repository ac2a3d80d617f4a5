"""P13: feature statistics."""
import numpy as np
import pandas as pd

from mon.core import Scenario, Skip
from mon.props.p12 import make, table
from esat.data.datahandler import DataHandler

TECHNIQUE = "runtime recomputation monitor of reported feature statistics on generated tables"
NOTE = "Every statistic of every feature is recomputed independently from the table loaded. Sampled tables, from files and memory."
RULE = "each case draws a table pair, loads it and a row-permuted copy, and recomputes the statistics, or draws autocorrelated series and recomputes the block size; distinct by (source, shape, columns)"
ASSUMPTIONS = ["samples without any value in one of the tables are not loaded and do not count",
               "features with a zero uncertainty or a missing value in it are judged on the other statistics only"]
REQUIRED = {"features_judged": 300, "sn_judged": 200, "block_sizes": 100, "block_lengths_judged": 30, "merged_judged": 20}


def judge(ctx, M, a, b, feats):
    for j, f in enumerate(feats):
        ctx.count("features_judged")
        x = a[:, j][~np.isnan(a[:, j])]
        if len(x) == 0:
            continue
        want = {"Min": x.min(), "25th": np.percentile(x, 25), "50th": np.percentile(x, 50), "75th": np.percentile(x, 75), "Max": x.max()}
        for nm, w in want.items():
            got = float(M.loc[f, nm])
            ctx.check(abs(got - w) <= 1e-9 * max(abs(w), 1e-12), f"statistic-{nm}", f"{f}: reported {got!r}, data give {w!r}")
        if not (np.isnan(b[:, j]).any() or (b[:, j] == 0).any()):
            ctx.count("sn_judged")
            d = (a[:, j] - b[:, j]) / b[:, j]
            d = np.where(np.isnan(d) | (a[:, j] <= b[:, j]), 0.0, d)
            w = d.sum() / len(d)
            got = float(M.loc[f, "S/N"])
            ctx.check(abs(got - w) <= 1e-8 * max(abs(w), 1e-9), "signal-to-noise", f"{f}: reported {got!r}, definition {w!r}")


def stats(ctx):
    rng = ctx.rng
    v, u, locs, drops = table(rng, locs=int(rng.choice([0, 0, 1, 2])), drops=int(rng.choice([0, 0, 1])), m=int(rng.integers(3, 80)))
    feats = [c for c in v.columns if c not in locs + drops]
    with ctx.quiet():
        dh, src = make(ctx, v, u, locs, drops)
        p = rng.permutation(len(v))
        state = rng.bit_generator.state
        dh2, _ = make(ctx, v.iloc[p], u.iloc[p], locs, drops)
        rng.bit_generator.state = state
    ctx.note(source=src, shape=v.shape, locations=locs, dropped=drops)
    ctx.distinct((src, v.shape, len(locs), len(drops)))
    gone = v.isna().all(axis=1) | u.isna().all(axis=1)
    a, b = v.loc[~gone.to_numpy(), feats].to_numpy(float), u.loc[~gone.to_numpy(), feats].to_numpy(float)
    if len(a) < 1:
        raise Skip()
    M = dh.metrics
    ctx.require(list(M.index) == feats or sorted(M.index) == sorted(feats), "statistics-features", f"{list(M.index)} for features {feats}")
    ctx.check((M["Category"] == "strong").all(), "initial-category", "")
    judge(ctx, M, a, b, feats)
    for j, f in enumerate(feats):
        if np.isnan(a[:, j]).all():
            continue
        for nm in ("S/N", "Min", "25th", "50th", "75th", "Max"):
            g, h = float(M.loc[f, nm]), float(dh2.metrics.loc[f, nm])
            ctx.check((np.isnan(g) and np.isnan(h)) or g == h or abs(g - h) <= 1e-9 * max(abs(g), abs(h), 1e-12), "row-order-matters", f"{f} {nm}: {g!r} vs {h!r}")
    for d in (dh, dh2):
        ctx.count("block_sizes")
        ctx.check(isinstance(d.optimal_block, (int, np.integer)) and 1 <= d.optimal_block <= len(v), "block-size", f"{d.optimal_block!r} for {len(a)} samples")


def lam(x):
    return 1.0 if x < 0.5 else (2 * (1 - x) if x <= 1 else 0.0)


def block_length(x):
    """Politis and White (2004, corrected): best block length of a circular block bootstrap, lag by lag."""
    n = len(x)
    kn = int(max(5, np.sqrt(np.log10(n))))
    most = int(np.ceil(np.sqrt(n))) + kn
    if n - most < 3:
        return None
    with np.errstate(all="ignore"):
        rho = np.array([np.corrcoef(x[most:], x[most - lag:n - lag])[0, 1] for lag in range(1, most + 1)])
    if not np.isfinite(rho).all():
        return None
    crit = 2 * np.sqrt(np.log10(n) / n)
    if np.abs(np.abs(rho) - crit).min() < 1e-9:
        return None
    small = np.abs(rho) < crit
    last = next((i + 1 for i in range(most - kn + 1) if small[i:i + kn].all()), None) or int(np.flatnonzero(~small).max()) + 1
    m = min(2 * last, most)
    cov = [np.cov(x[m:], x[m - lag:n - lag])[0, 1] for lag in range(m + 1)]
    g = 2 * sum(lam(i / m) * i * cov[i] for i in range(1, m + 1))
    spread = cov[0] + 2 * sum(lam(i / m) * cov[i] for i in range(1, m + 1))
    if not abs(spread) > 1e-9 * abs(cov[0]):
        return None
    return min((2 * g * g / (4 / 3 * spread * spread)) ** (1 / 3) * n ** (1 / 3), np.ceil(min(3 * np.sqrt(n), n / 3)))


def blocks(ctx):
    rng = ctx.rng
    v, u, locs, drops = table(rng, locs=int(rng.choice([0, 0, 1])), drops=int(rng.choice([0, 0, 1])), m=int(rng.integers(25, 200)))
    feats = [c for c in v.columns if c not in locs + drops]
    phi = float(rng.choice([0.0, 0.3, 0.7, 0.95, 0.99, 1.0, 1.0]))
    for f in feats:
        e = rng.normal(size=len(v))
        for i in range(1, len(e)):
            e[i] += phi * e[i - 1]
        v[f] = np.round(e - e.min() + 1, 6)
        u[f] = np.round(0.1 * v[f] + 0.1, 6)
    with ctx.quiet():
        dh, src = make(ctx, v, u, locs, drops)
    lengths = [block_length(v[f].to_numpy(float)) for f in feats]
    ctx.note(source=src, samples=len(v), features=len(feats), memory=phi)
    if any(x is None for x in lengths):
        ctx.count("block_length_undefined")
        return
    mean = float(np.mean(lengths))
    ctx.distinct((len(v), len(feats), phi))
    ctx.count("block_lengths_judged")
    got = dh.optimal_block
    ctx.check(max(1, np.floor(mean - 1e-6)) <= got <= max(1, np.floor(mean + 1e-6)), "block-length", f"{got!r}, the features' best lengths average {mean:.4f}")


def merged(ctx):
    """The statistics of a merged dataset are those of the merged samples; the categories chosen before are kept."""
    rng = ctx.rng
    v, u, _, _ = table(rng)
    feats = list(v.columns)
    hs, tabs = [], []
    with ctx.quiet():
        for i in range(int(rng.integers(2, 5))):
            m = int(rng.integers(2, 30))
            pick = rng.integers(0, len(v), m)
            a = v.iloc[pick] * rng.uniform(0.5, 2.0, (m, v.shape[1])) * 10.0 ** rng.uniform(-1, 1)
            b = u.iloc[pick] * rng.uniform(0.5, 2.0, (m, v.shape[1]))
            if (a.isna().all(axis=1) | b.isna().all(axis=1)).all():
                raise Skip()
            tabs.append((a, b))
            hs.append(DataHandler.load_dataframe(input_df=a.copy(), uncertainty_df=b.copy()))
        chosen = {f: str(rng.choice(["weak", "bad"])) for f in feats if rng.random() < 0.3}
        for f, c in chosen.items():
            hs[0].set_category(f, c)
        if rng.integers(2):
            hs[0].get_data() if len(chosen) < len(feats) else None
        ctx.require(hs[0].merge(hs[1:], [f"site {i}" for i in range(len(hs) - 1)]), "merge-refused", "")
    ctx.count("merged_judged")
    ctx.distinct((len(hs), tuple(len(a) for a, _ in tabs)))
    tabs = tabs[1:] + tabs[:1]
    a, b = (np.vstack([t[i].to_numpy(float) for t in tabs]) for i in (0, 1))
    gone = np.isnan(a).all(axis=1) | np.isnan(b).all(axis=1)
    M = hs[0].metrics
    ctx.require(sorted(M.index) == sorted(feats), "statistics-features", f"{list(M.index)} for features {feats}")
    judge(ctx, M, a[~gone], b[~gone], feats)
    got = M["Category"].to_dict()
    ctx.check(got == {f: chosen.get(f, "strong") for f in feats}, "merged-category", f"{got}, chosen {chosen}")
    ctx.check(1 <= hs[0].optimal_block <= (~gone).sum(), "block-size", f"{hs[0].optimal_block!r} for {(~gone).sum()} samples")
    with ctx.quiet():
        at_once = DataHandler.load_dataframe(input_df=pd.DataFrame(a[~gone], columns=feats), uncertainty_df=pd.DataFrame(b[~gone], columns=feats))
    ctx.check(hs[0].optimal_block == at_once.optimal_block, "merged-block-size", f"{hs[0].optimal_block!r}, the same samples loaded at once {at_once.optimal_block!r}")
    shown = hs[0].input_data_plot
    ctx.check(len(shown) == (~gone).sum() and np.allclose(shown[feats].to_numpy(float), a[~gone], rtol=1e-9, atol=0, equal_nan=True),
              "merged-figures-data", f"{len(shown)} samples to show of {(~gone).sum()}")


SCENARIOS = [Scenario("merged", merged, 30, 600), Scenario("stats", stats, 140, 3000), Scenario("blocks", blocks, 200, 3000)]
