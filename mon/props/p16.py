"""P16: bootstrap datasets are whole blocks of the data, and every run factor is accounted for."""
import math

import numpy as np

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props.p09 import same_model
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap

TECHNIQUE = "runtime monitoring of every bootstrap resample and run against an independent block and mapping oracle"
NOTE = ("Each bootstrap run's recorded rows are checked against the block structure, its model against the same training done "
        "alone and its mapping against recomputed correlations. Sampled datasets, block sizes and thresholds.")
RULE = ("each case trains a base model, runs a bootstrap with drawn block size, overlap, threshold and seeds, and checks every "
        "run; distinct by (samples, block size, overlap, block, keep_H, reuse_seed, threshold)")
ASSUMPTIONS = []
REQUIRED = {"resamples_checked": 600, "mapped_factors": 300, "unmapped_factors": 100, "coverage_cases": 6, "moved_factors": 10, "at_threshold": 200}


def base(rng, quick=False, kind=None, seed=None):
    kind = kind or ["noisy", "lowrank", "noisy", "integer", "heavy"][rng.integers(5)]
    method = ["ls-nmf", "ls-nmf", "ws-nmf"][rng.integers(3)]
    m, n, k = int(rng.integers(8, 40)), int(rng.integers(4, 9)), int(rng.integers(2, 5))
    if rng.random() < 0.08:
        m, n, k = int(rng.integers(40, 160)), int(rng.integers(11, 25)), int(rng.integers(5, 12))
    V, U, kind, k = gen.dataset(rng, kind=kind, m=m, n=n, k=k,
                                positive=True)
    sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1 << 20)) if seed is None else seed)
    sa.initialize()
    sa.train(max_iter=1 if quick else int(rng.integers(1, 60)), converge_delta=float(rng.choice([0.0, 0.1, 1.0])),
             converge_n=int(rng.integers(2, 10)))
    return sa, kind, method


def snap(sa):
    d = {n: np.array(getattr(sa, n), copy=True) for n in ("V", "U", "W", "H", "WH")}
    d["q"] = (float(sa.Qrobust), float(sa.Qtrue))
    return d


def same_snap(a, b):
    return [n for n in a if (a[n] != b[n] if n == "q" else not np.array_equal(a[n], b[n], equal_nan=True))]


def r2_matrix(H, Hb):
    """correlation squared of every profile of H with every profile of Hb, in float64"""
    a, b = np.asarray(H, np.float64), np.asarray(Hb, np.float64)
    out = np.zeros((a.shape[0], b.shape[0]))
    with np.errstate(all="ignore"):
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                x0, y0 = x - x.mean(), y - y.mean()
                out[i, j] = (x0 @ y0) ** 2 / ((x0 @ x0) * (y0 @ y0))
    return out


def check_blocks(ctx, index, N, bs, overlapping):
    """index must be a sequence of whole blocks, only the last one drawn may be cut to fit"""
    p, starts = 0, []
    while p < N:
        s = index[p]
        if overlapping:
            size = bs
            ok = 0 <= s <= N - bs
        else:
            size = min(bs, N - s)
            ok = s % bs == 0
        take = min(size, N - p)
        if not ok or list(index[p:p + take]) != list(range(s, s + take)):
            return None
        starts.append(s)
        p += take
    return starts


def check_run(ctx, bsobj, sa, i, res, kw, block_size):
    V, U = np.asarray(sa.V), np.asarray(sa.U)
    N = V.shape[0]
    idx = [int(x) for x in res["index"]]
    m = res["model"]
    ctx.count("resamples_checked")
    ctx.require(len(idx) == N and min(idx) >= 0 and max(idx) < N, "resample-size", f"run {i}: {len(idx)} rows for {N} samples")
    ok = np.array_equal(np.asarray(m.V), V[idx].astype(np.asarray(m.V).dtype)) and np.array_equal(
        np.asarray(m.U), U[idx].astype(np.asarray(m.U).dtype))
    ctx.check(ok, "resample-rows", f"run {i}: the dataset of the model is not the recorded rows of data and uncertainty")
    starts = None
    if kw["block"]:
        starts = check_blocks(ctx, idx, N, block_size, kw["overlapping"])
        ctx.check(starts is not None, "block-structure", f"run {i}: rows {idx} are no blocks of {block_size} (overlap {kw['overlapping']})")
    # the model is the one training these rows alone gives
    ref = SA(V=np.asarray(m.V).copy(), U=np.asarray(m.U).copy(), factors=sa.factors, method=sa.method, seed=m.seed)
    ref.initialize(H=np.array(sa.H, copy=True) if kw["keep_H"] else None)
    ref.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
              converge_n=sa.metadata["converge_n"], model_i=i)
    bad = [x for x in same_model(m, ref) if x != "metadata"]
    ctx.check(not bad, "run-differs-from-alone", f"run {i}: {bad}", keep_H=kw["keep_H"], reuse_seed=kw["reuse_seed"])
    if kw["reuse_seed"]:
        ctx.check(int(m.seed) == int(sa.seed), "reuse-seed", f"run {i}: seed {m.seed}, base {sa.seed}")
    return starts


def check_mapping(ctx, b, sa, i, res, threshold):
    m, mp = res["model"], res["mapping"]
    k = sa.factors
    r2 = r2_matrix(m.H, sa.H)
    # zero contributions carry no profile: the correlation of such a factor is undefined
    ctx.require(sorted(mp) == list(range(k)), "mapping-keys", f"run {i}: {sorted(mp)}")
    for f in range(k):
        row, got = r2[f], mp[f]
        if not np.isfinite(row).all() or np.asarray(m.W)[:, f].sum() < 1e-6 or (np.asarray(sa.W).sum(axis=0) < 1e-6).any():
            ctx.count("undefined_correlations")
            continue
        ctx.count("mapped_factors" if got["mapped"] else "unmapped_factors")
        if got["match"] != f:
            ctx.count("moved_factors")
        tol = 1e-3
        ctx.check(0 <= got["match"] < k and row[got["match"]] >= row.max() - tol, "mapping-not-best",
                  f"run {i} factor {f}: matched {got['match']}, correlations {row}")
        ctx.check(abs(float(got["r2"]) - row.max()) <= tol, "mapping-r2", f"run {i} factor {f}: {got['r2']} against {row.max()}")
        if abs(row.max() - threshold) > tol:
            ctx.check(bool(got["mapped"]) == (row.max() > threshold), "mapping-threshold",
                      f"run {i} factor {f}: r2 {row.max():.4f}, threshold {threshold:.4f}, mapped {got['mapped']}")


def check_table(ctx, b, sa, n):
    k, df = sa.factors, b.mapping_df
    ctx.require(df is not None and df.shape[0] == k, "mapping-table-shape", str(None if df is None else df.shape))
    table = np.zeros((k, k + 1))
    for i, res in b.bs_results.items():
        for f, got in res["mapping"].items():
            table[f, got["match"] if got["mapped"] else k] += 1
    shown = df[[c for c in df.columns if c != "Boot Factors"]].to_numpy(dtype=float)
    ctx.require(shown.shape == table.shape, "mapping-table-shape", f"{list(df.columns)}")
    ctx.check(list(df.columns) == ["Boot Factors"] + [f"Base Factor {j + 1}" for j in range(k)] + ["Unmapped"], "mapping-table-labels",
              f"{list(df.columns)}")
    ctx.check(list(df["Boot Factors"]) == [f"Boot Factor {j + 1}" for j in range(k)], "mapping-table-labels", f"{list(df['Boot Factors'])}")
    ctx.check(np.array_equal(shown, table), "mapping-table-counts", f"{shown.tolist()} against {table.tolist()}")
    ctx.check(np.all(shown.sum(axis=1) == n), "mapping-table-total", f"{shown.sum(axis=1)} for {n} runs")


def runs(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "bootstrap"):
        sa, kind, method = base(rng)
        N = sa.V.shape[0]
        kw = dict(keep_H=bool(rng.random() < 0.6), reuse_seed=bool(rng.random() < 0.7), block=bool(rng.random() < 0.8),
                  overlapping=bool(rng.random() < 0.4))
        bs = int(rng.choice([1, 2, 3, 5, 10, max(N // 2, 1), N - 1, N, N + 3]))
        thr = float(rng.choice([0.0, 0.3, 0.6, 0.9, 0.99, 0.9999]))
        n = int(rng.integers(1, 9))
        seed = None if rng.random() < 0.3 else int(rng.integers(1 << 20))
        before = snap(sa)
        b = Bootstrap(sa=sa, bootstrap_n=n, block_size=bs, threshold=thr, parallel=False, seed=seed)
        b.run(**kw)
        ctx.note(kind=kind, method=method, samples=N, block_size=bs, threshold=thr, runs=n, **kw)
        ctx.require(list(b.bs_results) == list(range(1, n + 1)), "run-count", f"{list(b.bs_results)} for {n} runs")
        eff = bs if bs <= N / 2 else max(int(N / 2), 1)
        for i, res in b.bs_results.items():
            check_run(ctx, b, sa, i, res, kw, eff)
            check_mapping(ctx, b, sa, i, res, thr)
        check_table(ctx, b, sa, n)
        bad = same_snap(before, snap(sa))
        ctx.check(not bad, "base-model-modified", f"{bad}")
        if n >= 6 and N >= 12 and eff <= N / 3:
            ctx.check(len({tuple(int(x) for x in r["index"]) for r in b.bs_results.values()}) > 1, "resamples-identical", f"all {n} runs drew the same rows")
        ctx.distinct((N, eff, kw["overlapping"], kw["block"], kw["keep_H"], kw["reuse_seed"], thr))


def at_threshold(ctx, got, again):
    """A correlation of exactly the threshold reaches it, the next larger threshold is missed."""
    f = int(ctx.rng.integers(len(got)))
    r2 = got[f]["r2"]
    if np.isfinite(r2):
        ctx.count("at_threshold")
        ctx.check(bool(again(r2)[f]["mapped"]), "mapping-threshold", f"r2 {r2!r} does not reach the threshold of exactly that")
        ctx.check(not again(np.nextafter(r2, 9))[f]["mapped"], "mapping-threshold", f"r2 {r2!r} reaches a larger threshold")


def mapping(ctx):
    """mapping of arbitrary solutions, through the public function, where the factor order is shuffled"""
    rng = ctx.rng
    with ctx.quiet():
        sa, kind, method = base(rng, quick=True)
        thr = float(rng.choice([0.3, 0.6, 0.9]))
        b = Bootstrap(sa=sa, bootstrap_n=1, block_size=3, threshold=thr, parallel=False)
        k = sa.factors
        for _ in range(6):
            perm = rng.permutation(k)
            H = np.array(sa.H)[perm] * rng.uniform(0.1, 10, (k, 1))
            H = H * np.exp(rng.normal(0, rng.choice([0.0, 0.3, 1.5]), H.shape))
            W = rng.gamma(1.0, 1.0, np.shape(sa.W))
            got = b.map_contributions(W1=W, H1=H, W2=np.array(sa.W), H2=np.array(sa.H), threshold=thr)
            fake = type("M", (), {"H": H, "W": W})()
            check_mapping(ctx, b, sa, 0, {"model": fake, "mapping": got}, thr)
            at_threshold(ctx, got, lambda t: b.map_contributions(W1=W, H1=H, W2=np.array(sa.W), H2=np.array(sa.H), threshold=t))
            got = b.map_factors(H1=H, H2=np.array(sa.H), threshold=thr)
            check_mapping(ctx, b, sa, 0, {"model": fake, "mapping": got}, thr)
            at_threshold(ctx, got, lambda t: b.map_factors(H1=H, H2=np.array(sa.H), threshold=t))
        ctx.distinct((kind, k, thr))


def coverage(ctx):
    """over many runs every block (every start, when overlapping) is drawn, and about equally often"""
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "bootstrap"):
        sa, kind, method = base(rng, quick=True)
        V, U = np.asarray(sa.V), np.asarray(sa.U)
        m = int(rng.integers(9, 19))
        sa = SA(V=np.resize(V, (m, V.shape[1])), U=np.resize(U, (m, V.shape[1])), factors=2, method="ls-nmf", seed=3)
        sa.initialize()
        sa.train(max_iter=1, converge_n=1)
        bs, over = int(rng.integers(1, 7)), bool(rng.integers(2))
        if bs > m / 2:
            bs = m // 2
        options = m - bs + 1 if over else math.ceil(m / bs)
        per_run = math.ceil(m / bs)
        n = int(math.ceil(45 * options / per_run))        # a block missed by chance: below options * e-45
        b = Bootstrap(sa=sa, bootstrap_n=n, block_size=bs, parallel=False, seed=int(rng.integers(1 << 20)))
        b.run(overlapping=over)
        hits = {}
        for i, res in b.bs_results.items():
            for s in check_blocks(ctx, [int(x) for x in res["index"]], m, bs, over) or []:
                hits[s] = hits.get(s, 0) + 1
        want = set(range(0, m - bs + 1)) if over else set(range(0, m, bs))
        ctx.count("coverage_cases")
        ctx.check(set(hits) == want, "block-never-drawn", f"starts drawn {sorted(hits)}, eligible {sorted(want)}, in {n} runs")
        total = sum(hits.values())
        exp = total / len(want)
        ctx.check(all(exp / 4 < hits.get(s, 0) < exp * 4 for s in want), "block-bias", f"{hits}, expected about {exp:.0f} each")
        ctx.distinct((m, bs, over))


SCENARIOS = [Scenario("runs", runs, 150, 3000), Scenario("mapping", mapping, 60, 1500), Scenario("coverage", coverage, 8, 120)]
