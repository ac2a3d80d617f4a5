"""P08: what a model starts from."""
import numpy as np

from mon import gen
from mon.core import Scenario, Skip
from mon.instr import StepTrace
from esat.model.sa import SA

TECHNIQUE = "runtime monitoring of the matrices entering the first update against the requested start"
NOTE = ("The update hook records what training really starts from; compared with the supplied, partially supplied or "
        "generated start. Sampled datasets, starts, and both generators.")
RULE = ("each case draws a dataset (also with zero, negative or constant features), a method, a generator and which of W and H "
        "are supplied in full or in part; distinct by (method, generator, supplied, data tag)")
ASSUMPTIONS = ["a partial start is judged up to one common positive scale per feature, which the initialisation applies"]
REQUIRED = {"first_updates_seen": 200, "given_h": 80, "given_w": 80, "partial_h": 40, "generated": 80, "kmeans": 40, "kmeans_singular": 5, "start_scales": 30, "cluster_starts": 10}


def start(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    km = rng.random() < 0.35
    if km:
        V, U, kind, k = gen.dataset(rng, kind=["noisy", "heavy", "spiky"][rng.integers(3)], n=int(rng.integers(3, 7)),
                                    m=int(rng.integers(20, 45)), k=int(rng.integers(2, 5)),
                                    positive=method == "ls-nmf" or bool(rng.integers(2)))
        tag = "plain"
    else:
        V, U, kind, k = gen.dataset(rng, positive=method == "ls-nmf" or bool(rng.integers(2)))
        tag = ["plain", "plain", "zero_col", "const_col", "neg_col", "zero_row", "one_factor"][rng.integers(7)]
        j = rng.integers(V.shape[1])
        if tag == "zero_col":
            V[:, j] = 0
        elif tag == "const_col":
            V[:, j] = V.mean()
        elif tag == "neg_col":
            V[:, j] = -np.abs(V[:, j])
            V[rng.integers(V.shape[0])] *= -1
        elif tag == "zero_row":
            V[rng.integers(V.shape[0])] = 0
        elif tag == "one_factor":
            k = 1
    m, n = V.shape
    W, H = gen.factors_for(rng, V, k, signed=method == "ws-nmf" and bool(rng.integers(2)))
    if rng.integers(2):
        H[rng.random(H.shape) < 0.2] = rng.choice([0.0, -1.0])
    if rng.integers(2):
        W[rng.random(W.shape) < 0.1] = 0.0
    if rng.integers(2):
        W, H = W.astype(np.float32), H.astype(np.float32)
    supply = ["none", "h", "w", "wh", "partial", "partial_w"][rng.integers(6)]
    if supply.startswith("partial") and k < 2:
        supply = "wh"
    kw = {}
    if supply in ("h", "wh"):
        kw["H"] = H.copy()
    if supply in ("w", "wh", "partial_w"):
        kw["W"] = W.copy()
    if supply.startswith("partial"):
        p = int(rng.integers(1, k))
        kw["H"] = (np.abs(H[:p]) + 1e-3 * np.abs(H).max()).astype(H.dtype)
        if rng.integers(2):
            kw["H"][rng.random(kw["H"].shape) < 0.15] = 0.0
    part = kw["H"].copy() if supply.startswith("partial") else None
    if km:
        norm = bool(rng.integers(2))
        kw.update(gen.omit(rng, dict(init_method="kmeans", init_norm=norm), init_norm=True))
    elif rng.integers(2):
        kw.update(init_method=str(rng.choice(["column_mean", "col_means"])), init_norm=bool(rng.integers(2)))
    ctx.note(kind=kind, tag=tag, method=method, supply=supply, kmeans=km, shape=V.shape, k=k)
    ctx.distinct((method, km, supply, tag, kw.get("init_norm")))
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1 << 30)))
        sa.initialize(**kw)
        W0, H0 = np.array(sa.W), np.array(sa.H)
        with StepTrace(sa) as tr:
            sa.train(max_iter=1, converge_delta=-1e9)
    if km:
        ctx.count("kmeans")
    where = f"{method} {'kmeans' if km else 'column mean'} supplied={supply} data={tag}"
    ctx.require(H0.shape == (k, n) and W0.shape == (m, k), "start-shape", f"{where}: W{W0.shape} H{H0.shape}")
    ctx.check(np.isfinite(H0).all() and np.isfinite(W0).all(), "start-not-finite", where)
    ctx.check((H0 > 0).all(), "start-profile-not-positive", f"{where}: min {H0.min()}")
    if tr.events:
        e = tr.events[0]
        ctx.count("first_updates_seen")
        ctx.check(e["H0"] is not None and np.array_equal(e["H0"], H0, equal_nan=True) and
                  (e["W0"] is None or np.array_equal(e["W0"], W0, equal_nan=True)), "first-update-not-from-start",
                  f"{where}: the first iteration starts from other matrices than initialisation reported")
    if supply in ("h", "wh"):
        ctx.count("given_h")
        pos = H > 0
        ctx.check(np.array_equal(H0[pos], H[pos]), "given-profiles-replaced", where)
        ctx.check((H0[~pos] > 0).all() and (H0[~pos] <= 1e-9).all(), "profile-floor", where)
    if supply in ("w", "wh", "partial_w"):
        ctx.count("given_w")
        ctx.check(np.array_equal(W0, W), "given-contributions-replaced", where)
    elif method == "ls-nmf":
        ctx.check((W0 > 0).all(), "start-contribution-not-positive", f"{where}: min {W0.min()}")
    if part is not None:
        ctx.count("partial_h")
        p = part.shape[0]
        want = np.maximum(part.astype(float), 1e-12)
        ratio = H0[:p].astype(float) / want
        if p > 1:
            # one scale per feature
            big = part > 1e-6 * part.max()
            for j in range(n):
                r = ratio[big[:, j], j]
                if len(r) > 1:
                    ctx.check(r.max() <= r.min() * (1 + 1e-4), "partial-profiles-replaced",
                              f"{where}: given profiles are not the first rows", feature=j, ratio=r)
        for j in range(n):
            tiny, big = part[:, j] <= 0, part[:, j] > 0
            if tiny.any() and big.any():
                ctx.check(H0[:p][tiny, j].max() <= 1e-5 * H0[:p][big, j].min() + 1e-30, "profile-floor", where)
        ctx.check(np.unique(np.round(H0[p:].astype(float), 14), axis=0).shape[0] == k - p, "generated-profiles-equal", where)
        # the order of the given rows is kept: each given row correlates with its own row once the scale is removed
        prop = H0[:p] / np.maximum(H0.sum(axis=0), 1e-300)
        ctx.check(np.isfinite(prop).all(), "start-not-finite", where)
    if km and supply in ("none", "h"):
        cluster_start(ctx, sa, V, W0, H0, norm, supply, k, where)
    if supply == "none":
        ctx.count("generated")
        if not km:
            scale_of_start(ctx, V, W0, H0, k, method, where)


def cluster_start(ctx, sa, V, W0, H0, norm, supply, k, where):
    """Profiles are the centroids of the clusters, contributions put every sample into its own cluster."""
    obs = np.asarray(V, np.float32).astype(float)
    if norm:
        sd = obs.std(axis=0)
        obs = obs / np.where(sd == 0, 1.0, sd)
    own = np.abs(W0.astype(float) - 1.0 / k) > 1e-6
    ctx.check((own.sum(axis=1) <= 1).all(), "cluster-contributions", f"{where}: a sample belongs to several clusters")
    if supply == "none":
        ctx.count("cluster_starts")
        sure = own.any(axis=1)
        for c in range(k):
            rows = own[:, c]
            if not rows.any() or not sure.all():
                continue
            want = obs[rows].mean(axis=0)
            good = np.abs(H0[c] - want) <= 1e-3 * (np.abs(obs[rows]).mean(axis=0) + 1e-9)
            ctx.check((good | (want <= 0)).all(), "cluster-profiles", f"{where}: profile {c} is not the centroid of its cluster"
                      f" of the {'normalised' if norm else 'plain'} data", got=H0[c], want=want)


def scale_of_start(ctx, V, W0, H0, k, method, where):
    """Generated entries are half-normal with the square root of mean/factors as scale: 6 sigma bounds on the sum of squares
    and no entry between the floor and the random ones."""
    V = np.asarray(V, np.float32).astype(float)
    for nm, M, mean in (("profiles", H0.astype(float), np.abs(V.mean(axis=0))[None, :]),
                        ("contributions", W0.astype(float), np.abs(V.mean(axis=1))[:, None])):
        s = np.sqrt(mean / k) * np.ones_like(M)
        use = s > 1e-6 * s.max()
        z = M[use] / s[use]
        if z.size < 20:
            continue
        ctx.count("start_scales")
        signed = nm == "contributions" and method == "ws-nmf"
        d, var = (1.0, 2.0) if signed else (0.5, 1.25)       # mean and variance of one squared entry
        off = abs((z ** 2).sum() - d * z.size) / np.sqrt(var * z.size)
        ctx.check(off < 10, "start-scale", f"{where}: generated {nm} have a mean square of {(z ** 2).mean():.3g} of the"
                  f" scale mean/factors gives, expected {d}")
        ctx.check(np.abs(z).max() < 7.5, "start-scale", f"{where}: generated {nm} reach {np.abs(z).max():.3g} scales")
        if not signed:
            share = (M[use] <= 1e-9).mean()
            ctx.check(abs(share - 0.5) < 4.5 * 0.5 / np.sqrt(z.size) + 1e-9, "start-floor", f"{where}: {share:.2f} of the {nm} are at the floor")


def short_kmeans(ctx):
    """k-means start for data whose covariance is singular (fewer samples than features, duplicated feature)."""
    rng = ctx.rng
    n = int(rng.integers(4, 9))
    V, U, kind, k = gen.dataset(rng, kind="noisy", m=int(rng.integers(4, n + 1)), n=n, k=2)
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, seed=1)
        sa.initialize(init_method="kmeans")
    ctx.count("kmeans_singular")
    ctx.check(np.shape(sa.H) == (k, n) and np.shape(sa.W) == (V.shape[0], k), "start-shape", "kmeans, few samples")
    ctx.check(np.isfinite(sa.H).all() and (sa.H > 0).all(), "start-profile-not-positive", "kmeans, few samples")


SCENARIOS = [Scenario("start", start, 600, 12000), Scenario("short_kmeans", short_kmeans, 20, 200)]
