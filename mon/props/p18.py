"""P18: every displacement changes one profile element, the stated way, as far as the allowed loss change permits."""
import numpy as np

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from esat.model.sa import SA
from esat.error.displacement import Displacement

TECHNIQUE = "runtime monitoring of displacement results against a closed-form loss oracle and refits done alone"
NOTE = ("The loss change of a displaced element is a quadratic known in closed form: every reported displacement is checked against "
        "it in float64, and its refit against the same refit done alone. Sampled base models, feature subsets and tolerances.")
RULE = ("each case trains a base model, runs a displacement with drawn features, search limit and tolerance, and checks every "
        "result; distinct by (factors, features, selected features, tolerance, search limit, mode)")
ASSUMPTIONS = []
REQUIRED = {"displacements_checked": 1500, "within_tolerance": 800, "lower_bound_zero": 30, "refits_checked": 150, "search_limited": 30}


def base(rng, factors=None, n=None, long=True):
    k = factors or int(rng.integers(1, 4))
    V, U, kind, k = gen.dataset(rng, kind=["noisy", "lowrank", "lowrank", "integer", "heavy"][rng.integers(5)],
                                m=int(rng.integers(8, 30)), n=n or int(rng.integers(max(3, k + 1), 6)), k=k)
    sa = SA(V=V, U=U, factors=k, method=["ls-nmf", "ls-nmf", "ws-nmf"][rng.integers(3)], seed=int(rng.integers(1 << 20)))
    sa.initialize()
    if long and rng.random() < 0.8:
        sa.train(max_iter=int(rng.choice([30, 300, 800])), converge_delta=1e-4, converge_n=20)
    sa.train(max_iter=int(rng.integers(2, 15)), converge_delta=float(rng.choice([0.0, 0.1])), converge_n=5)
    return sa, kind


class Line:
    """loss change when element (i, j) of the profiles is multiplied by m: a (m-1)^2 + b (m-1), in float64"""

    def __init__(self, sa, H, i, j):
        V, U, W, H = (np.asarray(x, np.float64) for x in (sa.V, sa.U, sa.W, H))
        r = (V[:, j] - W @ H[:, j]) / U[:, j]
        w = W[:, i] / U[:, j] * H[i, j]
        self.a, self.b = float(w @ w), float(-2 * r @ w)

    def __call__(self, m):
        return self.a * (m - 1) ** 2 + self.b * (m - 1)

    def slope(self, m):
        return abs(2 * self.a * (m - 1) + self.b)


def offset(sa, H):
    """difference between the loss of the profiles with the small constant added and the loss of the base, and its noise"""
    q = gen.wq(sa.V, sa.U, sa.W, H)
    eps = np.finfo(np.asarray(sa.W).dtype).eps
    return q - float(sa.Qtrue), eps, q


def check_result(ctx, d, sa, i, j, dQ, res, up):
    H = np.asarray(d.H)
    base_v = float(H[i, j])
    v = float(res["value"])
    line = Line(sa, H, i, j)
    off, eps, q = offset(sa, H)
    m = v / base_v
    H2 = np.array(H, np.float64)
    H2[i, j] = v
    noise = (gen.wq_noise(sa.V, sa.U, sa.W, H2, 4 * eps) + gen.wq_noise(sa.V, sa.U, sa.W, H, 4 * eps) + 64 * eps * (q + abs(line(m)))
             + line.slope(m) * 4 * eps * m + abs(off) + 1e-6)
    what = f"{'+' if up else '-'} factor {i} feature {j} dQ {dQ}"
    ctx.count("displacements_checked")
    ctx.require(np.isfinite(v) and v >= 0, "value-invalid", f"{what}: {v}")
    ctx.check((m >= 1 - 4 * eps) if up else (m <= 1 + 4 * eps), "direction", f"{what}: base {base_v}, displaced {v}")
    got = float(res["dQ"])
    want = line(m)
    ok = abs(got - want) <= noise or (not up and abs(got - abs(want)) <= noise)
    ctx.check(ok, "loss-change-recorded", f"{what}: recorded {got}, the displaced profiles give {want} (noise {noise:.2g})")
    # within the tolerance, unless the search was cut or the element reached zero
    tol = d.threshold_dQ
    steps = int(res["search steps"])
    ctx.check(1 <= steps <= max(d.max_search, 1), "search-limit", f"{what}: {steps} steps, limit {d.max_search}")
    inside = dQ - tol - noise <= want <= dQ + noise
    ctx.count("far_increases", up and m > 512 and d.max_search >= 50 and noise <= dQ / 2)
    if noise > dQ / 2:
        ctx.count("loss_too_coarse")
    elif inside:
        ctx.count("within_tolerance")
    elif steps >= d.max_search and (d.max_search < 50 or m > 1e12 or (not up and line.b >= 0)):
        ctx.count("search_limited")
    elif up:
        # reaching this level may be impossible for a factor without contributions
        ctx.check(line.a <= 0 or not np.isfinite(m), "not-found", f"{what}: loss change {want}, tolerance {tol}, after {steps} steps of {d.max_search}")
    elif line.b >= 0 and line.a > 0:
        # decreasing the element first lowers the loss: not a minimum in this element, the search has no unique crossing
        ctx.count("not_a_minimum")
    elif m <= 2e-7:
        ctx.count("lower_bound_zero")
        ctx.check(line(0) <= dQ + noise + line.slope(0) * 1e-6, "lower-bound-zero", f"{what}: element displaced to 0 with loss change {want}")
    else:
        ctx.check(line.slope(m) * 3e-8 >= tol / 2, "not-found", f"{what}: loss change {want}, tolerance {tol}, after {steps} steps of {d.max_search}")
    share = v / (np.asarray(H2).sum(axis=0)[j])
    ctx.check(abs(float(res["percent"]) - share) <= 1e-5 + 64 * eps, "share", f"{what}: {res['percent']} against {share}")
    W = np.asarray(sa.W, np.float64)[:, i]
    ctx.check(abs(float(res["conc"]) - W.sum() * v) <= 1e-4 * np.abs(W).sum() * v + 1e-9, "concentration", f"{what}: {res['conc']} against {W.sum() * v}")


def swapped(H1, H0):
    """does any refitted profile correlate better with another base profile?  (answer, clear-cut)"""
    from mon.props.p16 import r2_matrix
    r = r2_matrix(H1, H0)
    k = r.shape[0]
    gaps = [np.nanmax(np.delete(r[i], i)) - r[i, i] if k > 1 else -1.0 for i in range(k)]
    return any(g > 0 for g in gaps), all(np.isfinite(g) and abs(g) > 1e-3 for g in gaps)


def check_refit(ctx, d, sa, i, j, dQ, res, up):
    H = np.array(d.H, copy=True)
    H[i, j] = res["value"]
    ref = SA(V=np.array(sa.V), U=np.array(sa.U), factors=sa.factors, method=sa.method, seed=sa.seed)
    ref.initialize(H=H.copy())
    ref.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"], converge_n=sa.metadata["converge_n"])
    ctx.count("refits_checked")
    drop = float(ref.Qtrue) - float(sa.Qtrue)
    what = f"{'+' if up else '-'} factor {i} feature {j} dQ {dQ}"
    ctx.check(abs(float(res["Q_drop"]) - drop) <= 1e-5 * (abs(float(ref.Qtrue)) + abs(float(sa.Qtrue))) + 1e-6, "loss-drop",
              f"{what}: recorded {res['Q_drop']}, the refit gives {drop}")
    swap, clear = swapped(ref.H, d.H)
    if clear:
        ctx.count("swaps_seen", swap)
        ctx.check(bool(res["swap"]) == swap, "swap", f"{what}: recorded {res['swap']}")


def config(rng, sa):
    n = sa.V.shape[1]
    feats = None if rng.random() < 0.5 else sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    return dict(sa=sa, feature_labels=[f"s{j}" for j in range(n)], max_search=int(rng.choice([3, 10, 50, 50, 80])),
                threshold_dQ=float(rng.choice([0.1, 0.1, 0.5, 0.01])), features=feats)


def expected_keys(ctx, d, sa, what):
    feats = list(range(sa.V.shape[1])) if d.features is None else list(d.features)
    for name, res in (("increase", d.increase_results), ("decrease", d.decrease_results)):
        ctx.require(set(res) == {f"factor-{i + 1}" for i in range(sa.factors)}, "missing-results", f"{what} {name}: {list(res)}")
        for f in res:
            ctx.require(set(res[f]) == {f"feature-{j}" for j in feats}, "missing-results", f"{what} {name} {f}: {list(res[f])}")
            for j in res[f]:
                ctx.require(list(res[f][j]) == list(d.dQmax), "missing-results", f"{what} {name} {f} {j}: {list(res[f][j])}")
    return feats


def levels(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "displacement"):
        sa, kind = base(rng)
        kw = config(rng, sa)
        parallel = bool(rng.random() < 0.12)
        before = (np.array(sa.W), np.array(sa.H), np.array(sa.V), np.array(sa.U), float(sa.Qtrue))
        d = Displacement(parallel=parallel, cores=3, **kw)
        if rng.random() < 0.2:
            d.dQmax = [4, 2, 1, 0.5]
        d.run()
        feats = expected_keys(ctx, d, sa, "parallel" if parallel else "sequential")
        after = (np.array(sa.W), np.array(sa.H), np.array(sa.V), np.array(sa.U), float(sa.Qtrue))
        ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after)), "base-model-modified", "by the displacement")
        allr = []
        for up, res in ((True, d.increase_results), (False, d.decrease_results)):
            for i in range(sa.factors):
                for j in feats:
                    got = res[f"factor-{i + 1}"][f"feature-{j}"]
                    for dQ in d.dQmax:
                        check_result(ctx, d, sa, i, j, dQ, got[dQ], up)
                        allr.append((i, j, dQ, got[dQ], up))
        for x in rng.permutation(len(allr))[:8]:
            check_refit(ctx, d, sa, *allr[x])
    ctx.note(kind=kind, factors=sa.factors, **{a: b for a, b in kw.items() if a != "sa"})
    ctx.distinct((sa.factors, sa.V.shape[1], tuple(feats), kw["threshold_dQ"], kw["max_search"], parallel))


SCENARIOS = [Scenario("levels", levels, 45, 900)]
