"""P07: invalid inputs are refused, valid ones accepted."""
import numpy as np

from mon import gen
from mon.core import Scenario
from esat.model.sa import SA

TECHNIQUE = "fault injection on model inputs with a state-change monitor around training"
NOTE = ("Every kind of bad value at random positions of every input matrix; the monitor compares factor matrices and results "
        "before and after the training request and requires a refusal. Sampled positions and sizes.")
RULE = ("each case draws a valid dataset and either keeps it valid (with zeros, zero uncertainties, constant or negative data) "
        "or injects one bad value or shape; distinct by (injection, method, matrix size)")
ASSUMPTIONS = ["a refusal is an exception before training or a training call that reports failure and leaves the model untouched"]
REQUIRED = {"refused": 150, "accepted": 100}
BAD = ("nan_v", "nan_u", "neg_u", "shape", "nan_w", "nan_h", "shape_w", "nan_u_all", "neg_u_small", "transposed_u", "nan_h_partial")


def bad(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, positive=bool(rng.random() < 0.7))
    if rng.random() < 0.3:
        k = max(k, 2)
    W, H = gen.factors_for(rng, V, k)
    m, n = V.shape
    what = BAD[rng.integers(len(BAD))]
    i, j = int(rng.integers(m)), int(rng.integers(n))
    if rng.random() < 0.3:
        i = int(rng.choice([0, m - 1]))
        j = int(rng.choice([0, n - 1]))
    kw = {}
    if what == "nan_v":
        V[i, j] = np.nan
    elif what == "nan_u":
        U[i, j] = np.nan
    elif what == "nan_u_all":
        U[:, j] = np.nan
    elif what == "neg_u":
        U[i, j] = -float(rng.choice([1e-3, 1.0, 1e3])) * abs(U[i, j])
    elif what == "neg_u_small":
        U[i, j] = -1e-9
    elif what == "shape":
        U = U[:-1] if rng.integers(2) else np.hstack([U, U[:, :1]])
    elif what == "transposed_u":
        if m == n:
            V, W, m = V[:-1], W[:-1], m - 1
        U = U.T
    elif what == "nan_w":
        W[i, rng.integers(k)] = np.nan
        kw = {"W": W} if rng.integers(2) else {"W": W, "H": H}
    elif what == "nan_h":
        H[rng.integers(k), j] = np.nan
        kw = {"H": H} if rng.integers(2) else {"W": W, "H": H}
    elif what == "nan_h_partial":
        if k < 2:
            k, (W, H) = 2, gen.factors_for(rng, V, 2)
        H = H[:1].copy()
        H[0, j] = np.nan
        kw = {"H": H}
    elif what == "shape_w":
        kw = {"W": W[:-1]} if rng.integers(2) else {"W": np.hstack([W, W[:, :1]])}
    if what not in ("nan_w", "nan_h", "nan_h_partial", "shape_w") and rng.integers(2):
        kw = {"W": W, "H": H}
    explicit = bool(rng.integers(2)) or bool(kw)
    ctx.note(injected=what, at=[i, j], method=method, shape=V.shape, k=k, start=sorted(kw), explicit_init=explicit)
    ctx.distinct((what, method, V.shape, tuple(sorted(kw))))
    ctx.count("injected_" + what)
    with ctx.quiet():
        try:
            sa = SA(V=V, U=U, factors=k, method=method, seed=5)
            if explicit:
                norm = {} if rng.random() < 0.6 else {"init_norm": False}
                sa.initialize(**kw, **norm)
        except Exception:
            ctx.count("refused")
            ctx.count("refused_by_exception")
            return

        def snap():
            return [None if x is None else np.array(x, copy=True) for x in
                    (sa.W, sa.H, sa.WH, sa.Qtrue, sa.Qrobust, sa.q_list)]
        before = snap()
        raised = False
        try:
            r = sa.train(max_iter=5, converge_delta=-1e9)
        except Exception:
            raised, r = True, None
    after = snap()
    if explicit:
        same = all((a is None and b is None) or (a is not None and b is not None and a.shape == b.shape
                                                 and np.array_equal(a, b, equal_nan=True)) for a, b in zip(before, after))
    else:
        same = all(x is None for x in after[2:])
    ctx.check(same, "invalid-input-trained", f"{what}: training changed the model (returned {r!r})")
    if not raised:
        ctx.check(r is not None and r is not True and (r is False or r < 0), "refusal-not-reported",
                  f"{what}: train returned {r!r}")
    ctx.count("refused")


def good(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, positive=bool(rng.random() < 0.6))
    m, n = V.shape
    t = rng.integers(8)
    tag = "plain"
    if t == 0:
        V[rng.random(V.shape) < 0.3] = 0.0
        tag = "zero cells"
    elif t == 1:
        U[rng.random(U.shape) < 0.2] = 0.0
        U[rng.integers(m), rng.integers(n)] = 0.0
        tag = "zero uncertainties"
    elif t == 2:
        V[:, rng.integers(n)] = 1.0
        tag = "constant feature"
    elif t == 3:
        V[rng.integers(m)] = 0.0
        tag = "zero sample"
    elif t == 4:
        V = -np.abs(V)
        tag = "all negative"
    elif t == 5:
        V, U = np.ascontiguousarray(V).astype(np.float32), U.astype(np.float32)
        tag = "float32"
    elif t == 6:
        V, U = np.ceil(V * 3).astype(int), np.ceil(U * 3).astype(int)
        tag = "integers"
    elif t == 7:
        V[:, rng.integers(n)] = 0.0
        tag = "zero feature"
    W, H = gen.factors_for(rng, V, k)
    kw = [{}, {"W": W}, {"H": H}, {"W": W, "H": H}][rng.integers(4)]
    zero = U == 0
    ctx.note(kind=kind, tag=tag, method=method, shape=V.shape, k=k, start=sorted(kw))
    ctx.distinct((tag, method, V.shape, tuple(sorted(kw))))
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method=method, seed=5)
        if kw or rng.integers(2):
            sa.initialize(**kw)
            W0 = np.array(sa.W)
        else:
            W0 = None
        r = sa.train(max_iter=3, converge_delta=-1e9)
    ctx.count("accepted")
    ctx.count("accepted_" + tag.replace(" ", "_"))
    ctx.check(r is None or r is True, "valid-input-refused", f"{tag}: train returned {r!r}")
    ctx.check(sa.WH is not None and sa.q_list is not None and len(sa.q_list) >= 1, "valid-input-refused", f"{tag}: no results")
    # float32 can overflow for values far above their uncertainty
    ratio = float((np.abs(V) / np.where(zero, 1.0, U)).max()) if not zero.any() else np.inf
    if tag != "all negative" and ratio < (1e6 if method == "ls-nmf" and (V >= 0).all() else 1e3):
        ctx.count("finite_required")
        ctx.check(all(np.isfinite(np.asarray(x, float)).all() for x in (sa.W, sa.H, sa.WH, sa.q_list)) and len(sa.q_list) == 3, "valid-input-not-trained",
                  f"{tag} ({method}): factors or losses are not finite")
    if W0 is not None:
        ctx.check(not np.array_equal(W0, sa.W), "valid-input-not-trained", f"{tag}: contributions did not move")
    if zero.any():
        ctx.count("zero_uncertainty_cells", zero.sum())
        u = np.asarray(sa.U)[zero]
        ctx.check((u > 0).all() and (u <= 1e-6).all(), "zero-uncertainty-floor", f"zero uncertainties became {u.min()}..{u.max()}")
        ctx.check(np.isfinite(sa.We).all() and (np.asarray(sa.We)[zero] > 0).all(), "zero-uncertainty-weight", "weights not finite")
    pos = ~zero
    ctx.check(np.allclose(np.asarray(sa.U, float)[pos], np.asarray(U, np.float32).astype(float)[pos], rtol=1e-6), "uncertainty-changed",
              "positive uncertainties were changed")
    ctx.check(np.allclose(np.asarray(sa.V, float), np.asarray(V, np.float32).astype(float), rtol=1e-6), "data-changed", "data changed")


SCENARIOS = [Scenario("bad", bad, 400, 12000), Scenario("good", good, 300, 8000)]
