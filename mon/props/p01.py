"""P01: LS-NMF iterations: published rule, non-negative, finite, descending."""
import numpy as np

from mon import gen, ref
from mon.core import Scenario
from mon.instr import StepTrace, close_ratio
from esat.model.ls_nmf import LSNMF
from esat.model.sa import SA

TECHNIQUE = 'reference-model trace checking of every update step (hooked), conservation and descent oracles'
NOTE = 'Every observed iteration is judged against a float64 reference of the published update and against descent and sign oracles; sampled matrices and runs, float32 rounding allowed for.'
RULE = ("each case draws a positive dataset (10 families: low rank, noisy, heavy tails, tiny/large/mixed scales, spikes, "
        "down-weighted cells, integers, collinear), its uncertainties, a factor count and a start, and runs a chain of "
        "iterations; a case is distinct by (family, shape, factors, start kind) and non-trivial when both matrices moved")
ASSUMPTIONS = ["the pure Python implementation is the one observed; the compiled extension cannot be built in this sandbox",
               "float32 iterations are compared with a float64 reference to 1e-3 relative, float64 ones to 1e-8"]
REQUIRED = {"iterations_observed": 300, "loss_comparisons": 300}


def judge_step(ctx, V, U, W0, H0, W1, H1, eps, rtol, hold, where):
    ctx.count("iterations_observed")
    ctx.require(np.shape(W1) == np.shape(W0) and np.shape(H1) == np.shape(H0), "shape-changed",
                f"{where}: {np.shape(W1)} {np.shape(H1)}")
    W1d, H1d = ref.f64(W1, H1)
    ctx.require(np.isfinite(W1d).all() and np.isfinite(H1d).all(), "non-finite-factors", where)
    ctx.check((W1d >= 0).all() and (H1d >= 0).all(), "negative-factors", where, minW=W1d.min(), minH=H1d.min())
    q0, q1 = gen.wq(V, U, W0, H0), gen.wq(V, U, W1, H1)
    tol = gen.wq_noise(V, U, W1, H1, 4 * eps) + 20 * eps * q0
    ctx.count("loss_comparisons")
    ctx.check(q1 <= q0 + tol, "loss-increased", f"{where}: {q0!r} -> {q1!r}", q0=q0, q1=q1, tol=tol)
    Wr, Hr = ref.lsnmf_step(V, U, W0, H0, hold)
    dh, dw = close_ratio(H1d, Hr, rtol), close_ratio(W1d, Wr, rtol)
    ctx.check(dh <= rtol, "profile-rule", f"{where}: profiles off the published rule by {dh:.3g} relative")
    ctx.check(dw <= rtol, "contribution-rule", f"{where}: contributions off the published rule by {dw:.3g} relative")
    ctx.check(((np.asarray(H0) != 0) | (np.asarray(H1) == 0)).all() and
              ((np.asarray(W0) != 0) | (np.asarray(W1) == 0)).all(), "zero-revived", where)


def step64(ctx):
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng)
    W, H = gen.factors_for(rng, V, k)
    start = rng.integers(3)
    if start == 1:                       # sparse start, no empty row/column
        H[rng.random(H.shape) < 0.3] = 0
        W[rng.random(W.shape) < 0.3] = 0
        W[:, 0] += 1e-3
        H[0] += 1e-3
        W[0] += 1e-3
        H[:, 0] += 1e-3
    elif start == 2:
        H[rng.random(H.shape) < 0.5] = 1e-12
    steps = int(rng.integers(2, 12))
    ctx.note(kind=kind, shape=V.shape, k=k, start=int(start), steps=steps)
    ctx.distinct((kind, V.shape, k, int(start)))
    We = 1.0 / U ** 2
    for i in range(steps):
        a = [x.copy() for x in (V, We, W, H)]
        hold = bool(rng.random() < 0.2)
        W1, H1 = LSNMF.update(V=a[0], We=a[1], W=a[2], H=a[3], hold_h=hold) if hold else \
            LSNMF.update(V=a[0], We=a[1], W=a[2], H=a[3])
        judge_step(ctx, V, U, W, H, W1, H1, 2.3e-16, 1e-8, hold, f"step {i}")
        W, H = np.array(W1), np.array(H1)


def train_chain(ctx):
    """Black box: train one iteration at a time and compare every state; then a
    full run must pass through the same states."""
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng)
    given = bool(rng.integers(2))
    seed = int(rng.integers(1 << 31))
    steps = int(rng.integers(2, 15))
    ctx.note(kind=kind, shape=V.shape, k=k, given=given, seed=seed, steps=steps)
    ctx.distinct((kind, V.shape, k, "given" if given else "generated"))
    W, H = gen.factors_for(rng, V, k)

    def fresh():
        sa = SA(V=V.copy(), U=U.copy(), factors=k, method="ls-nmf", seed=seed)
        if given:
            sa.initialize(H=H.astype(np.float32), W=W.astype(np.float32))
        else:
            sa.initialize()
        return sa
    with ctx.quiet():
        sa = fresh()
        qs = []
        V32, U32 = V.astype(np.float32), U.astype(np.float32)
        for i in range(steps):
            W0, H0 = np.array(sa.W), np.array(sa.H)
            sa.train(max_iter=1)
            judge_step(ctx, V32, U32, W0, H0, sa.W, sa.H, 6e-8, 1e-3, False, f"iteration {i}")
            qs.append(float(sa.Qtrue))
        full = fresh()
        with StepTrace(full) as tr:
            full.train(max_iter=steps, converge_delta=-1e30)
    ctx.check(close_ratio(full.W, sa.W, 1e-3) <= 1e-3 and close_ratio(full.H, sa.H, 1e-3) <= 1e-3,
              "run-differs-from-its-steps", "a run of n iterations does not pass through the single-iteration states")
    ctx.count("hooked_update_calls", len(tr.events))
    for i, e in enumerate(tr.events):
        judge_step(ctx, V32, U32, e["W0"], e["H0"], e["W1"], e["H1"], 6e-8, 1e-3, e["hold"], f"hooked iteration {i}")


def long_run(ctx):
    """Recorded loss history of long runs never increases."""
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, big=True)
    n = int(rng.choice([150, 150, 150, 150, 600])) if ctx.tier == "quick" else int(rng.choice([800, 800, 3000]))
    ctx.note(kind=kind, shape=V.shape, k=k, iterations=n)
    ctx.distinct((kind, V.shape, k, "long"))
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method="ls-nmf", seed=int(rng.integers(1 << 30)))
        if rng.random() < 0.3:
            try:
                sa.initialize(init_method="kmeans")
            except np.linalg.LinAlgError:      # clustering needs a full-rank covariance
                sa.initialize()
        else:
            sa.initialize()
        sa.train(max_iter=n, converge_delta=-1e30)
    q = np.asarray(sa.q_list, dtype=np.float64)
    ctx.require(len(q) == n, "iteration-count", f"{len(q)} loss values for {n} iterations")
    ctx.require(np.isfinite(q).all(), "non-finite-loss", kind)
    noise = gen.wq_noise(sa.V, sa.U, sa.W, sa.H, 4e-7)
    inc = np.diff(q) - 1e-5 * q[:-1] - noise
    ctx.count("loss_comparisons", len(q) - 1)
    ctx.count("iterations_observed", n)
    ctx.check((inc <= 0).all(), "loss-increased", f"history rises at iteration {int(inc.argmax()) + 1}",
              at=q[int(inc.argmax()):int(inc.argmax()) + 2])
    ctx.check(np.isfinite(sa.W).all() and np.isfinite(sa.H).all() and (sa.W >= 0).all() and (sa.H >= 0).all(),
              "negative-or-nonfinite-factors", kind)


SCENARIOS = [Scenario("step64", step64, 1500, 40000), Scenario("train_chain", train_chain, 600, 15000),
             Scenario("long_run", long_run, 60, 800)]
