"""P02: WS-NMF iterations: exact contributions, square-root profile rule."""
import numpy as np

from mon import gen, ref
from mon.core import Scenario
from mon.instr import StepTrace, close_ratio
from esat.model.ws_nmf import WSNMF
from esat.model.sa import SA

TECHNIQUE = 'reference-model trace checking of every update step (hooked), optimality oracle by independent least squares'
NOTE = 'Every observed iteration is compared with an independent weighted least-squares solution and the square-root rule; sampled matrices, ill-conditioned rows judged through their loss only.'
RULE = ("each case draws a dataset (10 families; half of them with negative values), uncertainties, a factor count and a "
        "start and runs a chain of weighted semi-NMF iterations directly (float64) or through a model (float32); a case is "
        "distinct by (family, sign, shape, factors, route)")
ASSUMPTIONS = ["optimality of contributions is judged per sample against a float64 weighted least-squares solution, only "
               "where the weighted normal equations are well conditioned (<=1e7 float64, <=1e3 float32); others are counted",
               "the pure Python implementation is the one observed"]
REQUIRED = {"iterations_observed": 200, "rows_judged": 1000}


def judge_step(ctx, V, U, W0, H0, W1, H1, eps, rtol, hold, where, maxcond):
    ctx.count("iterations_observed")
    k = H0.shape[0]
    ctx.require(np.shape(W1) == (V.shape[0], k) and np.shape(H1) == np.shape(H0), "shape-changed", where)
    W1d, H1d = ref.f64(W1, H1)
    ctx.require(np.isfinite(W1d).all() and np.isfinite(H1d).all(), "non-finite-factors", where)
    ctx.check((H1d >= 0).all(), "negative-profiles", where, minH=H1d.min())
    Wr, cond = ref.wls_contributions(V, U, H0)
    ok = cond <= maxcond
    ctx.count("rows_judged", ok.sum())
    ctx.count("rows_ill_conditioned", (~ok).sum())
    if ok.any():
        got, opt = gen.rowloss(V, U, W1, H0), gen.rowloss(V, U, Wr, H0)
        size = ((np.asarray(V, float) / U) ** 2).sum(axis=1)
        tol = 1e-9 * opt + 60 * eps * np.sqrt(np.where(ok, cond, 1)) * np.sqrt(size * np.maximum(opt, 1e-30)) \
            + (60 * eps * np.where(ok, cond, 1)) ** 2 * size + 4 * eps * size
        bad = ok & (got > opt + tol)
        ctx.check(not bad.any(), "contributions-not-optimal",
                  f"{where}: row {int(np.argmax(bad))} loss {got[np.argmax(bad)]:.6g} > optimum {opt[np.argmax(bad)]:.6g}")
        if W0 is not None:
            prev = gen.rowloss(V, U, W0, H0)
            ctx.check(not (ok & (got > prev + tol)).any(), "loss-increased", f"{where}: contribution step raised the loss")
    if hold:
        ctx.check(np.array_equal(np.asarray(H0), np.asarray(H1)), "held-profile-moved", where)
        return
    Hr = ref.wsnmf_profiles(V, U, W1, H0)
    d = close_ratio(H1d, Hr, rtol, floor=1e-24)
    ctx.check(d <= rtol, "profile-rule", f"{where}: profiles off the square-root rule by {d:.3g} relative")


def step64(ctx):
    rng = ctx.rng
    positive = bool(rng.integers(2))
    V, U, kind, k = gen.dataset(rng, positive=positive)
    if rng.random() < 0.1:
        V = -np.abs(V)
        positive = "all-negative"
    W, H = gen.factors_for(rng, V, k, signed=True)
    steps = int(rng.integers(1, 8))
    ctx.note(kind=kind, positive=positive, shape=V.shape, k=k, steps=steps)
    ctx.distinct((kind, positive, V.shape, k, "direct"))
    We = 1.0 / U ** 2
    for i in range(steps):
        hold = bool(rng.random() < 0.2)
        kw = {"hold_h": True} if hold else {}
        W1, H1 = WSNMF.update(V=V.copy(), We=We.copy(), W=W.copy(), H=H.copy(), **kw)
        judge_step(ctx, V, U, W, H, W1, H1, 2.3e-16, 1e-7, hold, f"step {i}", 1e7)
        W, H = np.array(W1), np.array(H1)


def model_steps(ctx):
    rng = ctx.rng
    positive = bool(rng.integers(2))
    V, U, kind, k = gen.dataset(rng, positive=positive)
    # a least-squares request on data with negative values must also get this algorithm
    method = "ws-nmf" if positive or rng.integers(2) else "ls-nmf"
    steps = int(rng.integers(2, 9))
    ctx.note(kind=kind, positive=positive, shape=V.shape, k=k, method=method, steps=steps)
    ctx.distinct((kind, positive, V.shape, k, method))
    V32, U32 = V.astype(np.float32), U.astype(np.float32)
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1 << 30)))
        if rng.integers(2):
            W, H = gen.factors_for(rng, V, k, signed=True)
            sa.initialize(H=H.astype(np.float32), W=W.astype(np.float32))
        else:
            sa.initialize()
        for i in range(steps):
            W0, H0 = np.array(sa.W), np.array(sa.H)
            r = sa.train(max_iter=1)
            ctx.require(r is None or r is True or isinstance(r, (tuple, dict)), "refused-valid-data", f"train returned {r!r}")
            judge_step(ctx, V32, U32, W0, H0, sa.W, sa.H, 1.2e-7, 5e-3, False, f"iteration {i}", 1e3)
        with StepTrace(sa) as tr:
            sa.train(max_iter=3, converge_delta=-1e30)
    ctx.count("hooked_update_calls", len(tr.events))
    for i, e in enumerate(tr.events):
        judge_step(ctx, V32, U32, e["W0"], e["H0"], e["W1"], e["H1"], 1.2e-7, 5e-3, e["hold"], f"hooked {i}", 1e3)


SCENARIOS = [Scenario("step64", step64, 700, 15000), Scenario("model_steps", model_steps, 300, 6000)]
