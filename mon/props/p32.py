"""P32: the compiled engine (rust/lib.rs behind SA.train) trains like the reference one."""
import contextlib
import importlib

import numpy as np

from mon import gen, native
from mon.core import Scenario, Skip, Violation
from mon.props import p01, p02, p04
from esat.model.sa import SA

TECHNIQUE = ("reference-model trace checking of the compiled source's own iterations (built with overflow checks and debug assertions "
             "against stand-in libraries) and the workflow monitors of other properties re-run on top of it")
NOTE = ("rust/lib.rs is compiled unmodified with stand-ins for pyo3, numpy, ndarray and nalgebra written from their documentation "
        "(argument conversion, memory orders); the GPU branch is never entered. Judged through SA.train only. If the source should "
        "need more than the stand-ins offer, the run says so and decides nothing.")
RULE = ("each case draws a dataset (also with zero rows or columns, negative values), a memory order for every array, a method, "
        "start, hold flag and delay and trains fresh models for every shorter limit; or a tolerance for the stop rule; or a workflow "
        "case of another property; distinct by (method, layouts, hold, delay, limit) or workflow")
ASSUMPTIONS = ["pyo3, rust-numpy, ndarray and nalgebra behave as documented for the operations used (native/shim.rs)",
               "weighted semi-NMF is judged where the normal equations are well conditioned for float32 (<=1e3)"]
REQUIRED = {"given_updates": 20}
NEED = {"native_iterations": 250, "native_stops": 30, "native_callbacks": 30, "native_workflows": 20}
ALGO = {"ls-nmf": 0, "ws-nmf": 1}

try:
    native.build()
    REQUIRED |= NEED
except native.Unavailable as ex:
    UNAVAILABLE = str(ex)
else:
    UNAVAILABLE = None


@contextlib.contextmanager
def engine(ctx):
    """The compiled engine; cases in which weighted semi-NMF overflowed float32 are not judged."""
    if UNAVAILABLE:
        ctx.count("source_not_buildable_with_stand_ins")
        raise Skip()
    n0, o0 = native.CALLS.value, native.OVERFLOWS.value
    try:
        with native.installed():
            yield
    except native.PanicException as ex:
        raise Violation("panic", str(ex)) from ex
    except BaseException:
        if native.OVERFLOWS.value > o0:
            ctx.count("float32_overflows")
            ctx.soft.clear()
            raise Skip() from None
        raise
    if native.OVERFLOWS.value > o0:
        ctx.count("float32_overflows")
        ctx.soft.clear()
        raise Skip()
    ctx.count("native_calls", native.CALLS.value - n0)


def layout(rng, x):
    t = rng.integers(5)
    if t == 0:
        return np.asfortranarray(x), "F"
    if t == 1:
        big = np.zeros((x.shape[0] * 2, x.shape[1] + 1), x.dtype)
        big[::2, 1:] = x
        return big[::2, 1:], "strided"
    if t == 2:
        return np.ascontiguousarray(x[::-1])[::-1], "reversed"
    return np.ascontiguousarray(x), "C"


def underflows(V, U, W, H):
    """Whether single precision loses a term of the published iteration to its smallest magnitude."""
    We = 1.0 / np.asarray(U, np.float64) ** 2
    W, H = np.asarray(W, np.float64), np.asarray(H, np.float64)
    wh = We * (W @ H)
    terms = [We * V, wh, W.T @ (We * V), W.T @ wh, (We * V) @ H.T, wh @ H.T]
    small = min(np.abs(t[t != 0]).min(initial=1) for t in terms)
    small *= min(1, np.abs(W[W != 0]).min(initial=1), np.abs(H[H != 0]).min(initial=1))
    return bool(small < 1e-34)


def moved(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return bool((np.abs(a - b) > 1e-3 * np.abs(b)).mean() > 0.1)


def steps(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, positive=bool(rng.random() < 0.7))
    m, n = V.shape
    tag = "plain"
    if rng.random() < 0.25:
        tag = ["zero feature", "zero sample", "zero cells", "one sample", "one feature"][rng.integers(5)]
        if tag == "zero feature":
            V[:, rng.integers(n)] = 0
        elif tag == "zero sample":
            V[rng.integers(m)] = 0
        elif tag == "zero cells":
            V[rng.random(V.shape) < 0.3] = 0
        elif tag == "one sample":
            V, U, k = V[:1], U[:1], 1
        else:
            V, U, k = V[:, :1], U[:, :1], 1
    ls = method == "ls-nmf" and (V >= 0).all()
    W, H = gen.factors_for(rng, V, k, signed=method == "ws-nmf" and bool(rng.integers(2)))
    dt = np.float32 if rng.integers(2) else np.float64
    (V, lv), (U, lu) = layout(rng, V), layout(rng, U)
    (W, lw), (H, lh) = layout(rng, W.astype(dt)), layout(rng, H.astype(dt))
    held = bool(rng.random() < 0.4)
    delay = int(rng.choice([-1, -1, 0, 1, 2, 3]))
    limit = int(rng.integers(1, 8))
    generated = bool(rng.random() < 0.3)
    ctx.note(kind=kind, tag=tag, method=method, shape=V.shape, k=k, layouts=[lv, lu, lw, lh], dtype=str(dt), hold=held, delay=delay,
             limit=limit, generated=generated)
    ctx.distinct((method, tag, lv, lu, lw, lh, held, delay, limit, generated))
    V32, U32 = np.asarray(V, np.float32), np.asarray(U, np.float32)
    alpha = float(rng.choice([4.0, 4.0, 1.5]))
    chain = bool(rng.integers(2))           # one model trained again and again, or fresh models with longer limits

    def fresh():
        sa = SA(V=V, U=U, factors=k, method=method, seed=9)
        sa.initialize(**({} if generated else dict(H=H, W=W)))
        return sa
    with ctx.quiet(), engine(ctx):
        sa = fresh()
        ctx.require(sa.optimized is True, "engine-not-used", "the installed extension was not picked up")
        prev = (np.array(sa.W), np.array(sa.H))
        for i in range(limit):
            kw = dict(max_iter=1 if chain else i + 1, converge_delta=-1e30, converge_n=int(rng.integers(1, 9)),
                      model_i=int(rng.choice([1, 5, 127, 128, 700])))
            hold = held and not (not chain and delay > 0 and i > delay)
            sa = sa if chain else fresh()
            n0 = native.CALLS.value
            r = sa.train(**kw, **gen.omit(rng, dict(hold_h=held, delay_h=delay, robust_alpha=alpha), hold_h=False, delay_h=-1,
                                          robust_alpha=4.0))
            where = f"{method} {tag} iteration {i}{' of a continued model' if chain else ''}, data {lv}/{lu}, start {lw}/{lh}"
            ctx.require(r is None or r is True, "refused-valid-data", f"{where}: train returned {r!r}")
            ctx.require(native.CALLS.value == n0 + 1, "engine-not-used", where)
            W0, H0 = prev
            if method == "ws-nmf" or not ls:
                # float32 normal equations: go on only while they can be solved
                _, cond = p02.ref.wls_contributions(V32, U32, H0)
                if not (cond <= 1e3).all():
                    ctx.count("ill_conditioned")
                    break
            H0j = H0.astype(np.float32).astype(H0.dtype) if hold else H0
            if ls and underflows(V32, U32, W0, H0j) or not ls and not np.abs(H0j[H0j != 0]).min(initial=1) > 1e-12:
                ctx.count("float32_underflows")
                break
            if hold:
                ctx.check(np.array_equal(np.asarray(sa.H, np.float32), np.asarray(H0, np.float32)), "held-profile-moved", where)
            elif (i == 0 and not tag.startswith("one")) or (ls and moved(p01.ref.lsnmf_step(V32, U32, W0, H0j, False)[1], H0j)):
                ctx.check(not np.array_equal(np.asarray(sa.H, np.float32), np.asarray(H0, np.float32)), "profile-not-released", where)
            if ls:
                p01.judge_step(ctx, V32, U32, W0, H0j, sa.W, sa.H, 1.2e-7, 1e-3, hold, where)
            else:
                p02.judge_step(ctx, V32, U32, W0 if i else None, H0j, sa.W, sa.H, 1.2e-7, 5e-3, hold, where, 1e3)
            ctx.count("native_iterations")
            ln = p04.judge_model(ctx, sa, V, U, alpha, kw, 0, where)
            ctx.check(ln == kw["max_iter"] and sa.converged is False, "ran-short", f"{where}: {ln} iterations, converged={sa.converged}")
            prev = (np.array(sa.W), np.array(sa.H))


def stop(ctx):
    """The engine's rule: the newest loss against the oldest of the last `window` ones, as soon as that many are recorded."""
    rng = ctx.rng
    method = "ls-nmf" if rng.random() < 0.7 else "ws-nmf"
    V, U, kind, k = gen.dataset(rng)
    limit, win = int(rng.integers(1, 50)), int(rng.integers(1, 10))
    with ctx.quiet(), engine(ctx):
        seed = int(rng.integers(1 << 30))

        def run(delta, **kw):
            sa = SA(V=V, U=U, factors=k, method=method, seed=seed)
            sa.initialize()
            sa.train(max_iter=limit, converge_delta=delta, converge_n=win, **kw)
            return sa
        probe = run(-1e30)
        p = np.asarray(probe.q_list, np.float64)
        if not np.isfinite(p).all():
            raise Skip()
        ctx.require(len(p) == limit and probe.converged is False, "ran-short", f"{len(p)} of {limit} iterations")
        gain = {i: p[i - win + 1] - p[i] for i in range(win - 1, limit)}
        if gain and rng.random() < 0.8:
            delta = float(np.quantile(list(gain.values()), rng.random())) * float(rng.choice([0.7, 1.0, 1.3])) + float(rng.choice([0, 1e-3]))
        else:
            delta = float(rng.choice([-1e9, 0.0, 1e9]))
        calls = []
        model_i = int(rng.choice([1, 3, 127, 128, 4000]))
        sa = run(delta, progress_callback=lambda *a: calls.append(a), model_i=model_i)
    n = len(sa.q_list)
    tol = 2e-6 * np.abs(p).max()
    ctx.note(kind=kind, method=method, window=win, limit=limit, delta=delta, stopped_after=n)
    ctx.distinct((method, win, limit, n))
    ctx.check(np.allclose(np.asarray(sa.q_list, float), p[:n], rtol=1e-5), "history-differs", "early stopping changed the iterations")
    certain = [i for i, g in gain.items() if g < delta - tol]
    possible = [i for i, g in gain.items() if g < delta + tol]
    ctx.count("native_stops")
    if n < limit:
        ctx.check(bool(sa.converged) and n - 1 in possible, "stop-iteration",
                  f"stopped after {n}, the tolerance {delta} was met after {[i + 1 for i in possible][:1]}", window=win)
    if certain:
        ctx.check(n <= certain[0] + 1 and bool(sa.converged), "stop-iteration", f"ran {n} iterations, converged after {certain[0] + 1}",
                  window=win)
    elif not possible:
        ctx.check(n == limit and not sa.converged, "converged-flag", f"{n} of {limit} iterations, converged={sa.converged}")
    ctx.check(sa.converge_steps == n - 1, "converge-steps", f"{sa.converge_steps} for {n} iterations")
    # progress reports
    ctx.count("native_callbacks", len(calls))
    ctx.require(len(calls) >= 1 and all(len(c) == 7 for c in calls), "progress", f"{len(calls)} reports")
    its = [c[1] for c in calls]
    ctx.check(its == sorted(set(its)) and its[-1] == n - 1, "progress", f"reports for iterations {its}, {n} were run")
    for c in calls:
        mi, i, mx, q, qr, mse, done = c
        ctx.check(mi == model_i and mx == limit and bool(done) == (i == n - 1), "progress", f"report {c}")
        ctx.check(abs(q - float(sa.q_list[i])) <= 1e-5 * abs(q) and abs(mse * V.size - q) <= 1e-5 * abs(q) and qr <= q * (1 + 1e-5),
                  "progress", f"report {c}, history {float(sa.q_list[i])!r}")
    ctx.check(abs(calls[-1][4] - float(sa.Qrobust)) <= 1e-3 * abs(calls[-1][4]) + gen.wq_noise(V, U, sa.W, sa.H, 3e-7), "progress",
              f"robust loss {calls[-1][4]} reported, model says {float(sa.Qrobust)}")


FLOWS = [("p04", "trained", 10), ("p06", "repro", 10), ("p07", "good", 10), ("p09", "io", 6), ("p10", "sequential", 4), ("p10", "parallel", 2),
         ("p11", "io", 3), ("p16", "runs", 6), ("p17", "sequential", 4), ("p18", "levels", 2), ("p19", "aggregate", 2), ("p20", "combined", 1),
         ("p21", "history", 4), ("p22", "constrained", 6), ("p26", "analysis", 1), ("p30", "summary", 1)]


def flow(ctx):
    """A case of another property's workflow, with models trained by the compiled engine."""
    w = np.array([f[2] for f in FLOWS], float)
    mod, name, _ = FLOWS[ctx.rng.choice(len(FLOWS), p=w / w.sum())]
    fn = next(s.fn for s in importlib.import_module(f"mon.props.{mod}").SCENARIOS if s.name == name)
    n0 = native.CALLS.value
    with engine(ctx):
        fn(ctx)
    ctx.distinct((mod, name))
    if native.CALLS.value > n0:
        ctx.count("native_workflows")
        ctx.count(f"native_workflows_{mod}_{name}")


GIVEN = """
import numpy as np
def update(self, V, We, W, H, hold_h=False, delay_h=-1):
    W = W * np.float32({a})
    if not hold_h:
        H = np.maximum(H - np.float32({b}), 0)
    return W, H
"""


def given(ctx):
    """The update the caller gives to train is the one that is run, with either engine."""
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng)
    W, H = gen.factors_for(rng, V, k)
    a, b = float(rng.choice([0.5, 1.25])), float(rng.choice([0.01, 0.125]))
    held, delay, limit = bool(rng.integers(2)), int(rng.choice([-1, 0, 1, 2])), int(rng.integers(1, 7))
    with ctx.quiet(), (contextlib.nullcontext() if UNAVAILABLE or rng.random() < 0.3 else native.installed()):
        sa = SA(V=V, U=U, factors=k, method=method, seed=3)
        sa.initialize(H=H, W=W)
        w, h = np.array(sa.W, np.float32), np.array(sa.H, np.float32)
        sa.train(max_iter=limit, converge_delta=-1e30, update_step=GIVEN.format(a=a, b=b), hold_h=held, delay_h=delay)
    for i in range(limit):
        w = w * np.float32(a)
        if not (held and not (0 < delay < i)):
            h = np.maximum(h - np.float32(b), 0)
    ctx.count("given_updates")
    ctx.note(method=method, optimized=sa.optimized, hold=held, delay=delay, limit=limit)
    ctx.distinct((method, sa.optimized, held, delay, limit))
    ctx.check(len(sa.q_list) == limit and np.allclose(sa.W, w, rtol=1e-5) and np.allclose(sa.H, h, rtol=1e-5, atol=1e-6), "given-update-ignored",
              f"{method}, compiled engine {sa.optimized}: W {np.abs(sa.W - w).max()}, H {np.abs(sa.H - h).max()} from the update given")


SCENARIOS = [Scenario("given", given, 30, 500), Scenario("steps", steps, 160, 5000), Scenario("stop", stop, 60, 2000), Scenario("flow", flow, 70, 1500)]
