"""P05: the stop rule as a relation over the recorded loss history."""
import numpy as np

from mon import gen
from mon.core import Scenario, Skip
from esat.model.sa import SA

TECHNIQUE = 'offline trace checker of the stop rule over recorded loss histories'
NOTE = 'The stop iteration is predicted from the recorded history of an unstopped twin run; sampled tolerances placed between neighbouring improvements.'
RULE = ("each case draws a dataset, method, window, tolerance (placed at a quantile of the window improvements of a probe run, "
        "so that runs stop at the start, in the middle or never) and limit; distinct by (method, window, limit, where it stopped)")
ASSUMPTIONS = ["the rule is judged on the run's own recorded losses; ties within float32 resolution are not judged"]
REQUIRED = {"stopped_early": 40, "ran_to_limit": 40, "retrained": 40, "long_runs": 40}


def stop(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][int(rng.random() < 0.35)]
    V, U, kind, k = gen.dataset(rng)
    limit = int(rng.integers(1, 60))
    win = int(rng.integers(1, 12))
    if rng.random() < 0.15:
        # as long as real trainings: hundreds of iterations and windows up to the default of 100
        limit = int(rng.integers(100, 420))
        win = int(rng.choice([5, 20, 50, 100, 150]))
        ctx.count("long_runs")
    seed = int(rng.integers(1 << 30))

    def fresh():
        sa = SA(V=V, U=U, factors=k, method=method, seed=seed)
        sa.initialize()
        return sa
    with ctx.quiet():
        probe = fresh()
        probe.train(max_iter=limit, converge_delta=-1e30, converge_n=win)
    p = np.asarray(probe.q_list, float)
    if len(p) and not np.isfinite(p).all():
        # a float32 overflow: the loss stopped being a number, training ended there by design
        ctx.count("loss_not_a_number")
        ctx.check(np.isfinite(p[:-1]).all(), "went-on-after-nan", "training went on after the loss stopped being a number")
        raise Skip()
    ctx.require(len(p) == limit and probe.converged is False, "ran-short",
                f"{len(p)} of {limit} iterations with an unreachable tolerance, converged={probe.converged}")
    # the window: the newest loss against the one converge_n-1 iterations before it
    delta_at = [p[i - win + 1] - p[i] for i in range(win, limit)]
    if delta_at and rng.random() < 0.8:
        # half way between two neighbouring improvements, so that float32 noise cannot decide
        srt = np.sort(np.asarray(delta_at))
        gaps = np.diff(srt)
        if rng.random() < 0.25 or not len(gaps) or not (gaps > 0).any():
            delta = float(rng.choice(srt)) * float(rng.choice([0.7, 1.0, 1.5]))
        else:
            wide = np.flatnonzero(gaps >= np.quantile(gaps[gaps > 0], 0.5))
            g = int(rng.choice(wide))
            delta = float((srt[g] + srt[g + 1]) / 2)
    else:
        delta = float(rng.choice([-1e9, 0.0, 1e-3, 1e9]))
    resolution = 1e-6 * np.abs(p).max()
    want = None
    for i in range(win, limit):
        d = p[i - win + 1] - p[i]
        if abs(d - delta) <= 1e-6 * max(abs(p[i]), abs(p[i - win + 1])) and abs(delta) < 1e8:
            # too close to call in float32: accept either, judge on the rest
            want = "tie"
            break
        if d < delta:
            want = i
            break
    with ctx.quiet():
        sa = fresh()
        if rng.random() < 0.3:
            # an earlier training of the same model, then the same start again: nothing of the first run may survive
            sa.train(max_iter=int(rng.integers(1, 30)), converge_delta=float(rng.choice([-1e30, 1e30])), converge_n=win)
            again = fresh()
            sa.initialize(W=again.W, H=again.H)
            ctx.count("retrained")
        sa.train(max_iter=limit, converge_delta=delta, converge_n=win)
    n = len(sa.q_list)
    ctx.note(kind=kind, method=method, window=win, limit=limit, delta=delta, stopped_after=n, expected=want)
    ctx.distinct((method, win, limit, n))
    q = np.asarray(sa.q_list, float)
    ctx.check(n <= limit, "limit-exceeded", f"{n} > {limit}")
    m = min(n, limit)
    ctx.check(np.allclose(q[:m], p[:m], rtol=1e-5, atol=resolution), "history-differs", "early stopping changed the iterations")
    if want == "tie":
        ctx.count("ties")
        return
    if want is None:
        ctx.count("ran_to_limit")
        ctx.check(n == limit, "stopped-too-early", f"stopped after {n} of {limit}, tolerance {delta} never met")
        ctx.check(not sa.converged, "converged-flag", "converged set although the tolerance was never met")
        ctx.check(sa.converge_steps == limit, "converge-steps", f"{sa.converge_steps} steps reported for {limit} iterations")
    else:
        ctx.count("stopped_early")
        ctx.check(n == want + 1, "stop-iteration", f"stopped after {n} iterations, first converged one is {want + 1}",
                  window=win, delta=delta)
        ctx.check(bool(sa.converged), "converged-flag", "converged not set on an early stop")
        ctx.check(sa.converge_steps == want, "converge-steps", f"{sa.converge_steps} reported, {want} before convergence")
    with ctx.quiet():
        same = fresh()
        same.train(max_iter=n, converge_delta=-1e30, converge_n=win)
    ctx.check(np.allclose(same.W, sa.W, rtol=1e-4) and np.allclose(same.H, sa.H, rtol=1e-4), "state-not-of-stop",
              "the reported matrices are not those of the stopping iteration")


SCENARIOS = [Scenario("stop", stop, 500, 9000)]
