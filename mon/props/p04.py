"""P04: reported reconstruction, losses, history, metadata belong to the matrices."""
import contextlib
import logging
import re

import numpy as np

from mon import gen, ref
from mon.core import Scenario
from esat import metrics
from esat.model.sa import SA

TECHNIQUE = 'runtime recomputation monitor of everything a trained model reports'
NOTE = 'Everything reported after each training run is recomputed in float64 from the matrices; sampled models and histories.'
RULE = ("each case draws a dataset, method, start, robust cut-off and one to three successive training runs (limits, "
        "tolerances) on one model and recomputes everything the model reports from its matrices after each; or calls the "
        "loss functions on arbitrary matrices; distinct by (family, method, runs, stop kind)")
ASSUMPTIONS = ["comparisons allow for float32 rounding of the reported values"]
REQUIRED = {"completed_runs": 100, "metric_calls": 100, "summaries": 30, "zero_readings": 100}


def close(a, b, noise, rel=2e-5):
    return abs(float(a) - b) <= rel * abs(b) + noise


def judge_model(ctx, sa, V, U, alpha, kw, n_before, where):
    V32, U32 = V.astype(np.float32).astype(float), U.astype(np.float32).astype(float)
    W, H = ref.f64(sa.W, sa.H)
    ctx.count("completed_runs")
    rec = W @ H
    mag = np.abs(W) @ np.abs(H)
    ctx.require(np.shape(sa.WH) == rec.shape, "reconstruction", f"{where}: shape {np.shape(sa.WH)}")
    ctx.check((np.abs(np.asarray(sa.WH, float) - rec) <= 1e-5 * mag + 1e-30).all(), "reconstruction",
              f"{where}: reported reconstruction is not W times H", err=np.abs(np.asarray(sa.WH, float) - rec).max())
    noise = gen.wq_noise(V32, U32, W, H, 3e-7)
    q = gen.wq(V32, U32, W, H)
    qr = ref.qrobust(V32, U32, W, H, alpha)
    ctx.check(close(sa.Qtrue, q, noise), "true-loss", f"{where}: reported {float(sa.Qtrue)!r}, matrices give {q!r}")
    ctx.check(close(sa.Qrobust, qr, noise), "robust-loss", f"{where}: reported {float(sa.Qrobust)!r}, matrices give {qr!r}",
              alpha=alpha)
    ctx.check(float(sa.Qrobust) <= float(sa.Qtrue) * (1 + 1e-5) + noise, "robust-exceeds-true", where)
    ql = list(sa.q_list)
    ctx.check(1 <= len(ql) <= kw["max_iter"], "history-length", f"{where}: {len(ql)} entries, limit {kw['max_iter']}")
    ctx.check(close(ql[-1], q, noise), "history-tail", f"{where}: last entry {float(ql[-1])!r}, loss {q!r}")
    md = sa.metadata
    want = {"max_iterations": kw["max_iter"], "converge_n": kw["converge_n"], "model_i": kw["model_i"],
            "method": sa.method, "seed": sa.seed, "samples": V.shape[0], "features": V.shape[1], "factors": H.shape[0]}
    for a, b in want.items():
        ctx.check(md.get(a) == b, "metadata", f"{where}: metadata {a} = {md.get(a)!r}, used {b!r}")
    ctx.check(abs(float(md.get("converge_delta", np.nan)) - kw["converge_delta"]) < 1e-12, "metadata", "converge_delta")
    ctx.check(sa.model_i == kw["model_i"], "metadata", "model_i attribute")
    return len(ql)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


@contextlib.contextmanager
def listening(name="esat.model.sa"):
    log, h = logging.getLogger(name), Lines()
    old = log.level, log.disabled, log.propagate, logging.root.manager.disable
    log.addHandler(h)
    log.setLevel(logging.INFO)
    log.disabled = log.propagate = False
    logging.disable(logging.NOTSET)
    try:
        yield h.lines
    finally:
        log.removeHandler(h)
        log.setLevel(old[0])
        log.disabled, log.propagate = old[1:3]
        logging.disable(old[3])


def judge_summary(ctx, sa, V, U, k, seed, alpha, steps, where):
    """The printed summary says what the model was trained on, and how well it fits."""
    with listening() as lines:
        sa.summary()
    ctx.count("summaries")
    said = {}
    for a, b in re.findall(r"([A-Z][A-Za-z() ]*?): *([^\t\n]+)", "\n".join(lines)):
        said[a.strip().lower()] = b.strip()
    for name, want in {"method": sa.method, "factors": k, "number of features": V.shape[1], "number of samples": V.shape[0], "random seed": seed}.items():
        ctx.check(said.get(name) == str(want), "summary", f"{where}: {name} said to be {said.get(name)!r}, is {want!r}", lines=lines)
    if steps is None:
        ctx.check(not any("q(" in n for n in said), "summary", f"{where}: results before training: {said}")
        return
    W, H = ref.f64(sa.W, sa.H)
    V32, U32 = V.astype(np.float32).astype(float), U.astype(np.float32).astype(float)
    noise = gen.wq_noise(V32, U32, W, H, 3e-7) + 1e-4
    q, qr = gen.wq(V32, U32, W, H), ref.qrobust(V32, U32, W, H, alpha)
    for name, want, eps in (("q(true)", q, noise), ("q(robust)", qr, noise), ("mse(true)", q / V.size, noise / V.size + 1e-4), ("mse(robust)", qr / V.size, noise / V.size + 1e-4)):
        ctx.check(name in said and close(said[name], want, eps), "summary", f"{where}: {name} said to be {said.get(name)!r}, is {want!r}")
    ctx.check(said.get("converged") == str(sa.converged) and said.get("converge steps") == str(sa.converge_steps), "summary", f"{where}: {said}, model {sa.converged} after {sa.converge_steps}")


def trained(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, positive=method == "ls-nmf" or bool(rng.integers(2)))
    if rng.random() < 0.3:
        V[rng.random(V.shape) < 0.15] = 0.0              # nothing measured
        V[np.arange(V.shape[0]), rng.integers(0, V.shape[1], V.shape[0])] += 0.1 * V.max()
        ctx.count("zero_readings", int((V == 0).sum()))
    alpha = float(rng.choice([4.0, 4.0, 1.0, 0.5, 2.5, 10.0]))
    runs = int(rng.integers(1, 4))
    seed = int(rng.integers(1 << 30))
    ctx.note(kind=kind, method=method, shape=V.shape, k=k, alpha=alpha, runs=runs)
    with ctx.quiet():
        sa = SA(V=V, U=U, factors=k, method=method, seed=seed)
        s = rng.integers(3)
        if s == 0:
            W, H = gen.factors_for(rng, V, k)
            sa.initialize(H=H, W=W)
        elif s == 1:
            sa.initialize()
        summarise = rng.random() < 0.2
        if summarise:
            judge_summary(ctx, sa, V, U, k, seed, None, None, "before training")
        for r in range(runs):
            kw = dict(max_iter=int(rng.integers(1, 40)), converge_delta=float(rng.choice([-1e9, 1e-6, 0.5, 50.0, 1e9])),
                      converge_n=int(rng.integers(1, 10)), model_i=int(rng.integers(0, 9)))
            if kw["converge_delta"] <= -1:
                kw["converge_delta"] = -1e9
            akw = {} if alpha == 4.0 and rng.integers(2) else {"robust_alpha": alpha}
            a = akw.get("robust_alpha", 4.0)
            extra = {"hold_h": True} if rng.random() < 0.2 else {}
            sa.train(**kw, **akw, **extra)
            n = judge_model(ctx, sa, V, U, a, kw, 0, f"run {r} of {runs}")
            if summarise:
                judge_summary(ctx, sa, V, U, k, seed, a, n, f"run {r} of {runs}")
            ctx.distinct((kind, method, r, "stopped" if n < kw["max_iter"] else "limit", a, bool(extra)))


def measures(ctx):
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, positive=bool(rng.integers(2)))
    W, H = gen.factors_for(rng, V, k, signed=bool(rng.integers(2)))
    if rng.random() < 0.15:
        V = W @ H                                     # perfect fit: zero residuals
    alpha = float(rng.choice([0.3, 1.0, 4.0, 7.0]))
    ctx.note(kind=kind, shape=V.shape, k=k, alpha=alpha)
    ctx.distinct((kind, V.shape, k, alpha))
    a = [x.copy() for x in (V, U, W, H)]
    ctx.count("metric_calls")
    q, noise = gen.wq(V, U, W, H), gen.wq_noise(V, U, W, H, 1e-14)
    ctx.check(close(metrics.q_loss(V, U, W, H), q, noise, 1e-9), "true-loss", f"q_loss off, reference {q!r}")
    ctx.check(close(metrics.q_loss(V, U, W, H, uncertainty=False), float(((V - W @ H) ** 2).sum()),
                    1e-9 * float((V ** 2 + (np.abs(W) @ np.abs(H)) ** 2).sum()), 1e-9), "unweighted-loss", "")
    ctx.check(close(metrics.calculate_Q(V - W @ H, U), q, noise, 1e-9), "true-loss", "calculate_Q off")
    got, newu = metrics.qr_loss(V, U, W, H, alpha=alpha)
    ctx.check(close(got, ref.qrobust(V, U, W, H, alpha), noise, 1e-9), "robust-loss",
              f"qr_loss {got!r}, definition {ref.qrobust(V, U, W, H, alpha)!r}", alpha=alpha)
    # robust uncertainties: weights that reproduce the robust loss as a plain weighted loss
    r = np.abs((V - W @ H) / U)
    want = np.where(r > alpha, np.sqrt(r / alpha), 1.0) * U
    near = np.abs(r - alpha) < 1e-9 * np.maximum(alpha, 1)
    ctx.check((near | (np.abs(newu - want) <= 1e-9 * want)).all(), "robust-uncertainty",
              "the robust uncertainties are not U*sqrt(r/alpha) on cells above the cut-off and U elsewhere")
    if (W >= 0).all():
        fq = np.asarray(metrics.q_factor(V, U, W, H), float)
        r2 = ((V - W @ H) / U) ** 2
        want = np.array([(r2 * np.outer(W[:, i], H[i]) / (W @ H)).sum() for i in range(k)])
        ctx.check(fq.shape == (k,) and (np.abs(fq - want) <= 6e-5 + 1e-8 * np.abs(want)).all(), "factor-loss-share",
                  "per-factor loss shares are off their definition", got=fq, want=want)
        ctx.check(abs(fq.sum() - q) <= 1e-4 * k + 1e-7 * q, "factor-loss-conservation", f"{fq.sum()} vs {q}")
    ctx.check(all(np.array_equal(x, y) for x, y in zip(a, (V, U, W, H))), "inputs-modified", "loss functions changed inputs")


SCENARIOS = [Scenario("trained", trained, 350, 6000), Scenario("measures", measures, 600, 12000)]
