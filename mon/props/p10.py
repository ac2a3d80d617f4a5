"""P10: a batch holds every requested model, in order, and points at the best one."""
import contextlib
import logging
import re

import numpy as np

from mon import gen, native
from mon.core import Scenario
from mon.instr import Delays, limited
from mon.props.p09 import same_model
from esat.model.sa import SA
from esat.model.batch_sa import BatchSA

TECHNIQUE = "differential runtime monitoring of parallel against sequential runs with injected worker delays"
NOTE = ("Each batch is run sequentially and in parallel with worker finishing orders forced by injected delays, and every "
        "model is compared bit for bit with the same model trained alone. Sampled batches and schedules.")
RULE = ("each case draws a batch configuration and runs it sequentially, in parallel under a forced finishing order, or both, with or without "
        "log and progress reports, with either engine; "
        "distinct by (mode, models, finishing order, settings)")
ASSUMPTIONS = ["worker processes are forked, so the injected delays reach them"]
REQUIRED = {"models_compared_alone": 150, "parallel_batches": 8, "wide_batches": 2, "sequential_batches": 40, "best_differs_by_loss_kind": 5, "contested_parallel_batches": 4, "reporting_batches": 20, "limited_batches": 2, "second_runs": 8, "failing_batches": 4}


def config(rng):
    method = ["ls-nmf", "ls-nmf", "ws-nmf"][rng.integers(3)]
    kmeans = rng.random() < 0.15
    V, U, kind, k = gen.dataset(rng, kind=["heavy", "spiky", "noisy", "lowrank", "integer"][rng.integers(5)],
                                m=int(rng.integers(12, 30)), n=int(rng.integers(3, 8)), k=int(rng.integers(2, 4)),
                                positive=method == "ls-nmf" or bool(rng.integers(2)))
    if kind in ("noisy", "lowrank"):
        U[rng.random(U.shape) < 0.05] *= 0.02         # a few cells with huge scaled residuals: robust and true loss disagree
    kw = dict(V=V, U=U, factors=k, models=int(rng.integers(1, 7)), method=method, seed=int(rng.integers(1 << 20)) if rng.random() < 0.9 else 0,
              max_iter=int(rng.integers(1, 25)), converge_delta=float(rng.choice([-1e9, 0.01, 1.0, 20.0])),
              converge_n=int(rng.integers(1, 8)), best_robust=bool(rng.integers(2)), verbose=False)
    init = {}
    if kmeans:
        kw.update(init_method="kmeans", init_norm=[True, False, "true", "False"][rng.integers(4)])
    if rng.random() < 0.2:
        del kw["best_robust"]                        # robust by default
    if rng.random() < 0.4:
        kw.update(hold_h=True, delay_h=int(rng.choice([-1, -1, 1, 3])))
    r = rng.random()
    nm = kw["models"]
    hs, ws = zip(*[gen.factors_for(rng, V, k)[::-1] for _ in range(nm)])
    if r < 0.15:
        kw["H"] = hs[0]
    elif r < 0.25:
        kw["W"] = ws[0]
    elif r < 0.45:
        kw["H"], kw["W"] = np.array(hs), np.array(ws)
        if rng.random() < 0.4:
            kw["H"], kw["W"] = list(hs), list(ws)            # one matrix per model, as a list
    elif r < 0.5:
        kw["H"] = hs[0][: k - 1]
    return kw, kind


def alone(kw, i, seed):
    sa = SA(V=kw["V"], U=kw["U"], factors=kw["factors"], method=kw["method"], seed=seed)
    st = {}
    for n in ("H", "W"):
        x = kw.get(n)
        if x is not None:
            st[n] = np.array(x[i] if np.ndim(x) == 3 else x)
    for n in ("init_method", "init_norm"):
        if n in kw:
            st[n] = str(kw[n]).lower() == "true" if n == "init_norm" else kw[n]
    sa.initialize(**st)
    sa.train(max_iter=kw["max_iter"], converge_delta=kw["converge_delta"], converge_n=kw["converge_n"], model_i=i + 1,
             hold_h=kw.get("hold_h", False), delay_h=kw.get("delay_h", -1))
    return sa


def judge(ctx, b, kw, mode, ok):
    n = kw["models"]
    ctx.require(isinstance(ok, tuple) and ok[0] is True, "batch-failed", f"{mode}: train returned {ok!r}")
    ctx.require(len(b.results) == n and all(isinstance(x, SA) for x in b.results), "model-count",
                f"{mode}: {len(b.results)} results for {n} models")
    for i, sa in enumerate(b.results):
        ctx.count("models_compared_alone")
        ctx.check(sa.model_i == i + 1, "model-order", f"{mode}: position {i} holds model {sa.model_i}")
        ref = alone(kw, i, sa.seed)
        bad = [x for x in same_model(sa, ref) if x != "metadata"]
        ctx.check(not bad, "model-differs-from-alone", f"{mode}: model {i + 1} of {n}: {bad}",
                  settings={a: c for a, c in kw.items() if a not in "VUHW"})
    true = [float(x.Qtrue) for x in b.results]
    rob = [float(x.Qrobust) for x in b.results]
    q = rob if kw.get("best_robust", True) else true
    if np.isfinite(q).all():
        ctx.check(isinstance(b.best_model, (int, np.integer)) and 0 <= b.best_model < n and q[b.best_model] == min(q), "best-model",
                  f"{mode}: best {b.best_model}, losses {q}")
        if true[int(np.argmin(rob))] > min(true):
            ctx.count("best_differs_by_loss_kind")
    seeds = [int(x.seed) for x in b.results]
    return seeds


def compare(ctx, a, b, what):
    for i, (x, y) in enumerate(zip(a.results, b.results)):
        bad = [z for z in same_model(x, y) if z != "metadata"]
        ctx.check(not bad, "parallel-sequential-differ", f"{what}: model {i + 1}: {bad}")
    ctx.check(a.best_model == b.best_model, "parallel-sequential-differ", f"{what}: best {a.best_model} / {b.best_model}")


def sequential(ctx):
    rng = ctx.rng
    kw, kind = config(rng)
    ctx.note(kind=kind, **{a: b for a, b in kw.items() if a not in "VUHW"}, starts=[a for a in "HW" if a in kw])
    with ctx.quiet(), limited(ctx, 120, "sequential batch"):
        snaps = {a: np.array(kw[a], copy=True) for a in "VUHW" if a in kw}
        b = BatchSA(parallel=False, **kw)
        ok = b.train()
        seeds = judge(ctx, b, kw, "sequential", ok)
        ctx.count("sequential_batches")
        ctx.check(all(np.array_equal(snaps[a], kw[a]) for a in snaps), "caller-array-modified", "sequential")
        if rng.random() < 0.3:
            # a second run of the same batch holds its own models only
            first = list(b.results)
            if rng.random() < 0.5:
                b.max_iter = kw2_iter = int(rng.integers(1, 25))
            else:
                kw2_iter = kw["max_iter"]
            ok = b.train()
            judge(ctx, b, {**kw, "max_iter": kw2_iter}, "second sequential run", ok)
            ctx.check(not any(x is y for x in first for y in b.results), "second-run", "holds models of the first")
            ctx.count("second_runs")
        if rng.random() < 0.3:
            # a larger batch starts with the same models; another batch seed gives other models
            c = BatchSA(parallel=False, **{**kw, "models": kw["models"] + 1}) if np.ndim(kw.get("H")) != 3 else None
            if c is not None:
                c.train()
                ctx.check([int(x.seed) for x in c.results][:len(seeds)] == seeds, "seed-sequence", "a longer batch has another seed sequence")
            other = kw["seed"] + 1 if kw["seed"] else 42
            d = BatchSA(parallel=False, **{**kw, "seed": other, "models": 3} if np.ndim(kw.get("H")) != 3 else {**kw, "seed": other})
            d.train()
            if len(seeds) >= 2:
                ctx.check([int(x.seed) for x in d.results][:len(seeds)] != seeds, "batch-seed-ignored", f"{seeds}")
        if len(seeds) > 3:
            ctx.check(len(set(seeds)) > 1, "seed-sequence", f"all models of the batch share one seed {seeds}")
    ctx.distinct(("seq", kw["models"], kw["method"], kw.get("hold_h"), kw.get("delay_h"), tuple(a for a in "HW" if a in kw), kw.get("best_robust")))


def contested(ctx):
    """A batch whose model with the lowest true loss is not the one with the lowest robust loss."""
    rng = ctx.rng
    for _ in range(25):
        kw, kind = config(rng)
        if kw["models"] < 3:
            continue
        b = BatchSA(parallel=False, **kw)
        b.train()
        true, rob = [float(x.Qtrue) for x in b.results], [float(x.Qrobust) for x in b.results]
        if np.isfinite(true + rob).all() and int(np.argmin(rob)) != int(np.argmin(true)):
            kw["best_robust"] = bool(rng.random() < 0.3)
            ctx.count("contested_parallel_batches")
            return kw, kind
    return kw, kind


def wide(ctx):
    parallel(ctx, True)


def parallel(ctx, many=False):
    rng = ctx.rng
    fixed = bool(rng.random() < 0.6) and not many
    with ctx.quiet():
        kw, kind = contested(ctx) if fixed else config(rng)
    if many and np.ndim(kw.get("H")) == 3:
        del kw["H"], kw["W"]
    if not fixed and np.ndim(kw.get("H")) != 3:
        kw["models"] = int(rng.integers(10, 14)) if many or rng.random() < 0.2 else int(rng.integers(2, 7))
    n = kw["models"]
    order = rng.permutation(n)
    cores = int(rng.choice([1, 2, 4, 8]))
    delays = {int(m) + 1: 0.04 * int(p) for p, m in enumerate(order)}
    ctx.note(kind=kind, finishing_order=order, cores=cores, **{a: b for a, b in kw.items() if a not in "VUHW"})
    ctx.distinct(("par", tuple(order), cores))
    with ctx.quiet():
        with Delays(SA, "train", lambda o, a, k: k.get("model_i", 1), delays), limited(ctx, 120, "parallel batch"):
            b = BatchSA(parallel=True, cores=cores, **kw)
            ok = b.train()
        ctx.count("parallel_batches")
        if n > 9:
            ctx.count("wide_batches")
        judge(ctx, b, kw, f"parallel ({cores} workers, order {order})", ok)
        with limited(ctx, 120, "sequential batch"):
            s = BatchSA(parallel=False, **kw)
            s.train()
        compare(ctx, b, s, f"{cores} workers, order {order}")
        if rng.random() < 0.4 and not many:
            with limited(ctx, 240, "second parallel run"):
                judge(ctx, b, kw, "second parallel run", b.train())
            with limited(ctx, 120, "second sequential run"):
                s.train()
            compare(ctx, b, s, "second run")
            ctx.count("second_parallel_runs")


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


@contextlib.contextmanager
def listening():
    log, h = logging.getLogger("esat.model.batch_sa"), Lines()
    old = log.level, log.disabled, logging.root.manager.disable, log.propagate
    log.addHandler(h)
    log.setLevel(logging.INFO)
    log.disabled = log.propagate = False
    other = logging.getLogger("esat.model.sa")
    muted, other.disabled = other.disabled, True
    logging.disable(logging.NOTSET)
    try:
        yield h.lines
    finally:
        log.removeHandler(h)
        log.setLevel(old[0])
        log.disabled = old[1]
        logging.disable(old[2])
        log.propagate = old[3]
        other.disabled = muted


def reports(ctx):
    """Verbose batches, with progress reports, from either engine; and the time limit of one model."""
    rng = ctx.rng
    kw, kind = config(rng)
    if np.ndim(kw.get("H")) != 3:
        kw["models"] = int(rng.integers(1, 5))
    n = kw["models"]
    par = bool(rng.random() < 0.35)
    compiled = bool(rng.random() < 0.6)
    if compiled:
        try:
            native.build()
        except native.Unavailable:
            compiled = False
    verbose = bool(rng.random() < 0.7)
    calls = []

    class Window:
        """as a user interface would: an object that cannot be sent to another process"""
        def __init__(self):
            self.handle = open("/dev/null")

        def show(self, *a):
            calls.append(a)
    w = Window()
    callback = [w.show, lambda *a: calls.append(a)][rng.integers(2)] if rng.random() < 0.8 else None
    ctx.note(kind=kind, parallel=par, compiled=compiled, verbose=verbose, callback=callback is not None, models=n, method=kw["method"])
    ctx.distinct((par, compiled, verbose, callback is not None, n, kw["method"]))
    kw["verbose"] = verbose
    with ctx.quiet(), limited(ctx, 120, "batch"), (native.installed() if compiled else contextlib.nullcontext()):
        with listening() as lines:
            b = BatchSA(parallel=par, cores=2, progress_callback=callback, **kw)
            order = rng.permutation(n)
            with Delays(SA, "train", lambda o, a, k: k.get("model_i", 1), {int(m) + 1: 0.03 * int(p) for p, m in enumerate(order)} if par else {}):
                ok = b.train()
            seen = len(calls)
        ctx.require(isinstance(ok, tuple) and ok[0] is True, "batch-failed", f"with reports: train returned {ok!r}")
        ctx.require(len(b.results) == n, "model-count", f"with reports: {len(b.results)} of {n}")
        plain = BatchSA(parallel=False, **{**kw, "verbose": False})
        plain.train()
        compare(ctx, b, plain, f"reports and {'parallel' if par else 'sequential'}")
        if rng.random() < 0.5:
            with listening() as more:
                b.details()
            ctx.check(any(f"{b.factors}" in x for x in more), "details", "")
            shown(ctx, b, more)
    if verbose:
        shown(ctx, b, lines)
    ctx.count("reporting_batches")
    if callback is not None and compiled:
        ctx.count("callback_batches")
        ctx.check(seen == len(calls), "late-reports", f"{len(calls) - seen} reports after train returned")
        ctx.check({c[0] for c in calls} == set(range(1, n + 1)), "progress", f"reports of models {sorted({c[0] for c in calls})} of {n}")
        for sa in b.results:
            mine = [c for c in calls if c[0] == sa.model_i]
            if not mine or not np.isfinite(float(sa.Qtrue)):
                continue
            its = [c[1] for c in mine]
            ctx.check(its == sorted(set(its)) and mine[-1][6] and not any(c[6] for c in mine[:-1]), "progress", f"model {sa.model_i}: {mine[-3:]}")
            ctx.check(abs(mine[-1][3] - float(sa.q_list[-1])) <= 1e-5 * abs(mine[-1][3]), "progress", f"model {sa.model_i}: {mine[-1][3]} reported, history ends in {sa.q_list[-1]}")


def shown(ctx, b, lines):
    """The figures in the log are those of the models."""
    rows = {}
    for x in lines:
        m = re.match(r"Model: (\d+), Q\(true\): ([-\d.einfa]+), .*Q\(robust\): ([-\d.einfa]+)", x)
        if m:
            rows[int(m[1])] = (float(m[2]), float(m[3]))
        m = re.search(r"Best Model: (\d+), Q\(true\): ([-\d.einfa]+)", x)
        if m:
            ctx.count("best_lines")
            sa = b.results[b.best_model]
            ctx.check(int(m[1]) == b.best_model + 1 and close(float(m[2]), float(sa.Qtrue)), "log", f"{x}: best is {b.best_model + 1}")
            robust = re.search(r"Q\(robust\): ([-\d.einfa]+)", x)
            ctx.check(robust and close(float(robust[1]), float(sa.Qrobust)) and x.endswith(f"Converged: {sa.converged}"), "log", x)
        sa = b.results[int(m[1]) - 1] if (m := re.search(r"Model: (\d+), Q\(true\)", x)) and int(m[1]) <= len(b.results) else None
        for kind, q in (("true", "Qtrue"), ("robust", "Qrobust")):
            e = re.search(rf"MSE\({kind}\): ([-\d.einfa]+)", x)
            if sa is not None and e:
                ctx.check(close(float(e[1]), float(getattr(sa, q)) / b.V.size), "log", f"{x}: mean error of {getattr(sa, q)} over {b.V.size} cells")
    ctx.check(not rows or set(rows) == set(range(1, len(b.results) + 1)), "log", f"models {sorted(rows)} of {len(b.results)}")
    for i, sa in enumerate(b.results):
        if i + 1 in rows:
            ctx.check(close(rows[i + 1][0], float(sa.Qtrue)) and close(rows[i + 1][1], float(sa.Qrobust)), "log", f"model {i + 1}: {rows[i + 1]}")


def close(a, b):
    return np.isnan(a) and np.isnan(b) or a == b or abs(a - b) <= 1e-4 + 1e-6 * abs(b)


def slow(ctx):
    """A model that takes longer than allowed ends the batch."""
    rng = ctx.rng
    kw, kind = config(rng)
    if np.ndim(kw.get("H")) == 3:
        del kw["H"], kw["W"]
    kw["models"] = n = int(rng.integers(1, 5))
    late = int(rng.integers(1, n + 1))
    over = bool(rng.random() < 0.7)
    with ctx.quiet(), limited(ctx, 120, "batch"):
        b = BatchSA(parallel=False, **kw)
        with Delays(SA, "train", lambda o, a, k: k.get("model_i", 1), {late: 1.15}):
            ok = b.train(min_limit=0.01 if over else 0.5)
    ctx.count("limited_batches")
    ctx.distinct((n, late, over))
    ctx.note(models=n, slow=late, over=over)
    if over:
        ctx.check(isinstance(ok, tuple) and ok[0] is False and ok[1], "time-limit-ignored", f"{ok!r}")
        ctx.check(len(b.results) < late + 1, "time-limit-ignored", f"{len(b.results)} models, number {late} was too slow")
    else:
        judge(ctx, b, kw, "with a time limit", ok)


def failing(ctx):
    """A batch that cannot be trained says so, instead of passing for a completed one."""
    rng = ctx.rng
    kw, kind = config(rng)
    for x in "HW":
        kw.pop(x, None)
    k, (m, n) = kw["factors"], kw["V"].shape
    which = "HW"[rng.integers(2)]
    par = bool(rng.random() < 0.3)
    shape = [k, n] if which == "H" else [m, k]
    shape[1 if which == "H" else 0] += 1
    bad = rng.random(shape) + 0.1
    many = bool(rng.integers(2))
    kw.pop("init_method", None), kw.pop("init_norm", None)
    kw[which] = np.array([bad] * kw["models"]) if many else bad
    ctx.note(kind=kind, start=which, per_model=many, parallel=par)
    ctx.distinct((which, many, par, kw["method"]))
    with ctx.quiet(), limited(ctx, 120, "batch"):
        b = BatchSA(parallel=par, cores=2, **kw)
        ok = b.train()
    ctx.count("failing_batches")
    ctx.check(isinstance(ok, tuple) and ok[0] is False and isinstance(ok[1], str) and ok[1], "failure-unreported", f"{ok!r}")


SCENARIOS = [Scenario("failing", failing, 8, 120), Scenario("sequential", sequential, 70, 1200), Scenario("parallel", parallel, 20, 300), Scenario("reports", reports, 30, 500),
             Scenario("slow", slow, 3, 30), Scenario("wide", wide, 2, 30)]
