"""P22: constrained runs apply every constraint and expression within its budget, and report their own solution."""
import json
import types

import numpy as np

from mon import gen, ref
from mon.core import Scenario
from mon.instr import StepTrace, limited
from mon.props.p16 import same_snap, snap
from mon.props.p17 import cells, near, shown
from mon.props.p21 import elements, expression, label, request
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel

TECHNIQUE = "runtime monitoring of every update of a constrained run against a closed-form loss and target oracle"
NOTE = ("The matrices every update of the run starts from are recorded and each constrained element is checked against its "
        "constraint and loss budget in float64; the reported solution is recomputed from its own matrices. Sampled runs.")
RULE = ("each case trains a base model, adds constraints and/or expressions and monitors all updates of the constrained run; "
        "distinct by (algorithm, constraint kinds and targets, expressions, softness, steps)")
ASSUMPTIONS = ["pulls of negative contributions (ws-nmf) are only held to their budget, not to a direction"]
REQUIRED = {"steps": 800, "elements_checked": 700, "pulls_checked": 250, "pulls_limited": 60, "limits_applied": 10,
            "expressions_moved": 60, "zero_at_end": 1, "saved": 6, "value_pulls_limited": 5, "second_runs": 20}


def change(sa, W, H, target, ix, new):
    """exact loss change of setting one element, and its slope, in float64"""
    V, U = np.asarray(sa.V, np.float64), np.asarray(sa.U, np.float64)
    W, H = np.asarray(W, np.float64), np.asarray(H, np.float64)
    if target == "feature":
        i, j = ix
        r, w, old = (V[:, j] - W @ H[:, j]) / U[:, j], W[:, i] / U[:, j], H[i, j]
    else:
        t, i = ix
        r, w, old = (V[t] - W[t] @ H) / U[t], H[i] / U[t], W[t, i]
    d = new - old
    return float(w @ w * d * d - 2 * d * (r @ w)), float(abs(2 * d * (w @ w) - 2 * (r @ w)))


def goal_costing(sa, c, cost):
    """the value above the current one which changes the loss of the base model by the given amount"""
    old = element(sa.W, sa.H, c)
    unit, _ = change(sa, sa.W, sa.H, c["target"], c["index"], old + 1.0)
    half, _ = change(sa, sa.W, sa.H, c["target"], c["index"], old + 0.5)
    a = 2 * unit - 4 * half         # change(d) = a d^2 + b d
    b = unit - a
    if not a > 1e-12:
        return float(abs(old) * 4)
    return float(max(old + (-b + np.sqrt(b * b + 4 * a * cost)) / (2 * a), 0.0))


def element(W, H, c):
    return float(H[tuple(c["index"])] if c["target"] == "feature" else W[tuple(c["index"])])


def check_pull(ctx, sa, e, c, W, H, old, new, what):
    kind, limit = c["constraint_type"], c["dQ"]
    ctx.count("pulls_checked")
    eps = np.finfo(np.asarray(H).dtype).eps
    dq, slope = change(sa, W, H, c["target"], c["index"], new)
    W2, H2 = np.array(W, np.float64), np.array(H, np.float64)
    (H2 if c["target"] == "feature" else W2)[tuple(c["index"])] = new
    noise = (gen.wq_noise(sa.V, sa.U, W2, H2, 4 * eps) + gen.wq_noise(sa.V, sa.U, W, H, 4 * eps) + 64 * eps * (gen.wq(sa.V, sa.U, W, H) + abs(dq))
             + slope * (3e-8 * abs(new) + 3e-8 * abs(old) + 8 * eps * (abs(new) + abs(old))) + 1e-6)
    if kind == "pull to value":
        noise += slope * 1e-7
    if noise > max(1.0, limit):
        ctx.count("loss_too_coarse")
        return
    if kind == "pull down" and abs(new) <= 1e-7 and not old > 1e-7:
        return
    ctx.check(abs(dq) <= limit + noise, "budget-exceeded", f"{what}: {old} -> {new} changes the loss by {dq}, allowed {limit} (noise {noise:.2g})")
    if old < 0:
        return
    tol = 1e-6 * abs(old) + 2e-8
    far = abs(dq) >= limit - 100 - noise
    if kind == "pull down":
        ctx.check(-tol <= new <= old + tol, "pull-direction", f"{what}: {old} -> {new}")
        ctx.check(far or new <= 1e-5 * old + 1e-7, "pull-too-short", f"{what}: {old} -> {new} changes the loss by {dq}, allowed {limit}")
        small, _ = change(sa, W, H, c["target"], c["index"], 0.98 * old)
        ctx.check(new < old - 1e-3 * old or old <= 1e-7 or abs(small) > limit - noise, "pull-ineffective", f"{what}: {old} -> {new}, allowed {limit}")
    elif kind == "pull up":
        ctx.check(new >= old - tol, "pull-direction", f"{what}: {old} -> {new}")
        ctx.check(far or old <= 1e-9 or new >= 1e8 * old, "pull-too-short", f"{what}: {old} -> {new} changes the loss by {dq}, allowed {limit}")
        small, _ = change(sa, W, H, c["target"], c["index"], 1.02 * old)
        ctx.check(new > old + 1e-3 * old or old <= 1e-9 or abs(small) > limit - noise, "pull-ineffective", f"{what}: {old} -> {new}, allowed {limit}")
    else:
        goal = c["target_value"]
        ctx.check(min(old, goal) - tol <= new <= max(old, goal) + tol, "pull-direction", f"{what}: {old} -> {new}, goal {goal}")
        full, _ = change(sa, W, H, c["target"], c["index"], goal)
        if abs(full) < limit - noise:
            ctx.check(abs(new - goal) <= 1e-6 * abs(goal) + 1e-9, "pull-too-short", f"{what}: {old} -> {new}, goal {goal} costs {full}, allowed {limit}")
        elif abs(full) > limit + noise:
            ctx.count("pulls_limited")
            ctx.count("value_pulls_limited", limit > 100)
            # the search halves the way to the goal thirty times
            step = (goal - old) / 2.0 ** 28
            after, _ = change(sa, W, H, c["target"], c["index"], new + step)
            ctx.check(far or abs(after) >= limit - 100 - noise, "pull-too-short", f"{what}: {old} -> {new} changes the loss by {dq}, allowed {limit}, goal {goal}")
    if abs(dq) > limit - 100:
        ctx.count("pulls_limited")


def aux(sa, Wprev, Hprev, soft):
    b = lambda x: np.asarray(x, np.float64)
    return float(((b(sa.W) - b(Wprev)) ** 2).sum() / soft ** 2 + ((b(sa.H) - b(Hprev)) ** 2).sum() / soft ** 2)


def residuals(exps, W, H):
    return np.array([sum(c * float(H[ix] if k == "feature" else W[ix[1], ix[0]]) for c, k, ix in terms) for _, terms, _ in exps])


def check_steps(ctx, sa, trace, cons, exps, soft):
    W, H = np.asarray(sa.W), np.asarray(sa.H)
    total = sum(e[2] for e in exps)
    involved_h, involved_w = np.zeros(H.shape, bool), np.zeros(W.shape, bool)
    for c in cons:
        (involved_h if c["target"] == "feature" else involved_w)[tuple(c["index"])] = True
    for _, terms, _ in exps:
        for _, k, ix in terms:
            if k == "feature":
                involved_h[ix] = True
            else:
                involved_w[ix[1], ix[0]] = True
    for t, ev in enumerate(trace.events):
        W0, H0 = ev["W0"], ev["H0"]
        ctx.count("steps")
        same = near(np.asarray(W0)[~involved_w], np.asarray(W, float)[~involved_w], 1e-12, 1e-6) and near(
            np.asarray(H0)[~involved_h], np.asarray(H, float)[~involved_h], 1e-12, 1e-6)
        ctx.check(same, "other-elements-changed", f"step {t}: elements without constraint or expression differ from the previous iterate")
        for c in cons:
            old, new = element(W, H, c), element(W0, H0, c)
            kind = c["constraint_type"]
            what = f"step {t} {kind} {c['target']} {c['index']}"
            ctx.count("elements_checked")
            tol = 1e-6 * max(abs(old), abs(new)) + 1e-10
            if kind == "set to zero":
                ctx.check(abs(new) <= tol, "not-zero", f"{what}: {old} -> {new}")
            elif kind == "set to base value":
                b = element(np.asarray(sa.W), np.asarray(sa.H), c)
                ctx.check(abs(new - b) <= tol, "not-base", f"{what}: {old} -> {new}, base {b}")
            elif kind == "define limits":
                want = min(max(old, c["min_value"]), c["max_value"])
                ctx.count("limits_applied", abs(want - old) > tol)
                ctx.check(abs(new - want) <= tol, "outside-limits", f"{what}: {old} -> {new}, limits [{c['min_value']}, {c['max_value']}]")
            else:
                check_pull(ctx, sa, ev, c, W, H, old, new, what)
        if exps and not cons:
            r0, r1 = residuals(exps, W, H), residuals(exps, W0, H0)
            moved = np.abs(np.asarray(H0, float) - H).max() > 0 or np.abs(np.asarray(W0, float) - W).max() > 0
            scale = 1e-5 * sum(abs(c) * abs(float(H[ix] if k == "feature" else W[ix[1], ix[0]])) for _, terms, _ in exps for c, k, ix in terms) + 1e-4
            positive = all(float(H[ix] if k == "feature" else W[ix[1], ix[0]]) >= 0 for _, terms, _ in exps for _, k, ix in terms)
            if positive:
                ctx.count("expressions_moved", moved and np.linalg.norm(r0) > 10 * scale)
                ctx.check(np.linalg.norm(r1) <= np.linalg.norm(r0) * (0.9 if moved and len(exps) == 1 and np.linalg.norm(r0) > 1e3 * scale else 1) + scale,
                          "expression-not-approached", f"step {t}: expression values {r0} -> {r1}")
            else:
                ctx.count("negative_elements")
            if moved:
                eps = np.finfo(np.asarray(H).dtype).eps
                q = gen.wq(sa.V, sa.U, W0, H0) + aux(sa, W, H, soft) - float(sa.Qtrue)
                noise = gen.wq_noise(sa.V, sa.U, W0, H0, 4 * eps) + 1e-3 * abs(aux(sa, W, H, soft)) + 64 * eps * abs(float(sa.Qtrue)) + 1e-6
                ctx.check(q <= total + noise, "expression-budget", f"step {t}: loss above the base by {q}, allowed {total}")
                left = np.linalg.norm(r1) / max(np.linalg.norm(r0), 1e-30)
                if positive and np.linalg.norm(r0) > 1e3 * scale and left > 0.01:
                    # cut back to the budget: one step less would not have kept it
                    ctx.count("expressions_cut")
                    Wf, Hf = (np.asarray(a, float) + (np.asarray(b, float) - a) / 0.975 for a, b in ((W, W0), (H, H0)))
                    more = gen.wq(sa.V, sa.U, Wf, Hf) + aux(sa, W, H, soft) - float(sa.Qtrue)
                    ctx.check(more >= total - noise, "expression-too-short",
                              f"step {t}: {left:.2f} of the expression is left, {more} above the base with the next longer step, allowed {total}")
        W, H = ev["W1"], ev["H1"]


def check_result(ctx, cm, sa, trace, cons, kw, soft):
    m = cm.constrained_model
    last = trace.events[-1]
    ctx.require(isinstance(m, SA), "no-solution", f"{m}")
    ctx.check(near(m.W, last["W1"], 1e-10, 1e-5) and near(m.H, last["H1"], 1e-30, 1e-5), "solution-not-last-iterate", "")
    ctx.check(m.method == sa.method and m.factors == sa.factors and m.seed == sa.seed, "solution-settings", f"{m.method} {m.factors} {m.seed}")
    ctx.check(all(m.metadata.get(x) == kw[x] for x in ("max_iterations", "converge_delta", "converge_n")), "solution-settings", f"{m.metadata} for {kw}")
    ctx.check(np.asarray(m.H).min() >= 0, "negative-profile", f"{np.asarray(m.H).min()}")
    W, H = np.asarray(m.W, np.float64), np.asarray(m.H, np.float64)
    q, r = gen.wq(sa.V, sa.U, W, H), ref.qrobust(sa.V, sa.U, W, H, 4.0)
    ctx.check(near(m.WH, W @ H, 1e-8, 1e-4), "reconstruction", "")
    ctx.check(abs(float(m.Qtrue) - q) <= 1e-4 * q + 1e-4, "loss", f"{m.Qtrue} against {q}")
    ctx.check(abs(float(m.Qrobust) - r) <= 1e-4 * r + 1e-4, "robust-loss", f"{m.Qrobust} against {r}")
    n = len(trace.events)
    qs = [np.asarray(x, float) for x in cm.Q_list]
    ctx.require([len(x) for x in qs] == [n] * 3, "loss-history", f"{[len(x) for x in qs]} for {n} updates")
    prev = (sa.W, sa.H)
    for t, ev in enumerate(trace.events):
        if not np.isfinite(ev["H1"]).all() or not np.isfinite(ev["W1"]).all():
            break
        want = gen.wq(sa.V, sa.U, ev["W1"], ev["H1"])
        ctx.check(abs(qs[0][t] - want) <= 1e-4 * want + 1e-4, "loss-history", f"step {t}: {qs[0][t]} against {want}")
        b = lambda x: np.asarray(x, np.float64)
        # distance of the new iterate from the base moved by this step's differences
        dw, dh = b(ev["W0"]) - b(prev[0]), b(ev["H0"]) - b(prev[1])
        a = (((b(sa.W) + dw - b(ev["W1"])) ** 2).sum() + ((b(sa.H) + dh - b(ev["H1"])) ** 2).sum()) / soft ** 2
        size = 1e-5 * ((b(sa.W) ** 2).sum() + (b(ev["W1"]) ** 2).sum() + (b(prev[0]) ** 2).sum() + (b(ev["W0"]) ** 2).sum()
                       + (b(sa.H) ** 2).sum() + (b(ev["H1"]) ** 2).sum() + (b(prev[1]) ** 2).sum() + (b(ev["H0"]) ** 2).sum()) / soft ** 2
        ctx.check(abs(qs[2][t] - a) <= 1e-3 * a + size + 1e-6, "aux-loss", f"step {t}: {qs[2][t]} against {a}")
        prev = (ev["W1"], ev["H1"])
    ctx.check(near(qs[0][-1], float(m.Qtrue), 1e-9, 1e-6) and near(qs[2][-1], float(cm.Qaux), 1e-9, 1e-6), "final-losses", "")
    # stopping
    main = qs[0] + qs[2]
    stop, clear = None, True
    cn, cd = kw["converge_n"], kw["converge_delta"]
    for t in range(n):
        if t + 1 > cn:
            w = main[t + 1 - cn:t + 1]
            rng_ = w.max() - w.min()
            clear = clear and abs(rng_ - cd) > 1e-6 * abs(w.max())
            if rng_ <= cd:
                stop = t
                break
    if clear:
        ctx.check((stop is None and n == kw["max_iterations"]) or stop == n - 1, "stopping", f"{n} updates of {kw['max_iterations']}, criterion met first at {stop}")
        ctx.check(bool(m.converged) == (stop is not None), "stopping", f"converged {m.converged}")
        ctx.check(int(m.converge_steps) == n - 1, "stopping", f"steps {m.converge_steps} of {n}")
    for c in cons:
        if c["constraint_type"] == "set to zero" and c["target"] == "feature" and sa.method == "ls-nmf":
            ctx.count("zero_at_end")
            ctx.check(float(m.H[tuple(c["index"])]) <= 1e-8, "not-zero-at-end", f"{c['index']}: {m.H[tuple(c['index'])]}")


def check_shown(ctx, cm, sa, cons):
    with shown() as figs:
        for t in ("true", "Robust", "aux", "main", "nonsense"):
            cm.plot_Q(t)
        if cons:
            cm.evaluate_constraints()
    ctx.require(len(figs) == 4 + bool(cons), "figures-shown", f"{len(figs)}")
    q = [np.asarray(x, float) for x in cm.Q_list]
    for fig, y in zip(figs, (q[0], q[1], q[2], q[0] + q[2])):
        ctx.check(near(fig.data[0].y, y, 1e-9, 1e-6) and list(fig.data[0].x) == list(range(len(q[0]))), "plot-loss", f"{fig.layout.title.text}")
    if cons:
        c = cells(figs[-1])
        by = {label(x): x for x in cons}
        ctx.require(len(c["Type"]) == len(cons), "evaluation-rows", f"{len(c['Type'])}")
        for ix, tg, ty, b, g, v, dq in zip(*[c[x] for x in ("Index", "Target", "Type", "Base Value", "Target Value(s)", "Solution Value", "dQ")]):
            x = by[label({"index": tuple(ix), "target": tg})]
            ok = ty == x["constraint_type"] and abs(float(b) - element(sa.W, sa.H, x)) <= 6e-5 + 1e-6 * abs(float(b))
            ok = ok and abs(float(v) - element(cm.constrained_model.W, cm.constrained_model.H, x)) <= 6e-5 + 1e-6 * abs(float(v))
            t = x["constraint_type"]
            if t in ("pull up", "pull down"):
                goal = g is None or g != g
            elif t == "define limits":
                goal = all(abs(float(y) - x[z]) <= 6e-4 + 1e-6 * abs(x[z]) for y, z in zip(str(g).strip("[]").split(","), ("min_value", "max_value")))
            else:
                w = {"set to zero": 0.0, "pull to value": x.get("target_value"), "set to base value": element(sa.W, sa.H, x)}[t]
                goal = abs(float(g) - w) <= 6e-5 + 1e-6 * abs(w)
            ok = ok and goal and (dq == x["dQ"] if "dQ" in x else dq is None or dq != dq)
            ctx.check(ok, "evaluation-row", f"{ix} {tg} {ty} {b} {g} {v} {dq}")


def save(ctx, cm, cons, exps):
    ctx.count("saved")
    if hasattr(cm, "update"):
        cm.update = cm.base_model.update_step      # the recorder of the steps is not part of the model
    cm.dh = types.SimpleNamespace(features=[f"s{j}" for j in range(cm.base_model.V.shape[1])])
    out = str(ctx.scratch)
    path = cm.save("run", out, pickle_model=True)
    ctx.require(path is not None, "save-path", f"{path}")
    ctx.check(ConstrainedModel.load("rel.pkl") is None and ConstrainedModel.load(out + "/no.pkl") is None, "load-refusal", "")
    m = ConstrainedModel.load(str(path))
    ctx.require(isinstance(m, ConstrainedModel), "load-type", f"{type(m).__name__}")
    same = all(np.array_equal(getattr(x, y), getattr(z, y)) for x, z in ((m.constrained_model, cm.constrained_model), (m.base_model, cm.base_model)) for y in ("W", "H", "V", "U"))
    ctx.check(same and m.constrained_model.Qtrue == cm.constrained_model.Qtrue and m.softness == cm.softness, "save-load", "")
    ctx.check({k: (c.constraint_type, tuple(c.index), c.target, c.target_values) for k, c in m.constraints.items()}
              == {k: (c.constraint_type, tuple(c.index), c.target, c.target_values) for k, c in cm.constraints.items()} and m.expressions == cm.expressions,
              "load-constraints", f"{m.constraints} {m.expressions}")
    ctx.check(cm.save("run", "rel/dir") is None and cm.save("run", out + "/none") is None, "save-refusal", "")
    from pathlib import Path
    metas = [json.loads(p.read_text()) for p in Path(out).glob("*metadata.json")]
    meta = [x for x in metas if "constraints" in x]
    ctx.require(len(meta) == 1, "save-metadata", f"{list(Path(out).iterdir())}")
    ctx.check(len(meta[0]["constraints"]) == len(cons) and all(any(label(c) in s for s in meta[0]["constraints"]) for c in cons)
              and meta[0]["expressions"] == [e[0] for e in exps] and meta[0]["softness"] == cm.softness, "save-metadata", f"{meta[0]}")


def requests(ctx, rng, sa, cm, mode, cons, exps):
    """add drawn constraints and expressions to the model and to the lists of what it has to keep"""
    if mode != "expressions":
        for _ in range(int(rng.integers(1, 5))):
            c, valid = request(rng, sa)
            if not valid or label(c) in cons:
                continue
            if "dQ" in c:
                c["dQ"] = float(rng.choice([0.5, 20.0, 99.0, 150.0, 300.0, 2000.0]))
            if "target_value" in c or "min_value" in c:
                b = abs(element(sa.W, sa.H, c)) + 1e-3
                if "target_value" in c:
                    c["target_value"] = float(b * rng.choice([0.0, 0.3, 1.5, 4.0, 30.0]))
                    if rng.random() < 0.6:
                        c["dQ"] = float(rng.choice([150.0, 300.0, 2000.0]))
                        c["target_value"] = goal_costing(sa, c, float(rng.uniform(1.1, 6)) * c["dQ"])
                else:
                    lo, hi = sorted(b * rng.choice([0.0, 0.5, 0.9, 1.2, 3.0], 2, replace=False))
                    c["min_value"], c["max_value"] = float(lo), float(hi)
            ctx.require(cm.add_constraint(**c) is True, "valid-constraint-refused", f"{c}")
            cons[label(c)] = c
    if mode != "constraints" or not (cons or exps):
        pool = elements(rng, sa, 5)
        for _ in range(int(rng.choice([1, 1, 2]))):
            e = expression(rng, sa, [pool[i] for i in rng.permutation(5)[: int(rng.integers(2, 4))]])
            exps.append(e)
            cm.add_expression(e[0])


def constrained(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 120, "constrained run"):
        k = int(rng.integers(2, 5))
        m, n = int(rng.integers(8, 30)), int(rng.integers(k + 1, 9))
        if rng.random() < 0.08:
            k, m, n = int(rng.integers(8, 12)), int(rng.integers(30, 120)), int(rng.integers(13, 25))
        V, U, kind, k = gen.dataset(rng, kind=["noisy", "lowrank", "integer", "noisy"][rng.integers(4)], m=m, n=n, k=k)
        method = ["ls-nmf", "ls-nmf", "ws-nmf"][rng.integers(3)]
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1 << 20)))
        sa.initialize()
        sa.train(max_iter=int(rng.choice([20, 300, 600])), converge_delta=1e-4, converge_n=20)
        soft = float(rng.choice([1.0, 0.5, 10.0]))
        before = snap(sa)
        mode = ["constraints", "constraints", "expressions", "both"][rng.integers(4)]
        tr = StepTrace(sa)
        with tr:
            cm = ConstrainedModel(base_model=sa, data_handler=None, softness=soft)
            cons, exps = {}, []
            if rng.random() < 0.3:
                # an earlier run of the same model, with constraints and expressions of which some stay
                requests(ctx, rng, sa, cm, ["constraints", "expressions", "both"][rng.integers(3)], cons, exps)
                cm.train(max_iterations=int(rng.integers(1, 10)), converge_delta=0.0, converge_n=5)
                for lab in [x for x in cons if rng.random() < 0.6]:
                    cm.remove_constraint(lab)
                    del cons[lab]
                for i in reversed([i for i in range(len(exps)) if rng.random() < 0.6]):
                    cm.remove_expression(i)
                    del exps[i]
                tr.events.clear()
                ctx.count("second_runs")
            requests(ctx, rng, sa, cm, mode, cons, exps)
            kw = dict(max_iterations=int(rng.integers(1, 40)), converge_delta=float(rng.choice([0.0, 0.1, 5.0])), converge_n=int(rng.integers(2, 8)))
            ctx.note(kind=kind, method=method, constraints=list(cons.values()), expressions=[e[0] for e in exps], softness=soft, **kw)
            cm.train(**kw)
        bad = same_snap(before, snap(sa))
        ctx.check(not bad, "base-model-modified", f"{bad}")
        ctx.require(len(tr.events) >= 1, "no-updates", "")
        finite = all(np.isfinite(e[n]).all() for e in tr.events for n in ("W0", "H0", "W1", "H1"))
        if not finite:
            # a start pushed far from the data can overflow float32; nothing to judge then
            ctx.count("not_finite")
            ctx.check(np.isfinite(tr.events[0]["W0"]).all() and np.isfinite(tr.events[0]["H0"]).all(), "not-finite", "the first update starts from invalid values")
            return
        check_steps(ctx, sa, tr, list(cons.values()), exps, soft)
        check_result(ctx, cm, sa, tr, list(cons.values()), kw, soft)
        if rng.random() < 0.3:
            check_shown(ctx, cm, sa, list(cons.values()))
        if rng.random() < 0.15:
            save(ctx, cm, list(cons.values()), exps)
    ctx.distinct((method, tuple((c["constraint_type"], c["target"]) for c in cons.values()), len(exps), soft, len(tr.events)))


SCENARIOS = [Scenario("constrained", constrained, 160, 4000)]
