"""P21: constraints and expressions are kept exactly as requested, invalid requests change nothing."""
import copy
import logging

import numpy as np

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props.p17 import cells, shown
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel

TECHNIQUE = "runtime monitoring of request histories against a reference model of the stored constraints and expressions"
NOTE = ("Random sequences of valid and invalid add, remove and list requests are mirrored in a reference bookkeeping and compared "
        "after every operation; parsed expressions are compared with the generated terms. Sampled histories.")
RULE = ("each history is 10 to 40 random requests on one base solution, compared after each; distinct by the history's "
        "operation and outcome sequence")
ASSUMPTIONS = ["listings are read from the log"]
REQUIRED = {"operations": 1500, "accepted": 300, "refused": 300, "expressions_parsed": 300, "terms_parsed": 800, "listings": 60}

KINDS = ("pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits")


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


class listening:
    def __init__(self, name):
        self.log = logging.getLogger(name)

    def __enter__(self):
        self.h = Records()
        self.old = (self.log.level, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        self.log.setLevel(logging.INFO)
        self.handlers = self.log.handlers[:]
        self.log.handlers[:] = [self.h]
        self.prop, self.log.propagate = self.log.propagate, False
        return self.h

    def __exit__(self, *e):
        self.log.handlers[:] = self.handlers
        self.log.propagate = self.prop
        self.log.setLevel(self.old[0])
        logging.disable(self.old[1])


def tiny(rng):
    m, n, k = int(rng.integers(5, 15)), int(rng.integers(3, 8)), int(rng.integers(2, 4))
    if rng.random() < 0.25:
        m, n, k = int(rng.integers(12, 130)), int(rng.integers(12, 30)), int(rng.integers(3, 13))
    V, U, kind, k = gen.dataset(rng, kind="noisy", m=m, n=n, k=k)
    sa = SA(V=V, U=U, factors=k, seed=int(rng.integers(1 << 20)), method=["ls-nmf", "ws-nmf"][rng.integers(2)])
    sa.initialize()
    sa.train(max_iter=5)
    return sa


def request(rng, sa):
    """(keyword arguments of a request, is it valid)"""
    m, n, k = sa.V.shape[0], sa.V.shape[1], sa.factors
    kind = KINDS[rng.integers(len(KINDS))]
    target = ["feature", "sample"][rng.integers(2)]
    hi = (k, n) if target == "feature" else (m, k)
    index = tuple(int(rng.integers(x)) for x in hi)
    kw = {"constraint_type": kind, "index": index, "target": target}
    if kind in ("pull down", "pull up"):
        kw["dQ"] = float(rng.choice([1.0, 50.0, 250.0]))
    elif kind == "pull to value":
        kw["dQ"], kw["target_value"] = float(rng.choice([1.0, 250.0])), float(rng.choice([0.0, 0.5, 3.0]))
    elif kind == "define limits":
        kw["min_value"], kw["max_value"] = 0.0 if rng.random() < 0.3 else 0.2, float(rng.choice([0.3, 2.0]))
    valid = True
    r = rng.random()
    if r < 0.1:
        kw["constraint_type"] = ["pull", "Set To Zero", "", "set to value", "limits"][rng.integers(5)]
        valid = False
    elif r < 0.2:
        kw["target"] = ["features", "factor", "", "Sample", None][rng.integers(5)]
        valid = False
    elif r < 0.45:
        # one index just outside, or negative
        ax = int(rng.integers(2))
        bad = [hi[ax], hi[ax] + 3, -1][rng.integers(3)]
        kw["index"] = tuple(bad if a == ax else v for a, v in enumerate(index))
        valid = False
    elif r < 0.6 and kind not in ("set to zero", "set to base value"):
        need = [x for x in ("dQ", "target_value", "min_value", "max_value") if x in kw]
        kw.pop(need[rng.integers(len(need))])
        valid = False
    return kw, valid


def label(kw):
    i, j = kw["index"]
    return f"factor:{i}|feature:{j}" if kw["target"] == "feature" else f"factor:{j}|sample:{i}"


def stored(c):
    v = c.target_values
    return (c.constraint_type, tuple(c.index), c.target, tuple(v) if isinstance(v, (tuple, list)) else v)


def wanted(kw):
    k = kw["constraint_type"]
    v = None
    if k in ("pull down", "pull up"):
        v = kw["dQ"]
    elif k == "pull to value":
        v = (kw["target_value"], kw["dQ"])
    elif k == "define limits":
        v = (kw["min_value"], kw["max_value"])
    return (k, tuple(kw["index"]), kw["target"], v)


def num(rng):
    return ["{:.2f}".format(rng.uniform(0.01, 20)), str(int(rng.integers(1, 12))), "{:.3f}".format(rng.uniform(0.001, 0.9)),
            "{:.2e}".format(10.0 ** rng.uniform(-2, 1)), "{:.1f}".format(rng.uniform(0.1, 0.9))[1:]][rng.choice(5, p=[0.3, 0.3, 0.25, 0.1, 0.05])]


def expression(rng, sa, elements):
    """(text, [(coefficient, type, (factor, index))], allowed change) over distinct elements"""
    terms, text = [], ""
    sp = " " if rng.random() < 0.25 else ""
    for e, (kind, f, x) in enumerate(elements):
        c = num(rng)
        sign = -1 if rng.random() < 0.5 else 1
        if e == 0:
            if sign < 0 and rng.random() < 0.5:
                sign = 1
            text += "-" + sp if sign < 0 else ""
        else:
            text += f"{sp}{'-' if sign < 0 else '+'}{sp}"
        if rng.random() < 0.2:
            # the coefficient may carry the sign too
            c, sign = f"-{c}", -sign
            text += f"({c}{sp}*{sp}[factor:{f}|{kind}:{x}])"
            terms.append((sign * abs(float(c)), kind, (f, x)))
            continue
        text += f"({c}{sp}*{sp}[factor:{f}|{kind}:{x}])"
        terms.append((sign * float(c), kind, (f, x)))
    dq = ["250", "40.5", "1000"][rng.integers(3)]
    return f"{text}{sp}={sp}0,{sp}{dq}", terms, float(dq)


def elements(rng, sa, n):
    m, nf, k = sa.V.shape[0], sa.V.shape[1], sa.factors
    out = set()
    while len(out) < n:
        kind = "feature" if rng.random() < 0.7 else "sample"
        out.add((kind, int(rng.integers(k)), int(rng.integers(nf if kind == "feature" else m))))
    return [list(out)[i] for i in rng.permutation(n)]


def parsed(cm):
    """what the model understood: per expression a dict element -> coefficient, and the allowed change"""
    out = []
    for i, (names, dq) in enumerate(cm.expression_labeled):
        d = {}
        for n in names:
            e = cm.expression_mapped[n]
            d[(e["type"], tuple(e["index"]))] = float(e["coef"][e["exp_i"].index(i)])
        out.append((d, float(dq)))
    return out


def history(ctx):
    rng = ctx.rng
    ops = []
    with ctx.quiet():
        sa = tiny(rng)
        cm = ConstrainedModel(base_model=sa, data_handler=None)
        cons, exps = {}, []
        for step in range(int(rng.integers(10, 40))):
            r = rng.random()
            ctx.count("operations")
            if r < 0.6:
                kw, valid = request(rng, sa)
                if cons and rng.random() < 0.15:       # a second constraint on a constrained element
                    old = list(cons.values())[rng.integers(len(cons))]
                    kw.update(index=old["index"], target=old["target"])
                if valid and label(kw) in cons:
                    valid = False
                got = cm.add_constraint(**kw)
                ctx.count("accepted" if valid else "refused")
                ctx.check(got is valid, "answer", f"{kw}: answered {got}, expected {valid}; {sorted(cons)}")
                if valid:
                    cons[label(kw)] = kw
                ops.append(("add", kw["constraint_type"], valid))
            elif r < 0.7 and cons:
                lab = list(cons)[rng.integers(len(cons))]
                cm.remove_constraint(lab)
                del cons[lab]
                ops.append(("remove",))
            elif r < 0.75:
                try:
                    cm.remove_constraint("factor:99|feature:99")
                except KeyError:
                    pass
                ops.append(("remove unknown",))
            elif r < 0.85:
                text, _, _ = expression(rng, sa, elements(rng, sa, int(rng.integers(2, 4))))
                cm.add_expression(text)
                exps.append(text)
                ops.append(("expression",))
            elif r < 0.92:
                i = int(rng.integers(-1, len(exps) + 2))
                cm.remove_expression(i)
                if 0 <= i < len(exps):
                    del exps[i]
                ops.append(("remove expression", i))
            else:
                with listening("esat.rotational.constrained") as h:
                    cm.list_constraints()
                    cm.list_expressions()
                ctx.count("listings")
                lines = h.lines
                ctx.check(sum(any(x in ln for ln in lines) for x in cons) == len(cons) and len(lines) == 2 + len(cons) + len(exps), "listing",
                          f"{lines} for {list(cons)}, {exps}")
                ctx.check(all(any(x in ln for ln in lines) for x in exps), "listing", f"{lines}")
            ctx.check({a: stored(c) for a, c in cm.constraints.items()} == {a: wanted(k) for a, k in cons.items()}, "stored-constraints",
                      f"after {ops[-1] if ops else ''}: {sorted(cm.constraints)} against {sorted(cons)}")
            ctx.check(list(cm.expressions) == exps, "stored-expressions", f"after {ops[-1] if ops else ''}")
        for a, c in cm.constraints.items():
            s = c.tostring(label=a)
            ctx.check(a in s and cons[a]["constraint_type"] in s and all(str(v) in s for v in np.ravel([x for x in [wanted(cons[a])[3]] if x is not None])),
                      "description", f"{s}")
    ctx.distinct(tuple(ops))


def parsing(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 60, "constrained train"):
        sa = tiny(rng)
        cm = ConstrainedModel(base_model=sa, data_handler=None)
        pool = elements(rng, sa, 6)
        want = []
        for _ in range(int(rng.integers(1, 5)) if rng.random() > 0.06 else 0):
            # expressions share elements
            els = [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(2, 6))]]
            text, terms, dq = expression(rng, sa, els)
            cm.add_expression(text)
            want.append(({(k, ix): c for c, k, ix in terms}, dq))
            ctx.count("expressions_parsed")
            ctx.count("terms_parsed", len(terms))
        texts = copy.copy(cm.expressions)
        if not texts:
            ctx.count("without_expression")
            cm.train(max_iterations=1, converge_n=1)
            ctx.check(cm.constrained_model is None, "trained-without-request", "no constraint or expression is stored")
            cm.add_constraint("set to zero", (0, 0), "feature")
        cm.train(max_iterations=1, converge_n=1)
        got = parsed(cm)
        ctx.note(expressions=texts)
        ctx.require(len(got) == len(want), "expression-count", f"{len(got)} of {len(want)}")
        for t, g, w in zip(texts, got, want):
            ctx.check(set(g[0]) == set(w[0]), "expression-elements", f"{t}: {sorted(g[0])}")
            ctx.check(all(abs(g[0].get(e, np.inf) - c) < 1e-12 for e, c in w[0].items()), "expression-coefficients", f"{t}: {g[0]}")
            ctx.check(g[1] == w[1], "expression-allowed-change", f"{t}: {g[1]}")
        with shown() as figs:
            cm.evaluate_expressions()
        ctx.require(len(figs) == 2, "evaluation-shown", f"{len(figs)}")
        el, ev = cells(figs[0]), cells(figs[1])
        value = lambda mod, e: float(mod.H[e[1]] if e[0] == "feature" else mod.W[e[1][1], e[1][0]])
        for t, (w, dq), b, c, q in zip(texts, want, ev["Base Eval"], ev["Solution Eval"], ev["dQ"]):
            for name, mod, shown_v in (("base", sa, b), ("solution", cm.constrained_model, c)):
                v = sum(x * value(mod, e) for e, x in w.items())
                size = sum(abs(x * value(mod, e)) for e, x in w.items())
                ctx.check(abs(float(shown_v) - v) <= 6e-5 + 1e-5 * size, "evaluation", f"{t}: {name} shown {shown_v}, is {v}")
            ctx.check(float(q) == dq, "evaluation", f"{t}: dQ shown {q}")
        shown_els = {(str(t), tuple(i)): (float(b), float(c)) for t, i, b, c in zip(el["Target"], el["Index"], el["Base Value"], el["Solution Value"])}
        ctx.check(set(shown_els) == {e for w, _ in want for e in w}, "evaluation-elements", f"{sorted(shown_els)}")
        for e, (b, c) in shown_els.items():
            ok = all(abs(x - value(mod, e)) <= 6e-5 + 1e-5 * abs(x) for x, mod in ((b, sa), (c, cm.constrained_model)))
            ctx.check(ok, "evaluation-elements", f"{e}: shown {b}, {c}")
    ctx.distinct(tuple(texts))


SCENARIOS = [Scenario("history", history, 100, 3000), Scenario("parsing", parsing, 150, 3000)]
