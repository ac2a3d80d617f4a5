"""P27: the factor catalog accounts for every factor of every catalogued model once."""
import types

import numpy as np

from mon import gen
from mon.core import Scenario
from mon.props.p17 import near
from mon.props.p25 import as_sa
from esat_eval.factor_catalog import Factor, FactorCatalog

TECHNIQUE = "runtime monitoring: a trace checker replays every filing decision of the catalog against an independent model of it"
NOTE = ("Every add_factor call is logged with the catalog before and after; the trace is replayed against float64 similarities, near-ties are accepted "
        "either way. Conservation, occurrence table, outlier exclusion, failed models and searches are judged over sampled batches and orders.")
RULE = "each case is one catalogue built from one or more batches; distinct by (method, threshold, profile_only, outliers, order of additions)"
ASSUMPTIONS = ["similarities within 1e-6 of each other or of the threshold may be decided either way", "similarity to an entry is the mean over its members, as documented"]
REQUIRED = {"filed": 1500, "new_entries": 300, "merged": 500, "excluded_models": 20, "failed_models": 20, "searches": 300, "profile_only": 10, "exact_similarities": 40, "exact_losses": 20}


def r2(a, b):
    a, b = np.asarray(a, np.float64).ravel(), np.asarray(b, np.float64).ravel()
    with np.errstate(all="ignore"):
        return np.corrcoef(a, b)[0, 1] ** 2


def similarity(method, profile_only, member, new):
    (fH, fW), (H, W) = member, new
    fH, fW, H, W = (np.asarray(x, np.float64) for x in (fH, fW, H, W))
    if profile_only or method == "emc":      # scaling a profile to a mass share does not change its correlation
        return r2(fH, H)
    if method == "raae":
        return np.abs(fW - W).sum() / fW.sum()
    return r2(fW, W)


class Book:
    """The model of the catalog: entries as lists of (profile, contribution, model index)."""

    def __init__(self, method, threshold):
        self.method, self.threshold, self.entries = method, threshold, []

    def scores(self, new, profile_only):
        return np.array([np.mean([similarity(self.method, profile_only, x[:2], new) for x in e]) for e in self.entries])

    def allowed(self, new, profile_only):
        """The entries the factor may be filed in (-1: a new one), by the documented rule."""
        s = self.scores(new, profile_only)
        if not len(s) or np.isnan(s).any():
            return {-1} if not len(s) else None
        lower = self.method == "raae" and not profile_only
        best = s.min() if lower else s.max()
        tol = 1e-6 * max(1.0, abs(best))
        out = set()
        meets = best <= self.threshold + tol if lower else best >= self.threshold - tol
        misses = best > self.threshold - tol if lower else best < self.threshold + tol
        if meets:
            out |= {int(i) for i in np.nonzero(np.abs(s - best) <= tol)[0]}
        if misses:
            out.add(-1)
        return out


def contents(cat):
    return {k: list(zip([id(h) for h, _ in f.factor], f.model)) for k, f in cat.factors.items()}


def sig(h, w):
    return (np.asarray(h, float).tobytes(), np.asarray(w, float).tobytes())


def watch(ctx, cat, book, profile_only):
    """Wraps add_factor: every decision is compared with the model as it is made."""
    orig = cat.add_factor
    log = []

    def add_factor(*a, **k):
        import inspect
        d = inspect.signature(orig).bind(*a, **k)
        d.apply_defaults()
        H, W, idx, po = (d.arguments[x] for x in ("H_i", "W_i", "model_index", "profile_only"))
        ctx.check(po == profile_only, "profile-only-lost", f"{po}")
        before = [len(f.factor) for f in cat.factors.values()]
        new = orig(*a, **k)
        after = [len(f.factor) for f in cat.factors.values()]
        grown = [i for i in range(len(after)) if after[i] != (before[i] if i < len(before) else 0)]
        ctx.count("filed")
        ctx.require(len(grown) == 1 and sum(after) == sum(before) + 1, "not-filed-once", f"entry sizes {before} to {after}")
        g = grown[0]
        entry = list(cat.factors.values())[g]
        ctx.check(sig(*entry.factor[-1]) == sig(H, W) and entry.model[-1] == idx, "filed-content", "the entry does not hold the factor that was added")
        target = -1 if g >= len(before) else g
        ctx.check(bool(new) == (target == -1), "new-reported", f"reported {new}, entry {g} of {len(before)}")
        ok = book.allowed((H, W), po)
        if ok is not None:
            ctx.count("ties", len(ok) > 1)
            ctx.check(target in ok, "filed-in-wrong-entry", f"{book.method} profile only {po}: filed in {target}, allowed {sorted(ok)}, scores {book.scores((H, W), po)}, threshold {book.threshold}")
            if target >= 0:
                s = book.scores((H, W), po)[target]
                ctx.check(abs(entry.correlation[-1] - s) <= 1e-5 * max(1, abs(s)), "filed-similarity", f"{entry.correlation[-1]} against {s}")
        if target == -1:
            book.entries.append([])
            ctx.count("new_entries")
        else:
            ctx.count("merged")
        book.entries[g].append((np.array(H, copy=True), np.array(W, copy=True), idx))
        log.append((bool(new), int(idx)))
        return new
    cat.add_factor = add_factor
    return log


def best_of(rng, ms):
    """the best model of a batch by the robust loss need not have the lowest true loss"""
    ok = [i for i, m in enumerate(ms) if m is not None]
    return int(rng.choice(ok)) if ok else -1


def batch(rng, V, U, Wt, Ht, models):
    """Models around a truth: same factors permuted with noise, subsets, strangers, failed ones, bad losses."""
    out, kinds = [], []
    for _ in range(models):
        k = Ht.shape[0] if rng.random() < 0.7 else int(rng.integers(1, Ht.shape[0] + 1))
        p = rng.permutation(Ht.shape[0])[:k]
        kind = ["noisy", "noisy", "close", "exact", "stranger", "scaled", "failed"][rng.integers(7)]
        if kind == "failed":
            out.append(None)
            kinds.append(kind)
            continue
        W, H = Wt[:, p], Ht[p]
        if kind == "close":
            W, H = W * rng.lognormal(0, 0.02, W.shape), H * rng.lognormal(0, 0.02, H.shape)
        elif kind == "noisy":
            s = rng.uniform(0.05, 0.6)
            W, H = W * rng.lognormal(0, s, W.shape), H * rng.lognormal(0, s, H.shape)
        elif kind == "stranger":
            W, H = rng.gamma(1, 1, W.shape), rng.gamma(1, 1, H.shape)
        elif kind == "scaled":
            s = rng.uniform(0.5, 2, k)
            W, H = W * s, H / s[:, None]
        out.append(as_sa(V, U, W.copy(), H.copy()))
        kinds.append(kind)
    return out, kinds


def judge_table(ctx, cat, book, order):
    models = {x[2] for e in book.entries for x in e}
    ctx.check(cat.model_count == len(models), "model-count", f"{cat.model_count}, catalogued {sorted(models)}")
    if not models:
        return
    df = cat.to_df()
    ctx.require(len(df) == len(book.entries) == len(cat.factors), "table-rows", f"{len(df)} rows, {len(book.entries)} entries")
    ctx.check(sorted(df["factor"]) == sorted(cat.factors), "table-rows", "")
    for _, r in df.iterrows():
        i = list(cat.factors).index(r["factor"])
        n = len(book.entries[i])
        ctx.check(int(r["count"]) == n, "table-count", f"entry {i}: {r["count"]} for {n}")
        ctx.check(abs(r["% occurrence"] - 100 * n / len(models)) <= 0.0051, "table-occurrence", f"entry {i}: {r["% occurrence"]} for {n} of {len(models)} models")
        ctx.check(abs(r["mean corr"] - np.mean(cat.factors[r["factor"]].correlation)) <= 6e-5, "table-mean", "")
    occ = list(df["% occurrence"])
    ctx.check(occ == sorted(occ, reverse=True), "table-order", f"{occ}")
    ctx.check(all(f.threshold == book.threshold for f in cat.factors.values()), "entry-threshold", f"{[f.threshold for f in cat.factors.values()]}, requested {book.threshold}")
    total = sum(len(f.factor) for f in cat.factors.values())
    ctx.check(total == order and all(len(f.factor) == len(f.model) == len(f.correlation) for f in cat.factors.values()), "not-conserved", f"{total} of {order} factors in the catalog")


def judge_search(ctx, cat, book, V, Wt, Ht, profile_only, same_length):
    rng = ctx.rng
    labels = list(cat.factors)
    lower = book.method == "raae" and not profile_only

    def verdict(name, got, s, low):
        ctx.count("searches")
        if np.isnan(s).any():
            return
        best = s.min() if low else s.max()
        if not low and best <= 1e-9:
            return
        label, value = got
        tol = 1e-5 * max(1, abs(best))
        ctx.check(label in labels and abs(s[labels.index(label)] - best) <= tol and abs(value - best) <= tol, name, f"{book.method}: {got}, scores {s}")
    for _ in range(2):
        j = int(rng.integers(Ht.shape[0]))
        H, W = Ht[j] * rng.lognormal(0, 0.3, Ht.shape[1]), Wt[:, j] * rng.lognormal(0, 0.3, len(Wt))
        verdict("check-factor", cat.check_factor(H, W, profile_only), book.scores((H, W), profile_only), lower)
        m = [np.mean([r2(np.outer(x[1], x[0]), np.outer(W, H)) for x in e]) for e in book.entries]
        verdict("check-matrix", cat.check_matrix(np.outer(W, H)), np.array(m), False)
        if same_length:
            f = Factor("probe", H, W, 0, method=book.method)
            f.add(H * 1.1, W * 0.9, 1, 0.5)
            s = (book.scores((H, W), False) + book.scores((H * 1.1, W * 0.9), False)) / 2
            verdict("compare-factor", cat.compare_factor(f), s, book.method == "raae")
    if cat.factors:
        f = Factor("short", Ht[0], Wt[:-1, 0], 0, method=book.method)
        verdict("compare-factor-profile", cat.compare_factor(f), book.scores((Ht[0], Wt[:-1, 0]), True), False)


def catalogue(ctx):
    rng = ctx.rng
    V, U, kind, k = gen.dataset(rng, m=int(rng.integers(6, 25)), n=int(rng.integers(4, 10)), k=int(rng.integers(2, 5)))
    many = bool(rng.random() < 0.1)
    Wt, Ht = rng.gamma(1.0, 1.0, (V.shape[0], k)) + 1e-3, rng.gamma(0.6, 1.0, (k, V.shape[1])) + 1e-3
    V = Wt @ Ht * rng.lognormal(0, 0.1, V.shape)
    U = 0.1 * V + 0.01
    method = ["raae", "emc", "corr"][rng.integers(3)]
    profile_only = bool(rng.random() < 0.3)
    ctx.count("profile_only", profile_only)
    threshold = float(rng.choice([0.05, 0.1, 0.3, 0.6])) if method == "raae" and not profile_only else float(rng.choice([0.3, 0.7, 0.9, 0.99]))
    outliers = bool(rng.random() < 0.5)
    limit = float(rng.choice([1.5, 1.1, 3.0, 50.0]))
    cat = FactorCatalog(method=method, threshold=threshold, exclude_outliers=outliers, outlier_threshold=limit)
    book = Book(method, threshold)
    log = watch(ctx, cat, book, profile_only)
    total, ops = 0, []
    with ctx.quiet():
        for step in range(int(rng.integers(1, 4))):
            ms, kinds = batch(rng, V, U, Wt, Ht, int(rng.integers(10, 15)) if many else int(rng.integers(1, 7)))
            ctx.count("failed_models", kinds.count("failed"))
            if rng.random() < 0.7:
                if outliers and all(m is None for m in ms):
                    continue
                snap = [None if m is None else (np.array(m.W, copy=True), np.array(m.H, copy=True)) for m in ms]
                before = len(log)
                n = cat.add_batch(types.SimpleNamespace(results=ms, factors=k, best_model=best_of(rng, ms)), profile_only=profile_only, verbose=bool(rng.random() < 0.3))
                q = [None if m is None else float(m.Qtrue) for m in ms]
                low = min([x for x in q if x is not None], default=0)
                keep = [m is not None and (not outliers or not x > limit * low) for m, x in zip(ms, q)]
                ctx.count("excluded_models", sum(m is not None and not w for m, w in zip(ms, keep)))
                want = sum(m.factors for m, w in zip(ms, keep) if w)
                near_limit = outliers and any(x is not None and abs(x - limit * low) <= 1e-5 * x for x in q)
                if not near_limit:
                    ctx.require(len(log) - before == want, "factors-filed", f"{len(log) - before} factors filed, {want} in the included models {keep}")
                    got = {i for _, i in log[before:]}
                    ctx.check(got == {i for i, w in enumerate(keep) if w}, "models-included", f"{sorted(got)} for {keep}, losses {q}, limit {limit}")
                ctx.check(all(s is None or (np.array_equal(s[0], m.W) and np.array_equal(s[1], m.H)) for s, m in zip(snap, ms)), "models-modified", "")
                ctx.check(n == sum(x for x, _ in log[before:]), "new-count", f"{n} new reported, {sum(x for x, _ in log[before:])} created")
                total += len(log) - before
                ops.append(("batch", tuple(kinds)))
            else:
                for m in ms:
                    if m is None:
                        continue
                    i, before = int(rng.integers(0, 12)), len(log)
                    n = cat.add_model(i, m, profile_only=profile_only)
                    ctx.check(len(log) - before == m.factors and n == sum(x for x, _ in log[before:]), "new-count", f"{n} new of {len(log) - before}")
                    total += len(log) - before
                ops.append(("models", tuple(kinds)))
            judge_table(ctx, cat, book, total)
        if cat.factors:
            judge_search(ctx, cat, book, V, Wt, Ht, profile_only, True)
            cat.summary()
    ctx.note(method=method, threshold=threshold, profile_only=profile_only, exclude_outliers=outliers, limit=limit, operations=ops, entries=len(book.entries))
    ctx.distinct((method, threshold, profile_only, outliers, tuple(ops)))


def limits(ctx):
    """Similarities and losses exactly at their limit meet it."""
    rng = ctx.rng
    m, n = int(rng.integers(4, 20)), int(rng.integers(3, 8))
    method = ["raae", "emc", "corr"][rng.integers(3)]
    H, W = rng.gamma(1, 1, n) + 0.01, rng.gamma(1, 1, m) + 0.01
    H2, W2 = H * rng.lognormal(0, 0.3, n), W * rng.lognormal(0, 0.3, m)
    profile_only = bool(rng.random() < 0.3)
    lower = method == "raae" and not profile_only
    at = float(Factor("f", H, W, 0, method=method).check(H2, W2, profile_only))
    out = np.nextafter(at, -1 if lower else 2)
    for threshold, entries in ((at, 1), (float(out), 2)):
        with ctx.quiet():
            cat = FactorCatalog(method=method, threshold=threshold)
            cat.add_factor(H, W, 0, profile_only=profile_only)
            cat.add_factor(H2, W2, 1, profile_only=profile_only)
        ctx.count("exact_similarities")
        ctx.check(len(cat.factors) == entries, "at-threshold", f"{method}: similarity {at!r}, threshold {threshold!r}, {len(cat.factors)} entries for {entries}")
    low, limit = float(rng.integers(1, 100)), float(rng.choice([1.5, 1.25, 2.0, 4.0]))
    q = [low, low * limit, float(np.nextafter(low * limit, 1e9)), float(np.nextafter(low * limit, 0))]
    order = rng.permutation(4)
    ms = [types.SimpleNamespace(W=rng.gamma(1, 1, (m, 2)) + 0.01, H=rng.gamma(1, 1, (2, n)) + 0.01, factors=2, Qtrue=q[i], Qrobust=float(rng.random()), V=None, U=None) for i in order]
    with ctx.quiet():
        cat = FactorCatalog(method=method, threshold=float(rng.choice([0.1, 0.9])), exclude_outliers=True, outlier_threshold=limit)
        cat.add_batch(types.SimpleNamespace(results=ms, factors=2, best_model=0))
    ctx.count("exact_losses")
    got = {x for f in cat.factors.values() for x in f.model}
    ctx.check(got == {j for j, i in enumerate(order) if i != 2}, "at-outlier-limit", f"losses {[q[i] for i in order]}, limit {limit} times {low}: models {sorted(got)}")
    ctx.distinct((method, profile_only, tuple(order.tolist())))


SCENARIOS = [Scenario("limits", limits, 30, 400), Scenario("catalogue", catalogue, 200, 6000)]
