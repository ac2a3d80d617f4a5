"""P25: factor matching finds the best one-to-one assignment."""
import itertools
import re
import types

import numpy as np
import pandas as pd

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props.p17 import near, shown
from mon.props.p21 import listening
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
try:
    from esat_eval.factor_comparison import FactorCompare, FactorCompareV2
    from esat_eval.simulator import Simulator
except ModuleNotFoundError:
    from eval.factor_comparison import FactorCompare, FactorCompareV2
    from eval.simulator import Simulator

TECHNIQUE = "runtime monitoring of comparisons against a brute-force oracle over all one-to-one assignments"
NOTE = ("Reported mappings, averages, best model, PMF5 import and figures are judged against an independent float64 computation that tries "
        "every assignment, for equal and unequal factor counts, constant factors, failed models and permuted factors. Sampled inputs.")
RULE = "each case compares a base with 1..4 models (known, permuted, noisy or unrelated); distinct by (counts, method, kinds of models)"
ASSUMPTIONS = ["averages of assignments are compared up to 1e-6, mappings are required only where the best assignment is unique by 1e-5"]
REQUIRED = {"models_compared": 100, "unique_mappings": 60, "unequal_counts": 5, "failed_models": 5, "constant_factors": 4, "maps": 90,
            "pmf": 8, "figures": 20, "non_involutive": 6, "wide_comparisons": 2}


def r2(a, b):
    a, b = np.asarray(a, np.float64).ravel(), np.asarray(b, np.float64).ravel()
    a, b = a - a.mean(), b - b.mean()
    d = np.sqrt((a * a).sum() * (b * b).sum())
    return 0.0 if d <= 1e-300 else float(((a * b).sum() / d) ** 2)


def tables(Wb, Hb, W, H):
    """R2 of every base factor (row) with every model factor (column): profiles, contributions, masses"""
    kb, ks = Hb.shape[0], H.shape[0]
    t = {n: np.zeros((kb, ks)) for n in ("H", "W", "WH")}
    for i in range(kb):
        for j in range(ks):
            t["H"][i, j] = r2(Hb[i], H[j])
            t["W"][i, j] = r2(Wb[:, i], W[:, j])
            t["WH"][i, j] = r2(np.outer(Wb[:, i], Hb[i]), np.outer(W[:, j], H[j]))
    t["all"] = (t["H"] + t["W"] + t["WH"]) / 3
    return t


def assignments(kb, ks):
    """as pairs (base, model)"""
    if kb >= ks:
        return [tuple((b, j) for j, b in enumerate(p)) for p in itertools.permutations(range(kb), ks)]
    return [tuple((i, s) for i, s in enumerate(p)) for p in itertools.permutations(range(ks), kb)]


def models(rng, Wb, Hb, ks, count):
    kb = Hb.shape[0]
    out, kinds = [], []
    for _ in range(count):
        kind = ["permuted", "noisy", "unrelated", "noisy", "failed", "constant"][rng.integers(6)]
        kinds.append(kind)
        if kind == "failed":
            out.append(None)
            continue
        p = [int(x) for x in rng.permutation(max(kb, ks)) % kb][:ks]
        W, H = Wb[:, p] * rng.uniform(0.5, 2, ks), Hb[p]
        if kind == "unrelated":
            W, H = rng.gamma(1, 1, W.shape), rng.gamma(1, 1, H.shape)
        elif kind != "permuted":
            W, H = W * rng.lognormal(0, 0.5, W.shape), H * rng.lognormal(0, 0.5, H.shape)
        if kind == "constant":
            if rng.random() < 0.5:
                W[:, rng.integers(ks)] = 0.0
            else:
                H[rng.integers(ks)] = 1.0
        out.append((W, H))
    if all(m is None for m in out):
        out[0], kinds[0] = (rng.gamma(1, 1, (Wb.shape[0], ks)), rng.gamma(1, 1, (ks, Hb.shape[1]))), "unrelated"
    return out, kinds


def as_sa(V, U, W, H, method="ls-nmf"):
    sa = SA(V=V, U=U, factors=H.shape[0], method=method)
    sa.W, sa.H = np.asarray(W, np.float32), np.asarray(H, np.float32)
    sa.WH = sa.W @ sa.H
    sa.Qtrue, sa.Qrobust = gen.wq(V, U, sa.W, sa.H), 0.0
    return sa


def judge(ctx, fc, results, bases, names_b, method):
    """the report of FactorCompare against the tables of all pairs"""
    Wb, Hb = bases
    kb = Hb.shape[0]
    best = {}
    live = [i for i, m in enumerate(results) if m is not None]
    ctx.require(sorted(fc.model_results) == live, "models-reported", f"{sorted(fc.model_results)} for models {live}")
    for m in live:
        W, H = np.asarray(results[m].W, np.float64), np.asarray(results[m].H, np.float64)
        ks = H.shape[0]
        ctx.count("models_compared")
        ctx.check(near(fc.sa_model_dfs[m]["WH"].to_numpy(), results[m].WH, 1e-30, 1e-6) and near(fc.sa_model_dfs[m]["W"].to_numpy(), W, 1e-30, 1e-6)
                  and near(fc.sa_model_dfs[m]["H"].to_numpy(), H, 1e-30, 1e-6), "model-frames", f"model {m}")
        t = tables(Wb, Hb, W, H)
        alls = assignments(kb, ks)
        score = np.array([np.mean([t[method][p] for p in a]) for a in alls])
        order = np.argsort(-score)
        r = fc.model_results[m]
        fmap = list(r["factor_map"])
        if kb >= ks:
            pairs = [(names_b.index(x), j) for j, x in enumerate(fmap)]
            ok = len(fmap) == ks
        else:
            pairs = [(i, int(x.split(" ")[1]) - 1) for i, x in enumerate(fmap)]
            ok = len(fmap) == kb
        ctx.require(ok and len({p[0] for p in pairs}) == len({p[1] for p in pairs}) == min(kb, ks), "not-one-to-one", f"model {m}: {fmap}")
        got = np.mean([t[method][p] for p in pairs])
        ctx.check(got >= score.max() - 1e-6, "not-optimal", f"model {m} {method}: {fmap} has {got}, the best assignment {score.max()}")
        if len(score) > 1 and score[order[0]] > score[order[1]] + 1e-5:
            ctx.count("unique_mappings")
        for n, key in (("H", "factor"), ("W", "contribution"), ("WH", "wh")):
            want = [t[n][p] for p in pairs]
            ctx.check(near(r[f"best_{key}_r"], want, 1e-6, 1e-6) and abs(r[f"best_{key}_r_avg"] - np.mean(want)) <= 1e-6, "reported-values", f"model {m} {key}: {r[f'best_{key}_r']} against {want}")
        ctx.check(abs(r["best_avg_r"] - got) <= 1e-6, "reported-average", f"model {m}: {r['best_avg_r']} against {got}")
        best[m] = float(score.max())
    top = max(best.values())
    ctx.require(fc.best_model in best, "best-model", f"{fc.best_model}")
    ctx.check(best[fc.best_model] >= top - 1e-6 and abs(fc.best_avg_r - top) <= 1e-6, "best-model", f"{fc.best_model} with {fc.best_avg_r}, averages {best}")
    b = fc.model_results[fc.best_model]
    ctx.check(list(fc.factor_map) == list(b["factor_map"]) and near(fc.best_factor_r, b["best_factor_r"], 0, 0) and near(fc.best_contribution_r, b["best_contribution_r"], 0, 0)
              and near(fc.best_wh_r, b["best_wh_r"], 0, 0) and fc.best_factor_r_avg == b["best_factor_r_avg"], "best-model-values", "")
    return best


def setting(rng, kb=None):
    m, n = int(rng.integers(6, 20)), int(rng.integers(4, 9))
    kb = kb or int(rng.integers(1, 5))
    n = max(n, kb + 1)
    Wb, Hb = rng.gamma(1, 1, (m, kb)) + 1e-3, rng.gamma(0.7, 1, (kb, n)) + 1e-3
    V = Wb @ Hb * rng.lognormal(0, 0.05, (m, n))
    U = 0.1 * V + 0.01
    return V, U, Wb, Hb


def frames(V, U, Wb, Hb, names=None):
    cols = [f"s{j}" for j in range(V.shape[1])]
    names = names or [f"Factor {i + 1}" for i in range(Hb.shape[0])]
    return (pd.DataFrame(V, columns=cols), pd.DataFrame(U, columns=cols), pd.DataFrame(Hb.T, columns=names, index=cols), pd.DataFrame(Wb, columns=names), names)


def compare(ctx):
    rng = ctx.rng
    wide = rng.random() < 0.12
    if wide:
        # more than ten factors on one side: two-digit labels
        kb, ks = [int(x) for x in rng.permutation([rng.integers(11, 14), rng.integers(1, 3)])]
        V, U, Wb, Hb = setting(rng, kb=kb)
        if ks >= V.shape[1]:
            V, U, Hb = (np.tile(x, 4) * rng.lognormal(0, 0.3, 4 * x.shape[1]) for x in (V, U, Hb))
        ctx.count("wide_comparisons")
    else:
        V, U, Wb, Hb = setting(rng)
        ks = Hb.shape[0] if rng.random() < 0.6 else int(rng.integers(1, 5))
    raw, kinds = models(rng, Wb, Hb, ks, int(rng.integers(1, 5)))
    results = [None if x is None else as_sa(V, U, *x) for x in raw]
    method = str(rng.choice(["all", "H", "W", "WH"]))
    given = method if rng.random() < 0.9 else "nonsense"
    method = method if given == method else "all"
    ctx.note(base_factors=Hb.shape[0], model_factors=ks, method=given, models=kinds)
    ctx.count("unequal_counts", ks != Hb.shape[0])
    ctx.count("failed_models", kinds.count("failed"))
    ctx.count("constant_factors", kinds.count("constant"))
    vdf, udf, pdf, cdf, names = frames(V, U, Wb, Hb, [str(x) for x in rng.permutation(["dust", "salt", "coal", "wood"])[: Hb.shape[0]]] if not wide and rng.random() < 0.4 else None)
    before = [x.copy() for x in (vdf, udf, pdf, cdf)]
    with ctx.quiet(), limited(ctx, 90, "factor comparison"):
        batch = types.SimpleNamespace(factors=ks, results=results, best_model=0)
        fc = FactorCompare(vdf, udf, pdf, cdf, batch, method=given)
        with listening("") as seen:
            fc.compare(verbose=True)
        best = judge(ctx, fc, results, (Wb, Hb), names, method)
        if rng.random() < 0.3:
            with listening(""):
                fc.compare(verbose=bool(rng.integers(2)))
            again = judge(ctx, fc, results, (Wb, Hb), names, method)
            ctx.check(again == best, "compared-again", f"{best} then {again}")
        text = " ".join(seen.lines)
        q = gen.wq(V, U, Wb, Hb)
        found = re.search(r"Base Q\(true\): ([-0-9.e+]+), SA Model (\d+) Q\(true\): ([-0-9.e+]+)", text)
        ctx.require(found is not None, "report", text[:300])
        ctx.check(abs(float(found.group(1)) - q) <= 1e-6 * q and int(found.group(2)) == fc.best_model + 1
                  and abs(float(found.group(3)) - results[fc.best_model].Qtrue) <= 1e-5 * results[fc.best_model].Qtrue, "report", f"{found.group(0)}, base loss {q}")
        for m in (x for x in range(len(results)) if results[x] is not None):
            with listening("") as one:
                fc.print_results(m)
            text, r = " ".join(one.lines), fc.model_results[m]
            nums = {x: float(re.search(f"{x} R2(?: Avg)?: (?:np.float64\\()?([-0-9.e+]+)", text).group(1)) for x in ("Average", "Profile", "Contribution", "WH")}
            want = {"Average": "best_avg_r", "Profile": "best_factor_r_avg", "Contribution": "best_contribution_r_avg", "WH": "best_wh_r_avg"}
            ctx.check(all(abs(nums[x] - float(r[want[x]])) <= 1e-9 + 1e-6 * abs(nums[x]) for x in want) and f"Model: {m + 1}," in text
                      and f"SA Model {m + 1} Q(true): " in text and str(r["factor_map"]) in text, "report-of-model", f"model {m}: {nums}")
        if rng.random() < 0.3:
            real = BatchSA(V=V, U=U, factors=ks, models=len(results), verbose=False)
            real.results = results
            path = real.save("batch", str(ctx.scratch))
            ff = FactorCompare(vdf, udf, pdf, cdf, batch_sa=None, sa_output_file=str(path), method=given)
            ff.compare(verbose=False)
            bf = judge(ctx, ff, results, (Wb, Hb), names, method)
            ctx.check(all(abs(best[m] - bf[m]) <= 1e-9 for m in best) and ff.best_model == fc.best_model, "from-file", f"{best} against {bf}")
            ctx.count("from_files")
        ctx.check(all(a.equals(b) for a, b in zip(before, (vdf, udf, pdf, cdf))), "input-modified", "")
        # permuting the factors of the models permutes the mapping only
        perm = rng.permutation(ks)
        res2 = [None if x is None else as_sa(V, U, x[0][:, perm], x[1][perm]) for x in raw]
        f2 = FactorCompare(vdf, udf, pdf, cdf, types.SimpleNamespace(factors=ks, results=res2, best_model=0), method=given)
        f2.compare(verbose=False)
        b2 = judge(ctx, f2, res2, (Wb, Hb), names, method)
        ctx.check(all(abs(best[m] - b2[m]) <= 1e-6 for m in best), "permutation", f"{best} against {b2}")
    ctx.distinct((Hb.shape[0], ks, method, tuple(kinds)))


def oracle_v2(b, m):
    Wb, Hb, W, H = (np.asarray(x, np.float64) for x in (b.W, b.H, m.W, m.H))
    k = Hb.shape[0]
    t = {n: np.zeros((k, k)) for n in ("corr", "raae", "emc")}
    for i in range(k):
        for j in range(k):
            t["corr"][i, j] = r2(Wb[:, i], W[:, j])
            t["raae"][i, j] = np.abs(W[:, j] - Wb[:, i]).sum() / Wb[:, i].sum()
            t["emc"][i, j] = r2(Hb[i], H[j])
    return t


def factor_map(ctx):
    rng = ctx.rng
    V, U, Wb, Hb = setting(rng, kb=int(rng.integers(1, 6)))
    k = Hb.shape[0]
    base = as_sa(V, U, Wb, Hb)
    ms, kinds = [], []
    for _ in range(int(rng.integers(1, 4))):
        kind = ["same", "permuted", "noisy", "noisy", "unrelated"][rng.integers(5)]
        p = rng.permutation(k)
        if kind == "same":
            p = np.arange(k)
        W, H = Wb[:, p], Hb[p]
        if kind == "noisy":
            W, H = W * rng.lognormal(0, 0.6, W.shape), H * rng.lognormal(0, 0.6, H.shape)
        elif kind == "unrelated":
            W, H = rng.gamma(1, 1, W.shape), rng.gamma(1, 1, H.shape)
        ctx.count("non_involutive", kind != "unrelated" and not np.array_equal(p[p], np.arange(k)))
        ms.append(as_sa(V, U, W, H))
        kinds.append(kind)
    ctx.note(factors=k, models=kinds)
    with ctx.quiet():
        c = FactorCompareV2(base, ms)
        for method in ("raae", "emc", "corr"):
            mapping, values = c.determine_map(method)
            ctx.require(sorted(mapping) == sorted(values) == list(range(len(ms))), "map-models", f"{sorted(mapping)}")
            for i, m in enumerate(ms):
                ctx.count("maps")
                t = oracle_v2(base, m)[method]
                got = [int(x) for x in mapping[i]]
                ctx.require(sorted(got) == list(range(k)), "map-not-one-to-one", f"{method}: {got}")
                total = np.array([sum(t[j, p[j]] for j in range(k)) for p in itertools.permutations(range(k))])
                mine = sum(t[j, got[j]] for j in range(k))
                ok = mine <= total.min() + 1e-5 if method == "raae" else mine >= total.max() - 1e-5
                ctx.check(ok, "map-not-optimal", f"{method}: {got} has {mine}, assignments {total.min()}..{total.max()}")
                ctx.check(near(values[i], [t[j, got[j]] for j in range(k)], 6e-5, 1e-5), "map-values", f"{method}: {values[i]}")
                d = c.correlation_data[i]
                ctx.check(near(d[f"all_{method}"], t, 1e-5, 1e-4), "pair-values", f"{method}")
                opt = t.min(axis=1) if method == "raae" else t.max(axis=1)
                ctx.check(near(d[method], opt, 1e-5, 1e-4), "best-values", f"{method}: {d[method]} against {opt}")
                ctx.check(all(x == -1 and opt[j] <= 1e-5 or abs(t[j, x] - opt[j]) <= 1e-5 for j, x in enumerate(d[f"{'corr' if method == 'corr' else method}_mapping"])),
                          "best-mapping", f"{method}")
    ctx.distinct(("map", k, tuple(kinds)))


def pmf_files(rng, folder, Wb, Hb, cols):
    k, n = Hb.shape
    names = [f"Factor {i + 1}" for i in range(k)]
    lines = ["Factor Profiles (conc. of species) from Base Run #1 (Convergent Run)", "", "\t".join(["", ""] + names)]
    for block in (Hb, 100 * Hb / Hb.sum(axis=0), 100 * Hb / Hb.sum(axis=1, keepdims=True)):
        for j in range(n):
            lines.append("\t".join(["1", cols[j]] + [f"{x:.9f}" for x in block[:, j]]))
        lines += ["", "Factor Profiles (% of species)", ""]
    (folder / "profiles.txt").write_text("\n".join(lines))
    lines = ["Factor Contributions", "", "", "\t".join(["", ""] + names)]
    for i in range(Wb.shape[0]):
        lines.append("\t".join(["1", f"01/{i + 1:02d}/20 00:00"] + [f"{x:.9f}" for x in Wb[i]]))
    (folder / "contributions.txt").write_text("\n".join(lines) + "\n")
    return str(folder / "profiles.txt"), str(folder / "contributions.txt")


def pmf(ctx):
    rng = ctx.rng
    V, U, Wb, Hb = setting(rng)
    if rng.random() < 0.5:
        Wb = Wb - 0.2                 # PMF5 lets contributions be slightly negative
    k = Hb.shape[0]
    vdf, udf, pdf, cdf, names = frames(V, U, Wb, Hb)
    raw, kinds = models(rng, Wb, Hb, k, 2)
    results = [None if x is None else as_sa(V, U, *x) for x in raw]
    batch = types.SimpleNamespace(factors=k, results=results, best_model=0)
    ctx.count("pmf")
    with ctx.quiet(), limited(ctx, 60, "comparison with PMF5 output"):
        p, c = pmf_files(rng, ctx.scratch, Wb, Hb, list(vdf.columns))
        fc = FactorCompare.load_pmf_output(k, vdf, udf, p, c, batch)
        ctx.check(FactorCompare.load_pmf_output(k, vdf, udf, p + "x", c, batch) is None and FactorCompare.load_pmf_output(k, vdf, udf, p, c + "x", batch) is None, "missing-file", "")
        ctx.require(isinstance(fc, FactorCompare), "pmf-load", f"{fc}")
        ctx.check(near(fc.base_profile_df[names].to_numpy(), Hb.T, 1e-8, 1e-6) and near(fc.base_contribution_df[names].to_numpy(), Wb, 1e-8, 1e-6)
                  and list(fc.base_factors) == names, "pmf-load", f"{list(fc.base_factors)}")
        dates = [f"01/{i + 1:02d}/20 00:00" for i in range(len(Wb))]
        ctx.check(list(fc.base_contribution_df["Datetime"]) == dates, "pmf-load", f"{list(fc.base_contribution_df['Datetime'])[:3]}")
        ctx.check(near(fc.base_V_estimate, Wb @ Hb, 1e-6, 1e-5), "pmf-estimate", "")
        fc.compare(verbose=False)
        judge(ctx, fc, results, (Wb, Hb), names, "all")
    ctx.note(factors=k, models=kinds)
    ctx.distinct(("pmf", k, V.shape, tuple(kinds)))


def figures(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 5))
    with ctx.quiet(), limited(ctx, 90, "simulator comparison"):
        ks = k if rng.random() < 0.6 else int(rng.integers(1, 5))
        if rng.random() < 0.2:
            k, ks = [int(x) for x in rng.permutation([rng.integers(11, 13), rng.integers(1, 3)])]
            ctx.count("wide_figures")
        sim = Simulator(seed=int(rng.integers(1000)), factors_n=k, features_n=int(rng.integers(max(k, ks) + 1, max(k, ks) + 5)), samples_n=int(rng.integers(10, 25)), verbose=False)
        sim.get_data()
        V, U = sim.syn_data, sim.syn_uncertainty
        Wb, Hb = sim.syn_contributions, sim.syn_profiles
        raw, kinds = models(rng, Wb, Hb, ks, 3)
        if max(k, ks) > 10:
            # a model whose pairs have two-digit labels
            i, j = (10, 0) if k > ks else (0, 10)
            W, H = rng.gamma(1, 1, (len(Wb), ks)), rng.gamma(1, 1, (ks, Hb.shape[1]))
            W[:, j], H[j] = Wb[:, i], Hb[i]
            at = int(rng.integers(3))
            raw[at], kinds[at] = (W, H), "two-digit"
        results = [None if x is None else as_sa(V, U, *x) for x in raw]
        batch = types.SimpleNamespace(factors=ks, results=results, best_model=[i for i, x in enumerate(results) if x is not None][-1])
        with shown() as figs:
            sim.plot_comparison()
            sim.plot_profile_comparison()
            sim.compare(batch, selected_model=0)
        ctx.check(not figs, "figure-without-comparison", f"{len(figs)}")
        if rng.random() < 0.5:
            # another batch was compared before
            ctx.count("second_batches")
            k2 = int(rng.integers(1, 5))
            other = [None if x is None else as_sa(V, U, *x) for x in models(rng, Wb, Hb, k2, 2)[0]]
            sim.compare(types.SimpleNamespace(factors=k2, results=other, best_model=[i for i, x in enumerate(other) if x is not None][-1]))
            judge(ctx, sim.factor_compare, other, (Wb, Hb), [f"Factor {i + 1}" for i in range(k)], "all")
        sim.compare(batch)
        fc = sim.factor_compare
        judge(ctx, fc, results, (Wb, Hb), [f"Factor {i + 1}" for i in range(k)], "all")
        pick = kinds.index("two-digit") if "two-digit" in kinds else int(rng.choice(sorted(fc.model_results)))
        for model in (None, 0 if 0 in fc.model_results else pick, pick):
            m = fc.best_model if model is None else model
            r = fc.model_results[m]
            W, H = np.asarray(results[m].W, float), np.asarray(results[m].H, float)
            if not (H.sum(axis=0) > 0).all() or not (W.sum(axis=0) > 0).all():
                continue
            share = lambda x: 100 * x / x.sum(axis=0)
            with shown() as figs:
                sim.plot_comparison(model_i=model)
                full = len(figs)
                sim.plot_profile_comparison(model_i=model)
            pairs = min(k, ks)
            ctx.require(full == pairs and len(figs) == 2 * pairs, "figure-count", f"{full} and {len(figs) - full} for {pairs} pairs")
            for i in range(pairs):
                x = int(r["factor_map"][i].split(" ")[1]) - 1
                b, s = (x, i) if k >= ks else (i, x)
                for fig, contrib in ((figs[i], True), (figs[full + i], False)):
                    ctx.count("figures")
                    d = fig.data
                    prof = [d[0], d[1], d[2] if contrib else d[3]]
                    want = [share(Hb)[b], share(H)[s], share(Hb)[b] - share(H)[s]]
                    if contrib:
                        prof += [d[3], d[4], d[5]]
                        want += [share(Wb)[:, b], share(W)[:, s], share(Wb)[:, b] - share(W)[:, s]]
                    else:
                        ctx.check(near(np.ravel(d[2].x), [r["best_factor_r"][i]], 1e-9), "figure-r2", "")
                    ctx.check(all(near(t.y, w, 1e-3, 1e-4) for t, w in zip(prof, want)), "figure-values", f"model {m}, pair {i}")
                    ctx.check(fig.layout.title.text.endswith(f"Model: {m + 1}"), "figure-title", f"{fig.layout.title.text} for model {m}")
                    a = fig.layout.annotations[0].text
                    label = (f"Modelled Factor {s + 1} : Synthetic Factor {b + 1}" if k >= ks else f"Synthetic Factor {b + 1} : Modelled Factor {s + 1}")
                    ctx.check(a.startswith(label), "figure-label", f"{a} for {label}")
                    num = [float(re.findall(r"-?[\d.]+(?:e-?\d+)?|nan", t.text.split(":")[-1])[-1]) for t in fig.layout.annotations[:2 if contrib else 1]]
                    if contrib:
                        ctx.check(near(num, [r["best_factor_r"][i], r["best_contribution_r"][i]], 1e-4), "figure-r2", f"pair {i}: {num}")
                        ctx.check(fig.layout.annotations[1].text.startswith(label), "figure-label", f"{fig.layout.annotations[1].text} for {label}")
                    else:
                        gap = np.abs(share(Hb)[b] - share(H)[s]).sum()
                        ctx.check(near(num, [gap], 6e-3 + 1e-4 * gap), "figure-residual", f"pair {i}: {num} for {gap}")
    ctx.note(base=k, factors=ks, models=kinds)
    ctx.distinct(("figures", k, ks, tuple(kinds)))


SCENARIOS = [Scenario("compare", compare, 60, 1500), Scenario("factor_map", factor_map, 60, 3000), Scenario("pmf", pmf, 12, 200), Scenario("figures", figures, 14, 200)]
