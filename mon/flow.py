"""One pass through the documented workflow, written against the public classes only. Run in-process by the checks, or as
`python -m mon.flow CONFIG.json` in a process of its own (console and progress bars as a user has them); prints a JSON log."""
import json
import os
import sys
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from mon import gen


def digest(x):
    x = np.asarray(x, np.float64)
    return {"shape": list(x.shape), "finite": bool(np.isfinite(x).all()), "sum": float(np.abs(x).sum()), "min": float(x.min()) if x.size else 0.0}


def frames(cfg):
    rng = np.random.default_rng(cfg["seed"])
    m, n, k = cfg["m"], cfg["n"], cfg["k"]
    V = (rng.gamma(1.0, 1.0, (m, k)) + 0.05) @ (rng.gamma(0.7, 1.0, (k, n)) + 0.05)
    V *= rng.lognormal(0, 0.1, V.shape)
    U = 0.1 * V + 0.02 * V.mean(axis=0)
    if cfg["method"] == "ws-nmf" and cfg["seed"] % 2:
        low = rng.random(V.shape) < 0.03                 # readings below zero, as near a detection limit
        low[0, 0] = True
        V = np.where(low, -0.02 * V.mean(axis=0), V)
    ix = pd.date_range("2020-01-01", periods=m, freq="D", name="Date")
    cols = [f"sp{j}" for j in range(n)]
    return pd.DataFrame(V, index=ix, columns=cols), pd.DataFrame(U, index=ix, columns=cols)


def model(sa):
    V, U, W, H = (np.asarray(x, np.float64) for x in (sa.V, sa.U, sa.W, sa.H))
    return {"W": digest(W), "H": digest(H), "Qtrue": float(sa.Qtrue), "Qrobust": float(sa.Qrobust), "Q": float((((V - W @ H) / U) ** 2).sum()),
            "steps": int(sa.converge_steps), "noise": gen.wq_noise(V, U, W, H, 8 * float(np.finfo(np.asarray(sa.W).dtype).eps if np.asarray(sa.W).dtype.kind == "f" else 1e-7)),
            "optimized": bool(getattr(sa, "optimized", False))}


def run(cfg, where, stages=None):
    import plotly.graph_objects as go
    shown = []
    go.Figure.show = lambda self, *a, **k: shown.append(sum(1 for _ in self.data))
    from esat.data.datahandler import DataHandler
    log = {}

    def want(s):
        return stages is None or s in stages

    where = Path(where)
    data, unc = frames(cfg)
    data.to_csv(where / "v.csv")
    unc.to_csv(where / "u.csv")
    dh = DataHandler(input_path=str(where / "v.csv"), uncertainty_path=str(where / "u.csv"), index_col="Date")
    V, U = dh.get_data()
    log["data"] = {"V": digest(V), "U": digest(U), "features": list(map(str, dh.features)), "metrics": digest(dh.metrics.select_dtypes("number").to_numpy())}
    k, method, par, seed = cfg["k"], cfg["method"], cfg["parallel"], cfg["seed"]
    it = dict(max_iter=cfg["max_iter"], converge_delta=0.01, converge_n=8)

    from esat.model.sa import SA
    sa = SA(V=V, U=U, factors=k, method=method, seed=seed, verbose=cfg["verbose"])
    sa.initialize()
    sa.train(**it)
    log["sa"] = model(sa)
    sa.save(model_name="m", output_directory=str(where), pickle_model=True)
    log["sa_loaded"] = model(SA.load(str(where / "m.pkl")))

    from esat.model.batch_sa import BatchSA
    b = BatchSA(V=V, U=U, factors=k, models=cfg["models"], method=method, seed=seed, parallel=par, verbose=cfg["verbose"], cores=2, **it)
    b.details()
    ok = b.train()
    log["batch"] = {"ok": repr(ok), "best": int(b.best_model), "models": [None if r is None else model(r) for r in b.results]}
    b.save(batch_name="b", output_directory=str(where), pickle_batch=True)
    log["batch_loaded"] = [None if r is None else model(r) for r in BatchSA.load(file_path=str(where / "b.pkl")).results]
    best = b.results[b.best_model]

    if want("analysis"):
        from esat.data.analysis import BatchAnalysis, ModelAnalysis
        ma = ModelAnalysis(datahandler=dh, model=best, selected_model=b.best_model)
        ma.calculate_statistics()
        n0 = len(shown)
        ma.plot_residual_histogram(feature_idx=0)
        ma.plot_estimated_observed(feature_idx=0)
        ma.plot_estimated_timeseries(feature_idx=0)
        ma.plot_factor_profile(factor_idx=1)
        ma.plot_factor_fingerprints()
        ma.plot_factor_contributions(feature_idx=0)
        ma.plot_factor_composition()
        if k > 1:
            ma.plot_g_space(factor_1=1, factor_2=2)
        BatchAnalysis(b).plot_loss()
        BatchAnalysis(b).plot_loss_distribution()
        log["analysis"] = {"rows": len(ma.statistics), "figures": len(shown) - n0, "empty": sum(1 for x in shown[n0:] if not x), "wanted": 9 + (k > 1)}

    if want("errors"):
        from esat.error.bootstrap import Bootstrap
        from esat.error.bs_disp import BSDISP
        from esat.error.displacement import Displacement
        from esat.error.error import Error
        lab = list(dh.features)
        bs = Bootstrap(sa=best, feature_labels=lab, model_selected=b.best_model, bootstrap_n=cfg["bs_n"], block_size=3, seed=seed, parallel=par, cpus=2)
        bs.run(keep_H=cfg["keep_H"])
        bs.summary()
        log["bs"] = {"runs": len(bs.bs_results), "models": [model(r["model"]) for r in bs.bs_results.values()],
                     "mapped": int(bs.mapping_df[[c for c in bs.mapping_df.columns]].select_dtypes("number").to_numpy().sum())}
        bs.save(bs_name="bs", output_directory=str(where), pickle_result=True)
        log["bs_loaded"] = len(Bootstrap.load(str(where / "bs.pkl")).bs_results)
        d = Displacement(sa=best, feature_labels=lab, model_selected=b.best_model, parallel=par, cores=2, features=cfg["features"])
        d.run()
        d.summary()
        c = d.compiled_results
        nf = len(cfg["features"] or lab)
        log["disp"] = {"rows": len(c), "finite": bool(np.isfinite(c[c["feature"].isin([lab[i] for i in (cfg["features"] or range(len(lab)))])]
                       [["profile", "conc"]].to_numpy(float)).all()) if "feature" in c else True, "increase": sum(len(x) for x in d.increase_results.values()) if isinstance(d.increase_results, dict) else 0, "nf": nf}
        d.save(disp_name="d", output_directory=str(where), pickle_result=True)
        log["disp_loaded"] = len(Displacement.load(str(where / "d.pkl")).compiled_results)
        bd = BSDISP(sa=best, feature_labels=lab, bootstrap=bs if cfg["reuse_bs"] else None, bootstrap_n=cfg["bs_n"], block_size=3, seed=seed,
                    features=cfg["features"], max_search=cfg["max_search"], cores=2)
        bd.run(parallel=par, keep_H=cfg["keep_H"])
        bd.summary()
        log["bsdisp"] = {"runs": len(bd.disp_results), "rows": len(bd.compiled_results)}
        bd.save(bsdisp_name="bd", output_directory=str(where), pickle_result=True)
        log["bsdisp_loaded"] = len(BSDISP.load(str(where / "bd.pkl")).disp_results)
        n0 = len(shown)
        for f in range(1, k + 1):
            Error(bs=bs, disp=d, bsdisp=bd).plot_summary(factor=f)
            bs.plot_results(factor=f)
            d.plot_results(factor=f)
            bd.plot_results(factor=f)
        log["error"] = {"figures": len(shown) - n0, "empty": sum(1 for x in shown[n0:] if not x)}

    if want("constrained"):
        from esat.rotational.constrained import ConstrainedModel
        c = ConstrainedModel(base_model=best, data_handler=dh, softness=1.0)
        c.add_constraint(constraint_type="set to zero", index=(0, 0), target="feature")
        c.add_constraint(constraint_type="pull up", index=(0, 1), target="feature", dQ=20)
        if k > 1:
            c.add_expression(f"(1.0*[factor:0|feature:0])-(2.0*[factor:1|feature:1])=0,{20}")
        c.train(max_iterations=30, converge_delta=0.1, converge_n=5)
        log["constrained"] = None if c.constrained_model is None else model(c.constrained_model)
        if c.constrained_model is not None:
            c.display_results()
            c.save(model_name="c", output_directory=str(where), pickle_model=True)
            pk = [p for p in os.listdir(where) if p.endswith(".pkl") and p not in ("m.pkl", "b.pkl", "bs.pkl", "d.pkl", "bd.pkl")]
            log["constrained_loaded"] = model(ConstrainedModel.load(str(where / pk[0])).constrained_model)

    if want("estimator"):
        from esat.estimator import FactorEstimator
        fe = FactorEstimator(V=V, U=U, seed=seed)
        r = fe.run(samples=cfg["samples"], min_factors=1, max_factors=3, max_iterations=30)
        log["estimator"] = {"rows": len(r), "samples": int(fe.samples)}

    if want("simulator"):
        from esat_eval.factor_catalog import FactorCatalog
        from esat_eval.simulator import Simulator
        sim = Simulator(seed=seed, factors_n=k, features_n=cfg["n"], samples_n=cfg["m"], verbose=False)
        sim.update_contribution(factor_i=0, curve_type="increasing", minimum=0.1, maximum=0.9, scale=0.1)
        sd, su = sim.get_data()
        sb = BatchSA(V=sd.to_numpy(float) if "Date" not in sd else sd.drop(columns="Date").to_numpy(float),
                     U=su.to_numpy(float) if "Date" not in su else su.drop(columns="Date").to_numpy(float),
                     factors=k, models=2, method=method, seed=seed, parallel=par, verbose=False, cores=2, **it)
        sb.train()
        sim.compare(sb)
        sim.compare(sb, selected_model=0)
        n0 = len(shown)
        sim.plot_comparison()
        sim.plot_synthetic_contributions()
        sim.save(sim_name="s", output_directory=str(where))
        log["simulator"] = {"V": digest(sb.V), "models": [None if r is None else model(r) for r in sb.results], "best": int(sim.factor_compare.best_model),
                            "r2": float(sim.factor_compare.best_avg_r), "figures": len(shown) - n0}
        cat = FactorCatalog(method="emc", threshold=0.9)
        cat.add_batch(b)
        log["catalog"] = {"filed": sum(len(f.factor) for f in cat.factors.values()), "wanted": k * sum(r is not None for r in b.results)}

    if want("perturbation"):
        from esat_eval.perturbation import Perturbation
        p = Perturbation(V=V, U=U, factors=k, base_model=best if cfg["reuse_bs"] else None, method=method, random_seed=seed, models=2, max_iterations=40, converge_n=5, converge_delta=0.1)
        p.run()
        p.compare()
        log["perturbation"] = {"models": [model(x) for x in p.perturbed_models], "base": model(p.base_model)}
    log["modules"] = sorted(m for m in sys.modules if m.split(".")[0] in ("esat", "esat_eval"))
    return log


def main():
    cfg = json.load(open(sys.argv[1]))
    with tempfile.TemporaryDirectory() as d:
        out = run(cfg, d)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
