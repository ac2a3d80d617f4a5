LIB = '''
import io, os, sys, logging, contextlib, tempfile, shutil
import numpy as np
import pandas as pd
logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def data(m=20, n=6, k=3, seed=1, noise=0.05):
    r = np.random.default_rng(seed)
    V = r.random((m, k)) @ r.random((k, n)) * 10
    V = V * (1 + noise * r.standard_normal((m, n)))
    V = np.maximum(V, 0.01)
    return V, V * 0.1 + 0.05


def model(V, U, k=3, seed=1, max_iter=200, method="ls-nmf", converge_n=10, converge_delta=0.01):
    from esat.model.sa import SA
    sa = SA(V=V, U=U, factors=k, seed=seed, method=method, verbose=False)
    sa.initialize()
    sa.train(max_iter=max_iter, converge_n=converge_n, converge_delta=converge_delta)
    return sa


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
'''

P = []


def plant(id, property, edits, demo, needs, breaks):
    P.append(dict(id=id, property=property, edits=edits, demo=LIB + demo, needs=needs, breaks=breaks))


plant("bs-block-unc", "P16", [("esat/error/bootstrap.py",
    "            uncertainty[i] = _uncertainty[i]\n", "            uncertainty[i] = uncertainty[index_matrix[i]]\n")], '''
from esat.error.bootstrap import Bootstrap
V, U = data(24, 5)
sa = model(V, U)
with quiet():
    bs = Bootstrap(sa=sa, feature_labels=list("abcde"), model_selected=0, bootstrap_n=4, block_size=5, seed=3)
    bs.run(block=True)
for k, r in bs.bs_results.items():
    ix = r["index"]
    check(np.allclose(r["model"].V, V[ix].astype(np.float32), rtol=1e-6), f"run {k}: data rows")
    check(np.allclose(r["model"].U, U[ix].astype(np.float32), rtol=1e-6), f"run {k}: uncertainty rows are not those of the data")
''', "block resampling that places a block after a block it overwrote, so that a copied row has already been replaced",
    "the resampled uncertainty rows no longer belong to the resampled data rows")

plant("disp-abs-bracket", "P18", [("esat/error/displacement.py", '''        while not high_found:
            new_value = self.H[factor_i, feature_j] * high_modifier
            new_H[factor_i, feature_j] = new_value
            disp_i_Q = q_loss(V=self.V, U=self.U, W=self.W, H=new_H)
            dQ = disp_i_Q - self.base_Q
            if dQ < self.dQmax[0]:
''', '''        while not high_found:
            new_value = self.H[factor_i, feature_j] * high_modifier
            new_H[factor_i, feature_j] = new_value
            disp_i_Q = q_loss(V=self.V, U=self.U, W=self.W, H=new_H)
            dQ = np.abs(disp_i_Q - self.base_Q)
            if dQ < self.dQmax[0]:
''')], '''
from esat.error.displacement import Displacement
from esat.metrics import q_loss
V, U = data(20, 5, 2)
sa = model(V, U, k=2, max_iter=400)
# a solution that is not at the minimum: one profile element is far too small
sa.H = sa.H.copy(); sa.H[0, 1] *= 0.3
sa.WH = sa.W @ sa.H; sa.Qtrue = q_loss(V=V, U=U, W=sa.W, H=sa.H)
with quiet():
    d = Displacement(sa=sa, feature_labels=list("abcde"), model_selected=0, cores=2)
    d.run()
r = d.increase_results["factor-1"]["feature-1"]
for lim, e in r.items():
    H = d.H.copy(); H[0, 1] = e["value"]
    dq = q_loss(V=V, U=U, W=sa.W, H=H) - sa.Qtrue
    check(lim - 0.2 <= dq <= lim + 1e-6, f"the increase for dQ {lim} changes the loss by {dq:.3f}")
''', "parallel displacement of a model whose loss falls before it rises when an element is increased (a solution that is not converged)",
    "the upper bound stops at a value far below the allowed loss change")

plant("bsdisp-drops", "P20", [("esat/error/bs_disp.py", "            if any(dQ_drop_i < 0.0):\n", "            if any(dQ_drop < 0.0):\n")], '''
import esat.error.bs_disp as m
from esat.error.bootstrap import Bootstrap
V, U = data(20, 4, 2)
sa = model(V, U, k=2)
labels = list("abcd")
drops = [-1.0, 0.0, 0.0]


class FakeDisp:
    """Stands in for the displacement of one bootstrap run with a known result."""
    def __init__(self, *a, **k):
        self.dQmax = [0.5, 1, 2, 4]

    def run(self, batch=1):
        rows = [dict(factor=f, feature=l, dQ=q, profile=0.5, profile_max=0.6, profile_min=0.4, conc=1.0, conc_max=2.0,
                     conc_min=0.5, dQ_drop=0.0) for f in range(2) for l in labels for q in self.dQmax]
        df = pd.DataFrame(rows)
        df.loc[0, "dQ_drop"] = drops[batch - 1]
        self.compiled_results = df
        self.swap_table = np.zeros((4, 2)); self.count_table = np.ones((4, 2))


with quiet():
    bs = Bootstrap(sa=sa, feature_labels=labels, model_selected=0, bootstrap_n=3, block_size=5, seed=3)
    bs.run()
    m.Displacement = FakeDisp
    b = m.BSDISP(sa=sa, feature_labels=labels, model_selected=0, bootstrap=bs)
    b.run(parallel=False)
check(b.n_drops == 1, f"one run has a loss decrease, {b.n_drops} counted")
''', "a bootstrap run whose displacement lowers the loss, followed by runs where it does not",
    "the count of runs with a loss decrease counts later runs that had none")

plant("batch-parallel-best", "P10", [("esat/model/batch_sa.py", '''                        ordered_results[model_i - 1] = _sa
                        _nmf_q = _sa.Qrobust if self.best_robust else _sa.Qtrue
''', '''                        ordered_results[model_i - 1] = _sa
                        _nmf_q = _sa.Qrobust
''')], '''
from esat.model.batch_sa import BatchSA
for seed in range(40):
    V, U = data(20, 6, 4, seed=seed, noise=0.3)
    r = np.random.default_rng(seed); V = V.copy()
    V[r.integers(0, 20, 6), r.integers(0, 6, 6)] *= 8      # outliers separate the two losses
    U = U * 0.2
    with quiet():
        b = BatchSA(V=V, U=U, factors=2, models=6, max_iter=15, converge_n=10, seed=seed, best_robust=False, parallel=True, cores=2, verbose=False)
        ok, _ = b.train()
    q = [s.Qtrue for s in b.results]; qr = [s.Qrobust for s in b.results]
    check(b.best_model == int(np.argmin(q)), f"best model {b.best_model}, Q(true) {np.round(q, 2)}")
    if np.argmin(q) != np.argmin(qr):
        break
''', "a parallel batch with best_robust=False whose models rank differently by Q(true) and Q(robust)",
    "the best model is not the one with the lowest selected loss")

plant("train-early", "P05", [("esat/model/sa.py", "                if len(prior_q) > converge_n:\n", "                if len(prior_q) >= converge_n:\n")], '''
V, U = data(30, 8, 3)
for cn in (2, 5, 20):
    for cd in (0.01, 1.0, 10.0):
        sa = model(V, U, converge_n=cn, converge_delta=cd, max_iter=2000)
        q = sa.q_list
        # the window holds converge_n losses after the oldest one has left it
        first = next((i for i in range(len(q)) if i >= cn and q[i - cn + 1] - q[i] < cd), None)
        if sa.converged:
            check(len(q) - 1 == first, f"n={cn} delta={cd}: stopped after {len(q)} iterations, first converged {first}")
''', "training that converges: the window is one loss too short, it shows only against the definition of the window",
    "training stops before the loss changed by less than converge_delta over converge_n iterations")

plant("pull-signed", "P22", [("esat/rotational/constrained.py", "        if np.abs(iQ - iQ2) < dQ_limit:\n            return target_value\n", "        if iQ - iQ2 < dQ_limit:\n            return target_value\n")], '''
from types import SimpleNamespace as NS
from esat.rotational.constrained import ConstrainedModel
from esat.metrics import q_loss
V, U = data(20, 6, 3)
sa = model(V, U, max_iter=500)
seen = []
cm = ConstrainedModel(base_model=sa, data_handler=NS(features=list("abcdef")))
step = cm.update
cm.update = lambda V, We, W, H: (seen.append((W.copy(), H.copy())), step(V=V, We=We, W=W, H=H))[1]
cm.add_constraint("pull to value", index=(1, 2), target="feature", target_value=float(sa.H[1, 2] * 50), dQ=200.0)
with quiet():
    cm.train(max_iterations=1)
W, H = seen[0]
dq = q_loss(V=V, U=U, W=W, H=H) - sa.Qtrue
check(dq <= 200.0 + 1e-6, f"the pull allowed 200, it changes the loss by {dq:.1f}")
''', "a pull to value constraint whose target raises the loss by more than its dQ", "the pull ignores its dQ limit whenever the target raises the loss")

plant("factor-range", "P23", [("esat/estimator.py", "factor_i = self.rng.integers(low=self.min_factors, high=self.max_factors, size=1)[0]", "factor_i = self.rng.integers(low=self.min_factors, high=max(self.min_factors + 1, self.max_factors - 1), size=1)[0]")], '''
from esat.estimator import FactorEstimator
V, U = data(20, 6, 3)
with quiet():
    e = FactorEstimator(V=V, U=U, seed=3)
    df = e.run(samples=60, min_factors=2, max_factors=4, max_iterations=20)
check(list(df["Factors"]) == [2, 3, 4], "rows of the results")
check(not df["Test MSE"].isna().any(), f"a factor count was never sampled: {list(df['Test MSE'])}")
''', "enough samples that the absence of the largest factor count is not chance",
    "the largest requested factor count is never evaluated")

plant("perturb-sigma", "P26", [("eval/perturbation.py", "            i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)\n", "            i_logn = rng.lognormal(i_mean, sigma[0], size=self.U[:, i].shape)\n")], '''
from esat_eval.perturbation import Perturbation
V, U = data(400, 3, 2)
p = Perturbation(V=V, U=U, factors=2, sigma=[0.05, 0.5, 1.0], perturb_percent=1.0)
u, m = p.perturb(7)
sd = np.log(m).std(axis=0)
check(np.allclose(u, U * m), "the uncertainty is not the multiplied one")
check(np.all(np.abs(sd - [0.05, 0.5, 1.0]) < 0.2 * np.array([0.05, 0.5, 1.0])), f"spread of the multipliers {sd}")
''', "a sigma list with different values per feature",
    "every feature is perturbed with the first feature's spread")

plant("catalog-loss", "P27", [("eval/factor_catalog.py", "loss_list.append(model.Qtrue)", "loss_list.append(model.Qrobust)")], '''
from types import SimpleNamespace as NS
from esat_eval.factor_catalog import FactorCatalog
r = np.random.default_rng(0)
H = r.random((2, 5)); W = r.random((12, 2))
mk = lambda q, qr: NS(H=H, W=W, Qtrue=q, Qrobust=qr, factors=2)
batch = NS(results=[mk(100.0, 50.0), mk(300.0, 55.0), mk(110.0, 90.0)], factors=2)
with quiet():
    c = FactorCatalog(exclude_outliers=True, outlier_threshold=1.5)
    c.add_batch(batch)
used = sorted({i for f in c.factors.values() for i in f.model})
check(used == [0, 2], f"models within 1.5 of the lowest loss are 0 and 2, cataloged {used}")
''', "exclude_outliers with models whose Q(true) and Q(robust) are on different sides of the threshold",
    "the wrong models are excluded from the catalog")


plant("hold-release", "P03", [("esat/model/sa.py", "                if delay_h > 0 and i > delay_h:\n", "                if delay_h > 0 and i >= delay_h - 1:\n")], '''
from esat.model.sa import SA
V, U = data(20, 6, 3)
H = np.random.default_rng(3).random((3, 6)) + 0.1
for it in (1, 3, 5):
    sa = SA(V=V, U=U, factors=3, seed=1, method="ls-nmf", verbose=False)
    sa.initialize(H=H)
    start = sa.H.copy()
    sa.train(max_iter=it, hold_h=True, delay_h=5)
    check(np.array_equal(sa.H, start), f"held profiles changed after {it} of 5 delayed iterations")
''', "hold_h together with delay_h, stopping at the last delayed iteration", "the held profiles are released before the requested number of iterations")

plant("wh-stale", "P04", [("esat/model/sa.py", "        self.WH = np.matmul(self.W, self.H)\n", "        self.WH = np.matmul(self.W, self.H) if self.WH is None else self.WH\n")], '''
V, U = data(20, 6, 3)
sa = model(V, U, max_iter=5)
sa.train(max_iter=50)
check(np.allclose(sa.WH, sa.W @ sa.H), f"the estimate differs from W times H by {np.abs(sa.WH - sa.W @ sa.H).max():.3g}")
''', "training the same model a second time", "after more training the reported estimate is still that of the first training")




plant("save-residual-fmt", "P09", [("esat/model/sa.py", "np.savetxt(pfile, self.H, delimiter=',', header=header, comments=profile_comment)", "np.savetxt(pfile, self.H, fmt='%.8f', delimiter=',', header=header, comments=profile_comment)")], '''
d = tempfile.mkdtemp()
try:
    V, U = data(20, 6, 3)
    sa = model(V * 1e-6, U * 1e-6, max_iter=50)
    sa.H = sa.H * 1e-6; sa.WH = sa.W @ sa.H
    sa.save("m", d, header=list("abcdef"))
    rows = [l for l in open(os.path.join(d, "m-profile.csv")).read().splitlines() if l and (l[0].isdigit() or l[0] == "-")]
    H = np.array([[float(x) for x in l.split(",")] for l in rows])
    check(H.shape == sa.H.shape and np.allclose(H, sa.H, rtol=1e-9, atol=0), "the exported profiles are not those of the model")
finally:
    shutil.rmtree(d)
''', "profiles with values below about 1e-6, as concentrations in small units give", "the exported profile file loses small values")


plant("sn-mask", "P13", [("esat/data/datahandler.py", "        sn = (1 / d.shape[0]) * d.sum(axis=0)\n", "        sn = d.mean(axis=0)\n")], '''
from esat.data.datahandler import DataHandler
V, U = data(20, 3, 2)
V = V.copy(); V[:6, 1] = np.nan
idx = pd.date_range("2020-01-01", periods=20)
with quiet():
    dh = DataHandler.load_dataframe(pd.DataFrame(V, index=idx, columns=list("abc")), pd.DataFrame(U, index=idx, columns=list("abc")))
d = (V - U) / U
d = np.where(V <= U, 0, d)
want = np.nansum(d, axis=0) / 20
check(np.allclose(dh.metrics["S/N"], want, rtol=1e-6), f"S/N {list(dh.metrics['S/N'])}, expected {want}")
''', "a feature with missing values", "the signal to noise ratio of a feature with missing values is averaged over fewer samples")


plant("impute-knn-n", "P15", [("esat/data/impute.py", "        imputed_uncertainty = imputer2.fit_transform(U)\n        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)\n        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)\n        return self.imputed_data, self.imputed_uncertainty\n\n    def _run_iterative_imputer", "        imputed_uncertainty = imputer.fit(U.to_numpy()).transform(U.where(~np.isnan(V)).to_numpy())\n        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)\n        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)\n        return self.imputed_data, self.imputed_uncertainty\n\n    def _run_iterative_imputer")], '''
from esat.data.datahandler import DataHandler
from esat.data.impute import DataImputer
V, U = data(20, 4, 2)
V = V.copy(); V[3, 1] = np.nan; V[5, 2] = np.nan
idx = pd.date_range("2020-01-01", periods=20)
with quiet():
    dh = DataHandler.load_dataframe(pd.DataFrame(V, index=idx, columns=list("abcd")), pd.DataFrame(U, index=idx, columns=list("abcd")))
    v, u = DataImputer(dh).impute("knn")
check(np.allclose(u, U), "observed uncertainties changed")
check(not v.isna().any().any(), "gaps are left")
''', "the knn strategy on data whose concentrations are missing where the uncertainty is known", "observed uncertainty values are replaced by imputed ones")

plant("bs-unmapped", "P17", [("esat/error/bootstrap.py", "                    unmapped[j_k] += 1\n", "                    unmapped[j_v[\"match\"]] += 1\n")], '''
from types import SimpleNamespace as NS
from esat.error.bootstrap import Bootstrap
V, U = data(30, 6, 3, noise=0.6)
sa = model(V, U)
with quiet():
    bs = Bootstrap(sa=sa, feature_labels=list("abcdef"), model_selected=0, bootstrap_n=8, block_size=4, threshold=0.97, seed=3)
    bs.run(keep_H=False, reuse_seed=False)
df = bs.mapping_df
for i in range(3):
    n = sum(1 for r in bs.bs_results.values() if not r["mapping"][i]["mapped"])
    check(int(df["Unmapped"].iloc[i]) == n, f"factor {i + 1}: {n} runs unmapped, table shows {df['Unmapped'].iloc[i]}")
    check(df.iloc[i, 1:].sum() == 8, f"factor {i + 1}: the row does not count every run once")
''', "bootstrap factors that resemble a different base factor but stay below the threshold", "the unmapped runs are attributed to the wrong bootstrap factor")

plant("disp-min-source", "P19", [("esat/error/displacement.py", "                        dQ_drop = inc_dQ if inc_dQ < dec_dQ else dec_dQ\n", "                        dQ_drop = inc_dQ if abs(inc_dQ) > abs(dec_dQ) else dec_dQ\n")], '''
from esat.error.displacement import Displacement
V, U = data(20, 5, 2)
sa = model(V, U, k=2)
with quiet():
    d = Displacement(sa=sa, feature_labels=list("abcde"), model_selected=0, parallel=False)
    d.run()
    r = np.random.default_rng(0)
    for res in (d.increase_results, d.decrease_results):
        for f in res.values():
            for e in f.values():
                for x in e.values():
                    x["Q_drop"] = float(r.normal())
    d._compile_results()
for _, row in d.compiled_results.iterrows():
    f, j = f"factor-{int(row['factor']) + 1}", f"feature-{'abcde'.index(row['feature'])}"
    want = min(0.0, d.increase_results[f][j][row["dQ"]]["Q_drop"], d.decrease_results[f][j][row["dQ"]]["Q_drop"])
    check(np.isclose(row["dQ_drop"], want), f"{f} {j} dQ {row['dQ']}: largest decrease {want:.3f}, reported {row['dQ_drop']:.3f}")
''', "an element where one direction lowers the loss a little and the other raises it more", "the reported decrease of the loss is zero although one displacement lowered it")



plant("combine-first", "P25", [("eval/factor_comparison.py", "                        if model_avg_r > best_r:\n", "                        if model_avg_r > best_r or best_model != m:\n")], '''
from types import SimpleNamespace as NS
from esat_eval.factor_comparison import FactorCompare
r = np.random.default_rng(4)
H = r.random((3, 6)); W = r.random((15, 3))
mk = lambda h, w: NS(H=h, W=w, WH=w @ h, Qtrue=1.0, factors=3)
batch = NS(factors=3, results=[mk(H, W), mk(r.random((3, 6)), r.random((15, 3)))], best_model=0)
cols = [f"Factor {i}" for i in (1, 2, 3)]
feats = list("abcdef")
df = pd.DataFrame(W @ H, columns=feats)
with quiet():
    fc = FactorCompare(input_df=df, uncertainty_df=df * 0.1, base_profile_df=pd.DataFrame(H.T, columns=cols, index=feats), base_contribution_df=pd.DataFrame(W, columns=cols), batch_sa=batch)
    fc.compare(verbose=False)
check(fc.best_model == 0 and fc.best_avg_r > 0.999, f"model 0 is identical to the base, best is {fc.best_model} with {fc.best_avg_r:.3f}")
''', "a batch whose best matching model is not the last one", "the best match of the last model replaces that of a better model")

plant("stats-scaled", "P29", [("esat/data/analysis.py", "            se = np.std(i_residuals) / np.sqrt(len(i_residuals))\n", "            se = np.std(i_residuals) / np.sqrt(len(self.dh.input_data))\n")], '''
from esat.data.datahandler import DataHandler
from esat.data.analysis import ModelAnalysis
V, U = data(30, 4, 2)
V = V.copy(); V[[2, 9, 11, 20, 25], 1] = np.nan
idx = pd.date_range("2020-01-01", periods=30)
with quiet():
    dh = DataHandler.load_dataframe(pd.DataFrame(V, index=idx, columns=list("abcd")), pd.DataFrame(U, index=idx, columns=list("abcd")))
    v, u = dh.get_data()
    sa = model(v, u, k=2)
    a = ModelAnalysis(datahandler=dh, model=sa, selected_model=0)
    a.calculate_statistics()
res = v - sa.WH
want = res.std(axis=0) / np.sqrt(v.shape[0])
check(np.allclose(a.statistics["SE"], want, rtol=1e-3), f"standard errors {list(a.statistics['SE'])}, expected {want}")
''', "data with samples that were dropped for missing values", "the standard error counts samples the model never saw")


plant("ls-small-den", "P01", [("esat/model/ls_nmf.py", "        W_den = np.matmul(np.multiply(We, WH), H.T)\n", "        W_den = np.matmul(np.multiply(We, WH), H.T) + 1e-3\n")], '''
from esat.model.ls_nmf import LSNMF
from esat.metrics import q_loss
V, U0 = data(20, 6, 3)
sa = model(V, U0, max_iter=300, converge_delta=-1e9)
W, H = np.abs(sa.W).astype(float), sa.H.astype(float)
for s in (1.0, 1e-4):
    U = U0 / s                      # the weights scale with s**2
    We = 1 / U ** 2
    for hold in (True, False):
        w, h = LSNMF.update(V, We, W, H, hold_h=hold)
        a, b = q_loss(V, U, W, H), q_loss(V, U, w, h)
        check(b <= a * (1 + 1e-6), f"scale {s}, hold {hold}: one iteration takes the loss from {a:.6g} to {b:.6g}")
''', "uncertainties large enough that the denominators of the update are small", "the update no longer descends: an added constant in the denominator shrinks the contributions")

plant("ws-det", "P02", [("esat/model/ws_nmf.py", "            if npl.det(_w_dm) == 0:\n                _w_di = npl.pinv(_w_dm)\n", "            if npl.det(_w_dm) <= 1e-6:\n                _w_di = npl.pinv(_w_dm, rcond=1e-2)\n")], '''
from esat.model.ws_nmf import WSNMF
from esat.metrics import q_loss
V, U = data(20, 6, 3)
V = V - 2.0
for s in (1.0, 1e3):
    We = 1 / (U * s) ** 2
    H = np.random.default_rng(2).random((3, 6)) + 0.05
    H[2] = H[1] * 1.05 + 0.02 * H[2]
    W, _ = WSNMF.update(V, We, None, H, hold_h=True)
    want = np.array([np.linalg.lstsq(np.sqrt(We[i])[:, None] * H.T, np.sqrt(We[i]) * V[i], rcond=None)[0] for i in range(20)])
    check(np.allclose(W, want, rtol=1e-4, atol=1e-6 * np.abs(want).max()), f"scale {s}: contributions differ from the least squares solution by {np.abs(W - want).max():.3g}")
''', "similar profiles together with large uncertainties, which make a small determinant", "the contributions are no longer the least squares solution")

plant("weights-shared", "P06", [("esat/model/sa.py", "        self.U = U.astype(np.float32)\n", "        self.U = U.astype(np.float32, copy=False)\n")], '''
from esat.model.sa import SA
V, U = data(20, 6, 3)
V, U = V.astype(np.float32), U.astype(np.float32)
U[3, 2] = 0.0
U0 = U.copy()
sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
sa.initialize(); sa.train(max_iter=5)
check(np.array_equal(U, U0), f"the caller's uncertainty changed from {U0[3, 2]} to {U[3, 2]}")
''', "uncertainty passed as float32 that contains a zero", "the caller's uncertainty matrix is modified")

plant("u-tiny-negative", "P07", [("esat/model/sa.py", "            if self.U.min() < 0.0:\n", "            if round(float(self.U.min()), 6) < 0.0:\n")], '''
from esat.model.sa import SA
V, U = data(20, 6, 3)
U[3, 2] = -1e-8
try:
    sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
    sa.initialize()
    res = sa.train(max_iter=5)
except Exception as e:
    res = -1
check(res == -1, "a negative uncertainty was accepted and trained")
''', "a negative uncertainty of very small size", "a negative uncertainty passes the validation")

plant("prior-profiles", "P08", [("esat/model/sa.py", "            for i in range(prior_H.shape[0]):\n                H[i] = prior_H[i]\n", "            for i in range(1, prior_H.shape[0]):\n                H[i] = prior_H[i]\n            H[0] = prior_H[-1]\n")], '''
from esat.model.sa import SA
V, U = data(20, 6, 3)
P = np.random.default_rng(1).random((2, 6)) + 0.1
sa = SA(V=V, U=U, factors=4, seed=1, verbose=False)
sa.initialize(H=P.copy())
r = sa.H[:2] / P
check(np.allclose(r[0], r[1], rtol=1e-4), "the given profiles are not the first rows up to one scale per feature")
''', "two or more profiles given for a model with more factors", "the first of the given profiles is replaced by the last one")

plant("batch-h3", "P10", [("esat/model/batch_sa.py", "                            self.W = np.array(self.W)\n                            if len(self.W.shape) == 3:\n                                i_W = self.W[i - 1]\n", "                            self.W = np.array(self.W)\n                            if len(self.W.shape) == 3:\n                                i_W = self.W[0]\n")], '''
from esat.model.batch_sa import BatchSA
V, U = data(20, 6, 3)
r = np.random.default_rng(1)
W = r.random((3, 20, 2)) + 0.1; H = r.random((3, 2, 6)) + 0.1
out = []
for par in (False, True):
    with quiet():
        b = BatchSA(V=V, U=U, factors=2, models=3, max_iter=3, converge_n=10, seed=4, H=H.copy(), W=W.copy(), parallel=par, cores=2, verbose=False)
        ok, _ = b.train()
    out.append([s.W for s in b.results])
for i in range(3):
    check(np.allclose(out[0][i], out[1][i], rtol=1e-5), f"model {i + 1} differs between sequential and parallel training")
''', "a parallel batch given one contribution matrix per model", "every model of a parallel batch starts from the first model's contributions")

plant("batch-save-gap", "P11", [("esat/model/batch_sa.py", "                for i, _nmf in enumerate(self.results):\n                    if _nmf is not None:\n                        file_name", "                for i, _nmf in enumerate(sorted((r for r in self.results if r is not None), key=lambda r: r.Qrobust)):\n                    if _nmf is not None:\n                        file_name")], '''
from esat.model.batch_sa import BatchSA
V, U = data(20, 6, 3, noise=0.3)
d = tempfile.mkdtemp()
try:
    with quiet():
        b = BatchSA(V=V, U=U, factors=2, models=4, max_iter=8, converge_n=10, seed=4, parallel=False, verbose=False)
        b.train()
        b.save("b", d, pickle_batch=False, header=list("abcdef"))
    for i, m in enumerate(b.results):
        rows = [l for l in open(os.path.join(d, f"b-model-{i}-profile.csv")).read().splitlines() if l and l[0].isdigit()]
        H = np.array([[float(x) for x in l.split(",")] for l in rows])
        check(np.allclose(H, m.H, rtol=1e-6), f"the files of model {i} hold another model")
finally:
    shutil.rmtree(d)
''', "a batch whose models are not already in order of their loss", "the exported files of a model hold another model")

plant("weak-bad-order", "P12", [("esat/data/datahandler.py", "        weak_features = list(self.metrics.loc[self.metrics[\"Category\"] == \"weak\"].index)\n", "        weak_features = list(self.metrics.index[[i for i, c in enumerate(self.metrics.drop(index=bad_features)[\"Category\"]) if c == \"weak\"]])\n        weak_features = [wf for wf in weak_features if wf in _uncertainty_data.columns]\n")], '''
from esat.data.datahandler import DataHandler
V, U = data(20, 4, 2)
idx = pd.date_range("2020-01-01", periods=20)
with quiet():
    dh = DataHandler.load_dataframe(pd.DataFrame(V, index=idx, columns=list("abcd")), pd.DataFrame(U, index=idx, columns=list("abcd")))
    dh.set_category("a", "bad"); dh.set_category("c", "weak")
    v, u = dh.get_data()
want = U[:, 1:] * [1, 3, 1]
check(np.allclose(u, want, rtol=1e-5), f"factors of the uncertainty {np.round((u / U[:, 1:]).mean(axis=0), 2)}, expected 1, 3, 1")
''', "a weak feature after a bad one", "the tripled uncertainty goes to a different feature than the weak one")

plant("expr-shared-term", "P21", [("esat/rotational/constrained.py", "                        exp_mapping[e_terms0][\"coef\"].append(e_coef)\n", "                        exp_mapping[e_terms0][\"coef\"].append(abs(e_coef))\n")], '''
from types import SimpleNamespace as NS
from esat.rotational.constrained import ConstrainedModel
V, U = data(20, 6, 3)
sa = model(V, U)
cm = ConstrainedModel(base_model=sa, data_handler=NS(features=list("abcdef")))
cm.add_expression("(2.0*[factor:0|feature:1])-(1.0*[factor:1|feature:1])=0,50")
cm.add_expression("(3.0*[factor:2|feature:1])-(4.0*[factor:1|feature:1])=0,50")
with quiet():
    cm.train(max_iterations=1)
c = {k: dict(zip(v["exp_i"], v["coef"])) for k, v in cm.expression_mapped.items()}
check(c == {"factor:0|feature:1": {0: 2.0}, "factor:1|feature:1": {0: -1.0, 1: -4.0}, "factor:2|feature:1": {1: 3.0}}, f"coefficients {c}")
''', "two expressions that share an element which is subtracted in the later one", "the sign of a shared element is lost in the second expression")

plant("sim-curve-swap", "P24", [("eval/simulator.py", "                self.syn_profiles[i] = _profiles[i]\n", "                self.syn_profiles[i] = _profiles[i] / max(1.0, _profiles[i].max())\n")], '''
from esat_eval.simulator import Simulator
P = np.random.default_rng(1).random((2, 6)) * 5
with quiet():
    s = Simulator(seed=3, factors_n=4, features_n=6, samples_n=40, verbose=False)
    s.generate_profiles(profiles=P.copy())
check(np.allclose(s.syn_profiles[:2], P), "the customised profiles are not the ones used")
''', "fewer customised profiles than factors, with values above one", "customised profiles are rescaled")
PLANTS = P
