import os, runpy
LIB = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["LIB"]
P = []


def plant(id, property, edits, demo, needs, breaks):
    P.append(dict(id=id, property=property, edits=edits, demo=LIB + demo, needs=needs, breaks=breaks))


plant("bs-small-conc", "P17", [("esat/error/bootstrap.py", "                i_sum[i_sum < 1e-8] = 0\n", "                i_sum[i_sum < 1e-2] = 0\n")], '''
from esat.error.bootstrap import Bootstrap
V, U = data(24, 5)
V, U = V * 1e-4, U * 1e-4          # the same data in other units
sa = model(V, U)
with quiet():
    bs = Bootstrap(sa=sa, feature_labels=list("abcde"), model_selected=0, bootstrap_n=4, block_size=4, seed=3)
    bs.run()
for f in range(3):
    for (k, r), row in zip(bs.bs_results.items(), bs.bs_factor_contributions[f]):
        s = np.outer(r["model"].W[:, f], r["model"].H[f]).sum(axis=0)
        check(np.allclose(row, np.round(s, 4), atol=2e-4), f"run {k} factor {f}: concentrations {row} for {s}")
''', "data in small units, so that the summed concentration of a factor is below one hundredth", "small factor concentrations of the bootstrap runs are reported as zero")

plant("bsdisp-fitswap", "P20", [("esat/error/bs_disp.py", "            fit_swap += 1 if _table[i, i] < self.bootstrap_n else 0\n", "            fit_swap += 1 if _table[i].max() < self.bootstrap_n else 0\n")], '''
import esat.error.bs_disp as m
from esat.error.bootstrap import Bootstrap
V, U = data(20, 4, 3)
sa = model(V, U, k=3)
labels = list("abcd")


class FakeDisp:
    def __init__(self, *a, **k):
        self.dQmax = [0.5, 1, 2, 4]

    def run(self, batch=1):
        rows = [dict(factor=f, feature=l, dQ=q, profile=0.5, profile_max=0.6, profile_min=0.4, conc=1.0, conc_max=2.0,
                     conc_min=0.5, dQ_drop=0.0) for f in range(3) for l in labels for q in self.dQmax]
        self.compiled_results = pd.DataFrame(rows)
        self.swap_table = np.zeros((4, 3)); self.count_table = np.ones((4, 3))


with quiet():
    bs = Bootstrap(sa=sa, feature_labels=labels, model_selected=0, bootstrap_n=4, block_size=5, seed=3)
    bs.run()
    t = bs.mapping_df
    t.iloc[:, 1:5] = 0
    t.iloc[0, 1] = 4            # always found again
    t.iloc[1, 3] = 4            # always found as the third factor
    t.iloc[2, 3] = 4
    m.Displacement = FakeDisp
    b = m.BSDISP(sa=sa, feature_labels=labels, model_selected=0, bootstrap=bs, bootstrap_n=4)
    b.run(parallel=False)
check(b.fit_swaps == 1, f"one factor is not found again by every bootstrap run, {b.fit_swaps} counted")
''', "a factor that every bootstrap run maps to the same other base factor", "that factor is not counted among the best fit swaps")

plant("expr-budget-last", "P22", [("esat/rotational/constrained.py", "                total_dQ += exp[1]\n", "                total_dQ = exp[1]\n")], '''
from types import SimpleNamespace as NS
from esat.rotational.constrained import ConstrainedModel
V, U = data(20, 6, 3)
sa = model(V, U, max_iter=400)


def dist(limits):
    cm = ConstrainedModel(base_model=sa, data_handler=NS(features=list("abcdef")))
    for (f, g, x), lim in zip([(0, 1, 1), (1, 2, 3)], limits):
        cm.add_expression(f"(1.0*[factor:{f}|feature:{x}])-(1.0*[factor:{g}|feature:{x}])=0,{lim}")
    with quiet():
        cm.train(max_iterations=1)
    return cm


a, b = dist((400, 0.5)), dist((0.5, 400))
qa, qb = (float(np.abs(x.constrained_model.H - sa.H).sum()) for x in (a, b))
check(np.isclose(qa, qb, rtol=1e-6), f"the order of the expressions changes what they may change together: {qa} against {qb}")
''', "several expressions whose loss limits differ, the last one smaller than the sum", "only the limit of the last expression is used, so the order of the expressions changes the result")

plant("block-stationary", "P13", [("esat/data/datahandler.py", "                    optimal_block.append(opt.b_star_cb)\n", "                    optimal_block.append(opt.b_star_sb)\n")], '''
from esat.data.datahandler import DataHandler
from esat.model.recombinator import optimal_block_length
import math
r = np.random.default_rng(5)
x = np.zeros((300, 4))
for t in range(1, 300):
    x[t] = 0.8 * x[t - 1] + r.standard_normal(4)
V = pd.DataFrame(x - x.min() + 0.1, columns=list("abcd"))
with quiet():
    dh = DataHandler.load_dataframe(V, V * 0.1 + 0.05)
    dh.get_data()
want = max(1, math.floor(np.mean([o.b_star_cb for o in optimal_block_length(V.to_numpy())])))
check(dh.optimal_block == want, f"block size {dh.optimal_block}, {want} by the circular block bootstrap")
''', "autocorrelated features, whose block sizes for the circular and the stationary bootstrap differ by more than the rounding",
    "the block size of the stationary bootstrap is used for the circular block bootstrap")

plant("split-latlon", "P14", [("esat/data/datahandler.py", "            locations = rounded_input[self.loc_cols].drop_duplicates()\n", "            locations = self.input_data[self.loc_cols].drop_duplicates()\n")], '''
from esat.data.datahandler import DataHandler
r = np.random.default_rng(3)
V = pd.DataFrame(r.random((20, 3)) + 0.1, columns=list("abc"))
V["latitude"] = [40.1234567] * 10 + [41.5] * 10
V["longitude"] = [-70.7654321] * 10 + [-71.25] * 10
U = V * 0.1
U[["latitude", "longitude"]] = V[["latitude", "longitude"]]
d = tempfile.mkdtemp()
try:
    V.index.name = U.index.name = "Date"
    V.to_csv(os.path.join(d, "v.csv")); U.to_csv(os.path.join(d, "u.csv"))
    with quiet():
        dh = DataHandler(input_path=os.path.join(d, "v.csv"), uncertainty_path=os.path.join(d, "u.csv"), index_col="Date", loc_cols=["latitude", "longitude"])
        parts = dh.split_locations()
finally:
    shutil.rmtree(d)
check(sorted(len(p.input_data) for p in parts) == [10, 10], f"samples per location {[len(p.input_data) for p in parts]}")
''', "coordinates given with more than five decimals", "the samples of such a location are lost by the split")

plant("summary-floor", "P30", [("esat/error/error.py", "            bs_data[bs_data < 1e-4] = 1e-4\n", "            bs_data[bs_data < 1e-2] = 1e-2\n")], '''
from esat.error.bootstrap import Bootstrap
from esat.error.error import Error
import plotly.graph_objects as go
V, U = data(24, 5)
V, U = V * 1e-4, U * 1e-4
sa = model(V, U)
figs = []
go.Figure.show = lambda self, *a, **k: figs.append(self)
with quiet():
    bs = Bootstrap(sa=sa, feature_labels=list("abcde"), model_selected=0, bootstrap_n=5, block_size=4, seed=3)
    bs.run()
    Error(bs=bs).plot_summary(1)
bar = [t for t in figs[0].data if t.name == "BS"][0]
c = np.maximum(np.array(bs.bs_factor_contributions[0]), 1e-4)
check(np.allclose(np.array(bar.base, dtype=float), c.min(axis=0)), f"lower ends {list(bar.base)} for {c.min(axis=0)}")
check(np.allclose(np.array(bar.y, dtype=float), c.max(axis=0) - c.min(axis=0)), f"lengths {list(bar.y)}")
''', "data in small units, so that the concentrations lie below one hundredth", "the bootstrap range of the summary is flattened to the floor")

plant("est-median", "P23", [("esat/estimator.py", "        self.q_robust = [np.mean(i) for i in self.q_robust]\n", "        self.q_robust = [np.median(i) if len(i) else np.nan for i in self.q_robust]\n")], '''
from esat.estimator import FactorEstimator
V, U = data(15, 5)
seen = {}
old = FactorEstimator._update_pbar


def watch(self, r):
    seen.setdefault(int(r[2]), []).append(r[4])
    return old(self, r)


FactorEstimator._update_pbar = watch
with quiet():
    e = FactorEstimator(V=V, U=U, seed=4)
    df = e.run(samples=14, min_factors=2, max_factors=3, max_iterations=30)
for k, q in zip(df["Factors"], df["Q(Robust)"]):
    if k in seen:
        check(np.isclose(q, np.mean(seen[k])), f"factors {k}: Q(Robust) {q} for samples {seen[k]}")
''', "three or more sampled models with the same number of factors and differing robust losses", "the reported robust loss is the median, the other columns are means")

plant("perturb-last-sigma", "P26", [("eval/perturbation.py", "            i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)\n", "            i_logn = rng.lognormal(i_mean, sigma[0], size=self.U[:, i].shape)\n")], '''
from esat_eval.perturbation import Perturbation
V, U = data(400, 3)
with quiet():
    p = Perturbation(V=V, U=U, factors=2, perturb_percent=1.0, sigma=[0.0, 0.2, 1.0], models=2)
_, m = p.perturb(7)
s = np.log(m).std(axis=0)
check(np.allclose(s, [0.0, 0.2, 1.0], atol=0.12), f"spread of the multipliers {s}")
''', "a sigma for each feature", "every feature is perturbed with the sigma of the first")

plant("catalog-outlier", "P27", [("eval/factor_catalog.py", "                loss_list.append(model.Qtrue)\n", "                loss_list.append(model.Qrobust)\n")], '''
from esat_eval.factor_catalog import FactorCatalog
from types import SimpleNamespace as NS
r = np.random.default_rng(2)


def m(qt, qr):
    return NS(Qtrue=qt, Qrobust=qr, factors=2, H=r.random((2, 6)), W=r.random((20, 2)))


batch = NS(results=[m(100.0, 40.0), m(120.0, 45.0), m(400.0, 50.0)])
with quiet():
    c = FactorCatalog(method="corr", threshold=0.9, exclude_outliers=True, outlier_threshold=1.5)
    c.add_batch(batch)
check(c.model_count == 2, f"{c.model_count} models cataloged, two lie within 1.5 times the smallest loss")
''', "outlier models excluded in a batch whose robust losses are far below the losses", "models near the best one are excluded as outliers")

plant("cli-bsdisp-threshold", "P31", [("esat/cli/esat_cli.py", '            threshold=float(e_config["bsdisp"]["threshold"]),\n', '            threshold=float(e_config["bs"]["threshold"]),\n')], '''
import configparser
from click.testing import CliRunner
from esat.cli.esat_cli import esat_cli
from esat.error.bs_disp import BSDISP
V, U = data(16, 4, 2)
d = tempfile.mkdtemp()
try:
    idx = pd.Index([str(x) for x in pd.date_range("2021-01-01", periods=16)], name="Date")
    for n, x in (("con.csv", V), ("unc.csv", U)):
        pd.DataFrame(x, columns=list("abcd"), index=idx).to_csv(os.path.join(d, n))
    p = os.path.join(d, "project")

    def edit(name, **s):
        c = configparser.ConfigParser(); c.read(os.path.join(p, name))
        for k, v in s.items():
            for a, b in v.items():
                c[k][a] = str(b)
        with open(os.path.join(p, name), "w") as f:
            c.write(f)

    def call(*a):
        with quiet():
            r = CliRunner().invoke(esat_cli, list(a))
        check(r.exit_code == 0, f"{a}: {r.output} {r.exception!r}")

    call("setup", p)
    edit("run_config.toml", project=dict(name="x"), parameters=dict(factors=2, models=1, max_iter=100, parallel=False),
         data=dict(input_path=os.path.join(d, "con.csv"), uncertainty_path=os.path.join(d, "unc.csv"), index_col="Date"))
    call("run", p)
    call("setup-error", p)
    edit("error_config.toml", bs=dict(threshold=0.2), bsdisp=dict(threshold=0.9, bootstrap_n=2, features="[0]"))
    call("run-error", p, "--bsdisp")
    found = [os.path.join(r, f) for r, _, fs in os.walk(p) for f in fs if f == "bsdisp-x.pkl"]
    b = BSDISP.load(found[0])
    t = b.bootstrap.threshold
    check(t == 0.9, f"mapping threshold {t} of the bootstrap of bsdisp, 0.9 configured")
finally:
    shutil.rmtree(d)
''', "configured thresholds of bs and of bsdisp that differ", "the bsdisp run maps its bootstrap factors with the threshold of another section")

plant("disp-resave", "P33", [("esat/error/displacement.py", '                with open(file_path, "wb") as save_file:\n', '                with open(file_path, "ab") as save_file:\n')], '''
from esat.error.displacement import Displacement
V, U = data(20, 5, 2)
d = tempfile.mkdtemp()
try:
    for s in (1, 5):
        sa = model(V, U, k=2, seed=s)
        x = Displacement(sa=sa, feature_labels=list("abcde"), model_selected=s, features=[0], cores=2)
        with quiet():
            x.run()
            f = x.save("disp", d, pickle_result=True)
    y = Displacement.load(str(f))
    check(y is not None and np.array_equal(y.H, x.H), "loading does not return what was saved last")
finally:
    shutil.rmtree(d)
''', "saving a second result under the name of an earlier one", "the saved file is appended to, so loading returns the older result")

plant("compare-contribution-r2", "P25", [("eval/simulator.py", '''            i_r2_con = factor_compare['best_contribution_r'][i-1]
''', '''            i_r2_con = factor_compare['best_contribution_r'][min(map_i, factors_n) - 1]
''')], '''
from types import SimpleNamespace as NS
from esat_eval.simulator import Simulator
import plotly.graph_objects as go
figs = []
go.Figure.show = lambda self, *a, **k: figs.append(self)
with quiet():
    s = Simulator(seed=3, factors_n=3, features_n=6, samples_n=40, verbose=False)
    s.get_data()
s.batch_sa = NS(results=[NS(H=s.syn_profiles[[1, 2, 0]], W=s.syn_contributions[:, [1, 2, 0]])])
s.factor_compare = NS(best_model=0, base_k=True, sa_factors=list("abc"), base_factors=list("abc"), model_results=[dict(
    factor_map=["Factor 2", "Factor 3", "Factor 1"], best_factor_r=[0.9, 0.8, 0.7], best_contribution_r=[0.6, 0.5, 0.4])])
with quiet():
    s.plot_comparison()
for f, a, b in zip(figs, (0.9, 0.8, 0.7), (0.6, 0.5, 0.4)):
    t = [x.text for x in f.layout.annotations]
    check(t[0].endswith(str(a)) and t[1].endswith(str(b)), f"titles {t}, matched with {a} and {b}")
''', "a mapping that is not the identity", "the contribution match shown belongs to another factor")

plant("negative-engine", "P28", [("esat/model/sa.py", '''                self.optimized = False
''', '''                self.optimized = self.__has_neg
''')], '''
from esat.model.sa import SA
sys.modules["esat_rust"] = None
V, U = data(20, 5)
V[3, 2] = -0.05
sa = SA(V=V, U=U, factors=2, seed=1, method="ws-nmf", verbose=False)
sa.initialize()
try:
    with quiet():
        sa.train(max_iter=20, converge_n=5, converge_delta=0.1)
except Exception as e:
    check(False, f"training without the compiled extension: {e!r}")
check(sa.Qtrue is not None and np.isfinite(sa.Qtrue), "no finished model without the compiled extension")
''', "a dataset with a negative value, and no compiled extension", "the compiled engine is used though it is not there, so the model cannot be trained")

plant("batch-rerun", "P10", [("esat/model/batch_sa.py", '''                    self.results = []
                    best_Q = float("inf")
''', '''                    self.results = self.results[:0] if self.best_model is None else self.results
                    best_Q = float("inf")
''')], '''
from esat.model.batch_sa import BatchSA
V, U = data(16, 5)
b = BatchSA(V=V, U=U, factors=2, models=3, seed=4, max_iter=30, converge_n=5, converge_delta=0.1, parallel=False, verbose=False)
with quiet():
    for _ in range(2):
        ok = b.train()
        check(ok[0] is True and len(b.results) == 3, f"{len(b.results)} models in the batch, 3 requested")
        q = [r.Qrobust for r in b.results]
        check(b.best_model == int(np.argmin(q)), f"best model {b.best_model} with losses {q}")
''', "training the same batch object a second time", "the batch keeps the models of its first training, and the best index points into the wrong ones")

plant("perturb-rerun", "P26", [("eval/perturbation.py", '''        perturbed_multipliers = []
        print(''', '''        perturbed_multipliers = [m for m in self.perturbed_multipliers or []]
        print(''')], '''
from esat_eval.perturbation import Perturbation
V, U = data(14, 5)
p = Perturbation(V, U, factors=2, base_model=model(V, U, k=2), random_seed=3, models=2, max_iterations=20, converge_n=5, converge_delta=0.1)
with quiet():
    for _ in range(2):
        p.run()
        check(len(p.perturbed_models) == len(p.perturbed_multipliers) == 2, f"{len(p.perturbed_models)} models, {len(p.perturbed_multipliers)} multiplier matrices")
        for m, x in zip(p.perturbed_models, p.perturbed_multipliers):
            check(np.allclose(m.U, U * x, rtol=1e-5), "a model was not trained with the matrix reported for it")
''', "running the same analysis object a second time", "the multiplier matrices of the first run are reported for the models of the second")

plant("category-after-data", "P12", [("esat/data/datahandler.py", '''        self._set_dataset()
        return self.input_data_processed, self.uncertainty_data_processed
''', '''        if self.input_data_processed is None or len(self.input_data_processed[0]) != (self.metrics["Category"] != "bad").sum():
            self._set_dataset()
        return self.input_data_processed, self.uncertainty_data_processed
''')], '''
from esat.data.datahandler import DataHandler
V, U = data(12, 4)
cols = list("abcd")
ix = pd.date_range("2021-01-01", periods=12, name="Date")
with quiet():
    dh = DataHandler.load_dataframe(input_df=pd.DataFrame(V, columns=cols, index=ix), uncertainty_df=pd.DataFrame(U, columns=cols, index=ix))
    v0, u0 = dh.get_data()
    dh.set_category("b", "weak")
    v1, u1 = dh.get_data()
check(np.allclose(np.asarray(u1)[:, 1], 3 * np.asarray(u0)[:, 1]), "the uncertainty of a weak feature is not tripled")
''', "getting the data once, then changing a category to weak, then getting it again", "the data prepared before the change is returned")

plant("stale-expressions", "P22", [("esat/rotational/constrained.py", '''        self._map_expressions()

        V =''', '''        if self.expression_labeled is None or len(self.expression_labeled) != len(self.expressions):
            self._map_expressions()

        V =''')], '''
from esat.rotational.constrained import ConstrainedModel
V, U = data(20, 6, 3)
sa = model(V, U, k=3)
a, b = "(1.0*[factor:0|feature:1])-(2.0*[factor:1|feature:1])=0,250", "(0.5*[factor:1|feature:4])-(3.0*[factor:2|feature:4])=0,250"


def run(*steps):
    cm = ConstrainedModel(base_model=sa, data_handler=None)
    for s in steps:
        while cm.expressions:
            cm.remove_expression(0)
        cm.add_expression(s)
        with quiet():
            cm.train(max_iterations=15, converge_delta=0.0, converge_n=5)
    return cm.constrained_model


one, two = run(b), run(a, b)
check(np.allclose(one.H, two.H) and np.allclose(one.W, two.W), "an expression of an earlier run, removed since, still shapes the solution")
''', "training, replacing an expression by another one, training again", "the second run still follows the expression that was removed")

plant("compare-two-digit", "P25", [("eval/factor_comparison.py", '''                    model_j = model_m.loc[j].astype(float)
''', '''                    model_j = model_m[model_m.index.str.startswith(j)].iloc[-1].astype(float)
''')], '''
from types import SimpleNamespace as NS
from esat_eval.factor_comparison import FactorCompare
r = np.random.default_rng(2)
m, n, k = 8, 14, 11
W, H = r.gamma(1, 1, (m, k)), r.gamma(1, 1, (k, n))
Wb, Hb = W[:, [0]].copy(), H[[0]].copy()
cols = [f"s{j}" for j in range(n)]
V = W @ H
sa = NS(W=W, H=H, WH=V, Qtrue=0.0)
with quiet():
    fc = FactorCompare(pd.DataFrame(V, columns=cols), pd.DataFrame(0.1 * V, columns=cols), pd.DataFrame(Hb.T, columns=["Factor 1"], index=cols),
                       pd.DataFrame(Wb, columns=["Factor 1"]), NS(factors=k, results=[sa], best_model=0), method="H")
    fc.compare(verbose=False)
check(fc.factor_map == ["Factor 1"] and fc.best_factor_r[0] > 0.999, f"{fc.factor_map} with {fc.best_factor_r} for a model whose first factor is the base factor")
''', "a model with ten or more factors", "the first factor is compared with the profile of the tenth or later one, so the mapping found is not the best")

plant("summary-zeros", "P04", [("esat/model/sa.py", "MSE(true): {float(self.Qtrue/self.V.size):.4f}\\t", "MSE(true): {float(self.Qtrue/np.count_nonzero(self.V)):.4f}\\t")], '''
import logging, re
V, U = data(20, 5)
V[::3, 1] = 0.0
sa = model(V, U)
lines, log = [], logging.getLogger("esat.model.sa")


class Keep(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())


logging.disable(logging.NOTSET)
log.addHandler(Keep())
log.setLevel(logging.INFO)
log.disabled = False
sa.summary()
mse = [float(x) for l in lines for x in re.findall(r"MSE[(]true[)]: ([-+.0-9e]+)", l)]
check(len(mse) == 1 and abs(mse[0] - float(sa.Qtrue) / V.size) < 1e-3, f"{mse} said, {float(sa.Qtrue) / V.size} per reading")
''', "a dataset with readings of zero, and the printed summary", "the mean squared error said to be that of the model is taken over the readings that are not zero only")

plant("start-fallback", "P10", [("esat/model/batch_sa.py", '''                        logger.info(f"Training model {model_i} with seed {_seed}.")
                        run = _sa''', '''                        if _sa.H.shape[1] != self.V.shape[1] or _sa.W.shape[0] != self.V.shape[0]:
                            logger.warning("The provided start matrices do not fit the data.")
                            _sa.H = _sa.W = None
                            _sa.initialize(init_method=self.init_method, init_norm=self.init_norm)
                        logger.info(f"Training model {model_i} from its start with seed {_seed}.")
                        run = _sa''')], '''
from esat.model.batch_sa import BatchSA
V, U = data(20, 5)
r = np.random.default_rng(3)
with quiet():
    good = BatchSA(V=V, U=U, factors=3, models=2, max_iter=5, seed=1, parallel=False, verbose=False, W=r.random((20, 3)) + 0.1)
    bad = BatchSA(V=V, U=U, factors=3, models=2, max_iter=5, seed=1, parallel=False, verbose=False, W=r.random((21, 3)) + 0.1)
    a, b = good.train(), bad.train()
check(a[0] is True, f"{a} with contributions that fit")
check(b[0] is False and b[1], f"{b} with starting contributions of 21 samples for a dataset of 20")
''', "starting contributions with another number of samples than the dataset has", "the batch trains from starts of its own instead and says that it succeeded")

PLANTS = P
