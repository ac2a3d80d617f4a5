"""P31: every command of the command line does what the configuration says, and shows what the project holds."""
import configparser
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd
from click.testing import CliRunner

from mon import gen
from mon.core import Scenario
from mon.instr import limited, patched
from mon.props.p16 import same_snap, snap
from mon.props.p17 import same_bootstrap, shown
from mon.props.p19 import same_displacement
from mon.props.p20 import same_combined
from mon.props.p21 import listening
import esat.cli.esat_cli as cli
from esat.data.analysis import BatchAnalysis, ModelAnalysis
from esat.data.datahandler import DataHandler
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.estimator import FactorEstimator
from esat.model.batch_sa import BatchSA
from esat.rotational.constrained import ConstrainedModel
from esat_eval.simulator import Simulator

TECHNIQUE = "differential runtime monitoring: project histories of commands against the same workflow through the library, figures and files captured"
NOTE = ("Each project is configured through its configuration files and driven by commands; every saved result and shown figure is "
        "compared with the library called with the typed values. Sampled configurations, constraints and command histories.")
RULE = ("each case sets up a project with a drawn configuration and runs a history of commands; distinct by (workflow, parameters, commands)")
ASSUMPTIONS = ["figures are captured at plotly's show", "commands are invoked in the process of the monitor, a sample of them in their own"]
REQUIRED = {"commands": 120, "models_compared": 15, "figures_compared": 80, "error_runs": 5, "constrained_runs": 4, "simulated_runs": 3, "refused_commands": 30}
ROOT = cli.esat_cli


class Project:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = str(ctx.scratch / "project")
        self.where = self.dir
        self.runner = CliRunner()

    def call(self, *args, own=False, refused=False):
        """figures shown and messages logged by one command"""
        args = [str(a) for a in args]
        at = 1 if args[0] in ("setup", "run", "estimate", "setup-error", "run-error", "setup-constrained", "run-constrained") else 2
        args.insert(at, self.where)
        self.ctx.count("commands")
        self.ctx.distinct(tuple(a for a in args if a != self.where))
        what = " ".join(a for a in args if a != self.where)
        if refused:
            with shown() as figs, listening("") as seen:
                r = self.runner.invoke(ROOT, args)
            self.ctx.count("refused_commands")
            self.ctx.check(not figs, "figure-of-nothing", f"{what}: {len(figs)} figures")
            said = "\n".join(seen.lines) + r.output + str(r.exception or "")
            self.ctx.check(said.strip(), "refused-silently", f"{what}: exit {r.exit_code}, no message")
            return figs, said
        if own:
            self.ctx.count("own_process")
            r = subprocess.run([sys.executable, "-c", "from esat.cli.esat_cli import esat_cli; esat_cli()"] + args,
                               capture_output=True, text=True, timeout=200)
            self.ctx.require(r.returncode == 0, "command-failed", f"{what}: exit {r.returncode} {r.stderr[-300:]}")
            return [], ""
        with shown() as figs, listening("") as seen:
            r = self.runner.invoke(ROOT, args)
        if r.exit_code != 0:
            e = r.exception
            tb, last = r.exc_info[2], None
            while tb:
                last, tb = tb, tb.tb_next
            at = f"{os.path.basename(last.tb_frame.f_code.co_filename)}:{last.tb_lineno}" if last else ""
            self.ctx.fail("command-failed", f"{what}: exit {r.exit_code} {type(e).__name__} {e} at {at} {r.output[-200:] if r.exit_code == 2 else ''}")
        return figs, "\n".join(seen.lines)

    def config(self, name, **sections):
        """edits a configuration file the way a user does, and returns it"""
        c = configparser.ConfigParser()
        path = os.path.join(self.dir, name)
        self.ctx.require(bool(c.read(path)), "configuration-missing", f"{name}")
        for s, kv in sections.items():
            self.ctx.require(c.has_section(s), "configuration-section", f"{name}: no section {s}")
            for k, v in kv.items():
                self.ctx.require(c.has_option(s, k), "configuration-option", f"{name}: no option {s}.{k}")
                c[s][k] = str(v)
        with open(path, "w") as f:
            c.write(f)
        return c


def plain(fig):
    d = json.loads(fig.to_json())
    return d


def same_figures(ctx, got, want, what):
    ctx.require(len(got) == len(want), "figures-shown", f"{what}: {len(got)} figures, {len(want)} expected")
    for a, b in zip(got, want):
        ctx.count("figures_compared")
        ctx.check(plain(a) == plain(b), "figure-differs", f"{what}: {str(plain(a))[:200]} against {str(plain(b))[:200]}")


def library(call):
    with shown() as figs:
        call()
    return figs


def dataset(ctx, positive=True):
    rng = ctx.rng
    m, n, k = int(rng.integers(12, 30)), int(rng.integers(4, 7)), int(rng.integers(2, 4))
    V, U, kind, k = gen.dataset(rng, kind=["noisy", "lowrank"][rng.integers(2)], m=m, n=n, k=k, positive=positive)
    idx = pd.Index([str(x) for x in pd.date_range("2021-03-01", periods=len(V), freq=["D", "h"][rng.integers(2)])], name="Date")
    cols = [f"s{j}" for j in rng.permutation(n)]
    v, u = pd.DataFrame(V, columns=cols, index=idx), pd.DataFrame(U, columns=cols, index=idx)
    a, b = str(ctx.scratch / "con.csv"), str(ctx.scratch / "unc.csv")
    at = int(rng.integers(n + 1)) if rng.random() < 0.3 else 0          # the position of the time column
    for x, path in ((v, a), (u, b)):
        x = x.reset_index()
        x.insert(at, "Date", x.pop("Date"))
        x.to_csv(path, index=False)
    return a, b, k, at


def new_project(ctx, models=None, min_steps=3):
    rng = ctx.rng
    p = Project(ctx)
    a, b, k, at = dataset(ctx)
    own = bool(rng.random() < 0.15)
    old = os.getcwd()
    relative = bool(rng.random() < 0.3)
    if relative:
        os.chdir(str(ctx.scratch))
        p.where = "project"
    p.restore = lambda: os.chdir(old)
    p.call("setup", own=own)
    ctx.require(os.path.exists(os.path.join(p.dir, "run_config.toml")), "configuration-missing", "setup")
    par = dict(factors=k, models=models or int(rng.integers(1, 5)), method=["ls-nmf", "ws-nmf"][rng.integers(2)], init_norm=bool(rng.random() < 0.6),
               init_method=["col_means", "column_mean", "kmeans"][rng.integers(3)], seed=int(rng.integers(1000)), max_iter=int(rng.integers(min_steps, 40)),
               converge_delta=float(rng.choice([0.0001, 0.5, 20.0])), converge_n=int(rng.integers(2, 20)), verbose=bool(rng.integers(2)),
               parallel=str(rng.choice(["True", "true"] if rng.random() < 0.25 else ["False", "false"])))
    index = "Date" if rng.random() < 0.4 else at
    name = str(rng.choice(["proj", "p 1", "a.b"]))
    p.config("run_config.toml", project=dict(name=name), parameters=par, data=dict(input_path=a, uncertainty_path=b, index_col=index))
    p.name, p.par, p.files = name, dict(par, parallel=par["parallel"].lower() == "true"), (a, b)
    ctx.note(parameters=par, index=index, relative=relative, name=name)
    return p, own


def library_batch(p):
    dh = DataHandler(input_path=p.files[0], uncertainty_path=p.files[1], index_col="Date")
    V, U = dh.get_data()
    b = BatchSA(V=V, U=U, **p.par)
    b.train()
    return dh, b


def differs(a, b):
    out = same_snap(snap(a), snap(b))
    out = [out] if isinstance(out, str) else list(out or [])
    for n in ("factors", "method", "seed", "converged", "converge_steps"):
        if getattr(a, n) != getattr(b, n):
            out.append(n)
    x, y = ({k: v for k, v in s.metadata.items() if k not in ("creation_date", "completion_date")} for s in (a, b))
    return out + [f"{k}: {x.get(k)} / {y.get(k)}" for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]


def check_batch(ctx, p, own=False):
    p.call("run", own=own)
    path = os.path.join(p.dir, "output", f"{p.name}.pkl")
    ctx.require(os.path.exists(path), "run-not-saved", f"{path}")
    got = BatchSA.load(path)
    dh, want = library_batch(p)
    ctx.require(len(got.results) == len(want.results) == p.par["models"], "run-models", f"{len(got.results)} models for {p.par['models']}")
    for i, (x, y) in enumerate(zip(got.results, want.results)):
        ctx.count("models_compared")
        ctx.check(not differs(x, y), "run-model", f"model {i} differs from the configured run in {differs(x, y)}")
        ctx.check(x.seed == y.seed and x.factors == p.par["factors"] and x.method == p.par["method"], "run-model", f"model {i}")
        prof = pd.read_csv(os.path.join(p.dir, "output", f"{p.name}-model-{i}-profile.csv"), skiprows=2)
        ctx.check([c.strip() for c in prof.columns] == dh.features and prof.shape == x.H.shape and np.allclose(prof, x.H, rtol=1e-5, atol=1e-30),
                  "run-profile-file", f"model {i}: {list(prof.columns)} {prof.shape}")
    ctx.check(got.best_model == want.best_model, "run-best", f"{got.best_model} against {want.best_model}")
    return dh, got


def project(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "project"):
        p, own = new_project(ctx)
        try:
            dh, batch = check_batch(ctx, p, own)
            n, k = len(dh.features), p.par["factors"]
            before = [snap(s) for s in batch.results]
            # input
            i, j = int(rng.integers(n)), int(rng.integers(n))
            same_figures(ctx, p.call("analysis-input", "plot-feature", "-i", i)[0], library(lambda: dh.plot_data_uncertainty(feature_idx=i)), "plot-feature")
            same_figures(ctx, p.call("analysis-input", "plot-data", "-x", i, "-y", j)[0], library(lambda: dh.plot_feature_data(x_idx=i, y_idx=j)), "plot-data")
            same_figures(ctx, p.call("analysis-input", "plot-timeseries", "-i", i)[0], library(lambda: dh.plot_feature_timeseries(i)), "plot-timeseries")
            same_figures(ctx, p.call("analysis-input", "plot-timeseries")[0], library(lambda: dh.plot_feature_timeseries(0)), "plot-timeseries default")
            _, said = p.call("analysis-input", "metrics")
            ctx.check(str(dh.metrics) in said, "metrics-shown", said[-300:])
            # batch
            ba = BatchAnalysis(batch_sa=batch)
            same_figures(ctx, p.call("analysis-batch", "plot-loss")[0], library(ba.plot_loss), "plot-loss")
            same_figures(ctx, p.call("analysis-batch", "plot-distribution")[0], library(ba.plot_loss_distribution), "plot-distribution")
            # solution
            for sel in ([], ["-m", -1], ["-m", int(rng.integers(len(batch.results)))]):
                mi = sel[1] if sel and sel[1] >= 0 else batch.best_model
                ma = ModelAnalysis(datahandler=dh, model=batch.results[mi], selected_model=mi)
                f, g, x = int(rng.integers(1, k + 1)), int(rng.integers(1, k + 1)), int(rng.integers(n))
                feats = sorted(int(z) + 1 for z in rng.choice(n, size=int(rng.integers(1, 3)), replace=False))
                plan = [("plot-residuals", ["-i", x], lambda: ma.plot_residual_histogram(feature_idx=x)),
                        ("plot-residuals", [], lambda: ma.plot_residual_histogram(feature_idx=0)),
                        ("plot-estimated", ["-i", x], lambda: ma.plot_estimated_observed(feature_idx=x)),
                        ("plot-timeseries", ["-i", x], lambda: ma.plot_estimated_timeseries(feature_idx=x)),
                        ("plot-profile", ["-i", f], lambda: ma.plot_factor_profile(factor_idx=f)),
                        ("plot-profile", [], lambda: ma.plot_factor_profile(factor_idx=1)),
                        ("plot-profile", ["-i", 0], lambda: None), ("plot-profile", ["-i", k + 1], lambda: None),
                        ("plot-fingerprints", [], ma.plot_factor_fingerprints),
                        ("plot-gspace", ["-x", f, "-y", g], lambda: ma.plot_g_space(factor_1=f, factor_2=g)),
                        ("plot-gspace", [], lambda: ma.plot_g_space(factor_1=1, factor_2=2)),
                        ("plot-contributions", ["-i", x], lambda: ma.plot_factor_contributions(feature_idx=x)),
                        ("plot-composition", [], ma.plot_factor_composition),
                        ("plot-surface", ["-i", f], lambda: ma.plot_factor_surface(factor_idx=f)),
                        ("plot-surface", ["-i", -1] + [z for y in feats for z in ("-f", y)], lambda: [ma.plot_factor_surface(factor_idx=None, feature_idx=y) for y in feats]),
                        ("plot-surface", ["-i", -1], lambda: None)]
                for c in rng.choice(len(plan), size=6, replace=False):
                    name, args, want = plan[c]
                    want = library(want)
                    same_figures(ctx, p.call("analysis-solution", name, *sel, *args)[0], want, f"{name} {sel} {args}")
                if rng.random() < 0.4:
                    _, said = p.call("analysis-solution", "statistics", *sel)
                    ma.calculate_statistics()
                    ctx.check(str(ma.statistics) in said, "statistics-shown", said[-300:])
            again = BatchSA.load(os.path.join(p.dir, "output", f"{p.name}.pkl"))
            ctx.check(all(not same_snap(a, snap(s)) for a, s in zip(before, again.results)), "analysis-changed-project", "")
        finally:
            p.restore()


def trained(ctx, **kw):
    p, own = new_project(ctx, **kw)
    p.call("run", own=own)
    path = os.path.join(p.dir, "output", f"{p.name}.pkl")
    ctx.require(os.path.exists(path), "run-not-saved", f"{path}")
    batch = BatchSA.load(path)
    dh = DataHandler(input_path=p.files[0], uncertainty_path=p.files[1], index_col="Date")
    dh.get_data()
    return p, dh, batch


def check_errors(ctx, p, dh, batch, model, selected, methods, constrained=False):
    """runs the error methods through the command and compares what it saved with the library"""
    rng = ctx.rng
    n, k = len(dh.features), model.factors

    def feats():
        return [] if rng.random() < 0.4 else sorted(int(z) for z in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
    df, cf = feats(), feats()
    bb, cb = [int(rng.choice([-1, 1, 2, 3])) for _ in range(2)]
    bs, cs = [int(rng.choice([-1, 0, 5, 77])) for _ in range(2)]
    bn, cn = [int(rng.integers(1, 4)) for _ in range(2)]
    bt, ct = [float(rng.choice([0.3, 0.6, 0.95])) for _ in range(2)]
    ms, tq = int(rng.integers(4, 20)), float(rng.choice([0.1, 0.5]))
    reuse = bool("bsdisp" in methods and rng.random() < 0.6 and os.path.exists(os.path.join(p.dir, "error", f"bs-{p.name}.pkl")))
    p.config("error_config.toml", project=dict(selected_model=selected), disp=dict(features=json.dumps(df)),
             bs=dict(bootstrap_n=bn, block_size=bb, threshold=bt, seed=bs),
             bsdisp=dict(bootstrap_n=cn, block_size=cb, threshold=ct, seed=cs, threshold_dQ=tq, max_search=ms, features=json.dumps(cf),
                         bootstrap_output=os.path.join(p.dir, "error", f"bs-{p.name}.pkl") if reuse else ""))
    previous = Bootstrap.load(os.path.join(p.dir, "error", f"bs-{p.name}.pkl")) if reuse and "bs" not in methods else None
    ctx.note(methods=methods, disp_features=df, bsdisp_features=cf, reuse=reuse)
    p.call("run-error", *[f"--{m}" for m in methods])
    block = lambda x: dh.optimal_block if x == -1 else x
    seed = lambda x: model.seed if x == -1 else x
    ctx.count("error_runs", len(methods))
    got = {}
    for m, cls in (("disp", Displacement), ("bs", Bootstrap), ("bsdisp", BSDISP)):
        if m in methods:
            path = os.path.join(p.dir, "error", f"{m}-{p.name}.pkl")
            ctx.require(os.path.exists(path), "error-not-saved", f"{m}: {path}")
            got[m] = cls.load(path)
            number = -1 if constrained else batch.best_model if selected == -1 else selected
            shown = getattr(got[m], "selected_model", getattr(got[m], "model_selected", None))
            ctx.check(shown == number, "error-model-number", f"{m}: saved for model {shown}, {number} was selected")
    if "disp" in methods:
        w = Displacement(sa=model, feature_labels=dh.features, features=df or None, parallel=False)
        w.run()
        ctx.check(not same_displacement(got["disp"], w), "error-run", f"displacement: {same_displacement(got['disp'], w)[:4]}")
    w = None
    if "bs" in methods:
        w = Bootstrap(sa=model, feature_labels=dh.features, bootstrap_n=bn, block_size=block(bb), threshold=bt, seed=seed(bs), parallel=False)
        w.run()
        ctx.check(not same_bootstrap(got["bs"], w), "error-run", f"bootstrap: {same_bootstrap(got['bs'], w)[:4]}")
    if "bsdisp" in methods:
        c = BSDISP(sa=model, feature_labels=dh.features, bootstrap=previous if previous is not None else w, bootstrap_n=cn, block_size=block(cb), threshold=ct,
                   seed=seed(cs), features=cf or None, max_search=ms, threshold_dQ=tq)
        c.run(parallel=p.par["parallel"])
        ctx.check(not same_combined(got["bsdisp"], c), "error-run", f"combined: {same_combined(got['bsdisp'], c)[:4]}")
        ctx.check(got["bsdisp"].bootstrap_n == len(c.bootstrap.bs_results), "error-run", f"combined: {got['bsdisp'].bootstrap_n} runs")
    for m in methods:
        f = int(rng.integers(1, k + 1))
        same_figures(ctx, p.call("analysis-error", "summary", f"--{m}")[0], library(got[m].summary), f"summary {m}")
        same_figures(ctx, p.call("analysis-error", "error-results", f"--{m}", "--factor_idx", f)[0], library(lambda: got[m].plot_results(factor=f)), f"error-results {m}")
        if rng.random() < 0.3:
            same_figures(ctx, p.call("analysis-error", "error-results", f"--{m}")[0], library(lambda: got[m].plot_results(factor=1)), f"error-results {m} default")
    for flags in ([], ["--disp", "--bs"], ["--disp", "--bs", "--bsdisp"]):
        for name in ("summary", "error-results"):
            ctx.check(not p.call("analysis-error", name, *flags)[0], "several-methods-shown", f"{name} {flags}")


def term(rng, k, feature, off):
    if off:
        return ["[factor:-1|feature:-1]", f"[factor:{int(rng.integers(k))}|sample:-1]", f"[factor:-1|feature:{feature}]"][rng.integers(3)]
    return f"[factor:{int(rng.integers(k))}|feature:{feature}]"


def errors(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "error project"):
        p, dh, batch = trained(ctx, models=int(rng.integers(1, 4)), min_steps=10)
        try:
            p.call("setup-error")
            p.call("run-error")
            ctx.check(not os.path.exists(os.path.join(p.dir, "error")) or not os.listdir(os.path.join(p.dir, "error")), "nothing-selected-ran", "")
            for _ in range(int(rng.integers(1, 3))):
                sel = int(rng.integers(-1, len(batch.results)))
                methods = [["disp"], ["bs"], ["bsdisp"], ["bs", "bsdisp"], ["disp", "bs"], ["disp", "bs", "bsdisp"]][rng.integers(6)]
                check_errors(ctx, p, dh, batch, batch.results[batch.best_model if sel == -1 else sel], sel, methods)
        finally:
            p.restore()


def constrained(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "constrained project"):
        p, dh, batch = trained(ctx, models=int(rng.integers(1, 4)), min_steps=10)
        try:
            p.call("setup-constrained")
            sel = int(rng.integers(-1, len(batch.results)))
            model = batch.results[batch.best_model if sel == -1 else sel]
            n, k, m = model.H.shape[1], model.factors, model.W.shape[0]
            soft = float(rng.choice([0.5, 1.0, 2.0]))
            steps, delta, cn = int(rng.choice([-1, 4, 12])), float(rng.choice([-1.0, 1e-4, 0.1, 0.5])), int(rng.choice([-1, 3, 8]))
            kinds = ["set to zero", "define limits", "pull up", "pull down", "set to base value", "pull to value"]
            plan, used = {}, set()
            for c in range(1, 7):
                kind = kinds[c - 1]
                target = "feature" if rng.random() < 0.7 else "sample"
                ix = [int(rng.integers(k)), int(rng.integers(n))] if target == "feature" else [int(rng.integers(m)), int(rng.integers(k))]
                if rng.random() < 0.5 or (target, *ix) in used:
                    ix = [-1, -1]
                used.add((target, *ix))
                kw = {"constraint_type": kind, "index": ix, "target": target}
                kw.update({"define limits": dict(min_value=0, max_value=0.5), "pull up": dict(dQ=50), "pull down": dict(dQ=20),
                           "pull to value": dict(target_value=0.4, dQ=30)}.get(kind, {}))
                plan[f"constraint{c}"] = kw
            exprs = {}
            for e in range(1, 4):
                fs = rng.choice(n, size=2, replace=False)
                a, b = [term(rng, k, int(f), bool(rng.random() < 0.2)) for f in fs]
                exprs[f"expression{e}"] = f"(0.{e}5*{a})-({e}.2*{b})=0,{100 * e}"
            p.config("constrained_config.toml", parameters=dict(selected_model=sel, softness=soft, max_iter=steps, converge_delta=delta, converge_n=cn),
                     constraints={a: json.dumps(b) for a, b in plan.items()}, expressions=exprs)
            ctx.note(selected=sel, constraints=plan, expressions=exprs, softness=soft)
            before = snap(model)
            figs, _ = p.call("run-constrained")
            path = os.path.join(p.dir, "constrained", f"constrained_model-{p.name}.pkl")
            want = ConstrainedModel(base_model=model, data_handler=dh, softness=soft)
            for kw in plan.values():
                if kw["index"] != [-1, -1]:
                    want.add_constraint(**dict(kw, index=tuple(kw["index"])))
            for e in exprs.values():
                if ":-1" not in e:
                    want.add_expression(e)
            want.train(max_iterations=steps if steps != -1 else p.par["max_iter"], converge_delta=delta if delta > 0 else p.par["converge_delta"],
                       converge_n=cn if cn != -1 else p.par["converge_n"])
            ctx.count("constrained_runs")
            if want.constrained_model is None:
                ctx.check(not os.path.exists(path), "failed-run-saved", "")
                ctx.count("constrained_refused")
                return
            ctx.require(os.path.exists(path), "constrained-not-saved", f"{os.listdir(p.dir)}")
            got = ConstrainedModel.load(path)
            ctx.check(not differs(got.constrained_model, want.constrained_model), "constrained-run", f"{differs(got.constrained_model, want.constrained_model)}")
            ctx.check(list(got.constraints) == list(want.constraints) and list(got.expressions) == list(want.expressions), "constrained-requests",
                      f"{list(got.constraints)} {list(got.expressions)} for {list(want.constraints)} {list(want.expressions)}")
            ctx.check(not same_snap(before, snap(got.base_model)), "constrained-base", f"{same_snap(before, snap(got.base_model))}")
            f, g, x = int(rng.integers(1, k + 1)), int(rng.integers(1, k + 1)), int(rng.integers(1, n + 1))
            q = str(rng.choice(["True", "Robust", "Aux", "Main"]))
            for name, args, fn in (("plot-q", ["-q", q], lambda: want.plot_Q(Qtype=q)), ("plot-q", [], lambda: want.plot_Q(Qtype="Aux")),
                                   ("eval-constraints", [], want.evaluate_constraints), ("eval-expressions", [], want.evaluate_expressions),
                                   ("plot-fingerprints", [], want.plot_factor_fingerprints),
                                   ("plot-contributions", ["-i", x], lambda: want.plot_factor_contributions(feature_idx=x)),
                                   ("plot-gspace", ["-x", f, "-y", g], lambda: want.plot_g_space(factor_idx1=f, factor_idx2=g, show_base=True, show_delta=True)),
                                   ("summary", [], want.display_results)):
                same_figures(ctx, p.call("analysis-constrained", name, *args)[0], library(fn), f"constrained {name} {args}")
            both = [w for w in ROOT.commands["analysis-constrained"].commands.values() if any(o.name == "factor_idx" for o in w.params)]
            ctx.require(len(both) == 1, "constrained-profile-command", f"{list(ROOT.commands['analysis-constrained'].commands)}")
            same_figures(ctx, p.call("analysis-constrained", both[0].name, "-i", f)[0], library(lambda: want.plot_profile_contributions(factor_idx=f)), "constrained profile")
            if rng.random() < 0.5:
                p.call("setup-error")
                p.config("error_config.toml", project=dict(constrained_config=os.path.join(p.dir, "constrained_config.toml")))
                check_errors(ctx, p, dh, batch, got.constrained_model, 0, [["disp"], ["bs"]][rng.integers(2)], constrained=True)
                ctx.count("constrained_errors")
        finally:
            p.restore()


def simulated(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "simulated project"):
        p = Project(ctx)
        p.call("simulator", "setup")
        k = int(rng.integers(2, 4))
        out = bool(rng.integers(2))
        par = dict(seed=int(rng.integers(1000)), factors_n=k, features_n=int(rng.integers(4, 9)), samples_n=int(rng.integers(20, 50)), outliers=out,
                   outlier_p=0.3, outlier_mag=float(rng.choice([2.0, 50.0])), contribution_max=10, noise_mean_min=0.03, noise_mean_max=0.05, noise_scale=0.001)
        c = p.config("sim_config.toml", parameters=par)
        curves = {}
        for f in list(c["contributions"]):
            if int(f) >= k or rng.random() < 0.3:
                del c["contributions"][f]
            else:
                curves[int(f)] = json.loads(c["contributions"][f])
        with open(os.path.join(p.dir, "sim_config.toml"), "w") as f:
            c.write(f)
        p.name = "sim"
        p.par = dict(factors=k, models=int(rng.integers(1, 4)), method="ls-nmf", init_norm=True, init_method="column_mean", seed=int(rng.integers(100)),
                     max_iter=int(rng.integers(5, 60)), converge_delta=0.01, converge_n=5, verbose=False, parallel=False)
        p.config("run_config.toml", project=dict(name=p.name), parameters=p.par)
        # the configured simulator, and what it generates
        par.update({x: float(c["parameters"][x]) for x in ("uncertainty_mean_min", "uncertainty_mean_max", "uncertainty_scale")})
        sim = Simulator(**par)
        for f, kw in curves.items():
            sim.update_contribution(factor_i=f, **kw)
        sim.get_data()
        first = bool(rng.integers(2))
        ctx.note(parameters=par, curves=curves, generate_first=first)
        if first:
            p.call("simulator", "generate")
        p.call("run")
        ctx.count("simulated_runs")
        # the number of factors is estimated from the simulated data
        lo, samples = int(rng.integers(2, 4)), int(rng.integers(1, 5))
        hi, seen, answer = lo + int(rng.integers(0, 3)), [], pd.DataFrame({"Factors": [k], "Answer": [float(rng.random())]})
        p.config("run_config.toml", estimator=dict(samples=samples, min_k=lo, max_k=hi))

        def estimated(self, *a, **kw):
            seen.append((np.array(self.V), np.array(self.U), a, kw))
            return answer
        with patched(FactorEstimator, "run", estimated):
            said = p.call("estimate")[1]
        ctx.require(len(seen) == 1, "estimate-not-run", "")
        v, u, a, kw = seen[0]
        ctx.check(v.shape == sim.syn_data.shape and np.allclose(v, sim.syn_data, rtol=1e-6) and np.allclose(u, sim.syn_uncertainty, rtol=1e-6), "estimate-data", "not the simulated dataset")
        ctx.check(not a and (kw.get("samples"), kw.get("min_factors"), kw.get("max_factors")) == (samples, lo, hi) and str(answer) in said, "estimate-range", f"{a} {kw}")
        ctx.count("simulated_estimates")
        files = [os.path.join(p.dir, f"synthetic_{x}.csv") for x in ("data", "uncertainty", "profiles", "contributions")]
        ctx.require(all(os.path.exists(x) for x in files), "synthetic-not-saved", f"{os.listdir(p.dir)}")

        def check_files(when):
            d = [pd.read_csv(x, index_col=0) for x in files]
            for what, a, b in zip(("data", "uncertainty", "profiles", "contributions"), d, (sim.syn_data, sim.syn_uncertainty, sim.syn_profiles.T, sim.syn_contributions)):
                ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-15), "synthetic-data", f"{what} {when}: not the configured simulation")
        check_files("after run")
        batch = BatchSA.load(os.path.join(p.dir, "output", "sim.pkl"))
        ctx.check(all(np.allclose(s.V, sim.syn_data, rtol=2e-6) and np.allclose(s.U, sim.syn_uncertainty, rtol=2e-6) for s in batch.results),
                  "run-data", "the run was not trained on the generated dataset")
        p.files = files[:2]
        _, want = library_batch(p)
        for i, (x, y) in enumerate(zip(batch.results, want.results)):
            ctx.count("models_compared")
            ctx.check(np.allclose(x.H, y.H, rtol=1e-4, atol=1e-6) and x.seed == y.seed, "run-model", f"model {i} differs from the configured run")
        dh = DataHandler(input_path=p.files[0], uncertainty_path=p.files[1])
        dh.get_data()
        f = int(rng.integers(1, k + 1))
        ma = ModelAnalysis(datahandler=dh, model=batch.results[batch.best_model], selected_model=batch.best_model)
        same_figures(ctx, p.call("analysis-solution", "plot-profile", "-i", f)[0], library(lambda: ma.plot_factor_profile(factor_idx=f)), "simulated profile")
        p.call("simulator", "compare")
        check_files("after compare")
        sim.compare(batch_sa=batch)
        figs = p.call("simulator", "plot")[0]
        want = library(sim.plot_comparison)
        ctx.require(len(figs) == len(want), "figures-shown", f"compare: {len(figs)} figures, {len(want)} expected")
        for a, b in zip(figs, want):
            ctx.count("figures_compared")
            ctx.check(a.layout.title.text == b.layout.title.text and [t.name for t in a.data] == [t.name for t in b.data]
                      and all(np.allclose(np.asarray(s.y, float), np.asarray(t.y, float), rtol=1e-6, atol=1e-9) for s, t in zip(a.data, b.data)), "figure-differs", "compare")


def estimate(ctx):
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 100, "estimate"):
        p, _ = new_project(ctx)
        try:
            lo = int(rng.integers(2, 4))
            hi, samples = lo + int(rng.integers(0, 3)), int(rng.integers(1, 5))
            p.config("run_config.toml", estimator=dict(samples=samples, min_k=lo, max_k=hi))
            seen = []
            real = FactorEstimator.run
            V, U = DataHandler(input_path=p.files[0], uncertainty_path=p.files[1], index_col="Date").get_data()

            def run(self, *a, **kw):
                seen.append((np.array(self.V), np.array(self.U), a, kw))
                seen.append(real(self, *a, **kw))
                return seen[-1]
            with patched(FactorEstimator, "run", run):
                _, said = p.call("estimate")
            ctx.require(len(seen) == 2, "estimate-not-run", "")
            v, u, a, kw = seen[0]
            ctx.check(np.array_equal(v, V) and np.array_equal(u, U), "estimate-data", "not the project's dataset")
            ctx.check(not a and (kw.get("samples"), kw.get("min_factors"), kw.get("max_factors")) == (samples, lo, hi), "estimate-range", f"{a} {kw}")
            ctx.check(str(seen[1]) in said, "estimate-shown", said[-300:])
            ctx.count("estimates")
        finally:
            p.restore()


def files_of(path):
    out = {}
    for d, _, names in os.walk(path):
        for x in names:
            with open(os.path.join(d, x), "rb") as f:
                out[os.path.join(d, x)] = f.read()
    return out


def refusals(ctx):
    """Commands on results that are missing or damaged, or for a model that does not exist: no figure, no file, a message."""
    rng = ctx.rng
    with ctx.quiet(), limited(ctx, 200, "refusals"):
        p, dh, batch = trained(ctx, models=int(rng.integers(1, 4)), min_steps=10)
        try:
            p.call("setup-error")
            p.call("setup-constrained")
            out = os.path.join(p.dir, "output", f"{p.name}.pkl")
            how = ["missing", "cut", "foreign", "selection"][rng.integers(4)]
            ctx.note(how=how)
            bad = int(rng.choice([-2, -3, len(batch.results), 99]))
            if how == "missing":
                os.remove(out)
            elif how == "cut":
                data = open(out, "rb").read()
                open(out, "wb").write(data[: int(rng.integers(len(data)))])
            elif how == "foreign":
                open(out, "w").write("Factor 1,Factor 2\n1,2\n")
            solution = ["plot-residuals", "statistics", "plot-estimated", "plot-timeseries", "plot-profile", "plot-fingerprints", "plot-gspace",
                        "plot-contributions", "plot-composition"]
            if how == "selection":
                p.config("error_config.toml", project=dict(selected_model=bad))
                p.config("constrained_config.toml", parameters=dict(selected_model=bad))
                plan = [("analysis-solution", str(x), "-m", bad) for x in rng.choice(solution, 4, replace=False)]
            else:
                plan = [("analysis-solution", str(x)) for x in rng.choice(solution, 3, replace=False)]
                plan += [("analysis-batch", "plot-loss"), ("analysis-batch", "plot-distribution")]
            plan += [("run-error", ["--disp", "--bs", "--bsdisp"][rng.integers(3)]), ("run-constrained",)]
            if rng.integers(2):
                plan += [("analysis-error", x, y) for x in ("summary", "error-results") for y in ("--disp", "--bs", "--bsdisp")]
                plan += [("analysis-constrained", x) for x in ("summary", "plot-q", "eval-constraints", "eval-expressions", "plot-profile", "plot-fingerprints",
                                                               "plot-gspace", "plot-contributions")]
            before = files_of(p.dir)
            for c in plan:
                p.call(*c, refused=True)
                after = files_of(p.dir)
                ctx.check(after == before, "refused-wrote", f"{how}: {c} wrote {sorted(x for x in after if after.get(x) != before.get(x))[:3]}")
                before = after
            ctx.distinct((how, str(plan)))
        finally:
            p.restore()


SCENARIOS = [Scenario("refusals", refusals, 5, 90), Scenario("project", project, 6, 120), Scenario("errors", errors, 5, 90), Scenario("constrained", constrained, 5, 90),
             Scenario("simulated", simulated, 4, 80), Scenario("estimate", estimate, 2, 20)]
