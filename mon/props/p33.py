"""P33: saved results reload whole, in any process, or are refused."""
import contextlib
import json
import os
import resource
import subprocess
import sys
from pathlib import Path

import numpy as np
import pandas as pd

from mon import gen
from mon.core import Scenario
from mon.instr import limited
from mon.props import p16, p17, p18, p21, p24
from mon.state import differences, state
from esat.data.datahandler import DataHandler
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel
from esat_eval.simulator import Simulator

TECHNIQUE = ("fault injection (files cut at any byte, full disk, foreign files, bad paths) with state comparison of every stored value "
             "against the object reloaded in the same and in another process")
NOTE = ("All seven kinds of saved results. Compared are the public attributes, recursively and bit for bit; a full disk is simulated by "
        "a file size limit.")
RULE = ("each case builds one object of one kind (with a history of operations), saves it next to others under drawn names, reloads, damages "
        "and refuses; distinct by (kind, name, history)")
ASSUMPTIONS = []
REQUIRED = {"reloads_elsewhere": 30, "cut_files": 150, "foreign_files": 40, "refusals": 120, "failed_writes": 20}
_reader = None


def elsewhere(cls, path, skip):
    """The state of the object another process loads."""
    global _reader
    if _reader is None or _reader[0] != os.getpid() or _reader[1].poll() is not None:
        p = subprocess.Popen([sys.executable, "-m", "mon.state"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _reader = (os.getpid(), p)
    p = _reader[1]
    p.stdin.write(json.dumps([cls.__module__, cls.__name__, str(path), skip]) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def tree(root):
    return {str(p.relative_to(root)): p.read_bytes() if p.is_file() else None for p in sorted(Path(root).rglob("*"))}


@contextlib.contextmanager
def full_disk(size):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def handler(sa):
    cols = [f"s{j}" for j in range(sa.V.shape[1])]
    ix = pd.date_range("2020-01-01", periods=sa.V.shape[0], name="Date")
    return DataHandler.load_dataframe(input_df=pd.DataFrame(np.asarray(sa.V, float), columns=cols, index=ix),
                                      uncertainty_df=pd.DataFrame(np.asarray(sa.U, float), columns=cols, index=ix))


def make(rng, kind):
    """object, save(name, dir) to a binary file, save as text (or None)"""
    if kind == "simulator":
        c = p24.config(rng)
        c.update(verbose=False, samples_n=int(rng.integers(20, 50)), features_n=int(rng.integers(2, 6)))
        x = Simulator(**c)
        for _ in range(int(rng.integers(0, 3))):
            x.update_contribution(factor_i=int(rng.integers(c["factors_n"])), curve_type=str(rng.choice(["uniform", "increasing", "periodic"])), minimum=0.5, maximum=2.0)
        x.get_data()
        return x, lambda n, d: x.save(sim_name=n, output_directory=d), None
    if kind == "batch":
        V, U, _, k = gen.dataset(rng, m=int(rng.integers(5, 20)), n=int(rng.integers(2, 8)), positive=True)
        x = BatchSA(V=V, U=U, factors=k, models=int(rng.integers(1, 4)), seed=int(rng.integers(1 << 20)), max_iter=5, parallel=False, verbose=False)
        if rng.random() < 0.8:
            x.train()
        text = lambda n, d: x.save(n, d, pickle_batch=False)        # noqa: E731
        return x, lambda n, d: x.save(n, d), text if len(x.results) else None
    if kind in ("model", "constrained"):
        sa = p21.tiny(rng)
        if kind == "model":
            if rng.random() < 0.5:
                sa.train(max_iter=int(rng.integers(1, 9)))
            return sa, lambda n, d: sa.save(n, d, pickle_model=True), lambda n, d: sa.save(n, d)
        x = ConstrainedModel(base_model=sa, data_handler=handler(sa), softness=float(rng.choice([1.0, 0.5])))
        for _ in range(int(rng.integers(0, 4))):
            c, valid = p21.request(rng, sa)
            if valid:
                x.add_constraint(**c)
        if rng.random() < 0.5:
            pool = p21.elements(rng, sa, 3)
            x.add_expression(p21.expression(rng, sa, pool[:2])[0])
        x.train(max_iterations=int(rng.integers(1, 10)))
        return x, lambda n, d: x.save(n, d, pickle_model=True), None if x.constrained_model is None else lambda n, d: x.save(n, d)
    sa, _ = p18.base(rng, factors=2, n=4, long=False)
    kw, rk = p17.config(rng, sa, nmax=3)
    if kind == "bootstrap":
        x = Bootstrap(parallel=False, **kw)
        x.run(**rk)
        if rng.random() < 0.3:
            x.run(**rk)
    elif kind == "displacement":
        x = Displacement(parallel=False, **{**p18.config(rng, sa), "max_search": 5})
        x.run()
    else:
        kw["feature_labels"] = [f"s{j}" for j in range(sa.V.shape[1])]
        x = BSDISP(max_search=4, features=[int(rng.integers(4))], **kw)
        x.run(parallel=False, **rk)
    return x, lambda n, d: x.save(n, d), lambda n, d: x.save(n, d, pickle_result=False)


KINDS = {"model": SA, "batch": BatchSA, "bootstrap": Bootstrap, "displacement": Displacement, "combined": BSDISP,
         "constrained": ConstrainedModel, "simulator": Simulator}
NAMES = ["run", "a b", "x.y", "2020.01", "r\u00e9sum\u00e9", "base-1"]
TEXTS = ["", "\n", "Date,s1,s2\n2020-01-01,1,2\n", "Index,a\n1,2\n", "Factor 1,2\n", "collections\nOrderedDict\n", "{\"a\": 1}", "PM2.5,NO3\n1,2\n", "0.1\n", "(1,2)\n",
         "not a pickle", "\x00\x01\x02", "1,2,3\n" * 40, "a,b,c\n", "e,f\n", "N.", "S-1,b\n"]


def saving(ctx):
    rng = ctx.rng
    kind = list(KINDS)[rng.integers(7)]
    cls = KINDS[kind]
    failed = False if kind == "simulator" else None
    skip = ("metadata",) if kind == "constrained" else ()      # its save adds the current constraints to it
    with ctx.quiet(), limited(ctx, 120, kind):
        x, save, text = make(rng, kind)
        root = ctx.scratch
        out = root / str(rng.choice(["out", "an out put"]))
        out.mkdir()
        for n in ("run.csv", "other.pkl", "x.pkl"):
            (out / n).write_text("keep " + n * 3000)
        name = str(rng.choice(NAMES))
        if rng.random() < 0.3:              # an earlier save of the same name, longer
            p = out / {"simulator": "esat_simulator.pkl", "constrained": f"constrained_model-{name}.pkl"}.get(kind, f"{name}.pkl")
            p.write_bytes(b"earlier" * 200000)
        before, s0 = tree(out), state(x, skip)
        path = save(name, str(out) if rng.integers(2) else out)
        ctx.require(path not in (None, False), "save-failed", f"{kind}: {path!r}")
        if kind == "simulator":
            path = out / "esat_simulator.pkl"
        path = Path(path)
        ctx.check(path.is_file() and path.parent == out and (kind == "simulator" or name in path.name), "save-path", f"{kind} {name}: {path}")
        if kind not in ("model", "batch"):      # keep the state from being affected: compare after saving too
            ctx.check(not differences(s0, state(x, skip)), "save-modified", f"{kind}: {differences(s0, state(x, skip))[:4]}")
        after = tree(out)
        lost = [n for n in before if (out / n) != path and after.get(n) != before[n]]
        ctx.check(not lost, "other-files-changed", f"{kind}: {lost}")
        ctx.check(all(name in n or n == path.name for n in after if n not in before), "stray-files", f"{kind} {name}: {sorted(set(after) - set(before))}")
        # the same object, here and in another process
        got = cls.load(str(path) if rng.integers(2) else path)
        ctx.require(type(got) is cls, "load-type", f"{kind}: {type(got).__name__}")
        bad = differences(state(x, skip), state(got, skip))
        ctx.check(not bad, "reloaded-differs", f"{kind}: {bad[:4]}")
        if rng.random() < 0.5:
            ctx.count("reloads_elsewhere")
            r = elsewhere(cls, path, skip)
            ctx.require(r.get("type") == cls.__name__, "load-elsewhere", f"{kind}: {r.get('error', r.get('type'))}")
            bad = differences(state(x, skip), r["state"])
            ctx.check(not bad, "reloaded-differs", f"{kind} in another process: {bad[:4]}")
        # an interrupted save
        data = path.read_bytes()
        cut = root / "cut.pkl"
        for n in {0, 1, 2, len(data) - 1, *(int(i) for i in rng.integers(0, len(data), 6))}:
            cut.write_bytes(data[:n])
            ctx.count("cut_files")
            refused(ctx, cls, cut, f"{kind} file cut after {n} of {len(data)} bytes")
        # other files
        texts = [TEXTS[i] for i in rng.choice(len(TEXTS), 3, replace=False)]
        if text is not None and rng.random() < 0.4:
            td = root / "text"
            td.mkdir()
            r = text(name, str(td))
            ctx.require(r is not None, "save-failed", f"{kind} as text")
            files = tree(td)
            ctx.check(bool(files) and all(name in n for n in files), "stray-files", f"{kind} as text: {sorted(files)}")
            texts += [b.decode() for b in list(files.values())[:4]]
        for t in texts:
            cut.write_text(t)
            ctx.count("foreign_files")
            refused(ctx, cls, cut, f"{kind} from a file starting with {t[:30]!r}")
        refused(ctx, cls, out, f"{kind} from a directory")
        # paths that are not valid
        before = tree(root)
        cwd = os.getcwd()
        os.chdir(root)
        try:
            for target in ("rel", "", ".", f"./{out.name}", out.name, str(root / "missing"), str(out / "deep" / "er")):
                for f in (save, text):
                    if f is not None:
                        ctx.count("refusals")
                        r = attempt(lambda: f(name, target))
                        ctx.check(r is failed, "bad-directory-accepted", f"{kind} saved to {target!r}: {r!r}")
            for p in ("none.pkl", f"{out.name}/{path.name}", f"./{out.name}/{path.name}", str(root / "none.pkl"), str(root / "missing" / path.name)):
                ctx.count("refusals")
                refused(ctx, cls, p, f"{kind} from {p!r}")
        finally:
            os.chdir(cwd)
        ctx.check(tree(root) == before, "refusal-wrote", f"{kind}: {sorted(set(tree(root)) ^ set(before))}")
        # a disk that fills up while saving
        for f, done in ((save, "binary"), (text, "text")):
            if f is None or rng.random() < 0.4:
                continue
            d = root / ("full" + done)
            d.mkdir()
            f(name, str(d))
            sizes = {p: len(b) for p, b in tree(d).items()}
            largest = max(sizes.values())
            limit = int(rng.integers(0, largest))
            try:
                with full_disk(limit):
                    r = f("again" if rng.integers(2) else name, str(d))
            except OSError:
                r = failed
            ctx.count("failed_writes")
            ctx.check(r is failed, "incomplete-save-reported-done", f"{kind} as {done}: {r!r} with {limit} bytes per file, {largest} needed")
        ctx.check(not differences(s0, state(x, skip)), "save-modified", f"{kind}: {differences(s0, state(x, skip))[:4]}")
    ctx.note(saved=kind, name=name, size=len(data))
    ctx.distinct((kind, name, len(data)))


def attempt(fn):
    try:
        return fn()
    except Exception as ex:  # noqa: BLE001
        return f"{type(ex).__name__}: {ex}"


def refused(ctx, cls, path, what):
    r = attempt(lambda: cls.load(path if isinstance(path, str) else str(path)))
    ctx.check(r is None, "not-refused", f"{what}: {r if isinstance(r, str) else type(r).__name__}")


SCENARIOS = [Scenario("saving", saving, 90, 1500)]
