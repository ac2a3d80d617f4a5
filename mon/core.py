"""Verdict discipline, case scheduling, evidence and replay files.

A check is a module `mon.props.<id>` that defines

    RULE         : str, how cases are made and what makes one non-trivial
    ASSUMPTIONS  : list of str
    SCENARIOS    : list of Scenario(name, fn, quick=<n>, thorough=<n>, weight)
    REQUIRED     : {counter: minimum}  counters the run must reach, otherwise
                   the run is inconclusive (error exit), never "held"

A scenario function receives a `Ctx`: a private numpy Generator (`ctx.rng`), a
scratch directory, counters, and the verdict functions `ctx.check(...)`.
Everything a case does is a function of (property, scenario, case seed), so a
replay file only needs these three.
"""
import contextlib
import hashlib
import io
import json
import logging
import os
import shutil
import sys
import tempfile
import threading
import time
import traceback
import types
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("ESAT_REPO", "/repo")).resolve()


class Violation(Exception):
    def __init__(self, kind, msg, detail=None):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.detail = detail or {}


class Skip(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


class Scenario:
    def __init__(self, name, fn, quick, thorough, share=1.0):
        self.name, self.fn, self.quick, self.thorough, self.share = name, fn, quick, thorough, share


def case_seed(prop, scenario, seed, i):
    h = hashlib.sha256(f"{prop}/{scenario}/{seed}/{i}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class Ctx:
    def __init__(self, session, scenario, cseed):
        self.session, self.scenario, self.cseed = session, scenario, cseed
        self.rng = np.random.default_rng(cseed)
        self.counters = session.counters
        self.tier = session.tier
        self._scratch = None
        self.desc = {}
        self.soft = []
        self.failed_kinds = set()

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = Path(tempfile.mkdtemp(prefix="case", dir=self.session.scratch))
        return self._scratch

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def note(self, **kw):
        self.desc.update({k: jsonable(v) for k, v in kw.items()})

    def distinct(self, key):
        self.session.distinct.add(f"{self.scenario.name}|{key}")

    def check(self, cond, kind, msg="", **detail):
        """Record one monitor evaluation; the case goes on so that one defect
        does not mask another."""
        self.count("oracle_evaluations")
        if not bool(cond):
            self.fail(kind, msg, **detail)
            return False
        return True

    def fail(self, kind, msg="", **detail):
        if kind in self.failed_kinds:      # one report per mechanism and case
            return
        self.failed_kinds.add(kind)
        self.soft.append(Violation(kind, msg if isinstance(msg, str) else str(msg),
                                   {k: jsonable(v) for k, v in detail.items()}))

    def require(self, cond, kind, msg="", **detail):
        """As check, but the rest of the case makes no sense when it fails."""
        self.count("oracle_evaluations")
        if not bool(cond):
            raise Violation(kind, msg, {k: jsonable(v) for k, v in detail.items()})

    @contextlib.contextmanager
    def quiet(self):
        """Swallow the console chatter of the code under test."""
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def jsonable(v, depth=0):
    if isinstance(v, (str, bool, int)) or v is None:
        return v
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, np.ndarray):
        if v.size > 60:
            return {"shape": list(v.shape), "head": jsonable(v.ravel()[:12].tolist())}
        return jsonable(v.tolist())
    if depth > 4:
        return repr(v)[:200]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x, depth + 1) for x in list(v)[:60]]
    if isinstance(v, (bool, int)):
        return v
    return repr(v)[:300]


def load_findings(prop):
    """KNOWN_FINDINGS.jsonl: one object per line
    {"property","kind","what"}: suppresses violations of this property whose
    mechanism (`kind`) is exactly this one.  Lines "fixed" suppress nothing."""
    out = {}
    p = VERIF / "KNOWN_FINDINGS.jsonl"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            o = json.loads(line)
            if o.get("status") == "finding" and o["property"] == prop:
                out[o["kind"]] = o["what"]
    return out


def repo_frame(tb):
    """The innermost frame that belongs to the code under test or the harness:
    says whose fault an escaped exception is."""
    last = None
    for fs in traceback.extract_tb(tb):
        f = os.path.realpath(fs.filename)
        if f.startswith(str(REPO) + os.sep):
            last = ("repo", os.path.relpath(f, REPO), fs.name, fs.lineno)
        elif f.startswith(str(VERIF) + os.sep):
            last = ("verif", os.path.relpath(f, VERIF), fs.name, fs.lineno)
        elif f == "<string>" and last and last[0] == "repo":
            pass
    return last


def unreadable(ex):
    """Whether an exception in the harness means that a result could not be
    read as promised (a missing key, row or value), and not that a hook of the
    harness no longer finds its target (a module or class without the name)."""
    if isinstance(ex, AttributeError):
        return not isinstance(ex.obj, (type, types.ModuleType)) and ex.obj is not ex
    return isinstance(ex, (LookupError, ValueError, TypeError, ArithmeticError, FileNotFoundError, AssertionError))


class Session:
    def __init__(self, prop, module, tier, seed, cases=None):
        self.prop, self.module, self.tier, self.seed = prop, module, tier, seed
        self.cases = cases
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.known_hit = {}
        self.findings = load_findings(prop)
        self.evaluations = 0
        self.skipped = 0
        self.per_scenario = {}
        self.t0 = time.time()
        self.failfast = 1 if os.environ.get("MON_FAILFAST") else 40
        self.budget = float(os.environ.get("MON_BUDGET", "240" if tier == "quick" else "3000"))
        self.scratch = Path(tempfile.mkdtemp(prefix=f"mon-{prop}-"))
        self.replaydir = VERIF / "evidence" / "replays"

    # ------------------------------------------------------------------
    def run_case(self, sc, cseed):
        ctx = self.current = Ctx(self, sc, cseed)
        np.random.seed(cseed % (2**32))
        vs = []
        try:
            sc.fn(ctx)
        except Skip:
            self.skipped += 1
            self.counters["skipped"] = self.counters.get("skipped", 0) + 1
        except Violation as v:
            vs.append(v)
        except Exception as ex:                                   # noqa: BLE001
            where = repo_frame(ex.__traceback__)
            tbs = traceback.format_exc()
            remote = "RemoteTraceback" in tbs and str(REPO) + os.sep in tbs
            if where and (where[0] == "repo" or remote):
                vs.append(Violation(f"unexpected-exception:{type(ex).__name__}",
                                    f"{where[1]}:{where[2]}: {ex}", {"traceback": tbs[-3000:]}))
            elif unreadable(ex):
                vs.append(Violation(f"unreadable-result:{type(ex).__name__}",
                                    f"the result lacks what the property promises, {where}: {ex}", {"traceback": tbs[-3000:]}))
            else:
                self.errors.append(f"{sc.name}/{cseed}: {tbs[-2500:]}")
        finally:
            if ctx._scratch is not None:
                shutil.rmtree(ctx._scratch, ignore_errors=True)
        for v in ctx.soft + vs:
            self.report(sc, cseed, v, ctx)
        self.evaluations += 1
        self.per_scenario[sc.name] = self.per_scenario.get(sc.name, 0) + 1
        if ctx.desc and sum(1 for s in self.samples if s["scenario"] == sc.name) < 2:
            self.samples.append({"scenario": sc.name, "case_seed": cseed, **ctx.desc})

    def report(self, sc, cseed, v, ctx):
        if v.kind in self.findings:
            self.known_hit[v.kind] = self.known_hit.get(v.kind, 0) + 1
            return
        self.violations.append((sc, cseed, v, dict(ctx.desc)))

    # ------------------------------------------------------------------
    def run(self):
        scs = self.module.SCENARIOS
        self.watch()
        plan = []
        for sc in scs:
            n = sc.quick if self.tier == "quick" else sc.thorough
            if self.cases:
                n = self.cases
            plan.append([sc, n, 0])
        # interleave scenarios so that a time budget never starves one of them
        remaining = sum(p[1] for p in plan)
        capped = False
        while remaining:
            for p in plan:
                sc, n, done = p
                if done >= n:
                    continue
                step = max(1, n // 20)
                for _ in range(min(step, n - done)):
                    if time.time() - self.t0 > self.budget and p[2] >= 1:
                        capped = True
                        break
                    self.run_case(sc, case_seed(self.prop, sc.name, self.seed, p[2]))
                    p[2] += 1
                    remaining -= 1
                    if len(self.violations) >= self.failfast or any(v[2].kind == "hang" for v in self.violations):
                        capped = True
                        break
            if capped and all(p[2] >= 1 or p[1] == 0 for p in plan):
                break
            if len(self.violations) >= self.failfast or any(v[2].kind == "hang" for v in self.violations):
                break
        self.counters["time_capped"] = int(capped)
        return self.finish()

    def watch(self):
        """Ends a run that does not end by itself: violations seen so far are reported, otherwise it is inconclusive."""
        def ring():
            sys.stdout = sys.__stdout__
            self.errors.append(f"the run did not end, last case: {self.current.scenario.name}/{self.current.cseed}")
            for v in list(self.current.soft):
                self.report(self.current.scenario, self.current.cseed, v, self.current)
            rc = self.finish()
            sys.stdout.flush()
            os._exit(rc)
        t = threading.Timer(self.budget + (500 if self.tier == "quick" else 900), ring)
        t.daemon = True
        t.start()

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        missing = {}
        for name, mn in getattr(self.module, "REQUIRED", {}).items():
            if self.counters.get(name, 0) < mn:
                missing[name] = f"{self.counters.get(name, 0)} < {mn}"
        self.write_evidence(missing)
        for kind, what in self.findings.items():
            print(f"KNOWN-FINDING: property={self.prop} [{kind}] {what} "
                  f"(met {self.known_hit.get(kind, 0)} times in this run)")
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} executions, "
              f"{self.counters.get('oracle_evaluations', 0)} oracle evaluations, "
              f"{len(self.distinct)} distinct cases, {time.time() - self.t0:.1f} s")
        for k in sorted(self.counters):
            print(f"    {k} = {self.counters[k]}")
        if self.violations:
            shown = set()
            for i, (sc, cseed, v, desc) in enumerate(self.violations):
                key = (sc.name, v.kind)
                if key in shown:
                    continue
                shown.add(key)
                self.replaydir.mkdir(parents=True, exist_ok=True)
                path = self.replaydir / f"{self.prop}-{sc.name}-{len(shown)}.json"
                path.write_text(json.dumps({
                    "property": self.prop, "scenario": sc.name, "case_seed": cseed,
                    "tier": self.tier, "seed": self.seed, "kind": v.kind, "message": v.msg,
                    "detail": v.detail, "case": desc,
                    "replay_cmd": f"./check {self.prop} --replay {path}"}, indent=1, default=str))
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"    scenario={sc.name} case_seed={cseed} kind={v.kind}: {v.msg[:600]}")
                if len(shown) >= 8:
                    break
            return 1
        if self.errors:
            print(f"INCONCLUSIVE {self.prop}: {len(self.errors)} harness errors, first:\n{self.errors[0]}")
            return 3
        if missing:
            print(f"INCONCLUSIVE {self.prop}: monitors not reached: {missing}")
            return 3
        print(f"HELD {self.prop} on everything explored")
        return 0

    def write_evidence(self, missing):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.module.RULE,
                "samples": self.samples[:12] or ["no case ran"],
                "executions_per_scenario": self.per_scenario,
                "monitor_counters": dict(sorted(self.counters.items())),
                "skipped_out_of_domain": self.skipped,
                "known_findings_met": self.known_hit,
                "inconclusive": missing,
                "harness_errors": len(self.errors),
            },
            "assumptions": list(getattr(self.module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))


def silence():
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
