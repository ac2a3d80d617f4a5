import argparse
import importlib
import json
import os
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--scenario")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    from mon import core
    core.silence()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        mod = importlib.import_module(f"mon.props.{a.prop.lower()}")
    except Exception as ex:  # noqa: BLE001
        where = core.repo_frame(ex.__traceback__)
        import traceback
        traceback.print_exc(limit=-6, file=sys.stdout)
        if where and where[0] == "repo":
            d = core.VERIF / "evidence" / "replays"
            d.mkdir(parents=True, exist_ok=True)
            f = d / f"{a.prop}-import.json"
            f.write_text(json.dumps({"property": a.prop, "kind": "import-failure", "where": where, "error": str(ex)}))
            print(f"VIOLATION property={a.prop} replay={f}")
            return 1
        print(f"INCONCLUSIVE {a.prop}: import failed at {where}")
        return 3
    if a.scenario:
        mod.SCENARIOS = [s for s in mod.SCENARIOS if s.name == a.scenario]
        mod.REQUIRED = {}
    s = core.Session(a.prop, mod, tier, a.seed, a.cases)
    if a.replay:
        r = json.load(open(a.replay))
        sc = [x for x in mod.SCENARIOS if x.name == r["scenario"]][0]
        mod.REQUIRED = {}
        s.run_case(sc, r["case_seed"])
        return s.finish()
    return s.run()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
