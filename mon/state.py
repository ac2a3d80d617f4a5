"""The stored public state of an object as a flat list of (place, digest), comparable across processes.

As a program: reads lines naming a class and a file, loads the file and answers with that list (a fresh process that made none of the objects).
"""
import hashlib
import importlib
import json
import logging
import sys
import types

import numpy as np
import pandas as pd

SKIP = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, logging.Logger, type)


def digest(x):
    return hashlib.sha1(x).hexdigest()[:16]


def state(x, skip=(), limit=400000):
    out, seen = [], set()

    def walk(v, at):
        if len(out) > limit:
            return
        if v is None or isinstance(v, (bool, int, str, bytes, complex)):
            out.append((at, repr(v)))
        elif isinstance(v, float):
            out.append((at, v.hex()))
        elif isinstance(v, np.generic):
            out.append((at, f"{v.dtype} {v.tobytes().hex()}" if v.dtype != object else repr(v)))
        elif isinstance(v, np.ndarray):
            if v.dtype == object:
                out.append((at, f"object {v.shape}"))
                for i, e in enumerate(v.ravel()):
                    walk(e, f"{at}[{i}]")
            else:
                out.append((at, f"{v.dtype} {v.shape} {digest(np.ascontiguousarray(v).tobytes())}"))
        elif isinstance(v, (pd.DataFrame, pd.Series)):
            out.append((at, f"{type(v).__name__} {v.shape}"))
            if isinstance(v, pd.Series):
                v = v.to_frame("series")
            walk(v.index, at + ".index")
            walk([str(c) for c in v.columns], at + ".columns")
            for i in range(v.shape[1]):
                walk(v.iloc[:, i].to_numpy(), f"{at}.{v.columns[i]}")
        elif isinstance(v, pd.Index):
            walk([str(e) for e in v], at)
        elif isinstance(v, np.random.Generator):
            walk(v.bit_generator.state, at)
        elif isinstance(v, dict):
            out.append((at, f"dict {[str(k) for k in v]}"))
            for k, e in v.items():
                walk(e, f"{at}[{k!r}]")
        elif isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
            out.append((at, f"{type(v).__name__} {len(v)}"))
            for i, e in enumerate(v):
                walk(e, f"{at}[{i}]")
        elif isinstance(v, (set, frozenset)):
            out.append((at, f"set {sorted(map(repr, v))}"))
        elif isinstance(v, SKIP) or callable(v):
            pass
        elif hasattr(v, "__dict__"):
            if id(v) in seen:
                return
            seen.add(id(v))
            out.append((at, type(v).__name__))
            for k in sorted(vars(v)):
                if not k.startswith("_") and k not in skip:
                    walk(vars(v)[k], f"{at}.{k}")
        else:
            out.append((at, f"{type(v).__name__} {v}"))
    walk(x, "")
    return out


def differences(a, b):
    a, b = [tuple(x) for x in a], [tuple(x) for x in b]
    da, db = dict(a), dict(b)
    return [f"{k}: {da.get(k, 'absent')} / {db.get(k, 'absent')}" for k in list(dict.fromkeys([*da, *db])) if da.get(k) != db.get(k)]


def main():
    from mon.core import silence
    answers = sys.stdout
    sys.stdout = sys.stderr
    silence()
    for line in sys.stdin:
        module, cls, path, skip = json.loads(line)
        try:
            got = getattr(importlib.import_module(module), cls).load(path)
            r = {"type": type(got).__name__, "state": state(got, skip)}
        except BaseException as ex:  # noqa: BLE001
            r = {"error": f"{type(ex).__name__}: {ex}"}
        answers.write(json.dumps(r) + "\n")
        answers.flush()


if __name__ == "__main__":
    main()
