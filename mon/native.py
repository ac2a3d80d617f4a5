"""The compiled extension's own source, built against stand-ins for the libraries missing here, as a module `esat_rust`.

Arguments are taken and results returned the way pyo3 0.25 / rust-numpy 0.25 do (types, integer ranges, memory orders).
"""
import contextlib
import ctypes as ct
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

from mon.core import REPO, VERIF

SRC = REPO / "rust" / "lib.rs"
_lib = None


class PanicException(BaseException):
    """A Rust panic, as pyo3 reports it."""


class Unavailable(Exception):
    pass


class CArr(ct.Structure):
    _fields_ = [("data", ct.POINTER(ct.c_float)), ("rows", ct.c_size_t), ("cols", ct.c_size_t), ("fortran", ct.c_int32)]


class CSet(ct.Structure):
    _fields_ = [("max_iter", ct.c_int32), ("converge_delta", ct.c_float), ("converge_n", ct.c_int32), ("robust_alpha", ct.c_float),
                ("model_i", ct.c_int32), ("hold_h", ct.c_int32), ("delay_h", ct.c_int32), ("gpu", ct.c_int32), ("has_cb", ct.c_int32)]


CB = ct.CFUNCTYPE(None, ct.POINTER(ct.c_double))


def build():
    """Loads the library, building it first; raises Unavailable when the source needs more than the stand-ins offer."""
    global _lib
    if _lib is not None:
        return _lib
    out = tempfile.mkdtemp(prefix="mon-native-")
    try:
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        r = subprocess.run([str(VERIF / "native" / "build.sh"), out, str(SRC)], capture_output=True, text=True, env=env, timeout=300)
        if r.returncode:
            raise Unavailable(r.stderr[-1500:])
        lib = ct.CDLL(os.path.join(out, "libesat_native.so"))
    except (OSError, subprocess.SubprocessError) as ex:
        raise Unavailable(str(ex)) from ex
    finally:
        shutil.rmtree(out, ignore_errors=True)
    lib.esat_call.restype = ct.c_int32
    lim = (ct.c_int64 * 2)()
    lib.limits = {}
    for w in (0, 1):
        lib.esat_model_limits(w, lim)
        lib.limits[w] = (lim[0], lim[1])
    _lib = lib
    return lib


def _array(x, name):
    if not isinstance(x, np.ndarray) or x.dtype != np.float32:
        raise TypeError(f"argument '{name}': type mismatch: expected an array of float32")
    if x.ndim != 2:
        raise PanicException(f"{name}: {x.ndim} dimensions")
    if not (x.flags.c_contiguous or x.flags.f_contiguous):
        raise PanicException("called `Result::unwrap()` on an `Err` value: NotContiguousError")
    f = x.flags.f_contiguous and not x.flags.c_contiguous
    mem = np.array(x.ravel(order="K"))
    return CArr(mem.ctypes.data_as(ct.POINTER(ct.c_float)), x.shape[0], x.shape[1], int(f)), mem


def _int(x, name, lo=-2 ** 31, hi=2 ** 31 - 1):
    if isinstance(x, float) or not hasattr(x, "__index__"):
        raise TypeError(f"argument '{name}': '{type(x).__name__}' object cannot be interpreted as an integer")
    x = x.__index__()
    if not lo <= x <= hi:
        raise OverflowError(f"argument '{name}': out of range integral type conversion attempted")
    return x


def _float(x, name):
    if not hasattr(x, "__float__") and not hasattr(x, "__index__"):
        raise TypeError(f"argument '{name}': must be real number, not {type(x).__name__}")
    return float(x)


def _bool(x, name):
    if x is None:
        return -1
    if not isinstance(x, (bool, np.bool_)):
        raise TypeError(f"argument '{name}': '{type(x).__name__}' object cannot be converted to 'PyBool'")
    return int(x)


CALLS = multiprocessing.Value("q", 0)         # over all processes
OVERFLOWS = multiprocessing.Value("q", 0)     # weighted semi-NMF runs on near-singular matrices that left float32


def _call(which, v, u, we, w, h, max_iter, converge_delta, converge_n, robust_alpha, model_i, static_h, delay_h,
          progress_callback, prefer_gpu):
    lib = build()
    arrs = [_array(x, n) for x, n in ((v, "v"), (u, "u"), (we, "we"), (w, "w"), (h, "h"))]
    st = CSet(_int(max_iter, "max_iter"), _float(converge_delta, "converge_delta"), _int(converge_n, "converge_n"),
              _float(robust_alpha, "robust_alpha"), _int(model_i, "model_i", *lib.limits[which]), _bool(static_h, "static_h"),
              -2 ** 31 if delay_h is None else _int(delay_h, "delay_h"), _bool(prefer_gpu, "prefer_gpu"),
              int(progress_callback is not None))
    with CALLS.get_lock():
        CALLS.value += 1

    @CB
    def cb(p):
        a = [p[i] for i in range(7)]
        with contextlib.suppress(Exception):          # the extension ignores what the callback raises
            progress_callback(int(a[0]), int(a[1]), int(a[2]), a[3], a[4], a[5], bool(a[6]))
    W, H = np.empty(w.shape), np.empty(h.shape)
    cap = max(0, st.max_iter) + 1
    orders, sc, hist = (ct.c_int32 * 2)(), (ct.c_double * 4)(), np.empty(cap, np.float32)
    P = ct.POINTER
    r = lib.esat_call(which, *(ct.byref(a[0]) for a in arrs), ct.byref(st), cb, W.ctypes.data_as(P(ct.c_double)),
                      H.ctypes.data_as(P(ct.c_double)), orders, sc, hist.ctypes.data_as(P(ct.c_float)), ct.c_size_t(cap))
    if r == 1:
        raise RuntimeError("the extension reported an error")
    if r:
        raise PanicException("the extension panicked")
    if which == 1 and not (np.isfinite(W).all() and np.isfinite(H).all()):
        with OVERFLOWS.get_lock():
            OVERFLOWS.value += 1
    return {"w": np.asfortranarray(W) if orders[0] else W, "h": np.asfortranarray(H) if orders[1] else H, "q": sc[0],
            "converged": bool(sc[1]), "converge_i": int(sc[2]), "q_list": hist[:int(sc[3])].copy()}


def ls_nmf(*a):
    return _call(0, *a)


def ws_nmf(*a):
    return _call(1, *a)


def clear_screen():
    return None


@contextlib.contextmanager
def installed():
    """`import esat_rust` finds the compiled extension for the time of the block."""
    build()
    m = types.ModuleType("esat_rust")
    m.ls_nmf, m.ws_nmf, m.clear_screen = ls_nmf, ws_nmf, clear_screen
    old = sys.modules.get("esat_rust")
    sys.modules["esat_rust"] = m
    for f in (ls_nmf, ws_nmf, clear_screen):
        f.__module__ = "esat_rust"
    try:
        yield m
    finally:
        if old is None:
            del sys.modules["esat_rust"]
        else:
            sys.modules["esat_rust"] = old
