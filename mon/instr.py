"""Instrumentation: wrappers put around the public operations of the code under
test for the time of one execution, recording events at its boundary."""
import contextlib
import gc
import inspect
import multiprocessing.pool
import os
import time

import numpy as np


@contextlib.contextmanager
def patched(obj, name, value):
    had = name in vars(obj) if not isinstance(obj, type) else name in obj.__dict__
    old = obj.__dict__.get(name) if had else None
    setattr(obj, name, value)
    try:
        yield
    finally:
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


def bound_args(fn, a, k):
    try:
        return dict(inspect.signature(fn).bind(*a, **k).arguments)
    except (TypeError, ValueError):
        d = dict(zip(("V", "We", "W", "H", "hold_h"), a))
        d.update(k)
        return d


class StepTrace:
    """Records every call a model makes to its update algorithm."""

    def __init__(self, sa, keep=400):
        self.events, self.sa, self.keep = [], sa, keep

    def __enter__(self):
        self.orig = self.sa.update_step
        orig, ev = self.orig, self.events

        def step(*a, **k):
            d = bound_args(orig, a, k)
            pre = {n: (None if d.get(n) is None else np.array(d[n], copy=True)) for n in ("W", "H")}
            out = orig(*a, **k)
            if len(ev) < self.keep:
                ev.append({"W0": pre["W"], "H0": pre["H"], "We": d.get("We"), "hold": bool(d.get("hold_h", False)),
                           "W1": np.array(out[0], copy=True), "H1": np.array(out[1], copy=True)})
            return out
        self.sa.update_step = step
        return self

    def __exit__(self, *exc):
        self.sa.update_step = self.orig
        return False


def close_ratio(a, b, rtol, floor=1e-28):
    """Largest relative difference over entries that are not denormal dust."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return np.inf
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return np.inf
    scale = np.maximum(np.abs(a), np.abs(b))
    big = scale > floor
    if not big.any():
        return 0.0
    return float((np.abs(a - b)[big] / scale[big]).max())


def _help_stuff_finish(inqueue, task_handler, size):
    # as in the standard library, which waits forever for a lock that an ended worker held
    inqueue._rlock.acquire(timeout=3)
    while task_handler.is_alive() and inqueue._reader.poll():
        inqueue._reader.recv()
        time.sleep(0)


multiprocessing.pool.Pool._help_stuff_finish = staticmethod(_help_stuff_finish)


@contextlib.contextmanager
def limited(ctx, seconds, what):
    """A call into the code under test that may wait on workers: a hang is a violation, left-over workers are ended."""
    import multiprocessing as mp
    import signal

    from mon.core import Violation

    def ring(*_):
        raise Violation("hang", f"{what} did not finish within {seconds} s")
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(int(seconds))
    # the machine of the user has few or many cores
    n = int(np.random.default_rng(ctx.cseed).choice([1, 1, 2, 3] + [0] * 10))
    if n:
        ctx.count(f"machines_with_{n}_cores")
    try:
        with patched(os, "cpu_count", lambda: n) if n else contextlib.nullcontext():
            yield
    finally:
        gc.collect()            # a pool left behind by an exception ends its own workers
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        for c in mp.active_children():
            c.terminate()


class Delays:
    """Makes the i-th call of a patched method take delays[key] seconds longer: forces finishing orders on workers."""

    def __init__(self, cls, name, key, delays, before=False):
        self.cls, self.name, self.key, self.delays, self.before = cls, name, key, delays, before

    def __enter__(self):
        import time
        orig = self.cls.__dict__[self.name]
        key, delays = self.key, self.delays
        self.orig = orig

        def slow(obj, *a, **k):
            out = orig(obj, *a, **k)
            time.sleep(delays.get(key(obj, a, k), 0.0))
            return out
        slow.__name__ = self.name
        setattr(self.cls, self.name, slow)
        return self

    def __exit__(self, *e):
        setattr(self.cls, self.name, self.orig)
        return False
