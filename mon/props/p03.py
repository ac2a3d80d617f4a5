"""P03: holding and delaying the profile matrix."""
import numpy as np

from mon import gen, ref
from mon.core import Scenario
from mon.instr import StepTrace
from esat.model.sa import SA

TECHNIQUE = 'online monitor on the profile matrix after every iteration, hold/delay specification automaton'
NOTE = 'Profile matrices are compared bit for bit after every iteration of sampled runs for every shorter limit.'
RULE = ("each case draws a dataset, an algorithm, a hold flag, a delay and an iteration limit, trains fresh copies of one "
        "model for every shorter limit (near the delay for long delays) and compares the profile matrix after every iteration with the start; distinct by "
        "(method, hold, delay, limit, shape)")
ASSUMPTIONS = ["profiles of an unheld iteration are expected to change unless the published update leaves them where they are"]
REQUIRED = {"held_iterations": 200, "released_iterations": 100}


def hold(ctx):
    rng = ctx.rng
    method = ["ls-nmf", "ws-nmf"][rng.integers(2)]
    V, U, kind, k = gen.dataset(rng, kind=["lowrank", "noisy", "heavy", "spiky", "integer", "large"][rng.integers(6)],
                                positive=method == "ls-nmf" or bool(rng.integers(2)))
    W, H = gen.factors_for(rng, V, k, signed=method == "ws-nmf")
    if rng.random() < 0.3:
        H[rng.random(H.shape) < 0.2] = 1e-12
    dt = np.float32 if rng.integers(2) else np.float64
    W, H = W.astype(dt), H.astype(dt)
    held = bool(rng.random() < 0.75)
    delay = int(rng.choice([-1, 0, 1, 2, 3, 5, 8]))
    limit = int(rng.integers(1, 12))
    if rng.random() < 0.1:
        delay, limit = int(rng.integers(8, 70)), int(rng.integers(20, 90))
    ctx.note(kind=kind, method=method, shape=V.shape, k=k, hold=held, delay=delay, limit=limit, dtype=str(dt))
    ctx.distinct((method, held, delay, limit, V.shape, k))

    asked = gen.omit(rng, dict(hold_h=held, delay_h=delay), hold_h=False, delay_h=-1)

    def run(n, trace=False):
        sa = SA(V=V, U=U, factors=k, method=method, seed=3)
        sa.initialize(H=H.copy(), W=W.copy())
        kw = dict(max_iter=n, converge_delta=-1e30, **asked)
        H0, W0 = np.array(sa.H), np.array(sa.W)
        ev = []
        if trace:
            with StepTrace(sa) as tr:
                sa.train(**kw)
            ev = tr.events
        else:
            sa.train(**kw)
        ctx.require(len(sa.q_list) == n, "iteration-count", f"{len(sa.q_list)} iterations for a limit of {n}")
        return H0, W0, np.array(sa.H), np.array(sa.W), ev
    def settled(W0, H0):
        """Whether one more iteration leaves these profiles where they are."""
        if method == "ls-nmf":
            Hr = ref.lsnmf_step(V, U, W0, H0)[1]
        else:
            Hr = ref.wsnmf_profiles(V, U, ref.wls_contributions(V, U, H0)[0], H0)
        return bool((np.abs(Hr - H0) <= 1e-4 * np.abs(H0) + 1e-30).all())

    with ctx.quiet():
        prev = prev_w = None
        wanted = range(1, limit + 1) if limit < 15 else sorted({x for x in (1, 2, delay, delay + 1, delay + 2, delay + 3, limit - 1, limit) if 1 <= x <= limit})
        for n in wanted:
            if n > 1 and n - 1 not in wanted:
                _, _, prev, prev_w, _ = run(n - 1)
            H0, W0, H1, W1, ev = run(n, trace=n == limit)
            i = n - 1                                  # zero-based index of the last iteration
            must_hold = held and not (delay > 0 and i > delay)
            before = H0 if prev is None else prev
            same = H1.shape == before.shape and np.array_equal(H1, before)
            if must_hold:
                ctx.count("held_iterations")
                ctx.check(same and np.array_equal(H1, H0), "held-profile-moved",
                          f"iteration {i} hold={held} delay={delay} limit={n}")
                ctx.check(not np.array_equal(W1, W0), "contributions-frozen", f"iteration {i}")
            else:
                ctx.count("released_iterations")
                ctx.check(not same or settled(W0 if prev is None else prev_w, before), "profile-not-released",
                          f"iteration {i} hold={held} delay={delay} limit={n}")
            prev, prev_w = H1, W1
        for i, e in enumerate(ev):
            must_hold = held and not (delay > 0 and i > delay)
            ctx.count("hooked_update_calls")
            ctx.check(np.array_equal(e["H0"], e["H1"]) == must_hold or not must_hold and settled(e["W0"], e["H0"]), "held-profile-moved" if must_hold else
                      "profile-not-released", f"hooked iteration {i}")


SCENARIOS = [Scenario("hold", hold, 250, 6000)]
