"""Workload generators: realistic, hostile and degenerate datasets."""
import numpy as np

KINDS = ("lowrank", "noisy", "heavy", "tiny", "large", "mixedscale", "spiky", "weak", "integer", "collinear")


def dataset(rng, m=None, n=None, k=None, kind=None, positive=True, big=False):
    """(V, U, kind, k): strictly positive float64 data unless positive=False."""
    if m is None and n is None and rng.random() < 0.06:
        # as large as real campaigns: many samples, many species, many factors
        m, n = [(int(rng.integers(150, 420)), int(rng.integers(3, 12))), (int(rng.integers(10, 40)), int(rng.integers(30, 80))),
                (int(rng.integers(40, 90)), int(rng.integers(18, 30)))][rng.integers(3)]
        k = k or int(rng.integers(2, min(m, n, 14)))
    m = int(m or rng.integers(4, 60 if big else 28))
    n = int(n or rng.integers(3, 20 if big else 11))
    k = int(k or rng.integers(1, max(2, min(m, n, 6))))
    kind = kind or KINDS[rng.integers(len(KINDS))]
    W = rng.gamma(1.0, 1.0, (m, k)) + 1e-3
    H = rng.gamma(0.6, 1.0, (k, n)) + 1e-3
    V = W @ H
    rel = 0.1
    if kind == "noisy":
        V = V * rng.lognormal(0, 0.6, V.shape)
        rel = 0.4
    elif kind == "heavy":
        V = V * (1 + np.abs(rng.standard_t(1.5, V.shape)))
    elif kind == "tiny":
        V = V * 1e-5
    elif kind == "large":
        V = V * 1e4
    elif kind == "mixedscale":
        V = V * 10.0 ** rng.uniform(-3, 3, n)
    elif kind == "spiky":
        V = V * np.where(rng.random(V.shape) < 0.05, 50.0, 1.0)
    elif kind == "integer":
        V = np.ceil(V * 3)
    elif kind == "collinear":
        V = np.outer(W[:, 0], H[0]) * (1 + 0.01 * rng.standard_normal(V.shape))
        V = np.abs(V) + 1e-4 * V.max()
    elif kind == "lowrank":
        V = V * (1 + 0.02 * rng.standard_normal(V.shape))
    V = np.maximum(np.abs(V), 1e-9 * np.abs(V).max())
    U = rel * V * rng.uniform(0.3, 3.0, V.shape) + 0.01 * V.mean(axis=0)
    if kind == "weak":
        U[:, rng.integers(n)] *= 100.0
        U[rng.random(U.shape) < 0.1] *= 1e3
    if not positive:
        neg = rng.random(V.shape) < rng.uniform(0.02, 0.3)
        neg[0, 0] = True
        V = np.where(neg, -0.5 * V, V)
    return V, U, kind, k


def factors_for(rng, V, k, signed=False):
    m, n = V.shape
    s = np.sqrt(np.abs(V).mean() / k)
    W = s * np.abs(rng.standard_normal((m, k))) + 1e-9
    H = s * np.abs(rng.standard_normal((k, n))) + 1e-9
    if signed:
        W = W * rng.choice([-1.0, 1.0], W.shape)
    return W, H


def wq(V, U, W, H):
    """Weighted loss in float64, the reference definition."""
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    return float((((V - W @ H) / U) ** 2).sum())


def wq_noise(V, U, W, H, eps):
    """How far float rounding with unit roundoff eps may move the loss."""
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    k = H.shape[0]
    e = eps * (np.abs(V) + (k + 2) * (np.abs(W) @ np.abs(H))) / U
    r = np.abs(V - W @ H) / U
    return float((2 * r * e + e * e).sum()) + 1e-30


def rowloss(V, U, W, H):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    return (((V - W @ H) / U) ** 2).sum(axis=1)


def omit(rng, kw, **documented):
    """The keyword arguments with some of those that equal their documented default left out."""
    return {a: b for a, b in kw.items()
            if not (a in documented and type(b) is type(documented[a]) and b == documented[a] and rng.integers(2))}


NAMES = ("PM2.5", "NH4+", "OC", "EC", "Crustal K", "so4 (ug/m3)", "NO3-", "Zn", "d13C", "1,2-DCE"[:1] + "-2-DCE", "Pb_ICP", "total P", "CHL a", "As", "as")


def names(rng, n):
    """n different feature names as they are found in real data."""
    got = [str(x) for x in rng.permutation(NAMES)[:n]]
    return got + [f"Feature {i}" for i in range(len(got), n)]
