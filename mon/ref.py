"""Executable reference models (float64, written from the published rules)."""
import numpy as np


def f64(*xs):
    return [np.asarray(x, dtype=np.float64) for x in xs]


def lsnmf_step(V, U, W, H, hold=False):
    V, U, W, H = f64(V, U, W, H)
    P = 1.0 / (U * U)
    if not hold:
        num = W.T @ (P * V)
        den = W.T @ (P * (W @ H))
        H = H * np.where(den > 0, num / np.where(den > 0, den, 1), 0)
    num = (P * V) @ H.T
    den = (P * (W @ H)) @ H.T
    W = W * np.where(den > 0, num / np.where(den > 0, den, 1), 0)
    return W, H


def wls_contributions(V, U, H):
    """Row-wise weighted least squares, with the condition numbers."""
    V, U, H = f64(V, U, H)
    W = np.zeros((V.shape[0], H.shape[0]))
    cond = np.zeros(V.shape[0])
    for i in range(V.shape[0]):
        A = (H / U[i]).T
        W[i] = np.linalg.lstsq(A, V[i] / U[i], rcond=None)[0]
        s = np.linalg.svd(A, compute_uv=False)
        cond[i] = np.inf if s[-1] == 0 or len(s) < H.shape[0] else (s[0] / s[-1]) ** 2
    return W, cond


def wsnmf_profiles(V, U, W, H, eps=1e-12):
    V, U, W, H = f64(V, U, W, H)
    P = 1.0 / (U * U)
    Wp, Wn = np.maximum(W, 0), np.maximum(-W, 0)
    X = P * V
    Xp, Xn = np.maximum(X, 0), np.maximum(-X, 0)
    n1 = Wp.T @ Xp + Wn.T @ Xn
    d1 = Wn.T @ Xp + Wp.T @ Xn
    out = np.empty_like(H)
    for j in range(V.shape[1]):
        p = P[:, j][:, None]
        n2 = H[:, j] @ (Wn.T @ (p * Wn))
        d2 = H[:, j] @ (Wp.T @ (p * Wp))
        out[:, j] = H[:, j] * np.sqrt((n1[:, j] + n2 + eps) / (d1[:, j] + d2 + eps))
    return out


def qrobust(V, U, W, H, alpha):
    V, U, W, H = f64(V, U, W, H)
    r = np.abs((V - W @ H) / U)
    return float(np.where(r > alpha, alpha * r, r * r).sum())
