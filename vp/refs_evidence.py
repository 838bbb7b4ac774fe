"""Log marginal likelihoods by Monte Carlo over the definition of the models: simulate one of
the two processes, and integrate the other one out exactly."""
import numpy as np


def kernels_smooth(p, t, N, rng, per=24):
    """Samples of the covariance matrix of the process at `t`, given the filter. Every
    difference of times must be a multiple of the grid spacing."""
    T = 1 / np.sqrt(p["alpha"])
    S = 4.2 * T  # The window is practically zero beyond: `exp(-2 * 17.6)`.
    d = p["grid"] / np.ceil(p["grid"] / (min(T, 1 / np.sqrt(p["gamma"])) / per * 4))
    n = int(np.ceil(S / d))
    # Midpoints, so that the causal edge is integrated to second order.
    s = (np.arange(0 if p["causal"] else -n, n) + 0.5) * d
    K = p["alpha_t"] ** 2 * np.exp(
        -p["alpha"] * (s[:, None] ** 2 + s[None, :] ** 2) - p["gamma"] * (s[:, None] - s[None, :]) ** 2
    )
    w, v = np.linalg.eigh(K)
    keep = w > 1e-10 * w[-1]
    F = v[:, keep] * np.sqrt(w[keep])
    h = rng.standard_normal((N, F.shape[1])) @ F.T
    lags = np.rint((t[:, None] - t[None, :]) / d).astype(int)
    out = np.empty((N, len(t), len(t)))
    m = h.shape[1]
    for i in range(len(t)):
        for j in range(len(t)):
            k = abs(lags[i, j])
            out[:, i, j] = d * np.sum(h[:, k:] * h[:, : m - k], axis=1) if k < m else 0.0
    return out


def kernels_rough(p, t, N, rng, per=16):
    """Samples of the covariance matrix of the process at `t`, given the excitation."""
    S = 9 / p["alpha"]  # The squared window is practically zero beyond: `exp(-18)`.
    d = p["grid"] / np.ceil(p["grid"] * (p["alpha"] + p["lam"]) * per / 4)
    n = int(np.ceil(S / d))
    idx = np.rint((t - np.min(t)) / d).astype(int)
    m = np.max(idx) + n
    # Excitation at `min(t) + (i - n + 0.5) d`.
    r = np.exp(-p["lam"] * d)
    e = rng.standard_normal((m, N))
    x = np.empty((m, N))
    x[0] = e[0]
    for i in range(1, m):
        x[i] = r * x[i - 1] + np.sqrt(1 - r**2) * e[i]
    # Lags `(j + 0.5) d` for `j < n`.
    w = p["alpha_t"] ** 2 * np.exp(-2 * p["alpha"] * (np.arange(n) + 0.5) * d) * d
    out = np.empty((N, len(t), len(t)))
    segs = [x[i + n - 1 :: -1][:n] if i + n - 1 < m else None for i in idx]
    for i in range(len(t)):
        for j in range(len(t)):
            out[:, i, j] = np.einsum("k,kn,kn->n", w, segs[i], segs[j])
    return out


def evidence(p, t, y, N, rng):
    """Upper confidence bound (probability 1e-9) for and estimate of the log-evidence."""
    f = kernels_rough if p["kind"] == "RGPCM" else kernels_smooth
    n = len(t)
    K = f(p, t, N, rng) + p["noise"] * np.eye(n)
    L = np.linalg.cholesky(K)
    z = np.linalg.solve(L, np.broadcast_to(y, (N, n))[:, :, None])[:, :, 0]
    ld = 2 * np.sum(np.log(np.diagonal(L, axis1=1, axis2=2)), axis=1)
    l = np.exp(-0.5 * (np.sum(z**2, axis=1) + ld + n * np.log(2 * np.pi)))
    top = (2 * np.pi * p["noise"]) ** (-n / 2)
    # Empirical Bernstein.
    c = np.log(2e9)
    ub = np.mean(l) + np.sqrt(2 * np.var(l) * c / N) + 7 * top * c / (3 * (N - 1))
    return np.log(ub), np.log(max(np.mean(l), 1e-300))
