"""Reference for inference: Gaussian moments and dense linear algebra with NumPy.

The process has `E f^2 = i_hx + <U, I_ux> + <Z, I_hz> + tr(U I_uz Z I_uz')` with
`U = E[u u'] - K_u^-1` and `Z = E[z z'] - K_z^-1`, for independent `u` and `z`, because
the covariances of filter and excitation given `u` and `z` are linear in `U` and `Z`.
"""
import numpy as np

from .refs_model import reference


def sym(A):
    return (A + np.swapaxes(A, -1, -2)) / 2


class Gauss:
    """Gaussian by its natural parameters."""

    def __init__(self, lam, prec):
        self.lam = np.asarray(lam, dtype=float).reshape(-1)
        self.prec = sym(np.asarray(prec, dtype=float))
        self.var = np.linalg.inv(self.prec)
        self.mean = np.linalg.solve(self.prec, self.lam)
        self.m2 = self.var + np.outer(self.mean, self.mean)

    def logpdf(self, x):
        d = x - self.mean
        return 0.5 * (
            np.linalg.slogdet(self.prec)[1] - len(d) * np.log(2 * np.pi) - d @ self.prec @ d
        )

    def kl(self, q):
        d = self.mean - q.mean
        return 0.5 * (
            np.sum(q.prec * self.var) - len(d) + d @ q.prec @ d
            + np.linalg.slogdet(self.prec)[1] - np.linalg.slogdet(q.prec)[1]
        )

    def sample(self, rng, n):
        L = np.linalg.cholesky(self.prec)
        e = rng.standard_normal((len(self.lam), n))
        return self.mean[:, None] + np.linalg.solve(L.T, e)


class Point:
    """Point mass."""

    def __init__(self, x):
        self.mean = np.asarray(x, dtype=float).reshape(-1)
        self.m2 = np.outer(self.mean, self.mean)


class Terms:
    """A model at inputs `t`."""

    def __init__(self, p, t, ref=None):
        ref = ref or reference(p)
        z = np.zeros(1)
        self.noise = p["noise"]
        self.t = np.asarray(t, dtype=float)
        self.K_u, self.K_z = sym(ref.K_u()), sym(ref.K_z())
        self.iK_u, self.iK_z = np.linalg.inv(self.K_u), np.linalg.inv(self.K_z)
        self.hx = float(ref.i_hx(0.0, 0.0))
        self.ux = sym(ref.I_ux(z, z)[0, 0])
        self.hz = sym(ref.I_hz(self.t))
        self.uz = ref.I_uz(self.t)
        self.p_u = Gauss(np.zeros(len(self.K_u)), self.K_u)
        self.p_z = Gauss(np.zeros(len(self.K_z)), self.K_z)

    def cond(self):
        return max(np.linalg.cond(self.K_u), np.linalg.cond(self.K_z))

    def mean(self, u, z):
        """Mean of the process, given means."""
        return (u @ self.uz) @ z

    def second(self, U2, Z2):
        """Second moment of the process, given second moments; and the sum of the
        magnitudes of the terms."""
        U, Z = U2 - self.iK_u, Z2 - self.iK_z
        parts = [
            self.hx + 0 * self.t,
            np.sum(U * self.ux) + 0 * self.t,
            np.tensordot(self.hz, Z, 2),
            np.sum((U @ self.uz) * (self.uz @ Z), axis=(1, 2)),
        ]
        mags = [
            self.hx + 0 * self.t,
            np.sum(np.abs(U * self.ux)) + 0 * self.t,
            np.tensordot(np.abs(self.hz), np.abs(Z), 2),
            np.sum((np.abs(U) @ np.abs(self.uz)) * (np.abs(self.uz) @ np.abs(Z)), axis=(1, 2)),
        ]
        return sum(parts), sum(mags)

    def loglik(self, y, qu, qz):
        """Expected log-likelihood per observation, and the magnitude of the terms."""
        m1 = self.mean(qu.mean, qz.mean)
        m2, mag = self.second(qu.m2, qz.m2)
        s = self.noise
        ell = -0.5 * np.log(2 * np.pi * s) - (y**2 - 2 * y * m1 + m2) / (2 * s)
        return ell, 1 + np.abs(np.log(s)) + (y**2 + 2 * np.abs(y * m1) + mag) / (2 * s)

    def elbo(self, y, qu, qz, p_u=None, p_z=None):
        """ELBO and magnitude."""
        ell, mag = self.loglik(y, qu, qz)
        ku, kz = qu.kl(p_u or self.p_u), qz.kl(p_z or self.p_z)
        return np.sum(ell) - ku - kz, np.sum(mag) + abs(ku) + abs(kz) + 1

    def q_u(self, y, qz, p_u=None):
        """Optimum of `u`: from the exact quadratic dependence of the log-joint on `u`."""
        p = p_u or self.p_u
        Z = qz.m2 - self.iK_z
        A = self.ux + (self.uz @ Z) @ np.swapaxes(self.uz, 1, 2)
        lam = np.tensordot(y, self.uz, 1) @ qz.mean
        return Gauss(p.lam + lam / self.noise, p.prec + np.sum(A, axis=0) / self.noise)

    def q_z(self, y, qu, p_z=None):
        p = p_z or self.p_z
        U = qu.m2 - self.iK_u
        A = self.hz + np.swapaxes(self.uz, 1, 2) @ (U @ self.uz)
        lam = qu.mean @ np.tensordot(y, self.uz, 1)
        return Gauss(p.lam + lam / self.noise, p.prec + np.sum(A, axis=0) / self.noise)

    def collapsed_z(self, y, qu):
        """`E log p(y | u, z) - KL(q(z), p(z))` at the optimum for `z`; the log-normaliser
        if `qu` is a point."""
        q = self.q_z(y, qu)
        ell, mag = self.loglik(y, qu, q)
        k = q.kl(self.p_z)
        return np.sum(ell) - k, np.sum(mag) + abs(k) + 1

    def predict(self, qu, qz):
        m1 = self.mean(qu.mean, qz.mean)
        m2, mag = self.second(qu.m2, qz.m2)
        return m1, m2, mag
