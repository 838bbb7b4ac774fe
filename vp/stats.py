"""Statistical tests with negligible false-alarm rates."""
import numpy as np

from .core import Violation


def chi2(x, dof, what, p=1e-9):
    """A value that should be chi-squared distributed."""
    from scipy.stats import chi2 as d

    lo, hi = d.cdf(x, dof), d.sf(x, dof)
    if not (lo > p and hi > p):
        raise Violation(f"{what}: chi-squared statistic {x:.6g} with {dof} degrees of freedom: tail probability {min(lo, hi):.3g}")
    return min(lo, hi)


def normal(z, what, p=1e-9):
    """Values that should be standard normal (tests the largest)."""
    from scipy.stats import norm

    z = np.atleast_1d(z)
    i = int(np.argmax(np.abs(z)))
    q = 2 * norm.sf(abs(z.flat[i]))
    if not q * z.size > p:
        raise Violation(f"{what}: z-score {z.flat[i]:.4g}")
    return q


def white(r, what, p=1e-9):
    """Rows of `r` should be independent standard normal vectors."""
    R, n = r.shape
    if not np.all(np.isfinite(r)):
        raise Violation(f"{what}: not finite")
    chi2(np.sum(r**2), R * n, what, p)
    for i in range(n):
        chi2(np.sum(r[:, i] ** 2), R, f"{what}, coordinate {i}", p / n)
    normal(np.sum(r, axis=0) / np.sqrt(R), f"{what}, mean", p)
    if n > 1:
        # Products of independent standard normals have exponential tails: bound through
        # the chi-squared distributions of (r_i + r_j) / sqrt(2).
        for i in range(n):
            for j in range(i):
                chi2(np.sum((r[:, i] + r[:, j]) ** 2) / 2, R, f"{what}, sum of coordinates {i} and {j}", p / n**2)
                chi2(np.sum((r[:, i] - r[:, j]) ** 2) / 2, R, f"{what}, difference of coordinates {i} and {j}", p / n**2)
    if R > 2:
        # Successive draws are independent.
        for s in (1, -1):
            d = (r[1::2][: R // 2] + s * r[0::2][: R // 2]) / np.sqrt(2)
            chi2(np.sum(d**2), d.size, f"{what}, pairs of successive draws", p)
