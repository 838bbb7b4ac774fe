"""Random states of inference: data, factors, and their counterparts in the code under test."""
import numpy as np

from . import models as M
from .lazy import B, N, jnp, st
from .models import grid
from .num import arr

COND = 1e6


def model(n_u=(1, 4), n_z=(1, 5), m_max=(1, 2), gap=0.5, **kw):
    return st.one_of(
        M.smooth(n_u=n_u, n_z=n_z, gap=gap, **kw),
        M.rough(n_u=n_u, m_max=m_max, gap=gap, **{k: v for k, v in kw.items() if k != "kinds"}),
    )


def data(lo=1, hi=6):
    """Relative inputs and observations."""
    return M.sizes(lo, hi).flatmap(
        lambda n: st.tuples(
            st.lists(grid(0, 1, 16), min_size=n, max_size=n),
            st.lists(grid(-2, 2, 8), min_size=n, max_size=n),
        )
    )


def factor():
    """A factor relative to its prior: whitened mean, and a triangular matrix."""
    return st.fixed_dictionaries(
        dict(
            mean=st.lists(grid(-2, 2, 8), min_size=8, max_size=8),
            d=st.lists(st.integers(4, 64), min_size=8, max_size=8),
            l=st.lists(grid(-1, 1, 8), min_size=16, max_size=16),
            scale=st.sampled_from([0.25, 1.0, 1.0, 30.0]),
        )
    )


def gauss(f, K):
    """Natural parameters of a factor: the prior has precision `K`."""
    from .refs_bayes import Gauss

    n = len(K)
    L = np.linalg.cholesky(K)
    T = np.eye(n) + np.tril(np.resize(f["l"], (n, n)), -1)
    W = T * (np.resize(f["d"], n) / 16) @ T.T * f["scale"]
    prec = L @ W @ L.T
    x = np.linalg.solve(L.T, np.resize(f["mean"], n))
    return Gauss(prec @ x, prec)


def point(x, K):
    return np.linalg.solve(np.linalg.cholesky(K).T, np.resize(x, len(K)))


def natural(g, lib=None):
    lib = lib or jnp.asarray
    return N.NaturalNormal(lib(g.lam[:, None]), lib(g.prec))


def gauss_of(q):
    """Reference Gaussian of a Gaussian of the code under test."""
    from .refs_bayes import Gauss

    lam, prec = arr(q.lam), arr(q.prec)
    if not (np.all(np.isfinite(lam)) and np.all(np.isfinite(prec))):
        from .core import Violation

        raise Violation(f"natural parameters are not finite: {lam}, {prec}")
    return Gauss(lam, prec)


def terms(s, t):
    """Reference at inputs `t`, or `None` if ill-conditioned."""
    from .refs_bayes import Terms

    r = Terms(M.params(s), t)
    return r if r.cond() <= COND and np.all(np.isfinite([r.hx])) else None


def Gauss_(prec, mean):
    """A factor by its precision and mean."""
    from .refs_bayes import Gauss

    return Gauss(prec @ mean, prec)
