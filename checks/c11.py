"""C11: the kernel given the filter's inducing variables."""
import numpy as np

from checks.c10 import cond, psd
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import jnp, st
from vp.num import arr, close


def s_k():
    return st.fixed_dictionaries(
        dict(
            m=M.any_model(),
            t1=M.rel(2, 4),
            t2=M.rel(1, 3),
            u=st.lists(M.grid(-2, 2, 8), min_size=5, max_size=5),
            shift=M.grid(-3, 3, 8),
            lib=st.sampled_from(["numpy", "jax"]),
            shape=st.sampled_from(["vector", "column"]),
        )
    )


def r_k(case):
    # The regularisation is absolute: turn it off.
    with M.epsilon(0.0):
        return _r_k(case)


def _r_k(case):
    from vp.refs_model import reference

    s = case["m"]
    p = M.params(s)
    ref = reference(p)
    m = M.build(s)()
    K_u = ref.K_u()
    c = cond(K_u)
    if c > 1e6:
        return info(False, "ill-conditioned")
    n = len(K_u)
    lib = jnp.asarray if case["lib"] == "jax" else np.asarray
    t1 = s["T"] * 4 * np.array(case["t1"])
    t2 = s["T"] * 4 * np.array(case["t2"])
    L = np.linalg.cholesky(K_u)
    u = L @ np.array(case["u"][:n])
    shape = (lambda x: x[:, None]) if case["shape"] == "column" else (lambda x: x)

    def k(a, b, v):
        return arr(m.kernel_approx(lib(a), lib(b), lib(shape(v))))

    i_hx = ref.i_hx(t1[:, None], t2[None, :])
    ux = ref.I_ux(t1, t2)
    var = float(ref.i_hx(0.0, 0.0))
    iu = np.linalg.inv(K_u)
    v = iu @ u
    expl = np.einsum("ijab,ab->ij", ux, iu)
    want = i_hx - expl + np.einsum("ijab,a,b->ij", ux, v, v)
    size = var * (1 + np.sum(np.array(case["u"]) ** 2))
    tol = (1e-9 + 1e-11 * c) * size
    w = close(k(t1, t2, u), want, "kernel_approx", rtol=1e-7, atol=tol)
    # It is even in `u`.
    close(k(t1, t2, -u), k(t1, t2, u), "evenness in u", rtol=1e-9, atol=tol * 1e-2)
    # It is stationary.
    d = case["shift"] * s["T"]
    close(k(t1 + d, t2 + d, u), k(t1, t2, u), "stationarity", rtol=1e-7, atol=tol)
    # At zero, only the unexplained part is left.
    close(k(t1, t2, 0 * u), i_hx - expl, "at zero", rtol=1e-7, atol=tol)
    # It is symmetric and PSD.
    K = k(t1, t1, u)
    psd(K, "kernel_approx(t, t, u)", tol * len(t1))
    close(k(t2, t1, u), k(t1, t2, u).T, "symmetry", rtol=1e-9, atol=tol)
    # The average over the prior: for quadratics, the average over sigma points is exact.
    sig = np.sqrt(n) * L.T
    avg = np.mean([k(t1, t2, x) for x in sig], axis=0)
    close(avg, i_hx, "average over the prior", rtol=1e-7, atol=(1e-9 + 1e-11 * c) * var * (1 + n))
    return info(np.any(u != 0) and len(set(t1)) > 1, s["kind"], worst=w)


CHECK = Check(
    "C11",
    [
        Sub("k", s_k, r_k, 200, 5000, shards=8,
            rule="random models, inputs and values of u (vectors and columns, NumPy and JAX): against the conditional "
            "expectation with integrals by quadrature; evenness, stationarity, symmetry, eigenvalues, exact average over "
            "sigma points of the prior; non-trivial: u not zero and at least two distinct inputs"),
    ],
    level_note="Random search over models with a filter covariance of condition number below 1e6.",
)
