"""C10: positive-definiteness and residual terms."""
import numpy as np

from vp import models as M
from vp.core import Check, Sub, info
from vp.num import arr, check, close


def min_eig(A):
    A = np.asarray(A)
    return np.min(np.linalg.eigvalsh((A + np.swapaxes(A, -1, -2)) / 2), initial=np.inf)


def psd(A, what, tol):
    check(np.all(np.isfinite(A)), f"{what}: not finite")
    close(A, np.swapaxes(A, -1, -2), f"{what}: symmetry", rtol=0, atol=tol)
    e = min_eig(A)
    check(e >= -tol, f"{what}: not positive semi-definite: smallest eigenvalue {e:.4g}, tolerance {tol:.3g}")
    return max(0.0, -e / tol) if tol > 0 else 0.0


from vp.lazy import st  # noqa


def s_pd():
    return st.fixed_dictionaries(
        dict(m=M.any_model(), t=M.rel(2, 5), cut=st.integers(0, 5))
    )


def cond(K):
    s = np.linalg.eigvalsh((K + K.T) / 2)
    return s[-1] / max(s[0], s[-1] * 1e-18)


def r_pd(case):
    # The regularisation is absolute: turn it off.
    with M.epsilon(0.0):
        return _r_pd(case)


def _r_pd(case):
    s = case["m"]
    m = M.build(s)()
    t = M.times(s, case["t"])
    K_u, K_z = arr(m.compute_K_u()), arr(m.compute_K_z())
    w = max(
        psd(K_u, "K_u", 1e-13 * np.max(np.abs(K_u)) * len(K_u)),
        psd(K_z, "K_z", 1e-11 * np.max(np.abs(K_z)) * len(K_z)),
    )
    check(np.all(np.diag(K_u) > 0) and np.all(np.diag(K_z) > 0), "variances of inducing variables must be positive")
    # Distinct inducing points give linearly independent variables.
    cu, cz = cond(K_u), cond(K_z)
    if max(cu, cz) > 1e6:
        return info(False, "ill-conditioned", psd=w)

    # Residuals, from the integrals.
    hx, ux = arr(m.compute_i_hx(t, t)), arr(m.compute_I_ux())
    hz, uz = arr(m.compute_I_hz(t)), arr(m.compute_I_uz(t))
    iu, iz = np.linalg.inv(K_u), np.linalg.inv(K_z)
    check(hx.shape == t.shape, f"i_hx has shape {hx.shape}")
    check(np.all(hx > 0), f"prior variance must be positive: {hx}")
    A = ux[None] - uz @ iz @ np.swapaxes(uz, 1, 2)
    C = hz - np.swapaxes(uz, 1, 2) @ iu @ uz
    eps = 1e-11 * (1 + max(cu, cz) * 1e-1)
    for i in range(len(t)):
        w = max(
            w,
            psd(ux, "I_ux", 1e-11 * np.max(np.abs(ux))),
            psd(hz[i], "I_hz", 1e-10 * np.max(np.abs(hz))),
            psd(A[i], "I_ux - I_uz K_z^-1 I_uz'", eps * np.max(np.abs(ux))),
            psd(C[i], "I_hz - I_uz' K_u^-1 I_uz", eps * np.max(np.abs(hz)) + 1e-11 * hx[0]),
        )
    c = hx - np.sum(iu * ux) - np.sum(iz * hz, axis=(1, 2)) + np.einsum("ab,iac,cd,ibd->i", iu, uz, iz, uz)
    tol_c = 1e-11 * (cu + cz + 10) * np.max(hx)
    check(np.all(c >= -tol_c), f"residual variance is negative: {c}, tolerance {tol_c}")
    check(np.all(c <= hx + tol_c), f"residual variance {c} exceeds the prior variance {hx}")
    # What is explained by either is never more than the prior.
    check(np.sum(iu * ux) <= hx[0] + tol_c, "the filter's inducing variables explain more than the prior variance")

    # The terms that the approximations use.
    ts = m.approximation.construct_terms(t, 0 * t + 1)
    close(ts.A_sum, A.sum(0), "A_sum", rtol=1e-6, atol=eps * np.max(np.abs(ux)) * len(t))
    close(ts.B_sum, C.sum(0), "B_sum", rtol=1e-6, atol=(eps * np.max(np.abs(hz)) + 1e-11 * hx[0]) * len(t))
    close(ts.c_sum, c.sum(), "c_sum", rtol=1e-6, atol=10 * tol_c * len(t))
    # They add up over observations.
    k = case["cut"] % (len(t) + 1)
    if 0 < k < len(t):
        parts = [m.approximation.construct_terms(x, 0 * x + 1) for x in (t[:k], t[k:])]
        for name in ("A_sum", "B_sum", "c_sum"):
            a = arr(getattr(parts[0], name)) + arr(getattr(parts[1], name))
            full = arr(getattr(ts, name))
            close(full, a, f"{name} adds up", rtol=1e-9, atol=1e-10 * (1 + np.max(np.abs(full))) + 10 * tol_c)
            if name != "c_sum":
                psd(full - arr(getattr(parts[0], name)), f"growth of {name}", 10 * len(t) * eps * max(np.max(np.abs(ux)), np.max(np.abs(hz)), hx[0]))
            else:
                check(full >= arr(getattr(parts[0], name)) - 10 * tol_c, "c_sum decreases with observations")
    return info(len(t) > 1, s["kind"], psd=w)


CHECK = Check(
    "C10",
    [
        Sub("pd", s_pd, r_pd, 320, 8000, shards=8,
            rule="random models with 1-5 filter and 1-9 excitation variables and 1-5 inputs (duplicates too); eigenvalues of "
            "K_u, K_z, I_ux, I_hz and of the residuals, compared with construct_terms; non-trivial: at least two inputs "
            "and condition numbers below 1e6"),
    ],
    level_note="Random search over well-conditioned models; tolerances grow with the condition numbers.",
)
