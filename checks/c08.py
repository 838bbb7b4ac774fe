"""C08: covariances and integrals of the smooth models."""
import numpy as np

from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import jnp, st
from vp.num import arr, close


def s_mat():
    return st.fixed_dictionaries(
        dict(
            m=M.smooth(),
            t=M.rel(1, 4),
            t1=M.rel(1, 3),
            t2=M.rel(1, 3),
            lib=st.sampled_from(["numpy", "jax"]),
            inst=st.sampled_from([True, True, False]),
        )
    )


def compare(m, ref, case, p):
    """Compare all matrices and integrals of a model with a reference. Returns the worst
    ratio of error to tolerance."""
    lib = jnp.asarray if case["lib"] == "jax" else np.asarray
    t, t1, t2 = (M.times(case["m"], case[k]) for k in ("t", "t1", "t2"))
    worst = 0.0

    def cmp(got, want, what):
        nonlocal worst
        want = np.asarray(want)
        worst = max(worst, close(got, want, what, rtol=1e-7, scale=1e-2 * np.max(np.abs(want)) + 1e-200,
                                 atol=1e-9 * np.max(np.abs(want))))

    cmp(m.compute_K_u(), ref.K_u(), "K_u")
    cmp(m.compute_K_z(), ref.K_z(), "K_z")
    zero = np.zeros(1)
    # The process variance sets the size of everything in `i_hx`, which may decay to zero.
    var = float(ref.i_hx(0.0, 0.0))

    def cmp_i(got, want, what):
        nonlocal worst
        worst = max(worst, close(got, want, what, rtol=1e-7, atol=1e-9 * var))

    cmp_i(m.compute_i_hx(), np.array(var), "i_hx()")
    cmp_i(m.compute_i_hx(lib(t), lib(t)), ref.i_hx(t, t), "i_hx(t, t)")
    cmp_i(m.compute_i_hx(lib(t1[:, None]), lib(t2[None, :])), ref.i_hx(t1[:, None], t2[None, :]), "i_hx(t1, t2)")
    cmp_i(m.compute_i_hx(lib(t1)), ref.i_hx(t1, 0.0 * t1), "i_hx(t1)")

    ux = ref.I_ux(zero, zero)[0, 0]
    s = np.max(np.abs(ux))

    def cmp_ux(got, want, what):
        nonlocal worst
        worst = max(worst, close(got, want, what, rtol=1e-7, atol=1e-9 * s))

    cmp_ux(m.compute_I_ux(), ux, "I_ux()")
    cmp_ux(m.compute_I_ux(lib(t1), lib(t2)), ref.I_ux(t1, t2), "I_ux(t1, t2)")
    cmp_ux(m.compute_I_ux(lib(t1)), ref.I_ux(t1, zero)[:, 0], "I_ux(t1)")
    cmp_ux(m.compute_I_ux(t2=lib(t2)), ref.I_ux(zero, t2)[0], "I_ux(t2=t2)")
    for name, k in (("I_hz", 2), ("I_uz", 1)):
        want = getattr(ref, name)(t)
        # The sizes of the features vary: compare relative to the prior scales.
        sc = np.sqrt(var)
        if k == 2:
            tol = 1e-9 * max(var, np.max(np.abs(want)))
        else:
            tol = 1e-9 * max(sc * np.sqrt(np.max(ref.K_u())), np.max(np.abs(want)))
        worst = max(worst, close(getattr(m, f"compute_{name}")(lib(t)), want, name, rtol=1e-7, atol=tol))
    return worst


def r_mat(case):
    from vp.refs_model import reference

    p = M.params(case["m"])
    ref = reference(p)
    m = M.build(case["m"])
    if case["inst"]:
        m = m()
    worst = compare(m, ref, case, p)
    return info(
        len(case["m"]["t_u"]) > 1 or len(case["m"]["t_z"]) > 1,
        case["m"]["kind"],
        "instance" if case["inst"] else "raw",
        worst=worst,
    )


CHECK = Check(
    "C08",
    [
        Sub("mat", s_mat, r_mat, 160, 4000, shards=8,
            rule="random GPCM/CGPCM parameters (three time scales), 1-5 filter and 1-6 excitation inducing points in any "
            "order, inputs inside and outside of the data span, NumPy and JAX, before and after instantiation; all six "
            "matrices against Gauss-Legendre quadrature of the definitions; non-trivial: more than one inducing point"),
    ],
    level_note="Random search; agreement to about 1e-7 relative to the scale of each matrix with composite Gauss-Legendre quadrature.",
    assumptions=["The definitions of k_h and k_xs in the reference (vp/refs_model.py) follow the paper and the docstrings."],
)
