"""C09: covariances and integrals of the rough model."""
import numpy as np

from checks.c08 import compare
from vp import models as M
from vp.core import Check, Known, Sub, Violation, info
from vp.lazy import jnp, st
from vp.num import arr, close


def s_mat():
    return st.fixed_dictionaries(
        dict(
            m=st.tuples(M.rough(), st.integers(0, 49)).map(
                lambda x: dict(x[0], singular=True) if x[1] == 49 else x[0]
            ),
            t=M.rel(1, 4),
            t1=M.rel(1, 2),
            t2=M.rel(1, 2),
            lib=st.sampled_from(["numpy", "jax"]),
            inst=st.sampled_from([True, True, False]),
        )
    )


def r_mat(case):
    from vp.refs_model import reference

    p = M.params(case["m"])
    m = M.build(case["m"])
    if case["inst"]:
        m = m()
    if case["m"].get("singular"):
        try:
            worst = compare(m, reference(p), case, p)
        except Violation as e:
            if str(e).startswith("I_ux"):
                raise Known("C09-singular", str(e))
            raise
    else:
        worst = compare(m, reference(p), case, p)
    return info(
        True,
        "shuffled" if case["m"]["ms_perm"] else "sorted",
        "instance" if case["inst"] else "raw",
        worst=worst,
    )


def s_perm():
    return st.fixed_dictionaries(
        dict(m=M.rough(m_max=(1, 6), perm=False), perms=st.lists(st.integers(1, 10**6), min_size=1, max_size=3), t=M.rel(1, 3))
    )


def r_perm(case):
    s = case["m"]
    base = M.build(s)
    t = M.times(s, case["t"])
    K, H, Uz = arr(base.compute_K_z()), arr(base.compute_I_hz(t)), arr(base.compute_I_uz(t))
    for k in case["perms"]:
        s2 = dict(s, ms_perm=k)
        ms = np.array(M.ms_of(s2))
        m = M.build(s2)
        close(m.compute_K_z(), K[np.ix_(ms, ms)], "K_z of permuted frequencies", rtol=1e-12, atol=1e-14 * np.max(np.abs(K)))
        close(m.compute_I_hz(t), H[:, ms, :][:, :, ms], "I_hz of permuted frequencies", rtol=1e-12, atol=1e-14 * np.max(np.abs(H)))
        close(m.compute_I_uz(t), Uz[:, :, ms], "I_uz of permuted frequencies", rtol=1e-12, atol=1e-14 * np.max(np.abs(Uz)))
    return info(s["m_max"] > 1, f"m{s['m_max']}")


CHECK = Check(
    "C09",
    [
        Sub("mat", s_mat, r_mat, 200, 5000, shards=6,
            rule="random RGPCM parameters (three time scales), 1-5 filter inducing points, supports and frequencies in any "
            "order, inputs in the domain of the formulas (at least the largest inducing point to the right of the "
            "support's start); six matrices against Gauss-Legendre quadrature; all cases non-trivial"),
        Sub("perm", s_perm, r_perm, 150, 4000, shards=2,
            rule="matrices for permuted frequencies against permuted matrices; non-trivial: at least five features"),
    ],
    level_note="Random search; agreement to about 1e-7 with quadrature of the definitions (RKHS inner products for K_z, white-noise filter for the rest).",
    assumptions=["Inputs satisfy t - max(t_u) >= a, as the code documents (a < l, u < b)."],
)
