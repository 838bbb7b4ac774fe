"""C03: full Gaussian integrals."""
import numpy as np

from vp import refs_gauss as R
from vp.core import Check, Sub, info
from vp.lazy import E, jnp, st
from vp.num import arr, check, close


def s_full():
    return st.fixed_dictionaries(
        dict(
            q=R.quads([1, 2, 2, 3, 4]),
            order=st.randoms(use_true_random=False).map(lambda r: r.randrange(24)),
            partial=st.booleans(),
        )
    )


def reference(q):
    env, shape, pts = R.free_env(q, jnp)
    ref, expo = np.zeros(shape), np.zeros(shape)
    for idx, f in pts:
        v, e = R.full(*R.at(q, f))
        ref[idx], expo[idx] = q["const"] * v, e
    return env, ref, expo


def r_full(case):
    q = case["q"]
    env, ref, expo = reference(q)
    if np.max(np.abs(expo)) > 250:
        return info(False, "overflow")
    A = R.at(q, [0, 0])[0]
    # Conditioning after removing the scales.
    s = R.scales_of(q)
    cond = np.linalg.cond(A / np.outer(s, s))
    if cond > 1e7:
        return info(False, "ill-conditioned")
    names = list(q["names"])
    import itertools

    perms = list(itertools.permutations(names))
    names = list(perms[case["order"] % len(perms)])
    e = R.build(q, E)
    got = e.integrate(*names, **env)
    got = arr(got)
    if got.shape != ref.shape:
        got = np.broadcast_to(got, ref.shape)
    tol = 1e-12 * (1 + cond) * (10 + np.abs(expo).max())
    close(got, ref, f"integral over {names}", rtol=tol)
    if case["partial"] and len(names) > 1:
        # Another order gives the same.
        got2 = arr(R.build(q, E).integrate(*names[::-1], **env))
        close(np.broadcast_to(got2, ref.shape), ref, f"integral over {names[::-1]}", rtol=tol)
    # The integrand is left alone.
    at = {n: 0.1 for n in names}
    f0 = {k: 0.5 for k in env}
    check(
        np.array_equal(e.eval(**at, **f0), R.build(q, E).eval(**at, **f0)),
        "the integrand was modified",
    )
    return info(
        len(names) >= 2 or q["use_free"] > 0, f"k{q['k']}", q["form"], q["shapes"],
        f"free{q['use_free']}",
    )


def s_arr():
    v = st.lists(R.sixteenths(-2, 2), min_size=3, max_size=3)
    p = st.lists(R.sixteenths(0.25, 3), min_size=3, max_size=3)
    return st.fixed_dictionaries(
        dict(a1=p, a2=p, r=st.lists(R.sixteenths(-0.9, 0.9), min_size=3, max_size=3),
             b1=v, b2=v, c=v, two=st.booleans(), jax=st.booleans(),
             f=v, col=st.booleans())
    )


def r_arr(case):
    g = {k: np.array(case[k]) for k in ["a1", "a2", "r", "b1", "b2", "c", "f"]}
    cross = 2 * g["r"] * np.sqrt(g["a1"] * g["a2"])
    conv = jnp.asarray if case["jax"] else (lambda x: x)
    C = {k: E.const(conv(v)) for k, v in dict(g, cross=cross).items()}
    x, y, u = E.var("x"), E.var("y"), E.var("u")
    e = -C["a1"] * x**2 + C["b1"] * x * u + C["c"]
    if case["two"]:
        e = e - C["a2"] * y**2 + C["cross"] * x * y + C["b2"] * y
    f = g["f"][:, None] if case["col"] else g["f"]
    got = arr(E.ExpPoly(e).integrate(*(("y", "x") if case["two"] else ("x",)), u=conv(f)))
    ref = np.zeros((3, 3) if case["col"] else 3)
    for idx in np.ndindex(*ref.shape):
        i = idx[-1]
        b1 = g["b1"][i] * g["f"][idx[0]]
        if case["two"]:
            A = np.array([[g["a1"][i], -cross[i] / 2], [-cross[i] / 2, g["a2"][i]]])
            ref[idx], _ = R.full(A, np.array([b1, g["b2"][i]]), g["c"][i])
        else:
            ref[idx], _ = R.full(np.array([[g["a1"][i]]]), np.array([b1]), g["c"][i])
    close(got, ref, "integral with array coefficients", rtol=1e-9)
    return info(True, "two" if case["two"] else "one", "jax" if case["jax"] else "numpy")


CHECK = Check(
    "C03",
    [
        Sub("full", s_full, r_full, 1600, 40000, shards=4,
            rule="random negative-definite quadratics in 1-4 variables (correlated, badly scaled), with "
            "0-2 free variables in linear and constant terms, built in four ways, integrated in random orders, "
            "against determinant and inverse; non-trivial: at least two variables or a free variable"),
        Sub("arr", s_arr, r_arr, 400, 8000, shards=1,
            rule="array-valued coefficients and broadcasting inputs; all non-trivial"),
    ],
    level_note="Random search against closed-form Gaussian integrals.",
)
