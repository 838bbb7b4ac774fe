"""Reference for integrals of exponentiated quadratics, by plain linear algebra."""
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(20)


def ndtr(x):
    from scipy.special import ndtr as f

    return f(x)


def full(A, b, c):
    """Integral of `exp(-x'Ax + b'x + c)` and the exponent that was reached."""
    e = 0.25 * b @ np.linalg.solve(A, b) + c
    return np.pi ** (len(b) / 2) / np.sqrt(np.linalg.det(A)) * np.exp(e), e


def interval(mu, sd, lo, hi):
    """Probability of an interval; signed if `lo > hi`."""
    return ndtr((hi - mu) / sd) - ndtr((lo - mu) / sd)


def _quad(f, lo, hi, n=160):
    e = np.linspace(lo, hi, n + 1)
    m, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    t = m[:, None] + h[:, None] * _X
    return float(np.sum(h[:, None] * _W * f(t)))


def rectangle(mu, S, lo, hi):
    """Probability of a rectangle under a bivariate normal; signed."""
    sign = 1.0
    lo, hi = list(lo), list(hi)
    for i in range(2):
        if lo[i] > hi[i]:
            lo[i], hi[i], sign = hi[i], lo[i], -sign
    s1, s2 = np.sqrt(S[0, 0]), np.sqrt(S[1, 1])
    r = S[0, 1] / (s1 * s2)
    l1, h1 = (lo[0] - mu[0]) / s1, (hi[0] - mu[0]) / s1
    l2, h2 = (lo[1] - mu[1]) / s2, (hi[1] - mu[1]) / s2
    l1, h1 = max(l1, -10.0), min(h1, 10.0)
    if h1 <= l1:
        return 0.0
    q = np.sqrt(1 - r**2)

    def f(t):
        return (
            np.exp(-0.5 * t**2)
            / np.sqrt(2 * np.pi)
            * (ndtr((h2 - r * t) / q) - ndtr((l2 - r * t) / q))
        )

    return sign * _quad(f, l1, h1)


def box(A, b, c, lims):
    """Integral of `exp(-x'Ax + b'x + c)` over a box with at most two variables that are
    not fully integrated. Also gives the full integral and the exponent."""
    k = len(b)
    total, e = full(A, b, c)
    mu, S = 0.5 * np.linalg.solve(A, b), 0.5 * np.linalg.inv(A)
    inds = [i for i in range(k) if not (np.isinf(lims[i][0]) and np.isinf(lims[i][1]))]
    if len(inds) == 0:
        return total, total, e
    if len(inds) == 1:
        i = inds[0]
        return total * interval(mu[i], np.sqrt(S[i, i]), *lims[i]), total, e
    i, j = inds
    p = rectangle(
        mu[[i, j]],
        S[np.ix_([i, j], [i, j])],
        [lims[i][0], lims[j][0]],
        [lims[i][1], lims[j][1]],
    )
    return total * p, total, e


# Generators.

VARS = ["x", "y", "z", "w"]
FREE = ["u", "v"]


def sixteenths(lo, hi):
    from hypothesis import strategies as st

    return st.integers(int(lo * 16), int(hi * 16)).map(lambda i: i / 16)


def quads(ks, names=VARS):
    """Strategy for negative-definite quadratics with free variables."""
    from hypothesis import strategies as st

    def of(k):
        return st.fixed_dictionaries(
            dict(
                k=st.just(k),
                names=st.permutations(names).map(lambda p: list(p)[:k]),
                diag=st.lists(sixteenths(0.5, 2), min_size=k, max_size=k),
                off=st.lists(
                    sixteenths(-2, 2), min_size=k * (k - 1) // 2, max_size=k * (k - 1) // 2
                ),
                scales=st.lists(
                    st.sampled_from([1.0, 1.0, 0.1, 10.0, 0.01, 100.0, 3.0]),
                    min_size=k, max_size=k,
                ),
                # Units of the variables.
                unit=st.sampled_from([1.0] * 6 + [1e-12, 1e-9, 1e-6, 1e6, 1e9]),
                b=st.lists(sixteenths(-2, 2), min_size=k, max_size=k),
                F=st.lists(
                    st.lists(sixteenths(-2, 2), min_size=2, max_size=2), min_size=k, max_size=k
                ),
                use_free=st.sampled_from([0, 1, 2]),
                c=sixteenths(-2, 2),
                cf=st.lists(sixteenths(-2, 2), min_size=3, max_size=3),
                const=st.sampled_from([1, 2.5, -1.25, 0.001]),
                form=st.sampled_from(["mono", "squares", "product", "shifted"]),
                free=st.lists(
                    st.lists(sixteenths(-2, 2), min_size=2, max_size=2), min_size=2, max_size=2
                ),
                shapes=st.sampled_from(["scalar", "numpy", "jax"]),
            )
        )

    return st.sampled_from(ks).flatmap(of)


def scales_of(q):
    return np.array(q["scales"]) * q.get("unit", 1.0)


def matrices(q):
    """Matrices of the quadratic: `A`, `b0`, `F`, `c0`, `cf`."""
    k, m = q["k"], q["use_free"]
    L = np.zeros((k, k))
    off = list(q["off"])
    for i in range(k):
        L[i, i] = q["diag"][i]
        for j in range(i):
            L[i, j] = off.pop()
    s = scales_of(q)
    L = L * s[:, None]
    b = np.array(q["b"]) * s
    F = (np.array(q["F"]) * s[:, None])[:, :m]
    return L, b, F, q["c"], np.array(q["cf"])


def at(q, f):
    """`A`, `b`, `c` at a value of the free variables."""
    L, b, F, c, cf = matrices(q)
    m = q["use_free"]
    f = np.array(f)[:m]
    c = c + cf[:m] @ f
    if m > 0:
        c = c + cf[2] * f[0] ** 2
    if m > 1:
        c = c - cf[2] * f[0] * f[1]
    return L @ L.T, b + F @ f, c


def build(q, E):
    """The exponentiated polynomial, with the code under test."""
    L, b, F, c, cf = matrices(q)
    k, m, names = q["k"], q["use_free"], q["names"]
    A = L @ L.T
    xs = [E.var(n) for n in names]
    fs = [E.var(n) for n in FREE[:m]]
    quad, lin = E.const(0), E.const(float(c))
    if q["form"] in ("mono", "product", "shifted"):
        for i in range(k):
            for j in range(k):
                if A[i, j] != 0:
                    quad = quad - E.const(float(A[i, j])) * xs[i] * xs[j]
    else:
        for i in range(k):
            row = E.const(0)
            for j in range(k):
                row = row + float(L[j, i]) * xs[j]
            quad = quad - row**2
    for i in range(k):
        lin = lin + float(b[i]) * xs[i]
        for j in range(m):
            lin = lin + float(F[i, j]) * xs[i] * fs[j]
    for j in range(m):
        lin = lin + float(cf[j]) * fs[j]
    if m > 0:
        lin = lin + float(cf[2]) * fs[0] ** 2
    if m > 1:
        lin = lin - float(cf[2]) * fs[0] * fs[1]
    if q["form"] == "product":
        return E.ExpPoly(q["const"], quad) * E.ExpPoly(lin)
    if q["form"] == "shifted":
        # Shift the first variable away and back.
        e = E.ExpPoly(q["const"], quad + lin)
        v = 1 / q.get("unit", 1.0)
        by = E.const(0.5 * v) if not fs else v * fs[0]
        return e.translate_var(names[0], by).translate_var(names[0], -by)
    return E.ExpPoly(q["const"], quad + lin)


def free_env(q, jnp):
    """Values for the free variables: the environment, and a list of indices and
    scalar values."""
    m = q["use_free"]
    vals = np.array(q["free"])
    if q["shapes"] == "scalar" or m == 0:
        return {n: float(vals[i, 0]) for i, n in enumerate(FREE[:m])}, (), [((), vals[:, 0])]
    arrs = [vals[0][:, None], vals[1][None, :]][:m]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    pts = []
    for idx in np.ndindex(*shape):
        pts.append((idx, [vals[0][idx[0]], vals[1][idx[1]] if m > 1 else 0.0]))
    if q["shapes"] == "jax":
        arrs = [jnp.asarray(a) for a in arrs]
    return dict(zip(FREE, arrs)), shape, pts
