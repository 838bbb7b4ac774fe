"""C31: Hessians, MAP estimates, and Laplace approximations."""
import numpy as np

from vp import models as M
from vp.core import Check, Sub, Violation, info
from vp.lazy import B, U, jnp, st
from vp.models import grid
from vp.num import arr, check, close


def vec(n, lo=-2, hi=2, den=8):
    return st.lists(grid(lo, hi, den), min_size=n, max_size=n)


def _function(n, concave=False):
    """Terms of a function: each is `[kind, coefficient, direction, offset]`."""
    kinds = ["exp", "softplus", "quartic"] if concave else ["exp", "softplus", "quartic", "sin", "cubic", "tanh"]
    coef = grid(0.125, 2, 8) if concave else grid(-2, 2, 8)
    return st.lists(st.tuples(st.sampled_from(kinds), coef, vec(n, -1, 1), grid(-1, 1, 8)), min_size=0, max_size=3)


# Values and derivatives of the one-dimensional functions.
def sig(x):
    return 1 / (1 + np.exp(-x))


SHAPES = {
    "exp": (np.exp, np.exp, np.exp),
    "softplus": (lambda x: np.logaddexp(0, x), sig, lambda x: sig(x) * (1 - sig(x))),
    "quartic": (lambda x: x**4, lambda x: 4 * x**3, lambda x: 12 * x**2),
    "sin": (np.sin, np.cos, lambda x: -np.sin(x)),
    "cubic": (lambda x: x**3, lambda x: 3 * x**2, lambda x: 6 * x),
    "tanh": (np.tanh, lambda x: 1 - np.tanh(x) ** 2, lambda x: -2 * np.tanh(x) * (1 - np.tanh(x) ** 2)),
}


def sut_shape(kind, x):
    """The same functions for the code under test."""
    return {
        "exp": lambda: jnp.exp(x),
        "softplus": lambda: jnp.logaddexp(0.0, x),
        "quartic": lambda: x**4,
        "sin": lambda: jnp.sin(x),
        "cubic": lambda: x**3,
        "tanh": lambda: jnp.tanh(x),
    }[kind]()


class Fun:
    """`c + b^T x + x^T A x + sum_i c_i s_i(w_i^T x + o_i)`."""

    def __init__(self, A, b, c, terms):
        self.A, self.b, self.c, self.terms = np.asarray(A, float), np.asarray(b, float), c, terms

    def __call__(self, x):
        """For the code under test: columns."""
        x = x[:, 0] if x.ndim == 2 else x
        res = self.c + jnp.sum(self.b * x) + jnp.sum(x * (self.A @ x))
        for kind, c, w, o in self.terms:
            res = res + c * sut_shape(kind, jnp.sum(np.array(w) * x) + o)
        return res

    def value(self, x):
        res = self.c + self.b @ x + x @ self.A @ x
        return res + sum(c * SHAPES[k][0](np.dot(w, x) + o) for k, c, w, o in self.terms)

    def grad(self, x):
        res = self.b + (self.A + self.A.T) @ x
        return res + sum(c * SHAPES[k][1](np.dot(w, x) + o) * np.array(w) for k, c, w, o in self.terms)

    def hess(self, x):
        res = self.A + self.A.T
        return res + sum(c * SHAPES[k][2](np.dot(w, x) + o) * np.outer(w, w) for k, c, w, o in self.terms)

    def mag(self, x):
        res = np.max(np.abs(self.A)) + sum(abs(c) * np.max(np.abs(np.outer(w, w))) * (1 + abs(SHAPES[k][2](np.dot(w, x) + o))) for k, c, w, o in self.terms)
        return res + 1e-3


def square(n):
    return st.lists(vec(n), min_size=n, max_size=n)


def s_hess():
    return st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(A=square(n), b=vec(n), c=grid(-2, 2, 8), terms=_function(n), x=vec(n, -2, 2, 8), jit=st.sampled_from([False, False, True]))
        )
    )


def r_hess(case):
    import jax

    f = Fun(case["A"], case["b"], case["c"], case["terms"])
    x = np.array(case["x"])
    xs = jnp.asarray(x[:, None])
    run = jax.jit(lambda x: U.hessian(f, x)) if case["jit"] else lambda x: U.hessian(f, x)
    got = arr(run(xs))
    check(got.shape == (len(x), len(x)), f"shape of the Hessian: {got.shape}")
    check(np.array_equal(got, got.T), f"Hessian is not symmetric: {got}")
    w = close(got, f.hess(x), "Hessian", rtol=0, atol=1e-12 * f.mag(x))
    return info(any(c != 0 and np.any(np.array(w) != 0) for _, c, w, _ in case["terms"]) or np.any(f.A), f"n{len(x)}", worst=w)


def s_bad():
    return st.fixed_dictionaries(dict(shape=st.sampled_from([[], [1], [2], [3], [1, 2], [2, 2], [3, 2], [2, 0], [2, 1, 1], [1, 1, 1], [1, 2, 1], [1, 3]]), x=grid(-2, 2, 8)))


def r_bad(case):
    x = jnp.full(tuple(case["shape"]), case["x"], dtype=float)
    for what, x in (("jax", x), ("numpy", np.asarray(x))):
        try:
            res = U.hessian(lambda x: jnp.sum(x**2), x)
        except ValueError:
            continue
        raise Violation(f"Hessian of an input of shape {case['shape']} ({what}): {res}")
    return info(True, f"rank{len(case['shape'])}")


def spd(case, n):
    """A well-conditioned positive-definite matrix."""
    L = np.tril(np.array(case["L"])[:n, :n], -1) + np.diag(np.array(case["d"][:n]) / 8)
    return L @ L.T * case["scale"]


def s_pd(n):
    return dict(L=square(n), d=st.lists(st.integers(4, 24), min_size=n, max_size=n), scale=st.sampled_from([1e-2, 1.0, 1.0, 25.0]))


def s_map():
    return st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(**s_pd(n), b=vec(n), c=grid(-2, 2, 8), terms=_function(n, concave=True), x=vec(n, -3, 3, 8), iters=st.sampled_from([1, 2, 5]))
        )
    )


def newton(f, x):
    """Maximum of a strongly concave function."""
    for _ in range(200):
        g, H = f.grad(x), f.hess(x)
        d = -np.linalg.solve(H, g)
        a = 1.0
        while f.value(x + a * d) < f.value(x) + 1e-4 * a * (g @ d) and a > 1e-12:
            a /= 2
        x = x + a * d
        if np.sqrt(abs(g @ d)) < 1e-13:
            break
    return x


def target(case):
    n = len(case["x"])
    P = spd(case, n)
    return Fun(-P / 2, case["b"], case["c"], [(k, -c, w, o) for k, c, w, o in case["terms"]]), P


def r_map(case):
    f, P = target(case)
    x0 = np.array(case["x"])
    if np.linalg.cond(P) > 1e4:
        return info(False, "ill-conditioned")
    best = newton(f, x0)
    top, start = f.value(best), f.value(x0)
    if not abs(f.grad(best)).max() < 1e-6:
        return info(False, "the reference did not converge")
    x = arr(U.maximum_a_posteriori(f, jnp.asarray(x0[:, None])))
    check(x.shape == (len(x0), 1), f"shape of the MAP estimate: {x.shape}")
    end = f.value(x[:, 0])
    # L-BFGS stops when the relative improvement is about `1e-9`.
    tol = 1e-6 * (1 + abs(top))
    check(end >= start - 1e-12 * (1 + abs(start)), f"MAP estimate is less probable ({end}) than the start ({start})")
    check(top - end <= tol, f"log-density at the MAP estimate {end}; at the maximum {top}; at the start {start}")
    check(x[:, 0] @ x[:, 0] < np.inf, "MAP estimate not finite")
    few = arr(U.maximum_a_posteriori(f, jnp.asarray(x0[:, None]), iters=case["iters"]))
    end = f.value(few[:, 0])
    check(start - 1e-12 * (1 + abs(start)) <= end <= top + 1e-9 * (1 + abs(top)), f"log-density {end} after {case['iters']} iterations; at the start {start}")
    return info(top - start > 1e-3, f"n{len(x0)}", worst=(top - f.value(x[:, 0])) / tol)


def s_lap():
    return st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(**s_pd(n), mean=vec(n, -3, 3), c=grid(-50, 50, 1), x=st.one_of(vec(n, -3, 3), vec(n, -100, 100, 1)), other=st.one_of(st.none(), st.fixed_dictionaries(dict(**s_pd(n), b=vec(n), terms=_function(n, concave=True)))))
        )
    )


def r_lap(case):
    n = len(case["x"])
    P = spd(case, n)
    if np.linalg.cond(P) > 1e4:
        return info(False, "ill-conditioned")
    mean = np.array(case["mean"])
    f = Fun(-P / 2, P @ mean, case["c"] - mean @ P @ mean / 2, [])
    kw, g = {}, f
    if case["other"]:
        o = dict(case["other"], x=case["x"], c=0.0)
        g, Q = target(o)
        if np.linalg.cond(Q) > 1e4:
            return info(False, "ill-conditioned")
        kw["f_eval"] = g
    d = U.laplace_approximation(f, jnp.asarray(np.array(case["x"])[:, None]), **kw)
    m, v = arr(B.dense(d.mean)), arr(B.dense(d.var))
    check(m.shape == (n, 1) and v.shape == (n, n), f"shapes of the approximation: {m.shape} and {v.shape}")
    # The mean, in units of standard deviations.
    e = m[:, 0] - mean
    err = np.sqrt(e @ P @ e)
    check(err <= 2e-3 * np.sqrt(1 + abs(case["c"])), f"mean of the approximation is off by {err} standard deviations: {m[:, 0]}, expected {mean}")
    want = np.linalg.inv(-g.hess(m[:, 0]))
    w = close(v, want, "variance of the approximation", rtol=1e-7, scale=np.max(np.abs(want)))
    return info(np.any(mean != np.array(case["x"])), f"n{n}", "f_eval" if kw else "own", worst=w)


CHECK = Check(
    "C31",
    [
        Sub("hess", s_hess, r_hess, 400, 12000, shards=2,
            rule="Hessians of random functions (quadratic forms which are not symmetric, exponentials, powers, sines, ...) in up to "
            "four dimensions, compiled or not, against the analytic ones; non-trivial: not linear"),
        Sub("bad", s_bad, r_bad, 40, 200, group="hess", rule="inputs which are not columns are refused; all non-trivial"),
        Sub("map", s_map, r_map, 120, 3000, shards=3,
            rule="MAP estimates of random strongly log-concave densities from random starts against Newton's method, and with few "
            "iterations; non-trivial: the start is not the maximum"),
        Sub("lap", s_lap, r_lap, 150, 3000, shards=3,
            rule="Laplace approximations of random unnormalised Gaussian densities, also with another density for the curvature; "
            "non-trivial: the start is not the mean"),
    ],
    level_note="Random search; Hessians to 1e-12 of their terms; MAP estimates to the tolerance of the optimiser in log-density.",
)
