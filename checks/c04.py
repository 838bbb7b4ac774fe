"""C04: half-line and box integrals."""
import itertools

import numpy as np

from vp import refs_gauss as R
from vp.core import Check, Sub, info
from vp.lazy import E, jnp, st
from vp.num import arr, check, close

LIM = ["inf", "num", "zero", "poly", "array", "jax", "-inf"]


def s_lim(k):
    one = st.fixed_dictionaries(
        dict(
            lo=st.sampled_from(["inf", "-inf", "num", "poly", "array"]),
            hi=st.sampled_from(["inf", "num", "zero", "poly", "array", "inf"]),
            # Limits in standard deviations from the mean, roughly.
            a=R.sixteenths(-4, 4),
            b=R.sixteenths(-4, 4),
            ca=st.lists(R.sixteenths(-2, 2), min_size=2, max_size=2),
            sa=st.sampled_from([0.0, 0.25, 1.0]),
        )
    )
    return st.lists(one, min_size=k, max_size=k)


def s_box():
    return st.sampled_from([1, 1, 2, 2, 2, 3]).flatmap(
        lambda k: st.fixed_dictionaries(
            dict(q=R.quads([k]), lims=s_lim(k), order=st.integers(0, 5), ints=st.booleans())
        )
    )


def r_box(case):
    q, k = dict(case["q"]), case["q"]["k"]
    env, shape, pts = R.free_env(q, jnp)
    A0, b0, c0 = R.at(q, [0, 0])
    S = 0.5 * np.linalg.inv(A0)
    s = R.scales_of(q)
    if np.linalg.cond(A0 / np.outer(s, s)) > 1e4:
        return info(False, "ill-conditioned")
    mu = 0.5 * np.linalg.solve(A0, b0)
    sd = np.sqrt(np.diag(S))
    m = q["use_free"]

    def limit(spec, which, i):
        """The argument for the code under test, and a function giving its value."""
        kind = spec["lo" if which == "a" else "hi"]
        sgn = -1 if which == "a" else 1
        if kind in ("inf", "-inf"):
            return (np.inf if kind == "inf" else -np.inf), lambda idx, f: sgn * np.inf
        if kind == "zero":
            return 0, lambda idx, f: 0.0
        v = float(mu[i] + sd[i] * spec[which])
        if case["ints"]:
            v = float(np.round(v, 1))
        if kind == "poly" and m > 0:
            w = float(sd[i] * spec["sa"])
            return E.const(v) + w * E.var("u"), lambda idx, f: v + w * f[0]
        if kind == "array" and shape != ():
            # An array which broadcasts against the free variables.
            a = v + sd[i] * np.array(spec["ca"])[:, None]
            return (jnp.asarray(a) if q["shapes"] == "jax" else a), lambda idx, f: a[idx[0], 0]
        return v, lambda idx, f: v

    lims, funs, nbox = [], [], 0
    for i in range(k):
        spec = dict(case["lims"][i])
        lo, flo = limit(spec, "a", i)
        hi, fhi = limit(spec, "b", i)
        both = isinstance(lo, float) and np.isinf(lo) and isinstance(hi, float) and np.isinf(hi)
        if not both:
            nbox += 1
            if nbox > 2:
                # At most two boxed variables are supported.
                lo, flo, hi, fhi = -np.inf, lambda idx, f: -np.inf, np.inf, lambda idx, f: np.inf
        lims.append((q["names"][i], lo, hi))
        funs.append((flo, fhi))
    nbox = min(nbox, 2)

    ref, tot, expo = np.zeros(shape), np.zeros(shape), np.zeros(shape)
    for idx, f in pts:
        A, b, c = R.at(q, f)
        v, t, e = R.box(A, b, c, [(g(idx, f), h(idx, f)) for g, h in funs])
        ref[idx], tot[idx], expo[idx] = q["const"] * v, abs(q["const"] * t), e
    if np.max(np.abs(expo)) > 60:
        return info(False, "overflow")
    # The terms before completing the square set the size of rounding errors.
    perm = list(itertools.permutations(range(k)))[case["order"] % [1, 1, 2, 6][k]]
    args = [lims[i] for i in perm]
    got = arr(R.build(q, E).integrate_box(*args, **env))
    got = np.broadcast_to(got, shape)
    check(np.all(np.isfinite(got)), f"not finite: {got}")
    for idx in np.ndindex(*shape):
        # Translating by large limits loses digits relative to the whole integral.
        mag = 10 + abs(expo[idx])
        close(got[idx], ref[idx], f"box integral {case['lims']}", rtol=1e-9,
              atol=tot[idx] * 1e-11 * mag * 10)
    kinds = ["%s..%s" % (
        "inf" if isinstance(lo, float) and np.isinf(lo) else "lim",
        "inf" if isinstance(hi, float) and np.isinf(hi) else "lim") for _, lo, hi in lims]
    return info(nbox > 0, f"k{k}", f"boxed{nbox}", q["shapes"], *sorted(set(kinds)))


def s_half():
    return st.sampled_from([1, 2, 2]).flatmap(
        lambda k: st.fixed_dictionaries(
            dict(q=R.quads([k]), swap=st.booleans())
        )
    )


def r_half(case):
    q, k = case["q"], case["q"]["k"]
    env, shape, pts = R.free_env(q, jnp)
    A0 = R.at(q, [0, 0])[0]
    s = R.scales_of(q)
    if np.linalg.cond(A0 / np.outer(s, s)) > 1e5:
        return info(False, "ill-conditioned")
    names = q["names"][::-1] if case["swap"] else q["names"]
    tot, expo = np.zeros(shape), np.zeros(shape)
    ref = np.zeros(shape)
    for idx, f in pts:
        A, b, c = R.at(q, f)
        v, t, e = R.box(A, b, c, [(-np.inf, 0.0)] * k)
        ref[idx], tot[idx], expo[idx] = q["const"] * v, q["const"] * t, e
    if np.max(np.abs(expo)) > 60:
        return info(False, "overflow")
    e = R.build(q, E)
    atol = np.abs(tot).max() * 1e-9
    got = np.broadcast_to(arr(e.integrate_half(*names, **env)), shape)
    close(got, ref, "half-line integral", rtol=1e-9, atol=atol)
    # All quadrants add up to the full integral.
    total = 0
    for signs in itertools.product([1, -1], repeat=k):
        f = e
        for n, sg in zip(q["names"], signs):
            if sg < 0:
                f = f.substitute(n, -E.var(n))
        total = total + arr(f.integrate_half(*names, **env))
    close(np.broadcast_to(total, shape), tot, "sum over all quadrants", rtol=1e-9)
    close(np.broadcast_to(arr(e.integrate(*names, **env)), shape), tot, "full integral", rtol=1e-8)
    return info(True, f"k{k}", q["shapes"], f"free{q['use_free']}")


CHECK = Check(
    "C04",
    [
        Sub("box", s_box, r_box, 1500, 40000, shards=4,
            rule="random negative-definite quadratics in 1-3 variables with number/array/polynomial/infinite "
            "limits on either side, at most two of the variables boxed, in random order, against "
            "normal CDFs and Gauss-Legendre quadrature; non-trivial: at least one boxed variable"),
        Sub("half", s_half, r_half, 600, 15000, shards=2,
            rule="integrals from minus infinity to zero over 1-2 variables, and the sum over all quadrants; "
            "all evaluated cases non-trivial"),
    ],
    level_note="Random search against normal probabilities computed by an independent quadrature.",
)
