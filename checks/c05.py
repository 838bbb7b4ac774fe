"""C05: unsupported integrals and operations are rejected."""
import numpy as np

from vp import refs_gauss as R, refs_poly as RP
from vp.core import Check, Sub, info
from vp.lazy import E, st
from vp.num import check, raises


def s_bad():
    bad = st.sampled_from(["absent", "linear", "cubic", "quartic", "cancelled", "cross-only", "absent-const"])
    return st.fixed_dictionaries(
        dict(
            # How many good variables, and where the bad one is.
            good=st.integers(0, 2),
            pos=st.integers(0, 2),
            bad=bad,
            mode=st.sampled_from(["full", "half", "box", "box-inf", "box-mixed", "box-upper", "box-lower"]),
            coef=st.sampled_from([-2, -1, -0.5, 0.5, 1, 3]),
            diag=st.lists(R.sixteenths(0.5, 2), min_size=2, max_size=2),
            cross=R.sixteenths(-0.5, 0.5),
            name=st.sampled_from(["x", "t", "tau1"]),
            lims=st.tuples(R.sixteenths(-2, 0), R.sixteenths(0, 2)),
            sub=st.booleans(),
        )
    )


def r_bad(case):
    n = case["name"]
    good = ["y", "z"][: case["good"]]
    if case["mode"] in ("half", "box", "box-mixed", "box-upper", "box-lower"):
        good = good[:1]  # At most two variables are supported.
    p = E.const(0.5)
    for g, d in zip(good, case["diag"]):
        p = p - float(d) * E.var(g) ** 2 + 0.25 * E.var(g)
    c, x = case["coef"], E.var(n)
    bad = case["bad"]
    if bad == "linear":
        p = p + c * x
    elif bad == "cubic":
        p = p - x**2 + c * x**3
    elif bad == "quartic":
        p = p - x**2 + c * E.var(n, 4)
    elif bad == "cancelled":
        p = p + c * x**2 - c * x * x
    elif bad == "cross-only":
        if good:
            p = p + c * x * E.var(good[0])
        else:
            p = p + c * x * E.var("u")
    elif bad == "absent-const":
        p = p + c
    if case["sub"] and bad != "cancelled":
        p = p.substitute(n, E.var(n) - 1) if bad not in ("absent", "absent-const") else p
    e = E.ExpPoly(2, p)
    names = list(good)
    names.insert(case["pos"] % (len(good) + 1), n)
    env = dict(u=0.5)
    mode = case["mode"]
    # Completing the square for the other variable would turn a cross term into a
    # legitimate quadratic dependence; integrate the bad variable first then.
    if bad == "cross-only" and mode in ("full", "box-inf", "box-mixed"):
        names = [n] + good
    lo, hi = case["lims"]
    if mode == "full":
        f = lambda: e.integrate(*names, **env)
    elif mode == "half":
        f = lambda: e.integrate_half(*names, **env)
    elif mode == "box-inf":
        f = lambda: e.integrate_box(*[(m, -np.inf, np.inf) for m in names], **env)
    elif mode == "box":
        f = lambda: e.integrate_box(*[(m, lo, hi) for m in names], **env)
    elif mode == "box-upper":
        f = lambda: e.integrate_box(*[(m, -np.inf, hi) for m in names], **env)
    elif mode == "box-lower":
        f = lambda: e.integrate_box(*[(m, lo, np.inf) for m in names], **env)
    else:
        f = lambda: e.integrate_box(
            *[(m, -np.inf, np.inf) if m == n else (m, lo, hi) for m in names], **env
        )
    raises(f, Exception, f"{mode} integral of {e} over {names}")
    # The good part alone does integrate.
    if good:
        q = E.const(0)
        for g, d in zip(good, case["diag"]):
            q = q - float(d) * E.var(g) ** 2
        v = E.ExpPoly(q).integrate(*good)
        check(np.isfinite(v) and v > 0, "the well-formed part should integrate")
    return info(True, mode, bad, f"good{len(good)}")


def s_coef():
    return st.fixed_dictionaries(
        dict(
            c=st.sampled_from([-2, -1, -0.5]),
            power=st.integers(1, 2),
            how=st.sampled_from(["product", "substitute"]),
            extra=st.booleans(),
            order=st.booleans(),
            mode=st.sampled_from(["full", "box-inf"]),
        )
    )


def r_coef(case):
    x, u = E.var("x"), E.var("u")
    if case["how"] == "product":
        p = case["c"] * x**2 * u ** case["power"] + x
    else:
        p = (case["c"] * x**2).substitute("x", x * u ** case["power"]) + x
    if case["extra"]:
        p = p - x**2 - E.var("y") ** 2
    names = ["x"] + (["y"] if case["extra"] else [])
    if case["order"]:
        names = names[::-1]
    e = E.ExpPoly(p)
    if case["mode"] == "full":
        f = lambda: e.integrate(*names, u=1.0)
    else:
        f = lambda: e.integrate_box(*[(n, -np.inf, np.inf) for n in names], u=1.0)
    raises(f, Exception, f"integral of {e} over {names}")
    return info(True, case["mode"])


def s_ops():
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["factor", "pow", "collect", "mul-factors", "add-terms", "names", "names"]),
            # Lists of names: at least three, possibly repeated.
            names=st.lists(st.sampled_from(["x", "y", "z"]), min_size=3, max_size=4),
            dup=st.lists(st.sampled_from(["x", "y", "z"]), min_size=1, max_size=3),
            cross=st.booleans(),
            mode=st.sampled_from(["half", "half", "box-upper", "full", "box-inf", "box"]),
            k=st.integers(-4, 0),
            a=RP.asts(max_leaves=4, max_degree=3),
            f=st.dictionaries(st.sampled_from(RP.NAMES), st.integers(1, 3), max_size=3),
            n=st.sampled_from(RP.NAMES),
            p=st.integers(1, 4),
        )
    )


def r_ops(case):
    kind = case["kind"]
    if kind == "factor":
        raises(lambda: E.Factor(case["n"], case["k"]), Exception, f"power {case['k']}")
        raises(lambda: E.var(case["n"], case["k"]), Exception, f"power {case['k']}")
        check(E.Factor(case["n"], case["p"]).power == case["p"], "power")
    elif kind == "pow":
        a = RP.build(case["a"], E)
        k = case["k"] - 1
        raises(lambda: a**k, Exception, f"power {k} of a polynomial")
    elif kind == "collect":
        t = E.Term(2, *[E.Factor(n, p) for n, p in case["f"].items()])
        f = E.Factor(case["n"], case["p"])
        if case["f"].get(case["n"]) == case["p"]:
            rest = {n: p for n, p in case["f"].items() if n != case["n"]}
            check(
                t.collect_for(f) == E.Term(2, *[E.Factor(n, p) for n, p in rest.items()]),
                f"collecting {f} from {t}",
            )
        else:
            raises(lambda: t.collect_for(f), Exception, f"collecting {f} from {t}")
    elif kind == "mul-factors":
        raises(
            lambda: E.Factor("x", case["p"]) * E.Factor("y", 1), Exception,
            "multiplying factors of different variables",
        )
    elif kind == "add-terms":
        a = E.Term(2, E.Factor("x", case["p"]))
        b = E.Term(3, E.Factor("x", case["p"] + 1))
        raises(lambda: a + b, Exception, "adding different terms")
    else:
        p = -(E.var("x") ** 2) - E.var("y") ** 2 - E.var("z") ** 2
        if case["cross"]:
            p = p + 0.5 * E.var("x") * E.var("y")
        e, mode = E.ExpPoly(p), case["mode"]
        if mode == "half":
            # Half-lines in more than two variables, whether or not these are distinct.
            names = case["names"]
            f = lambda: e.integrate_half(*names, x=1.0, y=1.0, z=1.0)
        else:
            # Once a variable is integrated, nothing depends on it any more.
            names = case["dup"] + case["dup"][:1]
            if mode == "full":
                f = lambda: e.integrate(*names, x=1.0, y=1.0, z=1.0)
            else:
                lo, up = {"box-upper": (-np.inf, 0.0), "box-inf": (-np.inf, np.inf), "box": (-0.5, 1.0)}[mode]
                if mode != "box-inf":
                    names = (names * 3)[:3]  # More than two limits.
                f = lambda: e.integrate_box(*[(n, lo, up) for n in names], x=1.0, y=1.0, z=1.0)
        raises(f, Exception, f"{mode} integral of {e} over {names}")
        return info(True, kind, mode)
    return info(True, kind)


CHECK = Check(
    "C05",
    [
        Sub("bad", s_bad, r_bad, 1000, 15000, shards=3,
            rule="integrands with one variable of the wrong shape (absent, linear, cubic, quartic, cancelled, "
            "only through a cross term) among 0-2 good ones, in every position and integration mode; all non-trivial"),
        Sub("coef", s_coef, r_coef, 100, 400, shards=1,
            rule="quadratic coefficients that depend on a free variable; all non-trivial"),
        Sub("ops", s_ops, r_ops, 400, 5000, shards=1,
            rule="forbidden operations on factors, terms and polynomials, next to allowed ones; all non-trivial"),
    ],
    level_note="Random search over malformed inputs.",
)
