"""C01: polynomial arithmetic evaluates pointwise."""
import numpy as np

from vp import refs_poly as R
from vp.core import Check, Sub, info
from vp.lazy import B, E, jnp, st
from vp.num import check, close, short_any

PTS = [-3, -2, -1, 0, 1, 2, 3, 5]


def s_poly():
    return st.fixed_dictionaries(
        dict(
            ast=R.asts(max_leaves=10),
            pts=st.lists(
                st.fixed_dictionaries({n: st.integers(-4, 5) for n in R.NAMES}),
                min_size=1,
                max_size=3,
            ),
        )
    )


def snapshot(p):
    return sorted(str(p).split(" + "))


def r_poly(case):
    record = []
    p = R.build(case["ast"], E, record)
    check(isinstance(p, E.Poly), f"result is {type(p).__name__}, not a polynomial")
    snaps = [snapshot(q) for _, q in record]
    # All intermediate results, exactly, on integers.
    for env in case["pts"]:
        for a, q in record:
            got, want = q.eval(**env), R.ev(a, env)
            check(got == want, f"{a} at {env}: got {got}, expected {want}")
    check(
        snaps == [snapshot(q) for _, q in record], "an operand or a result was modified"
    )
    m = R.mono(case["ast"])
    ops = {a[0] for a, _ in record}
    return info(len(m) >= 2, *sorted(ops), f"terms{min(len(m), 6)}")


def s_power():
    return st.fixed_dictionaries(
        dict(
            base=R.asts(max_leaves=4, max_degree=2),
            power=st.integers(0, 11),
            via=st.sampled_from(["pow", "pow", "subst", "repeat", "twice"]),
            rest=R.asts(max_leaves=3, max_degree=2),
            pts=st.lists(
                st.fixed_dictionaries({n: st.integers(-3, 3) for n in R.NAMES}),
                min_size=1,
                max_size=2,
            ),
        )
    )


def r_power(case):
    base, k = case["base"], case["power"]
    if len(R.mono(base)) > 3:
        k = min(k, 7)
    if case["via"] == "pow":
        ast = ["pow", base, k]
    elif case["via"] == "subst":
        # A power through substitution into one.
        k = max(k, 1)
        ast = ["subst", "x", ["add", ["var", "x", k], case["rest"]], base]
    elif case["via"] == "repeat":
        ast = base
        for _ in range(k - 1):
            ast = ["mul", ast, base]
    else:
        ast = ["pow", ["pow", base, k // 3], 3]
    ast2 = ["mul", ast, case["rest"]] if case["via"] in ("pow", "repeat") else ast
    p, q = R.build(ast, E), R.build(ast2, E)
    for env in case["pts"]:
        for a, r in ((ast, p), (ast2, q)):
            got, want = r.eval(**env), R.ev(a, env)
            check(got == want, f"{a} at {env}: got {got}, expected {want}")
    return info(k >= 4 and len(R.mono(base)) >= 2, case["via"], f"power{k}")


def s_alias():
    # Operate on built polynomials again and check that they did not change.
    return st.fixed_dictionaries(
        dict(
            a=R.asts(max_leaves=5, max_degree=3),
            b=R.asts(max_leaves=5, max_degree=3),
            ops=st.lists(
                st.tuples(
                    st.sampled_from(
                        ["add", "sub", "mul", "neg", "pow", "subst", "radd", "rsub", "rmul",
                         "collect", "reject", "query", "eq", "iadd", "imul", "isub"]
                    ),
                    st.integers(0, 4),
                    st.sampled_from(R.NAMES),
                ),
                min_size=1,
                max_size=8,
            ),
            env=st.fixed_dictionaries({n: st.integers(-4, 5) for n in R.NAMES}),
        )
    )


def r_alias(case):
    a, b = R.build(case["a"], E), R.build(case["b"], E)
    env = case["env"]
    va, vb = R.ev(case["a"], env), R.ev(case["b"], env)
    for op, k, n in case["ops"]:
        if op == "add":
            r, v = a + b, va + vb
        elif op == "sub":
            r, v = a - b, va - vb
        elif op == "mul":
            r, v = a * b, va * vb
        elif op == "neg":
            r, v = -a, -va
        elif op == "pow":
            r, v = a**k, va**k
        elif op == "subst":
            r, v = a.substitute(n, b), R.ev(["subst", n, case["a"], case["b"]], env)
        elif op == "radd":
            r, v = k + a, k + va
        elif op == "rsub":
            r, v = k - a, k - va
        elif op == "rmul":
            r, v = k * a, k * va
        elif op in ("iadd", "imul", "isub"):
            r = a
            if op == "iadd":
                r += b
                v = va + vb
            elif op == "imul":
                r *= b
                v = va * vb
            else:
                r -= b
                v = va - vb
        else:
            if op == "collect":
                a.collect_for(E.Factor(n, k + 1))
            elif op == "reject":
                a.reject(n)
            elif op == "query":
                a.highest_power(n), a.is_constant(), a.is_function_of(n), str(a)
            else:
                a == b
            r, v = a, va
        check(r.eval(**env) == v, f"{op} of {case['a']} and {case['b']}")
        check(a.eval(**env) == va, f"{op} changed its first operand {case['a']}")
        check(b.eval(**env) == vb, f"{op} changed its second operand {case['b']}")
    return info(len(R.mono(case["a"])) + len(R.mono(case["b"])) >= 3)


def dyadic(lo, hi, den=4):
    return st.integers(lo * den, hi * den).map(lambda k: k / den)


def s_exp():
    pol = R.asts(max_leaves=6, max_degree=4)
    op = st.one_of(
        st.tuples(st.just("mul"), pol, dyadic(-3, 3)),
        st.tuples(st.just("scale"), dyadic(-3, 3)),
        st.tuples(st.just("rscale"), dyadic(-3, 3)),
        st.tuples(st.just("neg")),
        st.tuples(st.just("subst"), st.sampled_from(R.NAMES), R.asts(max_leaves=3, max_degree=2)),
        st.tuples(st.just("trans"), st.sampled_from(R.NAMES), R.asts(max_leaves=3, max_degree=2)),
    )
    return st.fixed_dictionaries(
        dict(
            ast=pol,
            const=st.one_of(st.none(), dyadic(-3, 3)),
            ops=st.lists(op, max_size=4),
            shapes=st.sampled_from(["scalar", "numpy", "jax", "mixed"]),
            env=st.fixed_dictionaries(
                {n: st.lists(dyadic(-2, 2), min_size=2, max_size=2) for n in R.NAMES}
            ),
        )
    )


def env_of(case, kind=None):
    env = case["env"]
    kind = kind or case["shapes"]
    if kind == "scalar":
        return {n: v[0] for n, v in env.items()}
    res = {}
    for i, (n, v) in enumerate(sorted(env.items())):
        # Broadcasting shapes.
        x = np.array(v, dtype=float)
        x = [x[:, None], x[None, :], x[0], x[:1, None]][i % 4]
        if kind == "jax" or (kind == "mixed" and i % 2):
            x = jnp.asarray(x)
        res[n] = x
    return res


def r_exp(case):
    env = env_of(case, "scalar" if case["shapes"] == "scalar" else "numpy")
    # Scale the exponent such that the exponential cannot overflow: powers of two are
    # exact in floating point.
    ops = [o for o in case["ops"]]

    def ref(scale):
        poly, const = case["ast"], 1 if case["const"] is None else case["const"]
        for o in ops:
            if o[0] == "mul":
                poly, const = ["add", poly, o[1]], const * o[2]
            elif o[0] in ("scale", "rscale"):
                const = const * o[1]
            elif o[0] == "neg":
                const = -const
            elif o[0] == "subst":
                poly = ["subst", o[1], poly, o[2]]
            elif o[0] == "trans":
                poly = ["subst", o[1], poly, ["add", ["var", o[1], 1], o[2]]]
        if R.degree(poly) > 12:
            return None, None
        return const, R.ev(poly, env)

    const, expo = ref(1)
    if expo is None:
        return info(False, "too-big")
    big = float(np.max(np.abs(expo)))
    if big > 2**45:
        return info(False, "too-big")
    scale = 2.0 ** -max(0, int(np.ceil(np.log2(max(big, 1) / 4))))

    def start(ast):
        return R.build(ast, E) * scale

    e = start(case["ast"])
    e = E.ExpPoly(e) if case["const"] is None else E.ExpPoly(case["const"], e)
    first, first_val = e, np.asarray(e.eval(**env_of(case))) + 0
    for o in ops:
        if o[0] == "mul":
            e = e * E.ExpPoly(o[2], start(o[1]))
        elif o[0] == "scale":
            e = e * o[1]
        elif o[0] == "rscale":
            e = o[1] * e
        elif o[0] == "neg":
            e = -e
        elif o[0] == "subst":
            e = e.substitute(o[1], R.build(o[2], E))
        elif o[0] == "trans":
            e = e.translate_var(o[1], R.build(o[2], E))
    got = np.asarray(e.eval(**env_of(case)), dtype=float)
    want = const * np.exp(np.asarray(expo, dtype=float) * scale)
    if got.shape != want.shape:
        got, want = np.broadcast_arrays(got, want)
    close(got, want, "exponentiated polynomial", rtol=1e-11, atol=0)
    again = np.asarray(first.eval(**env_of(case)))
    check(np.array_equal(first_val, again), "the first operand was modified")
    return info(bool(ops) or case["const"] is not None, case["shapes"], *[o[0] for o in ops])


def s_arr():
    vec = st.lists(dyadic(-3, 3), min_size=3, max_size=3)
    term = st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["scalar", "vec", "jax", "npscalar", "jaxscalar"]),
            c=vec,
            f=st.dictionaries(st.sampled_from(R.NAMES), st.integers(1, 3), max_size=2),
        )
    )
    return st.fixed_dictionaries(
        dict(
            polys=st.lists(
                st.lists(term, min_size=1, max_size=3), min_size=1, max_size=3
            ),
            how=st.sampled_from(["prod", "sum", "sub", "square"]),
            env=st.fixed_dictionaries({n: vec for n in R.NAMES}),
            arrays=st.booleans(),
        )
    )


def r_arr(case):
    env = {
        n: (np.array(v) if case["arrays"] else v[0]) for n, v in case["env"].items()
    }
    polys, vals = [], []
    for terms in case["polys"]:
        p, v = E.const(0), 0.0
        for t in terms:
            c = np.array(t["c"])
            c, cs = {
                "scalar": (c[0], float(c[0])),
                "vec": (c, c),
                "jax": (c, jnp.asarray(c)),
                "npscalar": (c[0], np.float64(c[0])),
                "jaxscalar": (c[0], jnp.asarray(c[0])),
            }[t["kind"]]
            q, w = E.const(cs), c
            for n, k in sorted(t["f"].items()):
                q, w = q * E.var(n, k), w * env[n] ** k
            p, v = p + q, v + w
        polys.append(p)
        vals.append(v)
    if case["how"] == "prod":
        r, v = polys[0], vals[0]
        for p, w in zip(polys[1:], vals[1:]):
            r, v = r * p, v * w
    elif case["how"] == "sum":
        r, v = sum(polys, E.const(0)), sum(vals)
    elif case["how"] == "sub":
        r, v = polys[0], vals[0]
        for p, w in zip(polys[1:], vals[1:]):
            r, v = r - p, v - w
    else:
        r, v = polys[0] ** 2, vals[0] ** 2
    got = np.asarray(r.eval(**env), dtype=float)
    got, v = np.broadcast_arrays(got, np.asarray(v, dtype=float))
    close(got, v, "polynomial with array coefficients", rtol=1e-9, atol=1e-7)
    kinds = {t["kind"] for ts in case["polys"] for t in ts}
    return info(len(kinds - {"scalar"}) > 0 or case["arrays"], case["how"], *sorted(kinds))


CHECK = Check(
    "C01",
    [
        Sub("poly", s_poly, r_poly, 1500, 40000, shards=3,
            rule="random expression trees over var/const/number, + - * neg ** sum substitute; "
            "every intermediate polynomial is evaluated at 1-3 integer points and compared exactly with "
            "integer arithmetic; non-trivial: at least two monomials remain"),
        Sub("power", s_power, r_power, 500, 10000, shards=1,
            rule="powers 0-11 of small polynomials: by `**`, repeated products, substitution into a power, and powers of "
            "powers; exact; non-trivial: power at least four of at least two monomials"),
        Sub("alias", s_alias, r_alias, 600, 10000, shards=1,
            rule="sequences of operations on two polynomials; results and both operands checked "
            "after each; non-trivial: at least three monomials in the operands"),
        Sub("exp", s_exp, r_exp, 600, 15000, shards=2,
            rule="exponentiated polynomials under products, scaling, negation, substitution and "
            "translation, scalar/NumPy/JAX broadcasting inputs; non-trivial: at least one operation "
            "or an explicit constant"),
        Sub("arr", s_arr, r_arr, 400, 8000, shards=1,
            rule="polynomials with scalar, NumPy and JAX array coefficients at scalar or array points; "
            "non-trivial: an array somewhere"),
    ],
    level_note="Random search against exact integer arithmetic on expression trees of degree up to 6 (22 for powers).",
)
