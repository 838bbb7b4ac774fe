"""C02: canonical form of polynomials."""
import itertools

from vp import refs_poly as R
from vp.core import Check, Sub, info
from vp.lazy import E, st
from vp.num import check, raises

GRID = [dict(zip(R.NAMES, v)) for v in itertools.product([-2, 1, 3], repeat=4)][::5]


def canon(m, order, E):
    """Build a polynomial monomial by monomial in some order."""
    items = sorted(m.items(), key=str)
    items = [x for _, x in sorted(zip(itertools.cycle(order), items), key=lambda t: t[0])]
    p = E.const(0)
    for k, c in items:
        t = E.const(c)
        for n, e in reversed(k):
            for _ in range(e if c % 2 else 1):
                t = t * (E.var(n) if c % 2 else E.var(n, e))
        p = p + t
    return p


def same_values(p, m, what):
    for env in GRID:
        check(p.eval(**env) == R.pval(m, env), f"{what}: {p} is not {m}")


def s_eq():
    a = R.asts(max_leaves=7, max_degree=5)
    return st.fixed_dictionaries(
        dict(
            a=a,
            b=R.asts(max_leaves=3, max_degree=3),
            route=st.sampled_from(
                ["canon", "plus-minus", "times-one", "swap", "other", "bump", "double-half", "expand"]
            ),
            bump=st.tuples(
                st.sampled_from([-2, -1, 1, 3]),
                st.dictionaries(st.sampled_from(R.NAMES), st.integers(1, 4), max_size=3),
            ),
            order=st.lists(st.integers(0, 9), min_size=1, max_size=6),
            const=st.sampled_from([1, 2, 0.5, -1]),
            const2=st.sampled_from([1, 2, 0.5, -1]),
        )
    )


def r_eq(case):
    a, b = case["a"], case["b"]
    pa, ma = R.build(a, E), R.mono(a)
    route = case["route"]
    if route == "canon":
        pb, mb = canon(ma, case["order"], E), ma
    elif route == "plus-minus":
        c = ["sub", ["add", b, a], b]
        pb, mb = R.build(c, E), R.mono(c)
    elif route == "times-one":
        c = ["mul", ["num", 1], ["mul", ["const", 1], a]]
        pb, mb = R.build(c, E), R.mono(c)
    elif route == "swap":
        c1, c2 = ["mul", a, b], ["mul", b, a]
        if R.degree(c1) > 8:
            return info(False, "too-big")
        pa, ma, pb, mb = R.build(c1, E), R.mono(c1), R.build(c2, E), R.mono(c2)
    elif route == "expand":
        c1 = ["mul", ["add", a, b], ["sub", a, b]]
        c2 = ["sub", ["pow", a, 2], ["pow", b, 2]]
        if R.degree(c2) > 8:
            return info(False, "too-big")
        pa, ma, pb, mb = R.build(c1, E), R.mono(c1), R.build(c2, E), R.mono(c2)
    elif route == "double-half":
        c = ["sub", ["mul", ["num", 3], a], ["add", a, a]]
        pb, mb = R.build(c, E), R.mono(c)
    elif route == "bump":
        c, f = case["bump"]
        m = {tuple(sorted(f.items())): c}
        mb = R.padd(ma, m)
        pb = canon(mb, case["order"], E)
    else:
        pb, mb = R.build(b, E), R.mono(b)
    want = ma == mb
    check((pa == pb) is want, f"{pa} == {pb} should be {want}")
    check((pb == pa) is want, f"{pb} == {pa} should be {want}")
    check((pa != pb) is (not want), f"{pa} != {pb} should be {not want}")
    check(pa == pa, f"{pa} should equal itself")
    same_values(pa, ma, "value")
    same_values(pb, mb, "value")
    # Exponentiated polynomials.
    c1, c2 = case["const"], case["const2"]
    e1, e2 = E.ExpPoly(c1, pa), E.ExpPoly(c2, pb)
    check((e1 == e2) is (want and c1 == c2), f"{e1} == {e2}")
    check((E.ExpPoly(pa) == E.ExpPoly(1, pb)) is want, f"exp({pa}) == 1*exp({pb})")
    check((e1 * e2 == e2 * e1) is True, "products of exponentiated polynomials commute")
    return info(len(ma) + len(mb) >= 2, route, "equal" if want else "different")


def s_terms():
    f = st.lists(
        st.tuples(st.sampled_from(R.NAMES), st.integers(1, 3)), max_size=5
    )
    return st.fixed_dictionaries(
        dict(f1=f, f2=f, perm=st.randoms(use_true_random=False).map(lambda r: r.randrange(1000)),
             c1=st.integers(-3, 3), c2=st.integers(-3, 3), same=st.booleans())
    )


def r_terms(case):
    f1, f2 = case["f1"], case["f2"]
    if case["same"]:
        # The same factors in another order, and split up.
        f2 = []
        for n, p in f1:
            f2 += [(n, 1)] * p
        k = case["perm"] % max(len(f2), 1)
        f2 = f2[k:] + f2[:k]
    c2 = case["c1"] if case["same"] else case["c2"]

    def key(c, fs):
        d = {}
        for n, p in fs:
            d[n] = d.get(n, 0) + p
        return (c, tuple(sorted(d.items())) if c != 0 else ())

    t1 = E.Term(case["c1"], *[E.Factor(n, p) for n, p in f1])
    t2 = E.Term(c2, *[E.Factor(n, p) for n, p in f2])
    want = key(case["c1"], f1) == key(c2, f2)
    check((t1 == t2) is want, f"{t1} == {t2} should be {want}")
    if want:
        check(hash(t1) == hash(t2), f"{t1} and {t2} are equal, but have different hashes")
        check(len({t1, t2}) == 1, "equal terms are different set elements")
    if f1 and f2:
        a, b = E.Factor(*f1[0]), E.Factor(*f2[0])
        same = tuple(f1[0]) == tuple(f2[0])
        check((a == b) is same, f"{a} == {b} should be {same}")
        if same:
            check(hash(a) == hash(b), f"{a} and {b} have different hashes")
        if f1[0][0] == f2[0][0]:
            check(a * b == E.Factor(f1[0][0], f1[0][1] + f2[0][1]), f"{a} * {b}")
    # Products of terms.
    check(
        key_of_term(t1 * t2) == key(case["c1"] * c2, list(f1) + list(f2)),
        f"({t1}) * ({t2}) is {t1 * t2}",
    )
    check(
        t1.is_constant() == (len(key(case["c1"], f1)[1]) == 0), f"{t1}.is_constant()"
    )
    d = dict(key(case["c1"], f1)[1])
    for n in R.NAMES:
        check(t1.highest_power(n) == d.get(n, 0), f"highest power of {n} in {t1}")
        check(t1.is_function_of(n) == (n in d), f"{t1}.is_function_of({n})")
    return info(len(f1) >= 2, "equal" if want else "different")


def key_of_term(t):
    """Identify a term through evaluations only: coefficient and powers."""
    primes = dict(zip(R.NAMES, [2, 3, 5, 7]))
    c = t.eval(**{n: 1 for n in R.NAMES})
    powers = []
    if c != 0:
        v = t.eval(**primes) // c
        for n in R.NAMES:
            e = 0
            while v % primes[n] == 0 and v != 0:
                v //= primes[n]
                e += 1
            if e:
                powers.append((n, e))
    return (c, tuple(sorted(powers)))


def s_query():
    return st.fixed_dictionaries(dict(a=R.asts(max_leaves=9, max_degree=6)))


def r_query(case):
    p, m = R.build(case["a"], E), R.mono(case["a"])
    check(p.is_constant() == all(k == () for k in m), f"({p}).is_constant()")
    for n in R.NAMES:
        powers = [dict(k).get(n, 0) for k in m]
        check(p.highest_power(n) == max(powers, default=0), f"highest power of {n} in {p}")
        check(p.is_function_of(n) == any(powers), f"({p}).is_function_of({n})")
        same_values(
            p.reject(n), {k: c for k, c in m.items() if n not in dict(k)}, f"reject {n}"
        )
        total = p.reject(n)
        for e in range(1, max(powers, default=0) + 2):
            want = {}
            for k, c in m.items():
                d = dict(k)
                if d.pop(n, 0) == e:
                    want[tuple(sorted(d.items()))] = c
            got = p.collect_for(E.Factor(n, e))
            same_values(got, want, f"coefficient of {n}^{e} in {p}")
            check(not got.is_function_of(n), f"coefficient of {n}^{e} involves {n}")
            total = total + got * E.var(n, e)
        check(total == p, f"{p} is not the sum of its parts in {n}")
    return info(len(m) >= 2, f"terms{min(len(m), 8)}")


CHECK = Check(
    "C02",
    [
        Sub("eq", s_eq, r_eq, 1500, 40000, shards=3,
            rule="pairs of polynomials (and exponentiated ones) built along different routes, equal or "
            "differing by one monomial; equality compared with equality of monomial dictionaries; "
            "non-trivial: at least two monomials"),
        Sub("terms", s_terms, r_terms, 800, 20000, shards=1,
            rule="pairs of terms with permuted and split factors; non-trivial: at least two factors"),
        Sub("query", s_query, r_query, 500, 12000, shards=2,
            rule="structural queries in every variable against monomial dictionaries; non-trivial: "
            "at least two monomials"),
    ],
    level_note="Random search against a dictionary-of-monomials reference, exact integers.",
)
