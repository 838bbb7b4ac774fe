"""Reference for polynomials: expression trees, and dictionaries of monomials."""
from fractions import Fraction

import numpy as np

NAMES = ["x", "y", "z", "x1"]


def ev(ast, env):
    """Value of an expression on numbers."""
    op = ast[0]
    if op == "var":
        return env[ast[1]] ** ast[2]
    if op in ("const", "num"):
        return ast[1]
    if op == "add":
        return ev(ast[1], env) + ev(ast[2], env)
    if op == "sub":
        return ev(ast[1], env) - ev(ast[2], env)
    if op == "mul":
        return ev(ast[1], env) * ev(ast[2], env)
    if op == "neg":
        return -ev(ast[1], env)
    if op == "pow":
        return ev(ast[1], env) ** ast[2]
    if op == "sum":
        return sum(ev(a, env) for a in ast[1:])
    if op == "subst":
        env2 = dict(env)
        env2[ast[1]] = ev(ast[3], env)
        return ev(ast[2], env2)
    raise ValueError(op)


def pclean(p):
    return {k: v for k, v in p.items() if v != 0}


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return pclean(r)


def kmul(a, b):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            k = kmul(a, b)
            r[k] = r.get(k, 0) + c * d
    return pclean(r)


def ppow(p, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, p)
    return r


def psub(p, name, q):
    r = {}
    for k, c in p.items():
        d = dict(k)
        e = d.pop(name, 0)
        r = padd(r, pmul({tuple(sorted(d.items())): c}, ppow(q, e)))
    return r


def mono(ast):
    """Expression to a canonical dictionary from monomials to coefficients."""
    op = ast[0]
    if op == "var":
        return {((ast[1], ast[2]),): 1}
    if op in ("const", "num"):
        return pclean({(): ast[1]})
    if op == "add":
        return padd(mono(ast[1]), mono(ast[2]))
    if op == "sub":
        return padd(mono(ast[1]), mono(ast[2]), -1)
    if op == "mul":
        return pmul(mono(ast[1]), mono(ast[2]))
    if op == "neg":
        return pclean({k: -v for k, v in mono(ast[1]).items()})
    if op == "pow":
        return ppow(mono(ast[1]), ast[2])
    if op == "sum":
        r = {}
        for a in ast[1:]:
            r = padd(r, mono(a))
        return r
    if op == "subst":
        return psub(mono(ast[2]), ast[1], mono(ast[3]))
    raise ValueError(op)


def degree(ast, deg=None):
    """Upper bound on the degree, so that expressions can be kept small."""
    op = ast[0]
    if op == "var":
        return ast[2]
    if op in ("const", "num"):
        return 0
    if op in ("add", "sub"):
        return max(degree(ast[1]), degree(ast[2]))
    if op == "mul":
        return degree(ast[1]) + degree(ast[2])
    if op == "neg":
        return degree(ast[1])
    if op == "pow":
        return degree(ast[1]) * ast[2]
    if op == "sum":
        return max([0] + [degree(a) for a in ast[1:]])
    if op == "subst":
        return degree(ast[2]) * max(1, degree(ast[3]))
    raise ValueError(op)


def pval(p, env):
    r = 0
    for k, c in p.items():
        t = c
        for n, e in k:
            t = t * env[n] ** e
        r = r + t
    return r


def build(ast, E, record=None):
    """Build with the code under test."""
    op = ast[0]
    if op == "var":
        r = E.var(ast[1], ast[2]) if ast[2] != 1 else E.var(ast[1])
    elif op == "const":
        r = E.const(ast[1])
    elif op == "num":
        return ast[1]
    elif op == "add":
        r = build(ast[1], E, record) + build(ast[2], E, record)
    elif op == "sub":
        r = build(ast[1], E, record) - build(ast[2], E, record)
    elif op == "mul":
        r = build(ast[1], E, record) * build(ast[2], E, record)
    elif op == "neg":
        r = -build(ast[1], E, record)
    elif op == "pow":
        r = build(ast[1], E, record) ** ast[2]
    elif op == "sum":
        r = sum([build(a, E, record) for a in ast[1:]])
    elif op == "subst":
        r = build(ast[2], E, record).substitute(ast[1], build(ast[3], E, record))
    else:
        raise ValueError(op)
    if record is not None:
        record.append((ast, r))
    return r


# Generators.


def asts(max_leaves=8, coef=9, max_degree=6, names=NAMES):
    """Strategy for expressions whose value is a polynomial object."""
    from hypothesis import strategies as st

    name = st.sampled_from(names)
    c = st.integers(-coef, coef)
    leaf = st.one_of(
        st.builds(lambda n, p: ["var", n, p], name, st.integers(1, 3)),
        st.builds(lambda v: ["const", v], c),
    )
    num = st.builds(lambda v: ["num", v], c)

    def extend(kid):
        either = st.one_of(
            st.tuples(kid, kid), st.tuples(kid, num), st.tuples(num, kid)
        )
        return st.one_of(
            st.builds(
                lambda o, ab: [o, ab[0], ab[1]],
                st.sampled_from(["add", "sub", "mul"]),
                either,
            ),
            # The same expression twice, so that terms merge and cancel.
            st.builds(
                lambda o, a, k: [o, a, ["mul", ["num", k], a]],
                st.sampled_from(["add", "sub", "mul"]),
                kid,
                st.integers(-1, 2),
            ),
            st.builds(lambda a: ["neg", a], kid),
            st.builds(lambda a, n: ["pow", a, n], kid, st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5, 6])),
            st.builds(lambda n, a, b: ["subst", n, a, b], name, kid, kid),
            st.builds(lambda xs: ["sum"] + xs, st.lists(kid, min_size=1, max_size=4)),
        )

    def trim(a):
        # Keep expansions small by construction.
        while degree(a) > max_degree:
            if a[0] in ("pow", "neg"):
                a = a[1]
            elif a[0] in ("add", "sub", "mul", "sum"):
                kids = [k for k in a[1:] if k[0] != "num"]
                a = min(kids, key=degree)
            elif a[0] == "subst":
                a = a[2] if degree(a[2]) <= degree(a[3]) else a[3]
            else:
                break
        return a

    return st.recursive(leaf, extend, max_leaves=max_leaves).map(trim)
