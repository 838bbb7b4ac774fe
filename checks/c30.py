"""C30: autocorrelation, permutations, collected quantities."""
import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import U, jnp, st
from vp.num import arr, check, close


def s_ac():
    return st.integers(2, 40).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(
                x=st.lists(st.integers(-50, 50), min_size=n, max_size=n),
                lags=st.one_of(st.none(), st.integers(0, n - 1)),
                cov=st.booleans(),
                window=st.booleans(),
                lib=st.sampled_from(["numpy", "jax", "col"]),
                shift=st.sampled_from([-10.0, 0.5, 1000.0]),
                scale=st.sampled_from([-2.0, 0.1, 30.0]),
            )
        )
    )


def r_ac(case):
    x = np.array(case["x"], dtype=float) / 4
    n = len(x)
    if np.ptp(x) == 0:
        return info(False, "constant")
    conv = {"numpy": np.array, "jax": jnp.asarray, "col": lambda a: np.array(a)[:, None]}[case["lib"]]
    kw = dict(cov=case["cov"], window=case["window"])
    if case["lags"] is not None:
        kw["lags"] = case["lags"]
    c = x - sum(x) / n
    L = n - 1 if case["lags"] is None else case["lags"]
    ref = []
    for lag in range(L + 1):
        s = sum(c[i] * c[i + lag] for i in range(n - lag))
        ref.append(s / (n if case["window"] else n - lag))
    ref = np.array(ref)
    if not case["cov"]:
        ref = ref / ref[0]
    xin = conv(x)
    got = U.autocorr(xin, **kw)
    scale = np.abs(ref[0])
    close(got, ref, f"autocorrelation {kw}", rtol=1e-9, atol=1e-10 * scale)
    check(np.array_equal(arr(xin).reshape(-1), x), "input modified")
    close(got[0], np.var(x) if case["cov"] else 1.0, "lag zero", rtol=1e-9)
    a = case["scale"] ** 2 if case["cov"] else 1.0
    got2 = U.autocorr(conv(x * case["scale"] + case["shift"]), **kw)
    close(got2, ref * a, "shift and scale", rtol=1e-6, atol=1e-7 * scale * a)
    got3 = U.autocorr(conv(x[::-1]), **kw)
    close(got3, ref, "time reversal", rtol=1e-9, atol=1e-10 * scale)
    return info(n >= 3, case["lib"], f"cov{case['cov']}", f"win{case['window']}", "all" if case["lags"] is None else "lags")


def s_perm():
    return st.fixed_dictionaries(
        dict(
            perm=st.integers(0, 30).flatmap(lambda n: st.permutations(list(range(n)))),
            kind=st.sampled_from(["list", "tuple", "numpy"]),
            names=st.dictionaries(
                st.sampled_from(["x", "mean", "var", "err_95_lower", "name_", "samples"]),
                st.integers(-9, 9), max_size=5),
            name=st.sampled_from([None, "Prediction"]),
        )
    )


def r_perm(case):
    perm = case["perm"]
    p = {"list": list, "tuple": tuple, "numpy": lambda a: np.array(a, dtype=int)}[case["kind"]](perm)
    inv = U.invert_perm(p)
    check(len(inv) == len(perm), "length")
    check(list(p) == list(perm), "input modified")
    v = [100 + 3 * i for i in range(len(perm))]
    there = [v[i] for i in perm]
    check([there[int(i)] for i in inv] == v, "inverse on the left")
    back = [v[int(i)] for i in inv]
    check([back[i] for i in perm] == v, "inverse on the right")
    if len(perm) > 0:
        check(np.array_equal(np.array(v)[np.asarray(p)][inv], v), "works as an index")
        check(list(U.invert_perm(inv)) == list(perm), "inverse of the inverse")
    # Collected quantities.
    kw = dict(case["names"])
    r = U.collect(**kw) if case["name"] is None else U.collect(name=case["name"], **kw)
    for k, v in kw.items():
        check(getattr(r, k) == v, f"quantity {k}")
    check(len(r) == len(kw) and tuple(r) == tuple(kw.values()), "quantities in order")
    fixed = sum(i == j for i, j in enumerate(perm))
    return info(len(perm) >= 3 and fixed < len(perm), case["kind"])


CHECK = Check(
    "C30",
    [
        Sub("ac", s_ac, r_ac, 800, 15000, shards=2,
            rule="series of 2-40 points in all modes and lags against direct sums; non-trivial: at least three points"),
        Sub("perm", s_perm, r_perm, 500, 6000, shards=1,
            rule="permutations of up to 30 elements, and named quantities; non-trivial: not the identity"),
    ],
    level_note="Random search against direct sums.",
)
