"""C28: summaries of samples."""
import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import U, jnp, st
from vp.num import arr, check, close

Q = dict(err_68=0.16, err_95=0.025, err_99=0.0015)


def quantile(s, q):
    """Linearly interpolated quantile along the first axis, by sorting."""
    s = np.sort(s, axis=0)
    pos = q * (s.shape[0] - 1)
    i = int(np.floor(pos))
    j = min(i + 1, s.shape[0] - 1)
    return s[i] + (pos - i) * (s[j] - s[i])


def s_sum():
    return st.fixed_dictionaries(
        dict(
            n=st.integers(3, 40),
            shape=st.sampled_from([[1], [4], [7], [2, 3], [1, 2, 2], [3, 1]]),
            vals=st.lists(st.integers(-99, 99), min_size=5, max_size=60),
            heavy=st.booleans(),
            db=st.booleans(),
            lib=st.sampled_from(["numpy", "jax"]),
            perm=st.integers(1, 997),
            shift=st.sampled_from([-3.0, 0.5, 10.0]),
            scale=st.sampled_from([0.1, 2.0, 25.0]),
            xoff=st.integers(-5, 5),
        )
    )


def r_sum(case):
    n, shape = case["n"], tuple(case["shape"])
    size = n * int(np.prod(shape))
    v = np.resize(np.array(case["vals"], dtype=float) / 8, size)
    v = v + 0.37 * ((np.arange(size) * 7919) % 101) / 101
    if case["heavy"]:
        v = np.sign(v) * v**2
    if case["db"]:
        v = np.abs(v) + 0.01
    s = v.reshape((n,) + shape)
    x = np.arange(shape[0], dtype=float) + case["xoff"]
    conv = jnp.asarray if case["lib"] == "jax" else np.array
    xin, sin = conv(x), conv(s)
    r = U.summarise_samples(xin, sin, db=case["db"])
    db = (lambda a: 10 * np.log10(a)) if case["db"] else (lambda a: a)
    close(r.x, x, "inputs")
    close(r.mean, db(s.mean(axis=0)), "mean", rtol=1e-9, atol=1e-9)
    if not case["db"]:
        close(r.var, s.var(axis=0), "variance", rtol=1e-8, atol=1e-12)
    for name, q in Q.items():
        close(getattr(r, name + "_lower"), db(quantile(s, q)), name + "_lower", rtol=1e-9, atol=1e-9)
        close(getattr(r, name + "_upper"), db(quantile(s, 1 - q)), name + "_upper", rtol=1e-9, atol=1e-9)
    seq = [r.err_99_lower, r.err_95_lower, r.err_68_lower, r.err_68_upper, r.err_95_upper, r.err_99_upper]
    for a, b in zip(seq[:-1], seq[1:]):
        check(np.all(arr(a) <= arr(b) + 1e-12), "bounds are not nested")
    # All samples, with dimensions reversed.
    allr = db(np.transpose(s))
    close(r.all_samples, allr, "all samples", rtol=1e-12, atol=1e-12)
    got = arr(r.samples)
    check(got.shape == allr.shape[:-1] + (3,), f"shape of samples {got.shape}")
    used = set()
    for i in range(3):
        match = [
            j for j in range(n)
            if j not in used and np.allclose(got[..., i], allr[..., j], rtol=1e-12, atol=1e-12)
        ]
        check(match, "a reported sample is not a (distinct) sample")
        used.add(match[0])
    check(np.array_equal(arr(xin), x) and np.array_equal(arr(sin), s), "inputs modified")
    # Order of samples.
    p = np.argsort((np.arange(n) * case["perm"] + 3) % 1009, kind="stable")
    r2 = U.summarise_samples(x, s[p], db=case["db"])
    fields = ["mean", "var"] + [f"{k}_{e}" for k in Q for e in ("lower", "upper")]
    for f in fields:
        close(getattr(r2, f), getattr(r, f), f"{f} after reordering", rtol=1e-9, atol=1e-9)
    if not case["db"]:
        r3 = U.summarise_samples(x, s * case["scale"] + case["shift"])
        for f in fields:
            want = arr(getattr(r, f))
            want = want * case["scale"] ** 2 if f == "var" else want * case["scale"] + case["shift"]
            close(getattr(r3, f), want, f"{f} after scaling and shifting", rtol=1e-7, atol=1e-9)
    else:
        r3 = U.summarise_samples(x, s)
        for f in fields:
            if f != "var":
                close(10 * np.log10(getattr(r3, f)), getattr(r, f), f"{f} in dB", rtol=1e-9, atol=1e-9)
    return info(n >= 4, "db" if case["db"] else "linear", f"rank{len(shape)}", case["lib"])


def s_cov():
    return st.fixed_dictionaries(
        dict(n=st.sampled_from([2000, 5000]), loc=st.integers(-3, 3), sc=st.sampled_from([0.5, 2.0]),
             kind=st.sampled_from(["uniform", "grid"]))
    )


def r_cov(case):
    # Exact quantile levels, measured as the fraction of samples within the bounds.
    n = case["n"]
    s = case["loc"] + case["sc"] * (np.arange(n)[:, None] * 7919 % n + 0.5) / n
    r = U.summarise_samples(np.zeros(1), s)
    for name, mass in dict(err_68=0.68, err_95=0.95, err_99=0.997).items():
        lo, hi = arr(getattr(r, name + "_lower")), arr(getattr(r, name + "_upper"))
        frac = np.mean((s >= lo - 1e-12) & (s <= hi + 1e-12))
        check(abs(frac - mass) < 0.004, f"{name} covers {frac:.3f} of the samples")
        check(
            abs(np.mean(s < lo) - np.mean(s > hi)) < 0.004, f"{name} is not central"
        )
    return info(True)


CHECK = Check(
    "C28",
    [
        Sub("sum", s_sum, r_sum, 400, 8000, shards=2,
            rule="sample arrays of rank 2-4 with ties and heavy tails, linear and dB, against sorting-based quantiles, "
            "with permutation, shift and scale relations; non-trivial: at least four samples"),
        Sub("cov", s_cov, r_cov, 6, 30, shards=1,
            rule="fractions of large regular samples within the bounds; all non-trivial"),
    ],
    level_note="Random search against sorting-based statistics. The variance in dB is not claimed (its definition is ambiguous).",
)
