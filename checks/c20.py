"""C20: every model works with every documented approximation scheme, end to end."""
import numpy as np

from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, G, jnp, st
from vp.models import grid
from vp.num import arr, check, raises

KINDS = ["RGPCM", "GPCM", "CGPCM"]


def casing(name, bits):
    return "".join(c.upper() if bits >> (i % 24) & 1 else c for i, c in enumerate(name))


def s_end(k, shards):
    # Schemes which compile longest first.
    order = ["structured", "mean-field-gradient", "mean-field-ca-gradient", "mean-field", "mean-field-ca-collapsed-gradient", "mean-field-collapsed-gradient", "mean-field-ca"]
    return st.fixed_dictionaries(
        dict(
            kind=st.just(KINDS[k % 3]),
            scheme=st.just(order[(k // 3) % 7]),
            casing=st.one_of(st.just(0), st.integers(0, 2**24 - 1)),
            T=st.sampled_from([0.05, 1.0, 1.0, 20.0]),
            window=grid(1, 3, 8),
            ratio=st.sampled_from([1.5, 2.0, 4.0]),
            span=grid(2, 6, 8),
            off=grid(-4, 4, 8),
            n_u=st.sampled_from([None, 3, 5]),
            n_z=st.sampled_from([None, 4, 6]),
            noise=st.sampled_from([None, 0.02, 0.3]),
            flags=st.sampled_from([[False] * 3, [False] * 3, [True, False, False], [False, True, True]]),
            # At least as many distinct inputs.
            t=st.lists(st.integers(0, 16), min_size=4, max_size=4, unique=True),
            y=st.lists(grid(-2, 2, 8), min_size=4, max_size=4),
            again=st.booleans(),
            lib=st.sampled_from(["numpy", "jax"]),
            iters=st.sampled_from([10, 25]),
            num=st.sampled_from([2, 5]),
            default_t=st.booleans(),
            min_phase=st.booleans(),
            seed=st.integers(0, 1000),
        )
    )


def build(case):
    T = case["T"]
    lo = case["off"] * T
    hi = lo + case["span"] * T
    kw = dict(window=case["window"] * T, scale=case["window"] * T / case["ratio"], t=(lo, hi), scheme=casing(case["scheme"], case["casing"]))
    for k in ("n_u", "noise"):
        if case[k] is not None:
            kw[k] = case[k]
    if case["n_z"] is not None:
        if case["kind"] == "RGPCM":
            kw["m_max"] = case["n_z"] // 2
        else:
            kw["n_z"] = case["n_z"]
    kw.update(zip(("fix_noise", "fix_window", "fix_scale"), case["flags"]))
    return getattr(G, case["kind"])(**kw), lo + np.sort(case["t"]) / 16 * (hi - lo)


def finite(x, shape, what, db=False):
    x = arr(x)
    check(x.shape == shape, f"{what} has shape {x.shape}, expected {shape}")
    # Nothing is minus infinity in decibels.
    check(np.all(np.isfinite(x) | (np.isneginf(x) & db)), f"{what} is not finite: {x}")
    return x


def summary(p, n, what, x=None, var=True):
    db = not var
    xs = arr(p.x)
    check(xs.ndim == 1 and len(xs) > 1, f"{what}: inputs have shape {xs.shape}")
    k = len(xs)
    if x is not None:
        check(k == len(x) and np.allclose(xs, x, rtol=1e-12, atol=1e-12 * np.max(np.abs(x))), f"{what}: inputs are {xs}, expected {x}")
    finite(p.x, (k,), f"{what}: inputs")
    check(np.any(np.isfinite(finite(p.mean, (k,), f"{what}: mean", db))), f"{what}: mean is {arr(p.mean)}")
    if var:
        check(np.all(finite(p.var, (k,), f"{what}: variance") >= 0), f"{what}: negative variance")
    seq = [finite(getattr(p, a), (k,), f"{what}: {a}", db) for a in ("err_99_lower", "err_95_lower", "err_68_lower", "err_68_upper", "err_95_upper", "err_99_upper")]
    for a, b in zip(seq[:-1], seq[1:]):
        check(np.all((a <= b) | (np.isfinite(a) & (a <= b + 1e-9 * (np.abs(a) + np.abs(b))))), f"{what}: quantiles are not ordered")
    finite(p.all_samples, (k, n), f"{what}: all samples", db)
    finite(p.samples, (k, min(n, 3)), f"{what}: samples", db)


def r_end(case):
    lib = np.asarray if case["lib"] == "numpy" else jnp.asarray
    B.set_random_seed(case["seed"])
    np.random.seed(case["seed"])
    model, t = build(case)
    n, T = len(t), case["T"]
    y = np.array(case["y"])
    # Samples of the prior.
    K, f = model.sample(lib(t))
    finite(K, (n, n), "sampled kernel matrix")
    finite(f, (n,), "sample")
    K, f = model.sample(lib(t), normalise=True)
    check(abs(finite(K, (n, n), "sampled and normalised kernel matrix")[0, 0] - 1) < 1e-9, "kernel is not normalised")
    finite(f, (n,), "sample")
    model.fit(lib(t), lib(y), iters=case["iters"])
    if case["again"] and case["scheme"] == "mean-field-ca":
        model.fit(lib(t), lib(y), iters=case["iters"])
    finite(model.elbo(lib(t), lib(y)), (), "ELBO")
    post = model.condition(lib(t), lib(y))
    if case["again"]:
        post = post()
    t2 = np.concatenate([t, t[:-1] + np.diff(t) / 2])
    res = post.predict(lib(t2))
    check(isinstance(res, tuple) and len(res) == 2, "predictions are not a tuple of two")
    finite(res[0], (len(t2),), "mean of predictions")
    var = finite(res[1], (len(t2),), "variance of predictions")
    check(np.all(var > 0), f"variances are {var}")
    num = case["num"]
    grid_t = np.linspace(0, 2 * T, 20)
    kw = {} if case["default_t"] else dict(t_k=lib(grid_t))
    summary(post.predict_kernel(num_samples=num, **kw), num, "kernel", None if case["default_t"] else grid_t)
    summary(post.predict_psd(num_samples=num, **kw), num, "PSD", var=False)
    kw = {} if case["default_t"] else dict(t_h=lib(grid_t))
    if case["min_phase"]:
        summary(post.predict_filter(num_samples=num, **kw), num, "minimum-phase filter")
    else:
        summary(post.predict_filter(num_samples=num, min_phase=False, **kw), num, "filter", None if case["default_t"] else grid_t)
    mean, var = post.predict_fourier(num_samples=num)
    n_z = int(arr(post.n_z if case["again"] else post().n_z))
    finite(mean, (n_z,), "mean of the features")
    check(np.all(finite(var, (n_z,), "variance of the features") >= 0), "variance of the features is negative")
    return info(np.any(y != 0), f"{case['kind']}/{case['scheme']}", "default inputs" if case["default_t"] else "given inputs")


# Names.


def s_name():
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(KINDS),
            scheme=st.sampled_from(M.SCHEMES),
            casing=st.integers(0, 2**24 - 1),
            edit=st.sampled_from(["none", "none", "drop", "append", "dash", "other", "swap"]),
            at=st.integers(0, 30),
            other=st.sampled_from(["", "mean field", "mf", "gibbs", "laplace", "ess", "structured ", "mean-field-", "mean-field-bfgs", "ca", "mean_field_ca", "mean-field-structured", "collapsed-gradient"]),
            use=st.sampled_from(["instantiate", "elbo", "condition", "predict", "fit", "kernel"]),
        )
    )


def r_name(case):
    s = case["scheme"]
    i = case["at"] % len(s)
    name = {"none": s, "drop": s[:i] + s[i + 1 :], "append": s + "s", "dash": s.replace("-", "") if "-" in s else s + "-", "other": case["other"], "swap": s[i:] + s[:i]}[case["edit"]]
    if name.lower() in M.SCHEMES:
        name = name.lower()
        known = True
    else:
        known = False
    kw = dict(window=2.0, scale=1.0, t=(0.0, 2.0), n_u=2, noise=0.1, **(dict(m_max=1) if case["kind"] == "RGPCM" else dict(n_z=2)))
    t, y = jnp.linspace(0, 2, 3), jnp.array([1.0, -0.5, 2.0])
    cls = getattr(G, case["kind"])
    if known:
        m1, m2 = cls(scheme=casing(name, case["casing"]), **kw), cls(scheme=name, **kw)
        a1, a2 = m1().approximation, m2().approximation
        check(type(a1) is type(a2), f"scheme {casing(name, case['casing'])} gives {type(a1).__name__}, but {name} gives {type(a2).__name__}")
        check((name == "structured") == (type(a1).__name__ == "Structured"), f"scheme {name} gives {type(a1).__name__}")
        check(getattr(a1, "fit", None) == getattr(a2, "fit", None), "fitting methods differ")
        return info(casing(name, case["casing"]) != name, case["kind"], "known")

    def use():
        m = cls(scheme=name, **kw)
        u = case["use"]
        if u == "instantiate":
            m()
        elif u == "elbo":
            m.elbo(t, y)
        elif u == "fit":
            m.fit(t, y, iters=2)
        elif u == "kernel":
            m.predict_kernel(num_samples=2)
        elif u == "condition":
            m.condition(t, y)()
        else:
            m.condition(t, y).predict(t)

    raises(use, (ValueError,), f"{case['use']} with scheme {name!r}")
    return info(True, case["kind"], "unknown", case["use"])


CHECK = Check(
    "C20",
    [
        Sub("end", s_end, r_end, 21, 1000, shards=21,
            rule="every model with every documented scheme (a shard each), with random settings and data: sample, fit, ELBO, condition, "
            "and all predictions are finite, have the documented shapes, ordered quantiles and positive variances; non-trivial: "
            "non-zero data"),
        Sub("name", s_name, r_name, 96, 3000, shards=2,
            rule="scheme names in any casing, and unknown names in any use; non-trivial: unknown, or not in lower case"),
    ],
    level_note="Random search: one fit per model and scheme in the quick tier.",
    assumptions=["Four data points at different inputs, and the number of iterations is at most 25.", "The variance of spectra, which are in decibels, is not specified."],
)
