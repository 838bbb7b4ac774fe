"""C26: spectrum estimates."""
import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import U, jnp, st
from vp.num import arr, check, close, raises


def kernels():
    comp = st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["eq", "exp", "cos", "const", "white", "tri"]),
            w=st.sampled_from([0.1, 0.5, 1.0, 2.0, 7.5]),
            s=st.sampled_from([0.05, 0.3, 1.0, 2.5]),
            f=st.sampled_from([0.1, 0.7, 2.0]),
        )
    )
    return st.one_of(
        st.fixed_dictionaries(dict(comps=st.lists(comp, min_size=1, max_size=3))),
        st.fixed_dictionaries(
            dict(raw=st.lists(st.integers(-20, 20), min_size=3, max_size=12),
                 k0=st.integers(1, 40))
        ),
    )


def value(k, t):
    if "raw" in k:
        v = np.resize(np.array(k["raw"], dtype=float) / 8, len(t))
        v[0] = k["k0"] / 8
        return v
    r = np.zeros(len(t))
    for c in k["comps"]:
        s, f = c["s"], c["f"]
        r = r + c["w"] * {
            "eq": np.exp(-0.5 * (t / s) ** 2),
            "exp": np.exp(-t / s),
            "cos": np.exp(-t / s) * np.cos(2 * np.pi * f * t),
            "const": np.ones(len(t)),
            "white": (t == 0).astype(float),
            "tri": np.maximum(1 - t / s, 0),
        }[c["kind"]]
    return r


def s_psd():
    return st.fixed_dictionaries(
        dict(
            kernel=kernels(),
            n=st.integers(3, 60),
            dt=st.sampled_from([0.01, 0.1, 0.25, 1.0, 3.0]),
            n_zero=st.sampled_from([None, 0, 1, 2, 7, 10, 33, 100, 501]),
            lib=st.sampled_from(["numpy", "jax"]),
            scale=st.sampled_from([0.01, 2.0, 30.0]),
            stretch=st.sampled_from([0.1, 2.0, 16.0]),
            t0=st.sampled_from([-1.0, 0.1, 1e-3]),
        )
    )


def r_psd(case):
    n, dt = case["n"], case["dt"]
    t = np.arange(n) * dt
    k = value(case["kernel"], t)
    conv = jnp.asarray if case["lib"] == "jax" else np.array
    kw = {} if case["n_zero"] is None else dict(n_zero=case["n_zero"])
    nz = 2000 if case["n_zero"] is None else case["n_zero"]
    # Direct cosine transform of the symmetrised, zero-padded kernel.
    N = 2 * (n + nz) - 2
    ks = np.concatenate([k, np.zeros(nz)])
    freqs_ref = np.arange((N + 1) // 2) / (N * dt)
    lag = np.arange(1, n)
    C = np.cos(2 * np.pi * np.outer(np.arange(N // 2 + 1), lag) / N)
    w = np.where(lag == len(ks) - 1, 1.0, 2.0)
    raw = np.abs(k[0] + C @ (w * k[1:]))  # Frequencies `0, ..., N / 2`
    two_sided = raw[0] + 2 * raw[1:-1].sum() + raw[-1]
    ref = raw * (k[0] / (two_sided / (N * dt)))
    ref = ref[: len(freqs_ref)]
    if two_sided <= 1e-9 * np.abs(k).max():
        return info(False, "zero")
    # If the spectrum is non-negative, the scale is just the spacing.
    tt, kk = conv(t), conv(k)
    freqs, psd = U.estimate_psd(tt, kk, **kw)
    check(isinstance(freqs, np.ndarray) and isinstance(psd, np.ndarray), "NumPy arrays")
    close(freqs, freqs_ref, "frequencies", rtol=1e-10)
    check(psd.dtype.kind == "f", "the PSD is not real")
    check(np.all(psd >= 0), "the PSD is negative")
    tol = 1e-9 * ref.max()
    close(psd, ref, "PSD", rtol=1e-8, atol=tol)
    # Total power: `-N / 2` is not among the non-negative frequencies.
    power = (psd[0] + 2 * psd[1:].sum() + ref_nyq(raw, k, two_sided, N, dt)) / (N * dt)
    close(power, k[0], "total power", rtol=1e-7)
    # Inputs left alone.
    check(np.array_equal(arr(tt), t) and np.array_equal(arr(kk), k), "inputs modified")
    # Scale.
    _, psd2 = U.estimate_psd(tt, conv(k * case["scale"]), **kw)
    close(psd2, psd * case["scale"], "scaled kernel", rtol=1e-8, atol=tol * case["scale"])
    f3, psd3 = U.estimate_psd(conv(t * case["stretch"]), kk, **kw)
    close(f3 * case["stretch"], freqs, "frequencies of stretched time", rtol=1e-8)
    close(psd3 / case["stretch"], psd, "PSD of stretched time", rtol=1e-8, atol=tol)
    # Decibels.
    f4, psd4 = U.estimate_psd(tt, kk, db=True, **kw)
    ok = psd > 1e-6 * psd.max()
    close(psd4[ok], 10 * np.log10(psd[ok]), "decibels", rtol=0, atol=1e-6)
    close(f4, freqs, "frequencies with decibels")
    # Not starting at zero.
    raises(lambda: U.estimate_psd(conv(t + case["t0"]), kk, **kw), Exception, "shifted grid")
    pos = np.all(k[0] + C @ (w * k[1:]) > 0)
    return info(np.any(k[1:] != 0), "positive" if pos else "mixed", case["lib"], f"nz{nz}",
                "raw" if "raw" in case["kernel"] else "kernel")


def ref_nyq(raw, k, two_sided, N, dt):
    return raw[-1] * (k[0] / (two_sided / (N * dt)))


CHECK = Check(
    "C26",
    [
        Sub("psd", s_psd, r_psd, 400, 8000, shards=3,
            rule="kernels (sums of squared-exponential, exponential, damped cosine, constant, white, triangular; or "
            "raw sequences) on random grids and paddings against a direct cosine sum, with scaling, stretching, "
            "decibel and refusal relations; non-trivial: the kernel is not white"),
    ],
    level_note="Random search against a direct discrete cosine sum.",
)
