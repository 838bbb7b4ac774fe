"""C29: minimum-phase transform."""
import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import U, jnp, st
from vp.num import arr, check, close


def s_any():
    return st.fixed_dictionaries(
        dict(
            h=st.lists(st.integers(-30, 30), min_size=2, max_size=40),
            boost=st.sampled_from([0, 0, 50, 200]),
            pos=st.integers(0, 39),
            pad=st.integers(0, 30),
            shift=st.integers(1, 39),
            scale=st.sampled_from([0.01, 3.0, 250.0]),
            lib=st.sampled_from(["numpy", "jax"]),
        )
    )


def r_any(case):
    h = np.array(case["h"], dtype=float) / 8
    h[case["pos"] % len(h)] += case["boost"] / 8
    h = np.concatenate([h, np.zeros(case["pad"])])
    spec = np.abs(np.fft.fft(h))
    if spec.min() < 1e-5 * max(spec.max(), 1e-12):
        return info(False, "vanishing")
    conv = jnp.asarray if case["lib"] == "jax" else np.array
    hin = conv(h)
    m = U.min_phase(hin)
    check(np.array_equal(arr(hin), h), "the input was modified")
    check(np.asarray(m).dtype.kind == "f", "not real")
    check(m.shape == h.shape, f"shape {m.shape}, expected {h.shape}")
    tol = 1e-9 * spec.max()
    close(np.abs(np.fft.fft(m)), spec, "amplitude spectrum", rtol=0, atol=tol)
    close(np.sum(m**2), np.sum(h**2), "energy", rtol=1e-8)
    for g, what in [
        (-h, "negation"),
        (np.roll(h, case["shift"]), "circular shift"),
        (np.roll(h[::-1], 1), "reflection"),
        (m, "idempotence"),
    ]:
        close(U.min_phase(conv(g)), m, what, rtol=0, atol=1e-7 * np.abs(h).sum())
    close(U.min_phase(conv(h * case["scale"])), m * case["scale"], "scaling", rtol=0,
          atol=1e-7 * np.abs(h).sum() * case["scale"])
    return info(np.count_nonzero(h) >= 2, f"parity{len(h) % 2}", case["lib"])


def s_zeros():
    root = st.one_of(
        st.fixed_dictionaries(dict(kind=st.just("real"), r=st.integers(-75, 75), out=st.booleans())),
        st.fixed_dictionaries(
            dict(kind=st.just("pair"), r=st.integers(0, 75), th=st.integers(0, 31), out=st.booleans())
        ),
    )
    return st.fixed_dictionaries(
        dict(
            roots=st.lists(root, min_size=1, max_size=4),
            gain=st.sampled_from([0.1, 1.0, 5.0, -2.0]),
            n=st.sampled_from([256, 301, 400]),
            delay=st.integers(0, 20),
        )
    )


def r_zeros(case):
    # A filter from its zeros, and its minimum-phase version by reflecting zeros.
    h, m = np.array([1.0]), np.array([1.0])
    outside = False
    for z in case["roots"]:
        r = z["r"] / 100
        out = z["out"] and abs(r) > 0.05
        outside = outside or out
        if z["kind"] == "real":
            inside = np.array([1.0, -r])
        else:
            inside = np.array([1.0, -2 * r * np.cos(np.pi * z["th"] / 32), r**2])
        # Reversing the coefficients moves the zeros to the inverse, same amplitude.
        h = np.convolve(h, inside[::-1] if out else inside)
        m = np.convolve(m, inside)
    h = case["gain"] * np.concatenate([np.zeros(case["delay"]), h])
    h = np.concatenate([h, np.zeros(case["n"] - len(h))])
    m = abs(case["gain"]) * np.concatenate([m, np.zeros(case["n"] - len(m))])
    got = U.min_phase(h)
    tol = 1e-8 * np.abs(h).sum()
    close(got, m, "minimum-phase filter", rtol=0, atol=tol)
    # Energy arrives no later.
    check(
        np.all(np.cumsum(got**2) >= np.cumsum(h**2) - 1e-7 * np.sum(h**2)),
        "energy arrives later than in the original",
    )
    close(U.min_phase(m), m, "a minimum-phase filter is left unchanged", rtol=0, atol=tol)
    return info(outside or case["delay"] > 0, f"roots{len(case['roots'])}", f"n{case['n']}")


CHECK = Check(
    "C29",
    [
        Sub("any", s_any, r_any, 500, 10000, shards=2,
            rule="arbitrary filters of odd and even length with non-vanishing spectrum: spectrum, energy and invariances; "
            "non-trivial: at least two non-zero coefficients"),
        Sub("zeros", s_zeros, r_zeros, 400, 8000, shards=1,
            rule="filters built from zeros inside and outside the unit circle, against reflecting the zeros; "
            "non-trivial: a zero outside or a delay"),
    ],
    level_note="Random search against filters with known minimum-phase version.",
)
