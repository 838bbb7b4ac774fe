"""C27: closest PSD matrix."""
import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import U, jnp, st
from vp.num import arr, check, close


def orth(k, vals):
    """Orthogonal matrix from a list of numbers."""
    M = np.resize(np.array(vals, dtype=float), (k, k)) + 1e-3 * np.arange(k * k).reshape(k, k) ** 2 % 7
    q, r = np.linalg.qr(M + np.eye(k) * 3)
    return q


def s_mat():
    eig = st.sampled_from([-5.0, -2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 5.0, 1e-3, 100.0, -100.0, 0.0])
    spec = st.fixed_dictionaries(
        dict(
            kind=st.just("spec"),
            eigs=st.lists(eig, min_size=1, max_size=6),
            vals=st.lists(st.integers(-9, 9), min_size=3, max_size=12),
            asym=st.sampled_from([0.0, 0.0, 0.5, 3.0]),
        )
    )
    pair = st.fixed_dictionaries(
        dict(
            kind=st.just("spec"),
            eigs=st.lists(st.sampled_from([1.0, 2.0, 0.5]), min_size=1, max_size=3).map(
                lambda e: e + [-x for x in e]
            ),
            vals=st.lists(st.integers(-9, 9), min_size=3, max_size=12),
            asym=st.sampled_from([0.0, 0.7]),
        )
    )
    raw = st.integers(1, 5).flatmap(
        lambda k: st.fixed_dictionaries(
            dict(
                kind=st.just("raw"),
                k=st.just(k),
                vals=st.lists(st.integers(-4, 4), min_size=k * k, max_size=k * k),
            )
        )
    )
    psd = st.fixed_dictionaries(
        dict(
            kind=st.just("spec"),
            eigs=st.lists(st.sampled_from([0.5, 1.0, 2.0, 1e-3, 100.0]), min_size=1, max_size=6),
            vals=st.lists(st.integers(-9, 9), min_size=3, max_size=12),
            asym=st.just(0.0),
        )
    )
    one = st.one_of(spec, pair, raw, psd)
    return st.fixed_dictionaries(
        dict(
            mats=st.lists(one, min_size=1, max_size=3),
            batch=st.booleans(),
            lib=st.sampled_from(["numpy", "jax"]),
            scale=st.sampled_from([1.0, 1e-6, 1e5]),
            dirs=st.lists(st.integers(-9, 9), min_size=6, max_size=30),
        )
    )


def build(m):
    if m["kind"] == "raw":
        return np.array(m["vals"], dtype=float).reshape(m["k"], m["k"])
    k = len(m["eigs"])
    q = orth(k, m["vals"])
    a = (q * np.array(m["eigs"])) @ q.T
    a = (a + a.T) / 2
    s = m["asym"] * np.triu(np.ones((k, k)), 1)
    return a + s - s.T


def ref(a):
    s = (a + a.T) / 2
    w, v = np.linalg.eigh(s)
    p = (v * np.maximum(w, 0)) @ v.T
    return s, w, v, p


def r_mat(case):
    mats = [build(m) * case["scale"] for m in case["mats"]]
    k = mats[0].shape[0]
    if case["batch"]:
        mats = [a for a in mats if a.shape[0] == k]
        a = np.stack(mats, axis=0)
    else:
        mats = mats[:1]
        a = mats[0]
    conv = jnp.asarray if case["lib"] == "jax" else np.array
    inp = conv(a)
    got = arr(U.closest_psd(inp))
    check(got.shape == a.shape, f"shape {got.shape}, expected {a.shape}")
    check(np.array_equal(arr(inp), a), "the input was modified")
    inv = arr(U.closest_psd(conv(a), inv=True))
    check(inv.shape == a.shape, f"shape {inv.shape}, expected {a.shape}")
    gots, invs = (got, inv) if case["batch"] else (got[None], inv[None])
    classes = []
    for ai, gi, ii in zip(mats, gots, invs):
        s, w, v, p = ref(ai)
        nrm = max(np.linalg.norm(ai), 1e-300)
        close(gi, gi.T, "symmetry", rtol=0, atol=1e-12 * nrm)
        check(
            np.linalg.eigvalsh((gi + gi.T) / 2).min() >= -1e-12 * nrm,
            f"negative eigenvalue for {ai.tolist()}",
        )
        close(gi, p, f"projection of {ai.tolist()}", rtol=0, atol=1e-11 * nrm)
        # No PSD matrix is closer: perturb towards other PSD matrices.
        d0 = np.linalg.norm(s - gi)
        D = np.resize(np.array(case["dirs"], dtype=float), (k, k))
        Q = D @ D.T
        Q = Q / max(np.linalg.norm(Q), 1e-12) * nrm
        for lam in [1e-3, 0.1, 1.0]:
            cand = (1 - lam) * gi + lam * Q if lam < 1 else gi + Q
            check(
                np.linalg.norm(s - cand) >= d0 - 1e-9 * nrm,
                f"a closer PSD matrix exists for {ai.tolist()}",
            )
        # Pseudo-inverse; the rank must be numerically clear.
        clear = np.all(np.abs(w) > 1e-9 * nrm)
        if clear:
            pos = np.where(w > 0, 1 / np.where(w > 0, w, 1), 0)
            pinv = (v * pos) @ v.T
            close(ii, pinv, f"inverse of the projection of {ai.tolist()}", rtol=0,
                  atol=1e-8 * max(np.abs(pinv).max(), 1 / nrm * 1e-3) + 1e-13 * nrm * np.abs(pinv).max() ** 2)
        classes.append("psd" if w.min() >= 0 else ("nsd" if w.max() <= 0 else "indefinite"))
        aw = np.sort(np.abs(w))
        if np.any((w[:, None] + w[None, :])[w[:, None] * w[None, :] < 0] == 0) or np.any(
            np.abs(w[:, None] + w[None, :])[w[:, None] * w[None, :] < 0] < 1e-9 * nrm
        ):
            classes.append("opposite-pair")
    return info(k >= 2, case["lib"], "batch" if case["batch"] else "single", *set(classes))


CHECK = Check(
    "C27",
    [
        Sub("mat", s_mat, r_mat, 600, 12000, shards=3,
            rule="matrices with prescribed eigenvalues (zero, repeated, opposite pairs), raw small-integer matrices, "
            "asymmetric and batched, against an eigendecomposition; non-trivial: at least two rows"),
    ],
    level_note="Random search against a reference projection and against perturbed PSD candidates.",
)
