"""C12: samples from the prior."""
import numpy as np

from checks.c10 import cond, psd
from vp import models as M
from vp import stats
from vp.core import Check, Sub, info, seed_of
from vp.lazy import B, st
from vp.num import arr, check, close, raises


def seed(k):
    np.random.seed(k % 2**32)
    B.set_random_seed(k % 2**32)


def s_one():
    return st.fixed_dictionaries(
        dict(
            m=M.any_model(),
            n=st.sampled_from([1, 2, 4]),
            t=st.lists(M.grid(0, 4, 8), min_size=4, max_size=4),
            regular=st.booleans(),
            seed=st.integers(0, 10**6),
            inst=st.booleans(),
            cond=st.sampled_from([True, False, False]),
        )
    )


def well(K):
    """Is the effect of the (absolute) regularisation negligible?"""
    return cond(K) <= 1e6 and np.min(np.linalg.eigvalsh(K)) > 1e-7


def inputs(case):
    s = case["m"]
    t = np.arange(case["n"]) * 0.5 if case["regular"] else np.array(case["t"][: case["n"]])
    return s["T"] * t


def r_one(case):
    from vp.refs_model import reference

    s, p = case["m"], M.params(case["m"])
    ref = reference(p)
    if not well(ref.K_u()):
        return info(False, "ill-conditioned")
    t = inputs(case)
    n = len(t)
    model = M.build(s)
    m = model() if case["inst"] else model
    seed(case["seed"])
    K, y = m.sample(t)
    seed(case["seed"])
    K2, y2 = m.sample(t)
    seed(case["seed"])
    Kn, yn = m.sample(t, normalise=True)
    seed(case["seed"] + 1)
    K3, y3 = m.sample(t)
    K, y, K2, y2, Kn, yn, K3, y3 = map(arr, (K, y, K2, y2, Kn, yn, K3, y3))
    check(K.shape == (n, n) and y.shape == (n,), f"shapes {K.shape} and {y.shape}")
    check(Kn.shape == (n, n) and yn.shape == (n,), f"shapes {Kn.shape} and {yn.shape}")
    close(K2, K, "the kernel of another sample with the same seed", rtol=1e-12)
    close(y2, y, "the function of another sample with the same seed", rtol=1e-9, atol=1e-12)
    check(np.all(np.isfinite(y)) and np.all(np.isfinite(yn)), f"samples are not finite: {y}, {yn}")
    check(np.any(y3 != y), "samples with other seeds are the same")
    var = float(ref.i_hx(0.0, 0.0))
    size = max(np.max(np.abs(K)), var)
    psd(K, "kernel", (1e-9 + 1e-11 * cond(ref.K_u())) * size * n)
    # Stationary: equal where the lags are equal.
    lag = np.abs(t[:, None] - t[None, :])
    for i in np.ndindex(n, n):
        same = np.abs(lag - lag[i]) < 1e-9 * s["T"]
        close(K[same], K[i] * np.ones(same.sum()), "stationarity of the kernel", rtol=1e-6, atol=1e-8 * size)
    # Of the right family: quadratic in `u`, so it lies between the unexplained part and infinity at lag zero.
    iu = np.linalg.inv(ref.K_u())
    z = np.zeros(1)
    rest = var - np.sum(iu * ref.I_ux(z, z)[0, 0])
    check(K[0, 0] >= rest - 1e-3 * size, f"variance {K[0, 0]} is below the unexplained variance {rest}")
    close(Kn, K / K[0, 0], "normalised kernel", rtol=1e-9, atol=1e-12)
    close(np.diag(Kn), np.ones(n), "variance of the normalised kernel", rtol=1e-6)
    if case["cond"]:
        post = model.condition(t, y)
        raises(lambda: post.sample(t), RuntimeError, "sampling a conditioned model")
    return info(n > 1, s["kind"], "conditioned" if case["cond"] else "")


def s_dist():
    return st.fixed_dictionaries(
        dict(
            m=st.one_of(
                M.smooth(n_u=(1, 1), n_z=(1, 1)),
                M.rough(n_u=(1, 1), m_max=(1, 1)),
                M.smooth(n_u=(2, 3), n_z=(1, 1), gap=0.5),
                M.rough(n_u=(2, 3), m_max=(1, 1), gap=0.5),
            ),
            n=st.sampled_from([2, 3]),
            t=st.lists(M.grid(0, 4, 8), min_size=4, max_size=4),
            regular=st.booleans(),
            noise=st.sampled_from([1e-3, 0.3, 25.0]),
            normalise=st.sampled_from([False, False, True]),
        )
    )


def r_dist(case):
    from vp.refs_model import reference

    s = dict(case["m"], noise=case["noise"])
    p = M.params(s)
    ref = reference(p)
    K_u = ref.K_u()
    if not well(K_u):
        return info(False, "ill-conditioned")
    t = inputs(case)
    n, R = len(t), 60
    m = M.build(s)()
    Ks, ys = [], []
    for _ in range(R):
        K, y = m.sample(t, normalise=case["normalise"])
        Ks.append(arr(K))
        ys.append(arr(y))
    # The function, given the kernel.
    r = []
    for K, y in zip(Ks, ys):
        C = (K + K.T) / 2
        w, v = np.linalg.eigh(C)
        C = (v * np.maximum(w, 0)) @ v.T + p["noise"] * np.eye(n)
        r.append(np.linalg.solve(np.linalg.cholesky(C), y))
    stats.white(np.array(r), "function given the kernel")
    # The kernel.
    if case["normalise"]:
        return info(True, s["kind"], "normalised")
    z = np.zeros(1)
    iu = np.linalg.inv(K_u)
    ux = ref.I_ux(z, z)[0, 0]
    var = float(ref.i_hx(0.0, 0.0))
    k0 = np.array([K[0, 0] for K in Ks])
    expl = float(np.sum(iu * ux))
    if len(K_u) == 1:
        if expl > 1e-6 * var:
            # `(k(0) - rest) / expl` is chi-squared with one degree of freedom.
            stats.chi2(np.sum((k0 - (var - expl)) / expl), R, "distribution of the kernel")
    else:
        # A weighted sum of chi-squareds, with mean the prior variance. Bound with the
        # moment generating function of the largest weight.
        L = np.linalg.cholesky(K_u)
        w = np.linalg.eigvalsh(L.T @ iu @ ux @ iu @ L)
        w = np.maximum(w, 0)
        x = np.sum(k0 - (var - expl))
        if expl > 1e-6 * var:
            check(x <= _upper(w, R), f"kernels are too large: {x}, bound {_upper(w, R)}")
            check(x >= _lower(w, R), f"kernels are too small: {x}, bound {_lower(w, R)}")
    return info(True, s["kind"], f"n_u{len(K_u)}", f"noise{case['noise']}")


def _upper(w, R, logp=np.log(1e-9)):
    # Chernoff: `log E exp(s X) = -R/2 sum log(1 - 2 s w)`.
    s = np.linspace(1e-4, 0.4999, 400) / np.max(w)
    m = -R / 2 * np.sum(np.log(1 - 2 * s[:, None] * w[None, :]), axis=1)
    return np.min((m - logp) / s)


def _lower(w, R, logp=np.log(1e-9)):
    s = np.geomspace(1e-4, 1e3, 400) / np.max(w)
    m = -R / 2 * np.sum(np.log(1 + 2 * s[:, None] * w[None, :]), axis=1)
    return np.max(-(m - logp) / s)


CHECK = Check(
    "C12",
    [
        Sub("one", s_one, r_one, 48, 1600, shards=4,
            rule="random models and inputs: shapes, reproducibility, symmetry, positive semi-definiteness, stationarity, "
            "normalisation, refusal on posteriors; non-trivial: at least two inputs"),
        Sub("dist", s_dist, r_dist, 32, 800, shards=4,
            rule="60 samples of a random model: functions whitened by the kernel they came with plus noise are white; kernels "
            "have the distribution of a quadratic form in u (exact chi-squared for one inducing point, Chernoff bounds "
            "otherwise); all cases non-trivial"),
    ],
    level_note="Random search; distributional claims by tests at false-alarm probability 1e-9, so only clear deviations are seen.",
)
