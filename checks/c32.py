"""C32: predictions of the kernel, the spectrum, the filter and the features."""
import itertools

import numpy as np

from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close


def post(case, us, zs, fu, fz):
    """A conditioned model with a given stored posterior, which is surrounded by decoys."""
    s = case["m"]
    td, yd = jnp.asarray(M.times(s, case["data"][0])), jnp.asarray(np.array(case["data"][1]))
    structured = case["scheme"] == "structured"
    m = M.build(s, case["scheme"])

    def store(x, us, zs, fu, fz):
        a = x().approximation
        if fu is not None:
            a.q_u, a.q_z = Y.natural(fu), Y.natural(fz)
        if structured:
            a.q_u_samples = [jnp.asarray(u[:, None]) for u in us]
            a.q_z_samples = [jnp.asarray(z[:, None]) for z in zs]

    decoy = ([u[::-1] - 1 for u in us] + [us[0] * 0], [z[::-1] + 2 for z in zs] + [zs[0] * 0],
             None if fu is None else type(fu)(fu.lam * 0 + 1, fu.prec * 2), None if fz is None else type(fz)(fz.lam * 0 - 1, fz.prec * 2))
    if case["levels"] == 2:
        store(m, *decoy)
        m = m.condition(td, yd)
    store(m, us, zs, fu, fz)
    m = m.condition(td, yd)
    if case["later"]:
        # The next posterior, which is unfitted, does not matter.
        store(m, *decoy)
    return m() if case["inst"] else m


def common(**kw):
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 4), n_z=(1, 4)),
            data=Y.data(1, 1),
            levels=st.sampled_from([1, 1, 2]),
            later=st.booleans(),
            inst=st.booleans(),
            us=st.lists(st.lists(grid(-2, 2, 8), min_size=8, max_size=8), min_size=3, max_size=5),
            fu=Y.factor(),
            fz=Y.factor(),
            seed=st.integers(0, 10**6),
            lib=st.sampled_from(["numpy", "jax"]),
            **kw,
        )
    )


class Ref:
    """Kernel of a point of the filter."""

    def __init__(self, s, t):
        from vp.refs_model import reference

        self.p = p = M.params(s)
        r = reference(p)
        self.r = r
        self.K_u, self.K_z = r.K_u(), r.K_z()
        z = np.zeros(1)
        self.ok = all(np.all(np.isfinite(K)) and np.linalg.cond(K) <= 1e4 for K in (self.K_u, self.K_z))
        if self.ok and t is not None:
            iK = np.linalg.inv(self.K_u)
            self.ux = r.I_ux(t, z)[:, 0]
            self.ux = (self.ux + np.swapaxes(self.ux, 1, 2)) / 2
            self.base = r.i_hx(t, 0.0) - np.einsum("iab,ab->i", self.ux, iK)

    def k(self, u):
        return self.base + np.einsum("iab,a,b->i", self.ux, u, u)

    def point(self, x):
        return Y.point(x, self.K_u)


def samples_of(case, R):
    us = [R.point(u) for u in case["us"]]
    zs = [Y.point(np.roll(u, 3), R.K_z) for u in case["us"]]
    return us, zs


def assign(rows, cands, tol, what):
    """Every row is a different candidate."""
    used = []
    for i, r in enumerate(rows):
        d = [np.max(np.abs(r - c)) if j not in used else np.inf for j, c in enumerate(cands)]
        check(np.min(d) <= tol, f"{what} {i}, {r}, is not that of a stored sample; the closest one differs by {np.min(d):.3g}")
        used.append(int(np.argmin(d)))
    return max([np.max(np.abs(r - cands[j])) / tol for r, j in zip(rows, used)] + [0.0])


def lib_of(case):
    return np.asarray if case["lib"] == "numpy" else jnp.asarray


def summary(p, x, rows, tol, what):
    """Named statistics against samples."""
    from checks.c28 import Q, quantile

    close(p.x, x, f"{what}: inputs", rtol=1e-12, scale=np.max(np.abs(x)))
    close(p.mean, np.mean(rows, axis=0), f"{what}: mean", rtol=0, atol=tol)
    scale = np.max(np.abs(rows))
    close(p.var, np.var(rows, axis=0), f"{what}: variance", rtol=1e-6, atol=2 * tol * scale + tol**2)
    for n, q in Q.items():
        close(getattr(p, n + "_lower"), quantile(rows, q), f"{what}: {n}_lower", rtol=0, atol=tol)
        close(getattr(p, n + "_upper"), quantile(rows, 1 - q), f"{what}: {n}_upper", rtol=0, atol=tol)
    check(arr(p.all_samples).shape == (len(x), len(rows)), f"{what}: all samples have shape {arr(p.all_samples).shape}")


# Kernel and spectrum.


def s_k():
    return common(scheme=st.sampled_from(["structured", "structured", "mean-field-ca"]), t=M.rel(2, 4), num=st.sampled_from([1, 2, 1000]), what=st.sampled_from(["samples", "kernel", "psd"]))


def psd(t, k, freqs):
    """Spectrum of a kernel: symmetrised and zero padded until frequencies `freqs`."""
    dt = t[1] - t[0]
    L = int(round(1 / (freqs[1] * dt)))
    h = L // 2 + 1
    kk = np.concatenate([k, np.zeros(h - len(k))])
    # Cosine transform, directly.
    f = np.arange(L) / (L * dt)
    x = np.abs(k[0] + 2 * np.cos(2 * np.pi * f[:, None] * t[None, 1:]) @ kk[1 : len(t)])
    x = x / (np.sum(x) * f[1]) * k[0]
    return x[: len(freqs)]


def r_k(case):
    s = case["m"]
    T = s["T"]
    if case["what"] == "psd":
        t = np.linspace(0, 2 * T, 5)
    else:
        t = 4 * T * np.array(case["t"])
    R = Ref(s, t)
    if not R.ok:
        return info(False, "ill-conditioned")
    lib = lib_of(case)
    us, zs = samples_of(case, R)
    structured = case["scheme"] == "structured"
    num = case["num"]
    if structured:
        fu = fz = None
        want = np.array([R.k(u) for u in us])
        n = min(num, len(us))
    else:
        # A posterior which is almost certain.
        us = us[:1]
        fu = Y.Gauss_(R.K_u * 1e14, us[0])
        fz = Y.gauss(case["fz"], R.K_z)
        want = np.repeat(R.k(us[0])[None], min(num, 3), axis=0)
        n = num = min(num, 3)
    size = np.max(R.r.i_hx(0.0, 0.0)) * (1 + max(np.sum(np.resize(u, 4) ** 2) for u in case["us"]))
    tol = (1e-8 if structured else 1e-5) * size
    with M.epsilon(0.0):
        m = post(case, us, zs, fu, fz)
        B.set_random_seed(case["seed"])
        if case["what"] == "samples":
            x, ks = m.sample_kernel(t_k=lib(t), num_samples=num)
            close(x, t, "inputs of kernel samples", rtol=0)
            ks = arr(ks)
            check(ks.shape == (n, len(t)), f"shape of kernel samples: {ks.shape}, expected {(n, len(t))}")
            w = assign(ks, want, tol, "kernel sample")
        elif case["what"] == "kernel":
            p = m.predict_kernel(t_k=lib(t), num_samples=num)
            rows = arr(p.all_samples).T
            check(rows.shape == (n, len(t)), f"shape of all kernel samples: {rows.shape}, expected {(n, len(t))}")
            w = assign(rows, want, tol, "kernel sample")
            summary(p, t, rows, 1e-9 * size, "kernel prediction")
        else:
            # Spectra of kernels with a power that is not negligible.
            if np.min(np.abs(want[:, 0])) < 1e-3 * size:
                return info(False, "no power")
            p = m.predict_psd(t_k=lib(t), num_samples=num)
            f = arr(p.x)
            check(f[0] == 0 and np.allclose(np.diff(f), f[1]), f"frequencies are {f}")
            check(abs(f[-1] * (t[1] - t[0]) - 0.5) <= 1e-2, f"largest frequency is {f[-1]} for spacing {t[1] - t[0]}")
            from gpcm.util import estimate_psd

            close(f, arr(estimate_psd(t, want[0])[0]), "frequencies, compared to those of estimate_psd", rtol=1e-12)
            P = np.array([psd(t, k, f) for k in want])
            rows = 10 ** (arr(p.all_samples).T / 10)
            check(rows.shape == (n, len(f)), f"shape of all spectra: {rows.shape}, expected {(n, len(f))}")
            # Normalisation amplifies errors.
            amp = np.max(np.abs(P)) * size / np.min(np.abs(want[:, 0]))
            w = assign(rows, P, 1e3 * tol / size * amp, "spectrum")
            close(10 ** (arr(p.mean) / 10), np.mean(rows, axis=0), "mean spectrum", rtol=1e-7, atol=1e-12 * np.max(rows))
            for c in ("68", "95", "99"):
                lo, hi = arr(getattr(p, f"err_{c}_lower")), arr(getattr(p, f"err_{c}_upper"))
                check(np.all(lo <= hi + 1e-9), f"quantiles of the spectrum are not ordered at {c}%")
    return info(np.any(us[0] != 0), s["kind"], case["scheme"], case["what"], f"levels{case['levels']}", worst=w)


# Mean-field kernel samples have the right distribution.


def s_dist():
    return common(scheme=st.just("mean-field-ca"), t=M.rel(2, 2), what=st.sampled_from(["kernel", "kernel", "prior"]))


def r_dist(case):
    from vp.stats import normal

    s = case["m"]
    t = 4 * s["T"] * np.array(case["t"])
    R = Ref(s, t)
    if not R.ok:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    us, zs = samples_of(case, R)
    scheme = "mean-field-ca"
    with M.epsilon(0.0):
        if case["what"] == "prior":
            scheme = ["structured", "mean-field-ca"][case["seed"] % 2]
            fu = Y.gauss(dict(mean=[0], d=[16], l=[0], scale=1.0), R.K_u)
            m = M.build(s, scheme)
        else:
            m = post(case, us, zs, fu, fz)
        B.set_random_seed(case["seed"])
        N = 2000
        _, ks = m.sample_kernel(t_k=lib_of(case)(t), num_samples=N)
        ks = arr(ks)
    check(ks.shape == (N, len(t)), f"shape of kernel samples: {ks.shape}")
    check(np.all(np.isfinite(ks)), "kernel samples are not finite")
    # Moments of the quadratic form.
    mean = R.base + np.einsum("iab,ab->i", R.ux, fu.m2)
    AS = R.ux @ fu.var
    c2 = 2 * np.einsum("iab,iba->i", AS, AS) + 4 * np.einsum("a,iab,b->i", fu.mean, AS @ R.ux, fu.mean)
    # The reference sampler gives the error of the empirical moments.
    rng = np.random.RandomState(case["seed"])
    us = fu.sample(rng, 20000).T
    ref = R.base + np.einsum("iab,na,nb->ni", R.ux, us, us)
    size = np.max(np.abs(ref))
    sd = np.sqrt(c2) + 1e-6 * size
    normal((np.mean(ks, axis=0) - mean) / (sd / np.sqrt(N)), "mean of kernel samples", 1e-9)
    # Compare distributions, by their ranks.
    from scipy.stats import ks_2samp

    for i in range(len(t)):
        if np.sqrt(c2[i]) > 1e-4 * size:
            r = ks_2samp(ks[:, i], ref[:, i], method="asymp")
            check(r.pvalue > 1e-10, f"distribution of kernel samples at {t[i]}: statistic {r.statistic}")
    return info(np.any(np.sqrt(c2) > 1e-4 * size), s["kind"], case["what"] + ("-" + scheme if case["what"] == "prior" else ""))


# Features.


def s_z():
    return common(scheme=st.sampled_from(M.SCHEMES + ["structured"] * 4), num=st.sampled_from([1, 2, 1000]))


def r_z(case):
    s = case["m"]
    R = Ref(s, None)
    if not R.ok:
        return info(False, "ill-conditioned")
    us, zs = samples_of(case, R)
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    structured = case["scheme"] == "structured"
    with M.epsilon(0.0):
        m = post(case, us, zs, *((None, None) if structured else (fu, fz)))
        mean, var = m.predict_fourier(num_samples=case["num"])
    mean, var = arr(mean), arr(var)
    n = len(R.K_z)
    check(mean.shape == var.shape == (n,), f"shapes of feature predictions: {mean.shape} and {var.shape}, expected {(n,)}")
    if structured:
        k = min(case["num"], len(zs))
        Z = np.array(zs)
        scale = np.max(np.abs(Z)) + 1e-12
        tol = 1e-9
        best = np.inf
        for c in itertools.combinations(range(len(zs)), k):
            S = Z[list(c)]
            e = max(np.max(np.abs(mean - S.mean(axis=0))) / scale, np.max(np.abs(var - S.var(axis=0))) / scale**2)
            best = min(best, e)
        check(best <= tol, f"features are not the moments of {k} stored samples: {mean}, {var}")
        w = best / tol
    else:
        w = close(mean, fz.mean, "mean of the features", rtol=1e-8, scale=np.max(np.abs(fz.mean)) + np.sqrt(np.max(np.diag(fz.var))))
        w = max(w, close(var, np.diag(fz.var), "variance of the features", rtol=1e-8, scale=np.max(np.diag(fz.var))))
    return info(not structured or np.any(np.std(zs, axis=0) > 0), s["kind"], case["scheme"], f"levels{case['levels']}", worst=w)


# Filters.


def s_f():
    return common(
        scheme=st.sampled_from(["structured", "structured", "structured", "mean-field-ca"]),
        what=st.sampled_from(["through", "through", "min-phase", "between", "between"]),
        t=st.lists(grid(-1, 2, 8), min_size=2, max_size=2, unique=True),
        num=st.sampled_from([1, 3, 1000]),
    )


def k_h(p, kind):
    if kind == "RGPCM":
        return lambda a, b: np.exp(-p["lam"] * np.abs(a - b) - p["alpha"] * (np.abs(a) + np.abs(b))) * (a >= 0) * (b >= 0)
    on = (lambda a: a >= 0) if kind == "CGPCM" else (lambda a: a == a)
    return lambda a, b: p["alpha_t"] ** 2 * np.exp(-p["alpha"] * (a**2 + b**2) - p["gamma"] * (a - b) ** 2) * on(a) * on(b)


def r_f(case):
    from vp.stats import white

    s = dict(case["m"])
    kind, T = s["kind"], s["T"]
    if kind != "GPCM":
        # Inducing points within the support of the filter.
        s["t_u"] = [float(x) for x in np.array(s["t_u"]) - min(s["t_u"]) + (0.0 if case["seed"] % 2 else 0.125)]
        case = dict(case, m=s)
    R = Ref(s, None)
    p = R.p
    tu = p["t_u"]
    k = k_h(p, kind)
    K = k(tu[:, None], tu[None, :])
    var = np.max(np.diag(K))
    if not R.ok or not np.linalg.cond(K) <= 1e4 or not np.min(np.diag(K)) > 1e-6 * var or not 1e-6 < var < 1e6:
        return info(False, "ill-conditioned")
    us, zs = samples_of(case, R)
    structured = case["scheme"] == "structured"
    fu = fz = None
    if not structured:
        us = us[:1]
        fu, fz = Y.Gauss_(R.K_u * 1e14, us[0]), Y.gauss(case["fz"], R.K_z)
    hs = [R.K_u @ u for u in us]
    size = max(np.max(np.abs(h)) for h in hs) + np.sqrt(var)
    what = case["what"]
    rest = np.array([-0.3, -0.01, 0.7]) * T
    if what == "between":
        # The same sample, repeatedly.
        N = 120
        us, zs, hs = us[:1] * N, zs[:1] * N, hs[:1]
        th = np.array(case["t"]) * T
        num = N
    elif what == "through":
        th = np.concatenate([tu, rest])
        num = case["num"] if structured else min(case["num"], 3)
    else:
        th = np.sort(tu)
        num = case["num"] if structured else min(case["num"], 3)
    n = min(num, len(us)) if structured else num
    m = post(case, us, zs, fu, fz)
    B.set_random_seed(case["seed"])
    r = m.predict_filter(t_h=lib_of(case)(th), num_samples=num, min_phase=what == "min-phase")
    rows = arr(r.all_samples).T
    check(rows.shape == (n, len(th)), f"shape of filter samples: {rows.shape}, expected {(n, len(th))}")
    check(np.all(np.isfinite(rows)), "filter samples are not finite")
    summary(r, th - th[0] if what == "min-phase" else th, rows, 1e-10 * size, "filter prediction")
    # The regularisation, which is amplified by inverting the kernel.
    tol = 1e-3 * size + 1e-4 * np.sqrt(1 + np.linalg.cond(K))
    w = 0.0
    want = hs if structured and what != "between" else hs[:1] * n
    if what == "through":
        w = assign(rows[:, : len(tu)], want, tol, "filter at the inducing points")
    elif what == "min-phase":
        perm = np.argsort(tu)
        check(arr(r.x)[0] == 0, f"minimum-phase filters start at {arr(r.x)[0]}")
        # The transform preserves magnitudes of the spectrum.
        mags = [np.abs(np.fft.fft(h[perm])) for h in want]
        if min(np.min(x) for x in mags) > 0.05 * size:
            w = assign(np.abs(np.fft.fft(rows, axis=1)), mags, 2 * len(tu) * tol, "magnitudes of the minimum-phase filter")
    if kind != "GPCM" and what != "min-phase":
        check(np.all(np.abs(rows[:, th < 0]) <= 1e-5), f"filters before time zero: {rows[:, th < 0]}")
    if what == "between" and kind != "RGPCM":
        # Distribution of the filter given its values at the inducing points.
        on = th >= 0 if kind == "CGPCM" else th == th
        x = th[on]
        if len(x) > 0:
            kx = k(x[:, None], tu[None, :])
            A = kx @ np.linalg.inv(K)
            S = k(x[:, None], x[None, :]) - A @ kx.T
            if np.linalg.eigvalsh(S)[0] > 1e-6:
                white(np.linalg.solve(np.linalg.cholesky(S), (rows[:, on] - A @ hs[0]).T).T, "filter given its inducing points")
                return info(True, kind, case["scheme"], "between")
        return info(False, kind, "certain")
    return info(np.any(hs[0] != 0), kind, case["scheme"], what, worst=w)


CHECK = Check(
    "C32",
    [
        Sub("kernel", s_k, r_k, 40, 3000, shards=8,
            rule="random models with stored samples (structured) or an almost certain factor (mean-field), conditioned once or "
            "twice, next to decoy posteriors: kernel samples, kernel summaries and spectra against quadrature of the definition; "
            "non-trivial: the filter is not zero"),
        Sub("dist", s_dist, r_dist, 12, 800, shards=4,
            rule="random mean-field factors, and priors: mean and distribution of 2000 kernel samples; non-trivial: kernels vary"),
        Sub("features", s_z, r_z, 24, 2000, shards=4,
            rule="random stored samples or factors: moments of the features; non-trivial: samples differ"),
        Sub("filter", s_f, r_f, 48, 3000, shards=8,
            rule="random stored samples or factors: filters at inducing points, distribution in between, zero before time zero if "
            "causal, minimum-phase variants preserve the magnitude of the spectrum; non-trivial: the filter is not zero"),
    ],
    level_note="Random search; distributional parts have a false-alarm probability below 1e-8 per case.",
    assumptions=["Inducing points of causal filters are at non-negative times (predict_filter ignores the others).",
                 "The variance of spectra, which are in decibels, is not specified.",
                 "For the RGPCM, the filter prediction between inducing points is not specified."],
)
