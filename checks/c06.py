"""C06: constructors turn window and scale into the documented prior."""
import numpy as np

from vp import construct as C
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import st
from vp.num import arr, check, close, finite


def s_prior():
    return st.fixed_dictionaries(
        dict(c=C.args(), lags=M.rel(2, 4), inst=st.sampled_from([False, False, True]))
    )


def r_prior(case):
    from scipy.special import erfc

    c = case["c"]
    kw = C.kwargs(c)
    m, _ = C.construct(c, kw)
    rough = c["kind"] == "RGPCM"
    causal = c["kind"] in ("CGPCM", "GPCM-causal")
    T = c["T"]

    # The flags are stored.
    for k in ("fix_noise", "fix_window", "fix_scale"):
        check(bool(getattr(m, k)) == bool(kw.get(k, False)), f"{k} is {getattr(m, k)}, given {kw.get(k, False)}")
    check(m.scheme == kw.get("scheme", "structured").lower(), f"scheme is {m.scheme}")
    if not rough:
        check(bool(m.causal) == causal, f"causal is {m.causal}")

    # The parameters.
    alpha = kw.get("alpha")
    if alpha is None:
        alpha = 1 / kw["window"] if rough else C.factor(kw["window"])
    window = 1 / alpha if rough else C.scale_of(alpha)
    power = 2 * alpha if rough else np.sqrt((8 if causal else 2) * alpha / np.pi)
    alpha_t = kw.get("alpha_t", np.sqrt(power))

    def par(name, want):
        close(getattr(m, name), np.array(float(want)), name, rtol=1e-9)

    par("noise", kw.get("noise", 5e-2))
    par("alpha", alpha)
    par("alpha_t", alpha_t)
    par("extent", 4 * window)
    if rough:
        par("lam", kw.get("lam", 1 / kw["scale"] if "scale" in kw else np.nan))
        t_u = arr(m.t_u)
        gamma = min(kw.get("gamma", 1 / (2 * (t_u[1] - t_u[0]))), alpha / 1.5)
        par("gamma", gamma)
        check(float(m.gamma) < float(m.alpha), "gamma must be below alpha")
        par("gamma_t", kw.get("gamma_t", np.sqrt(2 * gamma)))
    else:
        gamma = kw.get("gamma")
        if gamma is None:
            gamma = C.factor(kw["scale"]) - 0.5 * alpha
        if gamma <= 0:
            # The scale is not below the window.
            return info(False, "invalid")
        par("gamma", gamma)
        t_z = arr(m.t_z)
        omega = kw.get("omega", C.factor(0.5 * (t_z[1] - t_z[0])))
        par("omega", omega)
        par("omega_t", (2 * omega / np.pi) ** 0.25)

    # The prior.
    if case["inst"]:
        m = m()
        par("noise", kw.get("noise", 5e-2))
        par("alpha", alpha)
        par("alpha_t", alpha_t)
    var = float(finite(m.compute_i_hx(), "prior variance"))
    close(var, np.array(1.0 if "alpha_t" not in kw else kw["alpha_t"] ** 2 / power), "prior variance", rtol=1e-8)
    close(m.compute_i_hx(arr(kw["t"]), arr(kw["t"])), var * np.ones(len(kw["t"])), "prior variance over time", rtol=1e-8)
    if rough:
        length = 1 / kw.get("lam", 1 / kw["scale"] if "scale" in kw else np.nan)
    else:
        length = C.scale_of(gamma + 0.5 * alpha)
        if "gamma" not in kw:
            close(length, np.array(kw["scale"]), "length scale", rtol=1e-9)
    r = 3 * length * np.array(case["lags"])
    t0 = T * 0.37
    got = arr(m.compute_i_hx(t0 + r[:, None], t0 + 0 * r[None, :]))[:, 0] / var
    rev = arr(m.compute_i_hx(t0 + 0 * r[:, None], t0 + r[None, :]))[0, :] / var
    if rough:
        want = np.exp(-r / length)
    else:
        want = np.exp(-np.pi / 4 * (r / length) ** 2)
        if causal:
            want = want * erfc(np.sqrt(2 * alpha) * r / 2)
    close(got, want, "prior kernel", rtol=1e-7, atol=1e-10)
    close(rev, want, "prior kernel for negative lags", rtol=1e-7, atol=1e-10)

    # The inducing features.
    if rough:
        d = np.diag(arr(m.compute_K_u()))
        ref = 1.0 if "gamma_t" not in kw else kw["gamma_t"] ** 2 / (2 * gamma)
        close(d, ref * np.ones(len(d)), "variance of the filter's inducing features", rtol=1e-8)
    else:
        d = np.diag(arr(m.compute_K_z()))
        close(d, np.ones(len(d)), "variance of the excitation's inducing features", rtol=1e-8)
        t = arr(m.t_u)
        close(np.diag(arr(m.compute_K_u())), alpha_t**2 * np.exp(-2 * alpha * t**2), "filter variance", rtol=1e-8, atol=1e-300)
    over = sorted(set(kw) - {"window", "scale", "t"})
    return info(True, c["kind"], "instance" if case["inst"] else "raw",
                *(f"has {k}" for k in over if k not in ("fix_noise", "fix_window", "fix_scale")))


CHECK = Check(
    "C06",
    [
        Sub("prior", s_prior, r_prior, 480, 12000, shards=8,
            rule="random windows, ratios of window to scale, time scales and overrides of every constructor argument; stored "
            "parameters, prior variance and kernel, unit-variance features and extent against the documented formulas; "
            "non-trivial: all with a valid length scale"),
    ],
    level_note="Random search over constructor arguments against formulas derived from the documentation.",
)
