"""C07: layout of inducing points and features."""
import numpy as np

from vp import construct as C
from vp.core import Check, Sub, info
from vp.lazy import st
from vp.num import arr, check, close


def s_lay():
    return C.args()


def r_lay(c):
    kw = C.kwargs(c)
    m, warned = C.construct(c, kw)
    rough = c["kind"] == "RGPCM"
    causal = c["kind"] in ("CGPCM", "GPCM-causal")
    T = c["T"]
    tol = 1e-9 * T
    t = np.array(kw["t"])
    alpha = kw.get("alpha")
    if alpha is None:
        alpha = 1 / kw["window"] if rough else C.factor(kw["window"])
    n_warn = 0

    # Inducing points of the filter.
    t_u = arr(m.t_u)
    check(t_u.ndim == 1 and int(m.n_u) == len(t_u) or ("t_u" in kw and "n_u" in kw), f"n_u is {m.n_u}, but there are {t_u.shape} points")
    if "t_u" in kw:
        close(t_u, np.array(kw["t_u"]), "explicit t_u", rtol=1e-12)
        if "n_u" not in kw:
            check(int(m.n_u) == len(kw["t_u"]), "n_u for explicit t_u")
    else:
        top = np.pi / alpha if rough else 2 * C.scale_of(alpha)
        if "n_u" in kw:
            ns, capped = {kw["n_u"]}, False
        else:
            cap = kw.get("n_u_cap", 300)
            auto = C.ceils(4 * kw["window"] / kw["scale"])
            capped = {x > cap for x in auto}
            if len(capped) > 1:
                return info(False, "boundary")
            capped = capped.pop()
            ns = {min(x, cap) for x in auto}
            n_warn += capped
        if rough:
            check(len(t_u) in ns, f"{len(t_u)} inducing points for the filter, expected {ns}")
            close(t_u, np.linspace(0, top, len(t_u)), "t_u", rtol=1e-9, atol=tol)
        elif causal:
            check(len(t_u) - 2 in ns, f"{len(t_u)} inducing points for the filter, expected {ns} plus two")
            d = top / (len(t_u) - 3)
            close(t_u, np.linspace(-2 * d, top, len(t_u)), "t_u", rtol=1e-9, atol=tol)
            check(np.min(np.abs(t_u)) <= tol, "the origin must be an inducing point")
        else:
            check(len(t_u) in {x + 1 if x % 2 == 0 else x for x in ns}, f"{len(t_u)} inducing points for the filter, expected {ns} made odd")
            close(t_u, np.linspace(-top, top, len(t_u)), "t_u", rtol=1e-9, atol=tol)
            check(np.min(np.abs(t_u)) <= tol, "the origin must be an inducing point")
        if "n_u" not in kw and not capped:
            # At least two per wiggle over the range.
            # (For the rough model, the range is that of the filter down to exp(-pi).)
            spacing = np.max(np.diff(t_u))
            if not rough:
                check(spacing <= (1 if not causal else 1) * kw["scale"] * (len(t_u) / (len(t_u) - 3 if causal else len(t_u) - 1)) * (top / (2 * kw["window"])) * (1 + 1e-9),
                      f"spacing {spacing} for scale {kw['scale']}")

    # Excitation.
    if rough:
        a = kw.get("a", np.min(t) - np.max(t_u))
        b = kw.get("b", np.max(t))
        close(m.a, np.array(float(a)), "a", rtol=1e-12, atol=tol)
        close(m.b, np.array(float(b)), "b", rtol=1e-12, atol=tol)
        if "m_max" in kw:
            ms = {kw["m_max"]}
        elif "n_z" in kw:
            ms = {-(-kw["n_z"] // 2)}
        else:
            cap = kw.get("m_max_cap", 150)
            auto = C.ceils((b - a) / kw["scale"])
            over = {x > cap for x in auto}
            if len(over) > 1:
                return info(False, "boundary")
            n_warn += over.pop()
            ms = {min(x, cap) for x in auto}
        check(int(m.m_max) in ms, f"m_max is {m.m_max}, expected {ms}")
        want = np.array(kw["ms"]) if "ms" in kw else np.arange(2 * int(m.m_max) + 1)
        close(np.array(m.ms, dtype=float), want.astype(float), "ms", rtol=0)
        check(int(m.n_z) == len(want), f"n_z is {m.n_z}, expected {len(want)}")
        n_feat = len(want)
        if "n_z" in kw and "m_max" not in kw:
            check(n_feat >= kw["n_z"], "fewer features than requested")
    else:
        t_z = arr(m.t_z)
        check(int(m.n_z) == len(t_z) or ("t_z" in kw and "n_z" in kw), f"n_z is {m.n_z}, but there are {len(t_z)} points")
        if "t_z" in kw:
            close(t_z, np.array(kw["t_z"]), "explicit t_z", rtol=1e-12)
        else:
            lo, hi = np.min(t), np.max(t)
            if "n_z" in kw:
                ns = {kw["n_z"]}
            else:
                cap = kw.get("n_z_cap", 300)
                auto = C.ceils(2 * (hi - lo) / kw["scale"])
                over = {x > cap for x in auto}
                if len(over) > 1:
                    return info(False, "boundary")
                n_warn += over.pop()
                ns = {min(x, cap) for x in auto}
            oks = []
            for n in ns:
                if n < 2:
                    continue
                d = (hi - lo) / (n - 1)
                if kw.get("extend_t_z"):
                    for e in C.ceils(2 * C.scale_of(alpha) / d):
                        left = lo - e * d
                        right = hi if causal else hi + e * d
                        oks.append(np.linspace(left, right, n + e * (1 if causal else 2)))
                else:
                    oks.append(np.linspace(lo, hi, n))
            if not any(len(x) == len(t_z) and np.allclose(x, t_z, rtol=1e-9, atol=1e-8 * T) for x in oks):
                close(t_z, oks[0], "t_z", rtol=1e-9, atol=1e-8 * T)
                check(False, "t_z")
            if kw.get("extend_t_z"):
                w = 2 * C.scale_of(alpha)
                check(t_z[0] <= lo - w + 1e-8 * T, "not extended far enough to the left")
                check(causal or t_z[-1] >= hi + w - 1e-8 * T, "not extended far enough to the right")
                check(not causal or abs(t_z[-1] - hi) <= 1e-8 * T, "extended to the right")
            else:
                check(t_z[0] <= lo + tol and t_z[-1] >= hi - tol, "the data is not covered")
    n_caps = sum("capped" in w for w in warned)
    check(n_caps == n_warn, f"{n_caps} warnings about caps, expected {n_warn}: {warned}")
    return info(
        True, c["kind"], f"capped{n_warn}", *(f"has {k}" for k in ("t_u", "t_z", "n_u", "n_z", "ms", "m_max", "extend_t_z") if k in kw)
    )


CHECK = Check(
    "C07",
    [
        Sub("lay", s_lay, r_lay, 900, 20000, shards=6,
            rule="random constructor arguments (as C06); inducing points, supports and frequencies against the documented "
            "placement, number of cap warnings; non-trivial: all not on a rounding boundary of a cap"),
    ],
    level_note="Random search over constructor arguments against the documented placement rules; counts at rounding boundaries may go either way.",
    assumptions=["An even number of requested points is made odd for the acausal model; two points are added for the causal model; these are documented in code comments."],
)
