"""Random constructor arguments and what the documentation says they give."""
import warnings

import numpy as np

from .lazy import G, jnp, st
from .models import SCHEMES, grid


def opt(s, p=2):
    """Mostly `None`."""
    return st.one_of(*([st.none()] * p), s)


KINDS = ["GPCM", "CGPCM", "RGPCM", "GPCM-causal"]


def args(kinds=KINDS):
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(list(kinds)),
            T=st.sampled_from([0.01, 1.0, 1.0, 30.0]),
            window=grid(0.5, 4, 8),
            ratio=st.sampled_from([1.0625, 1.25, 1.5, 2.0, 3.0, 3.7, 5.0, 8.0, 13.3, 90.0]),
            t=st.one_of(
                st.lists(grid(-4, 4, 8), min_size=2, max_size=8).filter(lambda x: max(x) - min(x) >= 1),
                st.tuples(grid(-3, 3, 8), grid(1, 8, 8)).map(lambda x: [x[0], x[0] + x[1]]),
            ),
            t_type=st.sampled_from(["numpy", "list", "jax"]),
            noise=opt(st.sampled_from([0.001, 0.05, 1.0, 3]), 1),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            scheme=opt(st.sampled_from(SCHEMES), 1),
            case=st.sampled_from(["lower", "upper", "title"]),
            alpha=opt(grid(0.25, 4, 8), 4),
            alpha_t=opt(st.sampled_from([0.1, 1.0, 3.0]), 3),
            gamma=opt(grid(0.25, 4, 8), 4),
            gamma_t=opt(st.sampled_from([0.1, 1.0, 3.0]), 4),
            omega=opt(grid(0.25, 4, 8), 4),
            lam=opt(grid(0.25, 4, 8), 4),
            n_u=opt(st.integers(2, 12), 2),
            n_u_cap=opt(st.integers(3, 40), 2),
            t_u=opt(st.lists(st.integers(1, 8), min_size=1, max_size=4), 4),
            t_u0=grid(-2, 2, 8),
            n_z=opt(st.integers(2, 12), 2),
            n_z_cap=opt(st.integers(3, 40), 2),
            t_z=opt(st.lists(st.integers(1, 8), min_size=1, max_size=5), 4),
            m_max=opt(st.integers(1, 9), 4),
            m_max_cap=opt(st.integers(2, 30), 2),
            a=opt(grid(0, 2, 8), 4),
            b=opt(grid(0, 2, 8), 4),
            ms=opt(st.integers(0, 1000), 4),
            extend=opt(st.booleans(), 1),
            drop=st.booleans(),
        )
    )


def kwargs(c):
    """Arguments for the constructor, in a dictionary of plain values."""
    T = c["T"]
    rough = c["kind"] == "RGPCM"
    # The data should span at least a length scale, for there to be two inducing points.
    t = list(c["t"])
    if max(t) - min(t) < c["window"] / c["ratio"]:
        t.append(min(t) + 1.5 * c["window"] / c["ratio"])
    kw = dict(
        window=c["window"] * T,
        scale=c["window"] * T / c["ratio"],
        t=[x * T for x in t],
        noise=c["noise"],
        fix_noise=c["flags"][0] or None,
        fix_window=c["flags"][1] or None,
        fix_scale=c["flags"][2] or None,
        alpha_t=c["alpha_t"],
        n_u=c["n_u"],
        n_u_cap=c["n_u_cap"],
        n_z=c["n_z"],
        extend_t_z=c["extend"],
    )
    if c["scheme"] is not None:
        s = c["scheme"]
        kw["scheme"] = {"lower": s, "upper": s.upper(), "title": s.title()}[c["case"]]
    p = T if rough else T**2
    for k in ("alpha", "gamma") + (("lam",) if rough else ("omega",)):
        if c[k] is not None:
            kw[k] = c[k] / p
    if c["t_u"] is not None:
        lo = 0.0 if rough else c["t_u0"]
        kw["t_u"] = [(lo + x / 8) * T for x in np.cumsum([0] + c["t_u"])]
    if rough:
        kw["gamma_t"] = c["gamma_t"]
        kw["m_max"] = c["m_max"]
        kw["m_max_cap"] = c["m_max_cap"]
        if c["a"] is not None:
            kw["a"] = (min(t) - 3 - c["a"]) * T
        if c["b"] is not None:
            kw["b"] = (max(t) + c["b"]) * T
        if c["ms"] is not None and c["m_max"] is not None:
            kw["ms"] = [int(x) for x in np.random.RandomState(c["ms"]).permutation(2 * c["m_max"] + 1)]
    else:
        kw["n_z_cap"] = c["n_z_cap"]
        if c["t_z"] is not None and not c["extend"]:
            lo = min(t)
            kw["t_z"] = [(lo + x / 8) * T for x in np.cumsum([0] + c["t_z"])]
        if c["kind"] == "GPCM-causal":
            kw["causal"] = True
        # The window and the scale are alternatives.
    if c["drop"]:
        has_u = kw.get("t_u") is not None or kw.get("n_u") is not None
        if kw.get("alpha") is not None and has_u:
            del kw["window"]
        if rough:
            has_z = kw.get("n_z") is not None or kw.get("m_max") is not None
            if kw.get("lam") is not None and has_u and has_z:
                del kw["scale"]
        else:
            has_z = kw.get("n_z") is not None or kw.get("t_z") is not None
            if kw.get("gamma") is not None and has_u and has_z:
                del kw["scale"]
    return {k: v for k, v in kw.items() if v is not None}


def construct(c, kw):
    """Construct. Returns the model and the messages of warnings."""
    kw = dict(kw)
    conv = {"numpy": np.array, "list": list, "jax": jnp.array}[c["t_type"]]
    kw["t"] = conv(kw["t"])
    for k in ("t_u", "t_z", "ms"):
        if k in kw:
            kw[k] = np.array(kw[k])
    cls = getattr(G, c["kind"].split("-")[0])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m = cls(**kw)
    return m, [str(w.message) for w in ws if issubclass(w.category, UserWarning)]


def ceils(x):
    """Acceptable values of `ceil(x)`, allowing for rounding errors."""
    return {int(np.ceil(x * (1 - 1e-9))), int(np.ceil(x * (1 + 1e-9)))}


def factor(scale):
    return np.pi / (4 * scale**2)


def scale_of(f):
    return np.sqrt(np.pi / (4 * f))
