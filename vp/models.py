"""Random models: JSON-able specifications, and building the model of one."""
import numpy as np

from .lazy import B, G, st

SCHEMES = [
    "structured",
    "mean-field",
    "mean-field-ca",
    "mean-field-gradient",
    "mean-field-collapsed-gradient",
    "mean-field-ca-gradient",
    "mean-field-ca-collapsed-gradient",
]


# Time scales. Learning moves inducing points by steps which do not know of units, and the jitter
# is absolute, so checks that fit use moderate ones.
MODERATE = (0.05, 1.0, 1.0, 20.0)
UNITS = MODERATE + (1e-9, 1e9)


def grid(lo, hi, den=16):
    """Multiples of `1 / den`."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)


def sizes(lo, hi):
    """Sizes. There are only a few, because every new shape must be compiled."""
    mid = sorted({lo, (lo + hi) // 2, hi})
    return st.sampled_from(mid)


def rel(n_lo, n_hi):
    """Relative inputs: fractions of the domain."""
    return sizes(n_lo, n_hi).flatmap(
        lambda n: st.lists(grid(0, 1, 16), min_size=n, max_size=n)
    )


def points(n_lo, n_hi, lo, hi, den=16, min_gap=None):
    """Lists of points; distinct if `min_gap` is given."""
    if min_gap is None:
        return st.lists(grid(lo, hi, den), min_size=n_lo, max_size=n_hi)
    # Construct from gaps, so that nothing is rejected, then permute.
    g = max(1, int(round(min_gap * den)))
    room = int((hi - lo) * den)
    return sizes(n_lo, n_hi).flatmap(
        lambda n: st.tuples(
            st.lists(st.integers(g, max(g, 2 * room // max(n, 1) - g)), min_size=n, max_size=n),
            st.integers(0, room),
            st.permutations(list(range(n))),
        ).map(lambda x: _place(x, lo, den))
    )


def _place(x, lo, den):
    gaps, off, perm = x
    ps = lo + (np.cumsum([0] + gaps[1:]) + (off % max(gaps[0], 1))) / den
    return [float(ps[i]) for i in perm]


def smooth(n_u=(1, 5), n_z=(1, 6), kinds=("GPCM", "CGPCM"), gap=0.25, scales=UNITS, default_scale=True):
    """GPCM and CGPCM. Everything is in units of `T`."""
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(list(kinds)),
            T=st.sampled_from(list(scales)),
            alpha=grid(0.125, 2, 8),
            gamma=grid(0.125, 6, 8),
            omega=grid(0.25, 8, 4),
            alpha_t=st.sampled_from([None, 0.3, 2.0] if default_scale else [None]),
            noise=st.sampled_from([0.01, 0.1, 0.5, 2.0]),
            t_u=points(*n_u, -1.5, 2.5, 8, min_gap=gap),
            t_z=points(*n_z, -3, 5, 8, min_gap=gap),
        )
    )


def rough(n_u=(1, 5), m_max=(1, 4), perm=True, gap=0.25, scales=UNITS, default_scale=True):
    """RGPCM."""
    return st.fixed_dictionaries(
        dict(
            kind=st.just("RGPCM"),
            T=st.sampled_from(list(scales)),
            alpha=grid(0.25, 3, 8),
            lam=grid(0.25, 6, 8),
            gamma=grid(0.125, 0.65, 8),  # As a fraction of `alpha`.
            alpha_t=st.sampled_from([None, 0.3, 2.0] if default_scale else [None]),
            gamma_t=st.sampled_from([None, 0.3, 2.0] if default_scale else [None]),
            noise=st.sampled_from([0.01, 0.1, 0.5, 2.0]),
            t_u=points(*n_u, 0, 4, 8, min_gap=gap),
            m_max=sizes(*m_max),
            ms_perm=st.integers(0, 10**6) if perm else st.just(0),
            a=grid(-2, 2, 8),
            span=grid(1, 8, 8),
        )
    )


def any_model(**kw):
    return st.one_of(smooth(), rough()) if not kw else st.one_of(
        smooth(**{k: v for k, v in kw.items() if k not in ("m_max", "perm")}),
        rough(**{k: v for k, v in kw.items() if k not in ("n_z", "kinds")}),
    )


def ms_of(s):
    """Frequencies: sorted if the seed of the permutation is zero."""
    ms = list(range(2 * s["m_max"] + 1))
    if s["ms_perm"]:
        np.random.RandomState(s["ms_perm"] % 2**32).shuffle(ms)
    return ms


def params(s):
    """Parameters in absolute units, for the model and for the reference."""
    T = s["T"]
    p = dict(kind=s["kind"], noise=s["noise"])
    if s["kind"] == "RGPCM":
        p["alpha"] = s["alpha"] / T
        # `lam = alpha - gamma` is a removable singularity of the formulas of the code under
        # test (see the known findings): stay away from it by construction.
        p["lam"] = (s["lam"] + 1 / 128) / T
        p["gamma"] = s["gamma"] * p["alpha"]
        if s.get("singular"):
            p["lam"] = p["alpha"] - p["gamma"]
        p["alpha_t"] = (
            np.sqrt(2 * p["alpha"]) * (1 if s["alpha_t"] is None else s["alpha_t"])
        )
        p["gamma_t"] = (
            np.sqrt(2 * p["gamma"]) * (1 if s["gamma_t"] is None else s["gamma_t"])
        )
        p["t_u"] = np.array(s["t_u"]) * T
        p["ms"] = np.array(ms_of(s))
        p["m_max"] = s["m_max"]
        p["a"] = s["a"] * T
        p["b"] = p["a"] + (max(s["t_u"]) + s["span"]) * T
    else:
        p["causal"] = s["kind"] == "CGPCM"
        p["alpha"] = s["alpha"] / T**2
        p["gamma"] = s["gamma"] / T**2
        p["omega"] = s["omega"] / T**2
        p["alpha_t"] = ((8 if p["causal"] else 2) * p["alpha"] / np.pi) ** 0.25 * (
            1 if s["alpha_t"] is None else s["alpha_t"]
        )
        p["omega_t"] = (2 * p["omega"] / np.pi) ** 0.25
        p["t_u"] = np.array(s["t_u"]) * T
        p["t_z"] = np.array(s["t_z"]) * T
    return p


def times(s, rel):
    """Map relative inputs in `[0, 1]` to the domain of a model."""
    T = s["T"]
    rel = np.asarray(rel, dtype=float)
    if s["kind"] == "RGPCM":
        p = params(s)
        lo = p["a"] + np.max(p["t_u"]) + 1e-6 * T
        return lo + rel * (p["b"] - lo)
    return T * (-3 + 8 * rel)


def build(s, scheme="mean-field-ca", **kw):
    """Construct the model of a specification."""
    p = params(s)
    if s["kind"] == "RGPCM":
        ks = ["noise", "alpha", "lam", "gamma", "t_u", "m_max", "a", "b", "ms"]
        if s["alpha_t"] is not None:
            ks.append("alpha_t")
        if s["gamma_t"] is not None:
            ks.append("gamma_t")
        return G.RGPCM(scheme=scheme, **{k: p[k] for k in ks}, **kw)
    ks = ["noise", "alpha", "gamma", "omega", "t_u", "t_z"]
    if s["alpha_t"] is not None:
        ks.append("alpha_t")
    return getattr(G, s["kind"])(scheme=scheme, **{k: p[k] for k in ks}, **kw)


class epsilon:
    """Set the regularisation of LAB for a while."""

    def __init__(self, eps):
        self.eps = eps

    def __enter__(self):
        import lab

        self.old = lab.epsilon
        lab.epsilon = self.eps

    def __exit__(self, *args):
        import lab

        lab.epsilon = self.old
