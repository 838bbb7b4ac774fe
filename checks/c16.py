"""C16: ELBOs are lower bounds."""
import numpy as np

from checks.c17 import scalar, setup
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close


def s_ev():
    return st.fixed_dictionaries(
        dict(
            m=st.one_of(
                tight(),
                tight(),
                # Dense inducing points, so that bounds are tight.
                M.smooth(n_u=(3, 7), n_z=(4, 10), gap=0.5, scales=(1.0, 1.0, 20.0)),
                M.rough(n_u=(3, 7), m_max=(2, 4), gap=0.5, scales=(1.0, 1.0, 20.0)),
            ),
            noise=st.sampled_from([0.1, 0.5, 0.5, 2.0]),
            t=st.lists(st.integers(0, 8), min_size=1, max_size=2),
            y=st.lists(grid(-2, 2, 8), min_size=2, max_size=2),
            repeat=st.sampled_from([1, 1, 10, 30]),
            fu=Y.factor(),
            fz=Y.factor(),
            seed=st.integers(0, 1000),
        )
    )


def tight():
    """Models with inducing points that are dense with respect to all scales."""

    def smooth(x):
        kind, alpha, gamma, omega, T, tz = x
        lo = -1.0 if kind == "CGPCM" else -2.0
        return dict(kind=kind, T=T, alpha=alpha, gamma=gamma, omega=omega, alpha_t=None, noise=0.1,
                    t_u=list(np.arange(lo, 2.1, 0.5)), t_z=list(np.arange(-3.0 + tz, 4.1, 0.5)))

    def rough(x):
        alpha, lam, gamma, T, a = x
        return dict(kind="RGPCM", T=T, alpha=alpha, lam=lam, gamma=gamma, alpha_t=None, gamma_t=None, noise=0.1,
                    t_u=list(np.arange(0, 2.1, 0.25)), m_max=12, ms_perm=0, a=a, span=3.0)

    g = lambda lo, hi: grid(lo, hi, 8)  # noqa
    T = st.sampled_from([1.0, 20.0])
    return st.one_of(
        st.tuples(st.sampled_from(["GPCM", "CGPCM"]), g(0.75, 1.5), g(0.5, 1.5), g(1, 2.5), T, st.just(0.0)).map(smooth),
        st.tuples(g(1, 2.5), g(0.25, 1), g(0.125, 0.5), T, g(-1, 1)).map(rough),
    )


def inputs(s, ks):
    """Times which are multiples of `T / 8` apart."""
    T = s["T"]
    if s["kind"] == "RGPCM":
        p = M.params(s)
        lo, n = p["a"] + np.max(p["t_u"]), int((p["b"] - p["a"] - np.max(p["t_u"])) / T * 8)
        return lo + np.array([k % (n + 1) for k in ks]) * T / 8
    return T * (0.5 + np.array(ks) / 8)


def r_ev(case):
    from vp.refs_bayes import Point
    from vp.refs_evidence import evidence

    s = dict(case["m"], noise=case["noise"])
    p = M.params(s)
    t, y = inputs(s, case["t"]), np.array(case["y"][: len(case["t"])])
    # Equal observations are worth their mean with less noise, up to a constant.
    r, n, noise = case["repeat"], len(t), p["noise"]
    rest = -0.5 * n * (r * np.log(2 * np.pi * noise) - np.log(2 * np.pi * noise / r))
    t1, y1 = t, y
    t, y = np.repeat(t, r), np.repeat(y, r)
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    rng = np.random.RandomState(case["seed"])
    ub, est = evidence(dict(p, noise=noise / r, grid=s["T"] / 8), t1, y1, 20000, rng)
    ub, est = ub + rest, est + rest
    # Discretisation of the reference.
    slack = 0.02 * n
    with M.epsilon(0.0):
        inst = setup(s, "mean-field-ca", fu, fz, R)
        vals = dict(random=scalar(inst.elbo(t, y), "ELBO"), z=scalar(inst.elbo(t, y, collapsed="z"), "ELBO"),
                    u=scalar(inst.elbo(t, y, collapsed="u"), "ELBO"))
        # Climb, with the reference.
        qz = fz
        for _ in range(60):
            qu = R.q_u(y, qz)
            qz = R.q_z(y, qu)
        inst.approximation.q_u, inst.approximation.q_z = Y.natural(qu), Y.natural(qz)
        vals["optimum"] = scalar(inst.elbo(t, y), "ELBO")
        sinst = setup(s, "structured", qu, qz, R)
        state = B.create_random_state(jnp.float64, seed=0)
        _, v = sinst.approximation.elbo_collapsed_z(state, jnp.asarray(t), jnp.asarray(y), num_samples=4000)
        v = scalar(v, "ELBO")
        x = np.array([R.collapsed_z(y, Point(u))[0] for u in qu.sample(rng, 500).T])
        se = np.std(x) / np.sqrt(4000)
        vals["structured"] = v - 8 * se
    for name, x in vals.items():
        check(np.isfinite(x), f"{name} ELBO is {x}")
        check(x <= ub + slack, f"{name} ELBO {x} exceeds the log-evidence {est} (upper bound {ub})")
    tol = 1e-8 * (R.elbo(y, fu, fz)[1] + R.elbo(y, qu, qz)[1])
    check(vals["random"] <= vals["z"] + tol, f"collapsing over z lowers the ELBO from {vals['random']} to {vals['z']}")
    check(vals["random"] <= vals["u"] + tol, f"collapsing over u lowers the ELBO from {vals['random']} to {vals['u']}")
    check(vals["optimum"] <= v + 8 * se + tol, f"structured ELBO {v} (error {se}) is below the mean-field ELBO {vals['optimum']}")
    gap = est - max(vals.values())
    return info(gap < 1, s["kind"], f"n{n}", f"repeat{r}", f"gap<{2.0 ** np.ceil(np.log2(max(gap, 1e-2))):g}", neg_gap=-gap)


CHECK = Check(
    "C16",
    [
        Sub("ev", s_ev, r_ev, 72, 2000, shards=8,
            rule="random models with dense inducing points, one or two observations: random, collapsed, optimal and structured "
            "ELBOs against an upper confidence bound for the log-evidence by Monte Carlo over the definition of the model, and "
            "the order of the bounds; non-trivial: the best ELBO is within one nat of the evidence"),
    ],
    level_note="Random search; the evidence is known up to Monte Carlo error (bound of probability 1e-9), and 0.02 nats of "
    "discretisation per observation, so only errors above the slackness of the bounds are seen.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents."],
)
