"""C14: optimal conditionals."""
import numpy as np

from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import jnp, st
from vp.models import grid
from vp.num import arr, check, close

TOL = 1e-9


def s_cond():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            data=Y.data(),
            x=st.lists(grid(-2, 2, 8), min_size=8, max_size=8),
            probes=st.lists(st.lists(grid(-3, 3, 8), min_size=8, max_size=8), min_size=3, max_size=4),
            f=Y.factor(),
            what=st.sampled_from(["u", "z"]),
            scheme=st.sampled_from(["structured", "mean-field"]),
        )
    )


def constant(vals, mags, what):
    """Are values constant?"""
    vals = np.array(vals)
    return close(vals - vals[0], np.zeros(len(vals)), what, rtol=0, atol=TOL * np.max(mags))


def r_cond(case):
    from vp.refs_bayes import Point

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    u_given_z = case["what"] == "u"
    K, Ko = (R.K_u, R.K_z) if u_given_z else (R.K_z, R.K_u)
    prior = R.p_u if u_given_z else R.p_z
    x = Y.point(case["x"], Ko)
    qo = Y.gauss(case["f"], Ko)

    with M.epsilon(0.0):
        approx = M.build(s, case["scheme"])().approximation
        ts = approx.construct_terms(jnp.asarray(t), jnp.asarray(y))
        jx = jnp.asarray(x[:, None])
        if u_given_z:
            q = approx.q_u_optimal(ts, jx)
            qm = approx.q_u_optimal_mean_field(ts, Y.natural(qo))
            qp = approx.q_u_optimal_mean_field(ts, _delta(x, Ko))
        else:
            q = approx.q_z_optimal(ts, jx)
            qm = approx.q_z_optimal_mean_field(ts, Y.natural(qo))
            qp = approx.q_z_optimal_mean_field(ts, _delta(x, Ko))
        Z = approx.log_Z_u(ts, jx) if not u_given_z and case["scheme"] == "structured" else None
    q, qm, qp = map(Y.gauss_of, (q, qm, qp))

    worst = 0.0
    for name, g, other in [("conditional", q, Point(x)), ("mean-field optimum", qm, qo)]:
        sd = np.linalg.cholesky(g.var)
        vals, mags = [], []
        for probe in [np.zeros(len(K))] + [np.resize(v, len(K)) for v in case["probes"]]:
            # Probe on the scales of both the conditional and the prior.
            for v in (g.mean + sd @ probe, Y.point(probe, K)):
                args = (other, Point(v))[:: -1 if u_given_z else 1]
                ell, mag = R.loglik(y, *args)
                lp, lq = prior.logpdf(v), g.logpdf(v)
                vals.append(lp + np.sum(ell) - lq)
                mags.append(np.sum(mag) + abs(lp) + abs(lq))
        worst = max(worst, constant(vals, mags, f"{name} of {case['what']}: prior times likelihood over posterior"))
        if name == "conditional" and Z is not None:
            worst = max(worst, close(float(arr(Z)), vals[0], "normaliser", rtol=0, atol=TOL * np.max(mags)))
            ref, mag = R.collapsed_z(y, Point(x))
            close(float(arr(Z)), ref, "normaliser", rtol=0, atol=TOL * max(mag, np.max(mags)))
    # With a point mass, both agree.
    close(qp.prec, q.prec, "precision at a point mass", rtol=1e-5, scale=np.max(np.abs(q.prec)))
    close(qp.lam, q.lam, "natural mean at a point mass", rtol=1e-5, scale=np.max(np.abs(q.lam)), atol=1e-12)
    return info(len(K) > 1 and np.any(y != 0), s["kind"], case["what"], case["scheme"], worst=worst)


def _delta(x, K):
    """Practically a point mass: a tiny fraction of the covariance of the prior."""
    from vp.refs_bayes import Gauss

    return Y.natural(Gauss(1e12 * K @ x, 1e12 * K))


CHECK = Check(
    "C14",
    [
        Sub("cond", s_cond, r_cond, 240, 6000, shards=8,
            rule="random models, data sets (with repeated inputs), values of the other variable and probes: log of prior times "
            "expected likelihood (reference: quadrature of the model's definition) minus log-density of the optimum is the same "
            "at all probes, for the conditionals and the mean-field optima, and is the reported normaliser; non-trivial: at "
            "least two inducing variables, data not zero"),
    ],
    level_note="Random search; agreement to 1e-9 of the magnitude of the terms, covariances of condition number at most 1e6.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents."],
)
