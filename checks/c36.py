"""C36: conditioning on further observations."""
import numpy as np

from checks.c17 import scalar
from checks.c18 import pred
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close

TOL = 1e-9


def s_chain():
    step = st.fixed_dictionaries(
        dict(data=Y.data(1, 4), fu=Y.factor(), fz=Y.factor(), fit=st.sampled_from([True, False]), inst=st.booleans())
    )
    return st.fixed_dictionaries(
        dict(m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 4)), t=M.rel(2, 2), steps=st.lists(step, min_size=2, max_size=3))
    )


def r_chain(case):
    """Data sets, one after another."""
    from probmods import fit

    s = case["m"]
    t = M.times(s, case["t"])
    P = Y.terms(s, t)
    if P is None:
        return info(False, "ill-conditioned")
    with M.epsilon(0.0):
        models = [M.build(s, "mean-field-ca")]
        stored = []  # Factors which later steps must not change.
        preds = []  # Predictions of the models so far.
        p_u, p_z = P.p_u, P.p_z
        fits = 0
        for i, step in enumerate(case["steps"]):
            m = models[-1]
            td, yd = M.times(s, step["data"][0]), np.array(step["data"][1])
            D = Y.terms(s, td)
            approx = m().approximation
            # The prior of this step is the posterior of the last one.
            for name, got, want in (("u", approx.p_u, p_u), ("z", approx.p_z, p_z)):
                g = Y.gauss_of(got)
                close(g.lam, want.lam, f"prior of {name} in step {i}: natural mean", rtol=TOL, scale=np.max(np.abs(want.lam)))
                close(g.prec, want.prec, f"prior of {name} in step {i}: precision", rtol=TOL, scale=np.max(np.abs(want.prec)))
            mean, var = pred(m, t, np.asarray)
            m1, m2, mag = P.predict(p_u, p_z)
            close(mean, m1, f"predictive mean in step {i}", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
            close(var, m2 - m1**2 + P.noise, f"predictive variance in step {i}", rtol=0, atol=TOL * np.max(mag))
            preds.append((mean, var))
            # A factor, and the ELBO.
            fu, fz = Y.gauss(step["fu"], P.K_u), Y.gauss(step["fz"], P.K_z)
            approx.q_u, approx.q_z = Y.natural(fu), Y.natural(fz)
            for coll, qu, qz in ((None, fu, fz), ("u", D.q_u(yd, fz, p_u), fz), ("z", fu, D.q_z(yd, fu, p_z))):
                v = scalar(m().elbo(td, yd, collapsed=coll), "ELBO")
                ref, mag = D.elbo(yd, qu, qz, p_u, p_z)
                close(v, ref, f"ELBO in step {i}, collapsed: {coll}", rtol=0, atol=TOL * mag)
            if step["fit"]:
                fits += 1
                fit(m, td, yd)
                approx = m().approximation
                qu, qz = Y.gauss_of(approx.q_u), Y.gauss_of(approx.q_z)
                ou, oz = D.q_u(yd, qz, p_u), D.q_z(yd, qu, p_z)
                rel = [max(np.max(np.abs(a.prec - b.prec)) / np.max(np.abs(b.prec)), np.max(np.abs(a.lam - b.lam)) / (1e-3 + np.max(np.abs(b.lam))))
                       for a, b in ((qu, ou), (qz, oz))]
                check(min(rel) < 1e-8, f"step {i}: no factor is the optimum given the other one and the prior: relative errors {rel}")
                nu = D.q_u(yd, qz, p_u)
                gain = D.elbo(yd, nu, D.q_z(yd, nu, p_z), p_u, p_z)[0] - D.elbo(yd, qu, qz, p_u, p_z)[0]
                check(gain <= 1e-3 * (1 + np.sum(yd**2) / P.noise), f"step {i}: another iteration after the fit gains {gain}")
                start, mag = D.elbo(yd, fu, fz, p_u, p_z)
                end = D.elbo(yd, qu, qz, p_u, p_z)[0]
                check(end >= start - TOL * mag, f"step {i}: the ELBO went from {start} to {end} by fitting")
            else:
                qu, qz = fu, fz
            stored.append((qu, qz))
            p_u, p_z = qu, qz
            if step["inst"] and i == len(case["steps"]) - 1:
                models.append(m().condition(td, yd))
            else:
                models.append(m.condition(td, yd))
        # The last posterior.
        mean, var = pred(models[-1], t, np.asarray)
        m1, m2, mag = P.predict(p_u, p_z)
        close(mean, m1, "final predictive mean", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
        close(var, m2 - m1**2 + P.noise, "final predictive variance", rtol=0, atol=TOL * np.max(mag))
        # Earlier models predict as they did, and earlier posteriors are untouched.
        for i, (mean, var) in enumerate(preds):
            a, v = pred(models[i], t, np.asarray)
            close(a, mean, f"mean of model {i} at the end", rtol=1e-12, atol=1e-14)
            close(v, var, f"variance of model {i} at the end", rtol=1e-12)
            for name, k in (("q_u", 0), ("q_z", 1)):
                g = Y.gauss_of(getattr(models[i]().approximation, name))
                close(g.prec, stored[i][k].prec, f"{name} of step {i} at the end", rtol=1e-7, scale=np.max(np.abs(g.prec)))
                close(g.lam, stored[i][k].lam, f"{name} of step {i} at the end", rtol=1e-7, scale=np.max(np.abs(g.lam)), atol=1e-12)
    return info(True, s["kind"], f"steps{len(case['steps'])}", f"fits{fits}")


def s_none():
    return st.fixed_dictionaries(dict(m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 4)), t=M.rel(2, 2), data=Y.data(1, 4), fu=Y.factor(), fz=Y.factor(), prior=st.booleans()))


def r_none(case):
    """Observations with enormous noise."""
    from probmods import fit

    s = dict(case["m"], noise=1e12)
    t = M.times(s, case["t"])
    P = Y.terms(s, t)
    if P is None:
        return info(False, "ill-conditioned")
    td, yd = M.times(s, case["data"][0]), np.array(case["data"][1])
    with M.epsilon(0.0):
        m = M.build(s, "mean-field-ca")
        p_u, p_z = P.p_u, P.p_z
        if not case["prior"]:
            # Not from the prior, but from any posterior.
            p_u, p_z = Y.gauss(case["fu"], P.K_u), Y.gauss(case["fz"], P.K_z)
            a = m().approximation
            a.q_u, a.q_z = Y.natural(p_u), Y.natural(p_z)
            m = m.condition(td, yd)
        before = pred(m, t, np.asarray)
        fit(m, td, yd)
        elbo = scalar(m().elbo(td, yd), "ELBO")
        post = m.condition(td, yd)
        after = pred(post, t, np.asarray)
        a = post().approximation
        qu, qz = Y.gauss_of(a.p_u), Y.gauss_of(a.p_z)
    for name, q, p in (("u", qu, p_u), ("z", qz, p_z)):
        close(q.prec, p.prec, f"precision of {name}", rtol=1e-5, scale=np.max(np.abs(p.prec)))
        close(q.lam, p.lam, f"natural mean of {name}", rtol=1e-5, scale=np.max(np.abs(p.lam)), atol=1e-5 * np.sqrt(np.max(np.abs(p.prec))))
    # Fits stop at an absolute tolerance.
    close(after[0], before[0], "means", rtol=1e-4, scale=np.max(np.abs(before[0])), atol=1e-3)
    ref = -0.5 * len(td) * np.log(2 * np.pi * 1e12)
    close(elbo, ref, "ELBO of observations without information", rtol=0, atol=1e-3)
    return info(True, s["kind"], "prior" if case["prior"] else "posterior")


GRAD = ["mean-field-gradient", "mean-field-collapsed-gradient", "mean-field-ca-gradient", "structured"]


def s_later(k, shards):
    return st.fixed_dictionaries(
        dict(
            m=Y.model(n_u=(2, 2), n_z=(3, 3), m_max=(1, 1), scales=(1.0,)),
            data=Y.data(3, 3),
            more=Y.data(3, 3),
            scheme=st.sampled_from(GRAD[k::shards] or GRAD),
            fu=Y.factor(),
            fz=Y.factor(),
        )
    )


def r_later(case):
    """Fits which learn hyperparameters, after conditioning."""
    from probmods import fit

    s, scheme = case["m"], case["scheme"]
    td, yd = M.times(s, case["data"][0]), np.array(case["data"][1])
    tm, ym = M.times(s, case["more"][0]), np.array(case["more"][1])
    P = Y.terms(s, td)
    if P is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], P.K_u), Y.gauss(case["fz"], P.K_z)
    m = M.build(s, scheme)
    a = m().approximation
    a.q_u, a.q_z = Y.natural(fu), Y.natural(fz)
    if scheme == "structured":
        us = [Y.point(np.roll(case["fu"]["mean"], i), P.K_u) for i in range(3)]
        zs = [Y.point(np.roll(case["fz"]["mean"], i), P.K_z) for i in range(3)]
        a.q_u_samples, a.q_z_samples = [jnp.asarray(u[:, None]) for u in us], [jnp.asarray(z[:, None]) for z in zs]
    post = m.condition(td, yd)
    noise = float(np.asarray(post().noise))
    fit(post, tm, ym, **(dict(iters=6, optimise_hypers=3) if scheme == "structured" else dict(iters=50)))
    a, b = post().approximation, m().approximation
    moved = abs(float(np.asarray(post().noise)) / noise - 1)
    for name, g, prior, old in (("u", fu, a.p_u, b.q_u), ("z", fz, a.p_z, b.q_z)):
        for what, q in (("prior", prior), ("posterior of the first model", old)):
            q = Y.gauss_of(q)
            close(q.prec, g.prec, f"{what}: precision of {name} after the fit", rtol=1e-7, scale=np.max(np.abs(g.prec)))
            close(q.lam, g.lam, f"{what}: natural mean of {name} after the fit", rtol=1e-7, scale=np.max(np.abs(g.lam)), atol=1e-12)
    if scheme == "structured":
        for name, want, prior, old in (("u", us, a.p_u_samples, b.q_u_samples), ("z", zs, a.p_z_samples, b.q_z_samples)):
            close(arr(prior), np.stack(want, axis=1), f"samples of the prior of {name} after the fit", rtol=1e-13)
            close(arr(old), np.stack(want, axis=1), f"samples of the first model for {name} after the fit", rtol=1e-13)
        check(a.q_u_samples.shape == (len(P.K_u), 1000), f"shape of new samples of u: {a.q_u_samples.shape}")
        check(a.q_z_samples.shape == (len(P.K_z), 1000), f"shape of new samples of z: {a.q_z_samples.shape}")
    else:
        qu, qz = Y.gauss_of(a.q_u), Y.gauss_of(a.q_z)
        check(np.max(np.abs(qu.prec - fu.prec)) > 0 or np.max(np.abs(qz.prec - fz.prec)) > 0, "the fit did not do anything")
    return info(moved > 0, s["kind"], scheme)


CHECK = Check(
    "C36",
    [
        Sub("chain", s_chain, r_chain, 40, 1500, shards=6,
            rule="two to three data sets after one another, with random or fitted mean-field factors: priors, predictions, plain and "
            "collapsed ELBOs and fits against the reference with the last factors as the prior, and earlier models and "
            "posteriors unchanged at the end; all well-conditioned cases non-trivial"),
        Sub("none", s_none, r_none, 24, 800, shards=2,
            rule="observations with noise of variance 1e12, from the prior or any posterior: nothing changes; all "
            "well-conditioned cases non-trivial"),
        Sub("later", s_later, r_later, 4, 160, shards=4, shrink=False,
            rule="condition on given factors or samples and then fit, learning all hyperparameters, with every kind of fit: the "
            "prior and the posterior of the first model do not move; non-trivial: the noise moved"),
    ],
    level_note="Random search over histories; mean-field schemes only: the structured approximation has no density to serve as "
    "the prior.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents."],
)
