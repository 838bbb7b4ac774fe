"""C15: mean-field coordinate ascent."""
import numpy as np

from checks.c17 import scalar, setup
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close

TOL = 1e-9


def s_opt():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            data=Y.data(),
            fu=Y.factor(),
            fz=Y.factor(),
            which=st.sampled_from(["u", "z"]),
            pert=st.lists(
                st.fixed_dictionaries(
                    dict(
                        f=Y.factor(),
                        eps=st.sampled_from([1e-3, 0.03, 0.5]),
                        how=st.sampled_from(["mean", "var", "both"]),
                    )
                ),
                min_size=1,
                max_size=3,
            ),
        )
    )


def r_opt(case):
    from vp.refs_bayes import Gauss

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    jt, jy = jnp.asarray(t), jnp.asarray(y)
    w = case["which"]
    with M.epsilon(0.0):
        inst = setup(s, "mean-field-ca", fu, fz, R)
        ts = inst.approximation.construct_terms(jt, jy)

        def elbo(**kw):
            return scalar(inst.elbo(t, y, **kw), "ELBO")

        def put(g):
            setattr(inst.approximation, f"q_{w}", Y.natural(g))

        before = elbo()
        coll = elbo(collapsed=w)
        if w == "u":
            opt = inst.approximation.q_u_optimal_mean_field(ts, Y.natural(fz))
        else:
            opt = inst.approximation.q_z_optimal_mean_field(ts, Y.natural(fu))
        opt = Y.gauss_of(opt)
        put(opt)
        after = elbo()
        mag = R.elbo(y, fu, fz)[1] + (R.elbo(y, opt, fz) if w == "u" else R.elbo(y, fu, opt))[1]
        tol = TOL * mag
        check(after >= before - tol, f"ELBO went from {before} to {after} by optimising {w}")
        close(coll, after, f"ELBO collapsed over {w}, against that at the optimum", rtol=0, atol=tol)
        close(elbo(collapsed=w), after, f"ELBO collapsed over {w} at the optimum", rtol=0, atol=tol)
        gains = []
        for p in case["pert"]:
            h = Y.gauss(p["f"], opt.prec)
            e = p["eps"]
            prec = opt.prec if p["how"] == "mean" else (1 - e) * opt.prec + e * h.prec
            # `Y.gauss` gives means relative to the origin.
            mean = opt.mean if p["how"] == "var" else opt.mean + e * h.mean
            put(Gauss(prec @ mean, prec))
            v = elbo()
            check(v <= after + tol, f"a perturbation of the optimum of {w} improves the ELBO from {after} to {v}")
            # The loss is the divergence from the optimum.
            kl = Gauss(prec @ mean, prec).kl(opt)
            close(after - v, kl, "loss by perturbing", rtol=1e-6, atol=10 * tol)
            gains.append(after - v)
    return info(np.any(y != 0) and after - before > 1e-6, s["kind"], w)


def s_fit():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            data=Y.data(),
            fu=Y.factor(),
            fz=Y.factor(),
            iters=st.lists(st.integers(1, 8), min_size=1, max_size=3),
            start=st.sampled_from(["given", "given", "default"]),
            scheme=st.sampled_from(["mean-field-ca", "mean-field-ca", "structured"]),
        )
    )


def reference_ca(R, y, qz, iters, which="u"):
    """Number of iterations to converge; `None` if it doesn't."""
    last = None
    for i in range(iters):
        qu = R.q_u(y, qz)
        qz = R.q_z(y, qu)
        now = (qu.lam, qu.prec, qz.lam, qz.prec)
        if last and sum(np.sqrt(np.mean((a - b) ** 2)) for a, b in zip(now, last)) < 1e-7:
            return i
        last = now


def r_fit(case):
    from probmods import fit

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    mag = R.elbo(y, fu, fz)[1]

    def factors(inst):
        return Y.gauss_of(inst.approximation.q_u), Y.gauss_of(inst.approximation.q_z)

    with M.epsilon(0.0):
        if case["scheme"] == "structured":
            # Computing the ELBO fits a mean-field approximation.
            inst = setup(s, "structured", fu, fz, R)
            inst.elbo(t, y, num_samples=2)
            start, vals = R.elbo(y, fu, fz)[0], []
            conv = reference_ca(R, y, fz, 4000)
        else:
            vals = []
            for iters in sorted(case["iters"]) + [5000]:
                B.set_random_seed(1)
                model = M.build(s, case["scheme"])
                inst = model()
                if case["start"] == "given":
                    inst.approximation.q_u, inst.approximation.q_z = Y.natural(fu), Y.natural(fz)
                gu, gz = factors(inst)
                start = scalar(inst.elbo(t, y), "ELBO")
                fit(model, t, y, iters=iters)
                vals.append(scalar(model().elbo(t, y), "ELBO"))
            inst = model()
            mag = max(mag, R.elbo(y, gu, gz)[1])
            conv = reference_ca(R, y, gz, 4000)
            for a, b, n, m in zip([start] + vals, vals, [0] + sorted(case["iters"]), sorted(case["iters"]) + [5000]):
                check(b >= a - TOL * mag, f"ELBO went from {a} after {n} iterations to {b} after {m} iterations")
        qu, qz = factors(inst)
    ou, oz = R.q_u(y, qz), R.q_z(y, qu)
    end, mag2 = R.elbo(y, qu, qz)
    if vals:
        close(end, vals[-1], "ELBO after the fit", rtol=0, atol=TOL * (mag + mag2))
    else:
        check(end >= start - TOL * (mag + mag2), f"ELBO went from {start} to {end}")
    if conv is not None:
        # One of the factors was optimised last.
        rel = [max(np.max(np.abs(a.prec - b.prec)) / np.max(np.abs(b.prec)), np.max(np.abs(a.lam - b.lam)) / (1e-6 + np.max(np.abs(b.lam))))
               for a, b in ((qu, ou), (qz, oz))]
        check(min(rel) < 1e-8, f"no factor is the optimum given the other one: relative errors {rel}")
        # And another iteration changes nothing any more, beyond the tolerance of the fit.
        nu = R.q_u(y, qz)
        nz = R.q_z(y, nu)
        pairs = [(qu.lam, nu.lam), (qu.prec, nu.prec), (qz.lam, nz.lam), (qz.prec, nz.prec)]
        change = sum(np.sqrt(np.mean((a - b) ** 2)) for a, b in pairs)
        size = max(np.max(np.abs(a)) for a, _ in pairs)
        check(change <= 1e-4 + 1e-9 * size, f"another iteration after the fit changes the factors by {change}")
        for name, v in (("u", R.elbo(y, ou, qz)[0]), ("z", R.elbo(y, qu, oz)[0])):
            check(v - end <= 1e-5 * (1 + abs(end)), f"updating {name} after the fit still improves the ELBO from {end} to {v}")
    return info(conv is not None and np.any(y != 0), s["kind"], case["scheme"], case["start"], "converges" if conv is not None else "slow")


GRAD = ["mean-field-gradient", "mean-field-collapsed-gradient", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient", "mean-field"]


def s_grad(k, shards):
    return st.fixed_dictionaries(
        dict(
            m=Y.model(n_u=(2, 2), n_z=(3, 3), m_max=(1, 1), scales=(1.0,)),
            data=Y.data(3, 3),
            scheme=st.sampled_from(GRAD[k::shards] or GRAD),
            iters=st.sampled_from([5, 15]),
            given=st.booleans(),
            fu=Y.factor(),
            fz=Y.factor(),
        )
    )


def r_grad(case):
    from probmods import fit

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    B.set_random_seed(2)
    model = M.build(s, case["scheme"])
    if case["given"]:
        inst = model()
        inst.approximation.q_u = Y.natural(Y.gauss(case["fu"], R.K_u))
        inst.approximation.q_z = Y.natural(Y.gauss(case["fz"], R.K_z))
    start = scalar(model().elbo(t, y), "ELBO")
    fit(model, t, y, iters=case["iters"])
    inst = model()
    end = scalar(inst.elbo(t, y), "ELBO")
    check(np.isfinite(end) and end >= start - 1e-6 * (1 + abs(start)), f"ELBO went from {start} to {end}")
    if "ca" in case["scheme"].split("-") or "collapsed" in case["scheme"] or case["scheme"] == "mean-field":
        # The last step optimised `q_z` given `q_u`, with the final hyperparameters.
        v = scalar(inst.elbo(t, y, collapsed="z"), "ELBO")
        check(v <= end + 1e-6 * (1 + abs(end)), f"collapsing over z after the fit improves the ELBO from {end} to {v}")
    return info(end > start, s["kind"], case["scheme"], gain=end - start)


CHECK = Check(
    "C15",
    [
        Sub("opt", s_opt, r_opt, 90, 3000, shards=3,
            rule="random models, data, factors and perturbations: replacing a factor by its optimum does not lower the ELBO, a "
            "perturbation of the optimum lowers it by exactly its divergence, and the collapsed ELBO is that at the optimum; "
            "non-trivial: data not zero, and the replacement improved the ELBO"),
        Sub("fit", s_fit, r_fit, 56, 1500, shards=4,
            rule="coordinate-ascent fits of different lengths from given and default factors: ELBOs do not decrease with the "
            "number of iterations, and the end is a fixed point (if a reference implementation converges); non-trivial: it "
            "converges, and data not zero"),
        Sub("grad", s_grad, r_grad, 12, 200, shards=4, shrink=False,
            rule="short fits of all gradient-based schemes: the ELBO at the end is at least that of the start, and the "
            "collapsed factor is at its optimum; non-trivial: the ELBO improved"),
    ],
    level_note="Random search; mean-field schemes; covariances of condition number at most 1e6.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents."],
)
