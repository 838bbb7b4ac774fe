"""C18: predictions."""
import numpy as np

from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close

TOL = 1e-9


def lib_of(case):
    return np.asarray if case["lib"] == "numpy" else jnp.asarray


def pred(m, t, lib, **kw):
    res = m.predict(lib(t), **kw)
    check(isinstance(res, tuple) and len(res) == 2, "predictions are not a mean and a variance")
    mean, var = arr(res[0]), arr(res[1])
    check(mean.shape == var.shape == (len(t),), f"shapes of predictions: {mean.shape} and {var.shape}")
    check(np.all(np.isfinite(mean)) and np.all(np.isfinite(var)), "predictions are not finite")
    return mean, var


def meta(case, m, t, lib, mean, var, mag, **kw):
    """Batching, order and array library."""
    perm = np.random.RandomState(case["perm"]).permutation(len(t))
    k = case["split"] % len(t)
    other = jnp.asarray if lib is np.asarray else np.asarray
    runs = [("permuted inputs", perm, [perm], lib), ("batches", np.arange(len(t)), [np.arange(k), np.arange(k, len(t))], lib),
            ("the other array library", np.arange(len(t)), [np.arange(len(t))], other)]
    for name, inv, batches, f in runs:
        outs = [pred(m, t[b], f, **kw) for b in batches if len(b) > 0]
        a, v = (np.concatenate(x) for x in zip(*outs))
        close(a, mean[inv], f"mean for {name}", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
        close(v, var[inv], f"variance for {name}", rtol=0, atol=TOL * np.max(mag))


def second(case, s, t):
    """Inputs of a second prediction, usually as many as those of the first."""
    t2 = M.times(s, case["t2"])
    return np.resize(t2, len(t)) if case["same"] else t2


def s_mf():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            t=M.rel(2, 5),
            t2=M.rel(2, 5),
            same=st.sampled_from([True, True, False]),
            data=Y.data(1, 3),
            fu=Y.factor(),
            fz=Y.factor(),
            lib=st.sampled_from(["numpy", "jax"]),
            cond=st.sampled_from([True, True, False]),
            inst=st.booleans(),
            perm=st.integers(0, 10**6),
            split=st.integers(0, 4),
        )
    )


def r_mf(case):
    s = case["m"]
    t = M.times(s, case["t"])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    lib = lib_of(case)
    td, yd = lib(M.times(s, case["data"][0])), lib(np.array(case["data"][1]))
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    with M.epsilon(0.0):
        model = M.build(s)
        inst = model()
        inst.approximation.q_u, inst.approximation.q_z = Y.natural(fu), Y.natural(fz)
        if case["cond"]:
            m = (inst if case["inst"] else model).condition(td, yd)
        else:
            m = inst if case["inst"] else model
            # Before conditioning, predictions are those of the prior.
            fu, fz = R.p_u, R.p_z
        mean, var = pred(m, t, lib)
        m1, m2, mag = R.predict(fu, fz)
        mag = mag + R.noise
        w = close(mean, m1, "predictive mean", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
        w = max(w, close(var, m2 - m1**2 + R.noise, "predictive variance", rtol=0, atol=TOL * np.max(mag)))
        check(np.all(var >= R.noise - TOL * mag), f"predictive variances {var} below the noise {R.noise}")
        if not case["cond"]:
            close(mean, np.zeros(len(t)), "prior mean", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
            close(var, R.hx + R.noise + np.zeros(len(t)), "prior variance", rtol=0, atol=TOL * np.max(mag))
        meta(case, m, t, lib, mean, var, mag)
        # Other inputs, with the same object.
        R2 = Y.terms(s, second(case, s, t))
        a, v = pred(m, second(case, s, t), lib)
        m1, m2, mag2 = R2.predict(fu, fz)
        mag2 = mag2 + R.noise
        close(a, m1, "predictive mean of a second prediction", rtol=0, atol=TOL * np.sqrt(np.max(mag2)))
        close(v, m2 - m1**2 + R.noise, "predictive variance of a second prediction", rtol=0, atol=TOL * np.max(mag2))
        a, v = pred(m, t, lib)
        close(a, mean, "predictive mean of a third prediction", rtol=0, atol=TOL * np.sqrt(np.max(mag)))
        close(v, var, "predictive variance of a third prediction", rtol=0, atol=TOL * np.max(mag))
    return info(len(t) > 1, s["kind"], "conditioned" if case["cond"] else "prior", case["lib"], worst=w)


def s_st():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            t=M.rel(2, 5),
            t2=M.rel(2, 5),
            same=st.sampled_from([True, True, False]),
            inst=st.booleans(),
            data=Y.data(1, 5),
            us=st.lists(st.lists(grid(-2, 2, 8), min_size=8, max_size=8), min_size=2, max_size=4),
            lib=st.sampled_from(["numpy", "jax"]),
            perm=st.integers(0, 10**6),
            split=st.integers(0, 4),
        )
    )


def r_st(case):
    from vp.refs_bayes import Point

    s = case["m"]
    t, td = M.times(s, case["t"]), M.times(s, case["data"][0])
    yd = np.array(case["data"][1])
    R, D = Y.terms(s, t), Y.terms(s, td)
    if R is None:
        return info(False, "ill-conditioned")
    lib = lib_of(case)
    us = [Y.point(u, R.K_u) for u in case["us"]]
    zs = [np.zeros(len(R.K_z)) for _ in us]
    with M.epsilon(0.0):
        model = M.build(s, "structured")
        inst = model()
        inst.approximation.q_u_samples = [jnp.asarray(u[:, None]) for u in us]
        inst.approximation.q_z_samples = [jnp.asarray(z[:, None]) for z in zs]
        m = model.condition(lib(td), lib(yd))
        if case["inst"]:
            m = m()
        mean, var = pred(m, t, lib)
        one = pred(m, t, lib, num_samples=1)
        two = pred(m, t, lib, num_samples=len(us))

        def reference(R):
            parts = [R.predict(Point(u), D.q_z(yd, Point(u))) for u in us]
            m1s, m2s = np.array([x[0] for x in parts]), np.array([x[1] for x in parts])
            return m1s, m2s, np.max([x[2] for x in parts], axis=0) + R.noise

        m1s, m2s, mag = reference(R)
        m1, m2 = np.mean(m1s, axis=0), np.mean(m2s, axis=0)
        tol1, tol2 = TOL * np.sqrt(np.max(mag)), TOL * np.max(mag)
        w = close(mean, m1, "predictive mean", rtol=0, atol=tol1)
        w = max(w, close(var, m2 - m1**2 + R.noise, "predictive variance", rtol=0, atol=tol2))
        check(np.all(var >= R.noise - TOL * mag), f"predictive variances {var} below the noise {R.noise}")
        close(two[0], m1, "predictive mean for all samples", rtol=0, atol=tol1)
        close(two[1], m2 - m1**2 + R.noise, "predictive variance for all samples", rtol=0, atol=tol2)
        # With one sample, it is one of the stored ones.
        e = [np.max(np.abs(one[0] - a)) / tol1 + np.max(np.abs(one[1] - (b - a**2 + R.noise))) / tol2 for a, b in zip(m1s, m2s)]
        check(min(e) <= 2, f"prediction with one sample is not that of a stored sample: {one}")
        meta(case, m, t, lib, mean, var, mag)
        # Other inputs, with the same object.
        t2 = second(case, s, t)
        a, v = pred(m, t2, lib)
        m1s, m2s, mag2 = reference(Y.terms(s, t2))
        m1, m2 = np.mean(m1s, axis=0), np.mean(m2s, axis=0)
        close(a, m1, "predictive mean of a second prediction", rtol=0, atol=TOL * np.sqrt(np.max(mag2)))
        close(v, m2 - m1**2 + R.noise, "predictive variance of a second prediction", rtol=0, atol=TOL * np.max(mag2))
        a, v = pred(m, t, lib)
        close(a, mean, "predictive mean of a third prediction", rtol=0, atol=tol1)
        close(v, var, "predictive variance of a third prediction", rtol=0, atol=tol2)
    return info(len(t) > 1 and len(us) > 1 and np.any(yd != 0), s["kind"], case["lib"], f"samples{len(us)}", worst=w)


CHECK = Check(
    "C18",
    [
        Sub("mf", s_mf, r_mf, 96, 3000, shards=4,
            rule="random models and mean-field factors, conditioned or not, models or instances: means and variances against the "
            "moments (reference by quadrature of the model's definition), lower bound by the noise, batching, order, array "
            "library, and further predictions with the same object; non-trivial: at least two inputs"),
        Sub("st", s_st, r_st, 64, 2000, shards=4,
            rule="random models, data and stored samples of the structured approximation: as above, with the optimal conditional "
            "of the excitation per stored sample; non-trivial: at least two inputs and samples, data not zero"),
    ],
    level_note="Random search; agreement to 1e-9 of the magnitude of the terms, covariances of condition number at most 1e6.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents.",
                 "Structured predictions need a conditioned model."],
)
