"""C17: the ELBO is the documented expectation and has the symmetries of the model."""
import numpy as np

from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jax, jnp, st
from vp.models import grid
from vp.num import arr, check, close

TOL = 1e-9


def setup(s, scheme, fu, fz, R, lib=None):
    """An instance with given factors."""
    inst = M.build(s, scheme)()
    inst.approximation.q_u = Y.natural(fu, lib)
    inst.approximation.q_z = Y.natural(fz, lib)
    return inst


def s_mf():
    return st.fixed_dictionaries(
        dict(m=Y.model(), data=Y.data(), fu=Y.factor(), fz=Y.factor(), lib=st.sampled_from(["numpy", "jax"]), state=st.booleans())
    )


def scalar(x, what):
    x = arr(x)
    check(x.shape == (), f"{what}: shape {x.shape}")
    return float(x)


def r_mf(case):
    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    lib = np.asarray if case["lib"] == "numpy" else jnp.asarray
    with M.epsilon(0.0):
        inst = setup(s, "mean-field-ca", fu, fz, R)

        def elbo(t, y, **kw):
            if case["state"]:
                state = B.create_random_state(jnp.float64, seed=0)
                state, v = inst.elbo(state, lib(t), lib(y), **kw)
            else:
                v = inst.elbo(lib(t), lib(y), **kw)
            return scalar(v, "ELBO")

        full = elbo(t, y)
        cz, cu = elbo(t, y, collapsed="z"), elbo(t, y, collapsed="u")
        parts = [elbo(t[i : i + 1], y[i : i + 1]) for i in range(len(t))] if len(t) <= 4 else None
    worst = 0.0
    ref, mag = R.elbo(y, fu, fz)
    worst = max(worst, close(full, ref, "mean-field ELBO", rtol=0, atol=TOL * mag))
    ref_z, mag_z = R.elbo(y, fu, R.q_z(y, fu))
    worst = max(worst, close(cz, ref_z, "ELBO collapsed over z", rtol=0, atol=TOL * mag_z))
    ref_u, mag_u = R.elbo(y, R.q_u(y, fz), fz)
    worst = max(worst, close(cu, ref_u, "ELBO collapsed over u", rtol=0, atol=TOL * mag_u))
    # Single observations.
    if parts is not None:
        kl = fu.kl(R.p_u) + fz.kl(R.p_z)
        close(sum(parts) + (len(t) - 1) * kl, full, "sum over observations", rtol=0, atol=TOL * (mag + len(t) * kl))
    return info(len(t) > 1 and np.any(y != 0), s["kind"], case["lib"], worst=worst)


def s_st():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            data=Y.data(),
            fu=Y.factor(),
            fz=Y.factor(),
            lib=st.sampled_from(["numpy", "jax"]),
            num=st.sampled_from([1, 3]),
            seed=st.integers(0, 1000),
            gibbs=st.integers(1, 3),
        )
    )


def r_st(case):
    from vp.refs_bayes import Gauss, Point

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    lib = np.asarray if case["lib"] == "numpy" else jnp.asarray
    worst = 0.0
    # The regularisation is absolute, and would matter for divergences to a point mass.
    with M.epsilon(0.0):
        # A factor which is practically a point mass: no Monte Carlo error.
        tight = Gauss(1e11 * R.K_u @ fu.mean, 1e11 * R.K_u)
        inst = setup(s, "structured", tight, fz, R)
        state = B.create_random_state(jnp.float64, seed=case["seed"])
        state, v = inst.approximation.elbo_collapsed_z(state, jnp.asarray(t), jnp.asarray(y), num_samples=case["num"])
        ref, mag = R.collapsed_z(y, Point(fu.mean))
        kl = tight.kl(R.p_u)
        # Samples are a little off the mean.
        xs = tight.sample(np.random.RandomState(0), 20).T
        off = max(abs(R.collapsed_z(y, Point(x))[0] - ref) for x in xs)
        worst = max(worst, close(scalar(v, "ELBO"), ref - kl, "structured ELBO", rtol=0, atol=10 * off + TOL * (mag + kl)))

        # Gibbs.
        inst.approximation.q_u = Y.natural(fu)
        u0, z0 = jnp.asarray(fu.mean[:, None]), jnp.asarray(fz.mean[:, None])
        state, v, u, z = inst.approximation.elbo_gibbs(state, jnp.asarray(t), jnp.asarray(y), u0, z0, num_samples=case["gibbs"])
        u, z = arr(u), arr(z)
        check(u.shape == (len(R.K_u), 1) and z.shape == (len(R.K_z), 1), f"shapes of Gibbs samples: {u.shape}, {z.shape}")
        ref, mag = R.collapsed_z(y, Point(u[:, 0]))
        lp = R.p_u.logpdf(u[:, 0])
        worst = max(worst, close(scalar(v, "ELBO"), ref + lp, "Gibbs ELBO", rtol=0, atol=TOL * (mag + abs(lp))))
    check(np.any(u[:, 0] != fu.mean) and np.any(z[:, 0] != fz.mean), "Gibbs sampling did not move")
    return info(len(t) > 1 and np.any(y != 0), s["kind"], f"num{case['num']}", worst=worst)


def s_mc():
    return st.fixed_dictionaries(
        dict(m=Y.model(n_u=(1, 3), n_z=(1, 3), m_max=(1, 1)), data=Y.data(1, 3), fu=Y.factor(), fz=Y.factor(), elbo=st.booleans())
    )


def r_mc(case):
    """Structured ELBOs against Monte Carlo, with wide factors."""
    from vp.refs_bayes import Point

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    N1, N2 = 300, 3000
    with M.epsilon(0.0):
        inst = setup(s, "structured", fu, fz, R)
        if case["elbo"]:
            # Fits a mean-field approximation first, and then computes the ELBO with its factor.
            v = scalar(inst.elbo(t, y, num_samples=N1), "ELBO")
            fu, fz = Y.gauss_of(inst.approximation.q_u), Y.gauss_of(inst.approximation.q_z)
            opt = R.q_z(y, fu)
            close(fz.prec, opt.prec, "the mean-field fit: precision", rtol=1e-4, scale=np.max(np.abs(opt.prec)))
        else:
            state = B.create_random_state(jnp.float64, seed=1)
            state, v = inst.approximation.elbo_collapsed_z(state, jnp.asarray(t), jnp.asarray(y), num_samples=N1)
            v = scalar(v, "ELBO")
    rng = np.random.RandomState(0)
    x = np.array([R.collapsed_z(y, Point(u))[0] for u in fu.sample(rng, N2).T])
    mag = R.collapsed_z(y, Point(fu.mean))[1]
    ref = np.mean(x) - fu.kl(R.p_u)
    se = np.std(x) * np.sqrt(1 / N1 + 1 / N2)
    # The integrand is at most quadratic in `u`: nine standard errors are very unlikely.
    close(v, ref, "structured ELBO by Monte Carlo", rtol=0, atol=9 * se + TOL * (mag + np.max(np.abs(x))))
    return info(True, s["kind"], "elbo" if case["elbo"] else "collapsed", rel_se=se / (1 + abs(ref)))


def s_sym():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(),
            data=Y.data(2, 6),
            fu=Y.factor(),
            fz=Y.factor(),
            perm=st.integers(0, 10**6),
            neg=st.sampled_from(["u", "z", "both"]),
            shift=grid(-8, 8, 8),
            scheme=st.sampled_from(["mean-field-ca", "mean-field-ca", "structured"]),
            collapsed=st.sampled_from([None, "z", "u"]),
            jit=st.sampled_from([False, False, True]),
        )
    )


def shifted(s, d):
    """Shift the excitation by `d` time scales."""
    if s["kind"] == "RGPCM":
        return dict(s, a=s["a"] + d)
    return dict(s, t_z=[x + d for x in s["t_z"]])


def r_sym(case):
    from vp.refs_bayes import Gauss

    s = case["m"]
    t = M.times(s, case["data"][0])
    y = np.array(case["data"][1])
    R = Y.terms(s, t)
    if R is None:
        return info(False, "ill-conditioned")
    fu, fz = Y.gauss(case["fu"], R.K_u), Y.gauss(case["fz"], R.K_z)
    mf = case["scheme"] != "structured"

    def elbo(s, fu, fz, t, y, lib=np.asarray, jit=False):
        with M.epsilon(0.0):
            inst = setup(s, case["scheme"], fu, fz, R)

            def f(t, y):
                state = B.create_random_state(jnp.float64, seed=3)
                if mf:
                    return inst.elbo(state, t, y, collapsed=case["collapsed"])[1]
                return inst.approximation.elbo_collapsed_z(state, t, y, num_samples=3)[1]

            return scalar((jax.jit(f) if jit else f)(lib(t), lib(y)), "ELBO")

    lib0 = np.asarray if mf else jnp.asarray
    base = elbo(s, fu, fz, t, y, lib0)
    check(np.isfinite(base), f"ELBO is {base}")
    mag = R.elbo(y, fu, fz)[1] + (R.elbo(y, fu, R.q_z(y, fu))[1] + R.elbo(y, R.q_u(y, fz), fz)[1])
    tol = TOL * (mag + abs(base))
    perm = np.random.RandomState(case["perm"]).permutation(len(t))
    close(elbo(s, fu, fz, t[perm], y[perm], lib0), base, "ELBO of permuted observations", rtol=0, atol=tol)
    if mf:
        nu = Gauss(-fu.lam, fu.prec) if case["neg"] in ("u", "both") else fu
        nz = Gauss(-fz.lam, fz.prec) if case["neg"] in ("z", "both") else fz
        # Collapsed factors follow the others.
        sign = {None: -1 if case["neg"] != "both" else 1, "z": -1, "u": -1}[case["collapsed"]]
        close(elbo(s, nu, nz, t, sign * y, lib0), base, f"ELBO of negated factor {case['neg']}", rtol=0, atol=tol)
        close(elbo(s, fu, fz, t, y, jnp.asarray), base, "ELBO with the other array library", rtol=0, atol=1e-10 * (mag + abs(base)))
    else:
        close(elbo(s, fu, fz, t, -y, lib0), base, "structured ELBO of negated data", rtol=0, atol=tol)
    d = case["shift"]
    close(elbo(shifted(s, d), fu, fz, t + d * s["T"], y, lib0), base, "ELBO of shifted data", rtol=0, atol=tol)
    if case["jit"]:
        close(elbo(s, fu, fz, t, y, jnp.asarray, jit=True), base, "compiled ELBO", rtol=0, atol=tol)
    return info(np.any(y != 0), s["kind"], case["scheme"], f"collapsed {case['collapsed']}" if mf else "", "jit" if case["jit"] else "")


CHECK = Check(
    "C17",
    [
        Sub("mf", s_mf, r_mf, 120, 4000, shards=4,
            rule="random models, data and factors: mean-field and both collapsed ELBOs against expected log-likelihood minus KL "
            "divergences (reference by quadrature of the model's definition), and against the sum over single observations; "
            "non-trivial: at least two observations, not zero"),
        Sub("st", s_st, r_st, 50, 2000, shards=2,
            rule="structured ELBOs (for a practically deterministic filter factor) and Gibbs ELBOs against the reference; "
            "non-trivial: at least two observations, not zero"),
        Sub("mc", s_mc, r_mc, 14, 400, shards=2,
            rule="structured ELBOs with wide factors against Monte Carlo with the reference (nine standard errors); all "
            "well-conditioned cases non-trivial"),
        Sub("sym", s_sym, r_sym, 48, 1500, shards=4,
            rule="order, sign, shift, array library and compilation, for mean-field, collapsed and structured ELBOs; "
            "non-trivial: data not zero"),
    ],
    level_note="Random search; agreement to 1e-9 of the magnitude of the terms, covariances of condition number at most 1e6.",
    assumptions=["Rough model: t - max(t_u) >= a, as its code documents."],
)
