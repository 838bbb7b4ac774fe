"""C35: instantiation exposes the constructed parameters."""
import numpy as np

from vp import construct as C
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, G, jnp, st
from vp.models import grid
from vp.num import arr, check, close

COMMON = ["noise", "alpha", "alpha_t", "gamma", "n_u", "t_u", "n_z", "extent"]
SMOOTH = COMMON + ["omega", "omega_t", "t_z"]
ROUGH = COMMON + ["lam", "gamma_t", "a", "b", "m_max", "ms"]


def attributes(m):
    names = ROUGH if type(m).__name__ == "RGPCM" else SMOOTH
    return {k: arr(B.dense(getattr(m, k))) for k in names}


def same(got, want, what, rtol=1e-9):
    """Compare parameters. Inducing locations are relative to their spread."""
    for k, w in want.items():
        g = got[k]
        check(g.shape == w.shape, f"{what}: shape of {k} is {g.shape}, expected {w.shape}")
        scale = np.max(np.abs(w)) + 1e-300
        close(g, w, f"{what}: {k}", rtol=rtol, scale=scale)


def matrices(inst):
    return {k: arr(B.dense(getattr(inst, k))) for k in ("K_u", "K_z", "K_u_inv", "K_z_inv")}


def check_instance(inst, want, what):
    """Check an instance; returns whether the matrices could be checked."""
    same(attributes(inst), want, what)
    ok = True
    for k, n in (("u", "n_u"), ("z", "n_z")):
        n = int(want[n])
        K, iK = arr(B.dense(getattr(inst, f"K_{k}"))), arr(B.dense(getattr(inst, f"K_{k}_inv")))
        check(K.shape == iK.shape == (n, n), f"{what}: shapes of K_{k} and its inverse: {K.shape}, {iK.shape}")
        check(np.all(np.isfinite(K)), f"{what}: K_{k} is not finite: {K}")
        fresh = arr(B.dense(getattr(inst, f"compute_K_{k}")()))
        close(fresh, K, f"{what}: compute_K_{k}() against the stored matrix", rtol=1e-12, scale=np.max(np.abs(K)))
        cond = np.linalg.cond(K)
        # A regularisation of `1e-12` is allowed.
        if not cond <= 1e6 or not np.max(np.abs(K)) > 1e-3:
            ok = False
            continue
        close(K @ iK, np.eye(n), f"{what}: K_{k} times its inverse", rtol=0, atol=1e-8 * cond)
        p = getattr(inst, f"p_{k}")
        close(arr(B.dense(p.var)), iK, f"{what}: variance of the prior of {k}", rtol=1e-12, scale=np.max(np.abs(iK)))
        mean = arr(B.dense(p.mean))
        check(np.all(mean == 0), f"{what}: mean of the prior of {k}: {mean}")
    return ok


def s_ctor():
    return st.fixed_dictionaries(dict(c=C.args(), twice=st.booleans()))


def r_ctor(case):
    kw = C.kwargs(case["c"])
    # Counts which contradict locations are not valid.
    for k in ("u", "z"):
        if f"t_{k}" in kw:
            kw.pop(f"n_{k}", None)
    m, _ = C.construct(case["c"], kw)
    before = attributes(m)
    if int(before["n_u"]) > 24 or int(before["n_z"]) > 24:
        return info(False, "big")
    if not all(np.all(np.isfinite(v)) for v in before.values()) or not before["gamma"] > 0:
        return info(False, "out of domain")
    if type(m).__name__ != "RGPCM" and len(before["t_z"]) < 2:
        return info(False, "out of domain")
    inst = m()
    ok = check_instance(inst, before, "instance")
    same(attributes(m), before, "model after instantiation", rtol=0)
    if case["twice"]:
        again = attributes(m())
        for k, v in attributes(inst).items():
            check(np.array_equal(again[k], v), f"{k} of the second instance is {again[k]}; of the first {v}")
    return info(ok, type(m).__name__)


def s_extreme():
    mag = st.integers(-16, 16).map(lambda i: 10 ** (i / 4))
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["GPCM", "CGPCM", "RGPCM"]),
            noise=st.integers(-24, 12).map(lambda i: 10 ** (i / 4)),
            alpha=mag,
            gamma=mag,
            other=mag,
            alpha_t=st.one_of(st.none(), mag),
            gamma_t=st.one_of(st.none(), mag),
            T=st.sampled_from([1e-3, 1.0, 1.0, 100.0]),
            t_u0=st.one_of(st.just(0.0), grid(-4, 4, 8)),
            t_u=st.lists(st.integers(1, 12), min_size=0, max_size=3),
            t_z=st.lists(st.integers(1, 12), min_size=1, max_size=4),
            t_z0=grid(-4, 4, 8),
            m_max=st.integers(1, 3),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            scheme=st.sampled_from(M.SCHEMES),
            ints=st.booleans(),
            lib=st.sampled_from(["numpy", "numpy", "jax"]),
        )
    )


def r_extreme(case):
    c, T = case, case["T"]
    lib = jnp.asarray if c["lib"] == "jax" else np.asarray
    rough = c["kind"] == "RGPCM"
    p = T if rough else T**2
    gamma = c["gamma"]
    lo = 0.0 if rough else c["t_u0"]
    kw = dict(
        noise=c["noise"],
        alpha=c["alpha"] / p,
        gamma=gamma / p,
        t_u=lib((lo + np.cumsum([0.0] + [x / 8 for x in c["t_u"]])) * T),
        fix_noise=c["flags"][0],
        fix_window=c["flags"][1],
        fix_scale=c["flags"][2],
        scheme=c["scheme"],
    )
    if c["alpha_t"] is not None:
        kw["alpha_t"] = c["alpha_t"]
    if rough:
        # Stay away from the removable singularity.
        kw.update(lam=c["other"] / p * 1.0123, m_max=c["m_max"], a=-3.0 * T, b=5.0 * T)
        if c["gamma_t"] is not None:
            kw["gamma_t"] = c["gamma_t"]
    else:
        kw.update(omega=c["other"] / p, t_z=lib((c["t_z0"] + np.cumsum([0.0] + [x / 8 for x in c["t_z"]])) * T))
    if c["ints"]:
        # Integers are numbers too.
        for k in ("noise", "alpha", "gamma", "omega", "lam"):
            if k in kw and kw[k] >= 2:
                kw[k] = int(np.ceil(kw[k]))
    m = getattr(G, c["kind"])(**kw)
    want = attributes(m)
    for k in ("noise", "alpha", "gamma", "lam", "omega", "alpha_t", "t_u", "t_z", "a", "b", "m_max"):
        if k in kw:
            ref = np.asarray(kw[k], dtype=float)
            if rough and k == "gamma":
                ref = np.asarray(min(kw["gamma"], kw["alpha"] / 1.5))
            close(want[k], ref, f"constructed {k}", rtol=1e-12, scale=np.max(np.abs(ref)) + 1e-300)
    inst = m()
    same(attributes(inst), want, "instance", rtol=1e-8)
    vec = arr(m.vs.get_latent_vector())
    check(np.all(np.isfinite(vec)), f"parameters do not have finite unconstrained values: {vec}")
    return info(True, c["kind"], "ints" if c["ints"] else "floats")


def s_share():
    return st.fixed_dictionaries(
        dict(
            a=M.any_model(n_u=(1, 3), n_z=(1, 3), m_max=(1, 2)),
            b=M.any_model(n_u=(1, 3), n_z=(1, 3), m_max=(1, 2)),
            same=st.booleans(),
            order=st.lists(st.sampled_from(["a", "b", "perturb a", "factors a"]), min_size=4, max_size=8),
            eps=st.sampled_from([0.05, 0.3, -0.2]),
            copy=st.booleans(),
        )
    )


def state(inst):
    return {**attributes(inst), **matrices(inst)}


def equal(a, b, what):
    for k in b:
        check(np.array_equal(a[k], b[k], equal_nan=True), f"{what}: {k} is {a[k]}, but was {b[k]}")


def r_share(case):
    from vp.bayes import natural
    from vp.refs_bayes import Gauss

    sa, sb = case["a"], case["a"] if case["same"] else case["b"]
    a, b = M.build(sa, "mean-field-ca"), M.build(sb, "mean-field-ca")
    cls = set()
    ia = ib = None
    last_a = last_b = None
    factors = None
    olds = []
    pa, pb = attributes(a), attributes(b)
    for step in case["order"]:
        if step == "a":
            ia = a()
            s = state(ia)
            if last_a is None:
                same({k: s[k] for k in pa}, pa, "first instance")
            else:
                equal(s, last_a, "another instance of the same model")
            last_a = s
            if factors is not None:
                q = ia.approximation.q_u
                close(arr(q.lam)[:, 0], factors.lam, "factor seen by a new instance", rtol=1e-8, scale=np.max(np.abs(factors.lam)))
                close(arr(B.dense(q.prec)), factors.prec, "factor seen by a new instance", rtol=1e-8, scale=np.max(np.abs(factors.prec)))
        elif step == "b":
            ib = b()
            s = state(ib)
            if last_b is None:
                same({k: s[k] for k in pb}, pb, "first instance of the other model")
            else:
                equal(s, last_b, "another instance of the other model")
            last_b = s
        elif step == "perturb a":
            if ia is None:
                continue
            olds.append((ia, last_a))
            names = [n for n in a.vs.names if "q_" not in n]
            vec = a.vs.get_latent_vector(*names)
            a.vs.set_latent_vector(vec + case["eps"], *names)
            ia = a()
            s = state(ia)
            for k in ("noise", "alpha", "alpha_t", "t_u"):
                check(np.all(s[k] != last_a[k]), f"{k} of a new instance did not follow its parameter: {s[k]}")
            last_a = s
            cls.add("perturbed")
        elif step == "factors a":
            if ia is None:
                continue
            n = len(last_a["K_u"])
            factors = Gauss(np.arange(1.0, n + 1), np.eye(n) * 2 + 0.5)
            ia.approximation.q_u = natural(factors)
            close(arr(a().approximation.q_u.lam)[:, 0], factors.lam, "factor seen by a new instance", rtol=1e-8)
            if ib is not None:
                o = arr(ib.approximation.q_u.lam)
                check(o.shape[0] != n or not np.allclose(o[:, 0], factors.lam), "the other model sees the factor")
            cls.add("factors")
    # Instances keep what they were instantiated with.
    for inst, s in olds:
        equal(state(inst), s, "an instance from before parameters changed")
    # Models have not changed, and share nothing.
    if ib is not None:
        equal(state(b()), last_b, "the other model at the end")
    equal(attributes(a), pa, "the model itself")
    equal(attributes(b), pb, "the other model itself")
    check(a.vs is not b.vs, "models share parameters")
    return info(ia is not None and (ib is not None or "perturbed" in cls), sa["kind"] + "/" + sb["kind"], *cls)


CHECK = Check(
    "C35",
    [
        Sub("ctor", s_ctor, r_ctor, 140, 5000, shards=3,
            rule="random constructor arguments as in C06: parameters of instances against those of the model, inverses, priors, repeated "
            "instantiation; non-trivial: matrices well-conditioned enough to check inverses"),
        Sub("extreme", s_extreme, r_extreme, 360, 20000, shards=3,
            rule="explicit parameters over eight orders of magnitude, integers, single inducing points, inducing points on either side "
            "of the origin or at it, both array libraries: parameters of instances and finite unconstrained values; all non-trivial"),
        Sub("share", s_share, r_share, 130, 5000, shards=2,
            rule="two models (sometimes with equal arguments) and a random order of instantiating them, changing all parameters of one "
            "and setting its factors; non-trivial: both are used or parameters change"),
    ],
    level_note="Random search.",
)
