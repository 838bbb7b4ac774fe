"""C21: fitting respects fixed parameters and constraints."""
import numpy as np

from checks.c35 import attributes
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check

LEARN = [x for x in M.SCHEMES if x != "mean-field-ca"]


def case(schemes, **kw):
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 3)),
            data=Y.data(1, 4),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            scheme=st.sampled_from(schemes),
            eps=st.one_of(st.lists(grid(-0.4, 0.4, 16), min_size=8, max_size=8), st.just([0.0] * 8)),
            second=st.sampled_from([False, False, True]),
            fu=Y.factor(),
            fz=Y.factor(),
            seed=st.integers(0, 10**6),
            lib=st.sampled_from(["numpy", "jax"]),
            **kw,
        )
    )


def s_learn(k, shards):
    # Compiling fits is expensive: a scheme per shard, most of them structured.
    order = ["structured", "mean-field-collapsed-gradient", "structured", "mean-field-gradient", "structured", "mean-field-ca-collapsed-gradient", "mean-field-ca-gradient", "mean-field"]
    return case([order[k % len(order)]], iters=st.sampled_from([10, 20, 30]), rate=st.sampled_from([0.05, 0.5, 2.0]), hypers=st.sampled_from([True, True, 3, 10]))


def s_keep():
    return case(["structured", "structured", "mean-field-ca"], iters=st.sampled_from([2, 30]))


def hypers(m):
    return {n: arr(m.vs[n]) for n in m.vs.names if "q_" not in n}


def factors(m):
    return {n: arr(B.dense(m.vs[n])) for n in m.vs.names if "q_" in n}


def setup(case):
    s = case["m"]
    t, y = M.times(s, case["data"][0]), np.array(case["data"][1])
    if s["kind"] == "RGPCM":
        # Inducing points move: keep inputs within the domain.
        t = 0.5 * (t + M.params(s)["b"])
    m = M.build(s, case["scheme"], **dict(zip(("fix_noise", "fix_window", "fix_scale"), case["flags"])))
    lib = np.asarray if case["lib"] == "numpy" else jnp.asarray
    B.set_random_seed(case["seed"])
    inst = m()
    names = [n for n in m.vs.names if "q_" not in n]
    vec = arr(m.vs.get_latent_vector(*names))
    m.vs.set_latent_vector(jnp.asarray(vec + np.resize(case["eps"], len(vec))), *names)
    inst = m()
    Ks = [arr(B.dense(inst.K_u)), arr(B.dense(inst.K_z))]
    if not all(np.all(np.isfinite(K)) and np.linalg.cond(K) < 1e6 for K in Ks):
        return None
    if case["second"]:
        # A conditioned model has an earlier posterior.
        a = inst.approximation
        a.q_u, a.q_z = Y.natural(Y.gauss(case["fu"], Ks[0])), Y.natural(Y.gauss(case["fz"], Ks[1]))
        if case["scheme"] == "structured":
            a.q_u_samples = [jnp.asarray(np.arange(inst.n_u)[:, None] + i + 0.5) for i in range(3)]
            a.q_z_samples = [jnp.asarray(np.arange(inst.n_z)[:, None] - i - 0.5) for i in range(3)]
        m = m.condition(lib(t[::-1] * 1.0), lib(1 - y))
    return s, m, lib(t), lib(y)


def unchanged(before, after, what):
    for k, v in before.items():
        check(k in after, f"{what}: {k} disappeared")
        check(after[k].shape == v.shape and np.array_equal(after[k], v), f"{what}: {k} changed from {v} to {after[k]}")


def constraints(case, s, m, what="after fitting"):
    a = attributes(m())
    p = M.params(s)
    for k in ("noise", "alpha", "alpha_t", "gamma", "lam", "omega"):
        if k in a:
            check(np.all(np.isfinite(a[k])) and np.all(a[k] > 0), f"{what}, {k} is {a[k]}")
    t_u = a["t_u"]
    if s["kind"] == "RGPCM":
        check(a["gamma"] < a["alpha"], f"{what}, gamma is {a['gamma']} and alpha is {a['alpha']}")
        lo, hi = -1e-4, max(1.5 * max(p["t_u"]), 1e-4)
    else:
        lo = min(p["t_u"]) - max(0.5 * abs(min(p["t_u"])), 1e-4)
        hi = max(p["t_u"]) + max(0.5 * abs(max(p["t_u"])), 1e-4)
    e = 1e-9 * (hi - lo)
    check(np.all((lo - e <= t_u) & (t_u <= hi + e)), f"{what}, inducing points are {t_u}, beyond [{lo}, {hi}]")
    if "t_z" in a:
        check(np.all(np.isfinite(a["t_z"])), f"{what}, t_z is {a['t_z']}")
    return a


def kept(case, s, what="after fitting"):
    """Names of what was fixed, with the constructed values."""
    p = M.params(s)
    scale = "lam" if s["kind"] == "RGPCM" else "gamma"
    return {k: p[k] for k, f in zip(("noise", "alpha", scale), case["flags"]) if f}


def fixed(case, s, a):
    for k, v in kept(case, s).items():
        check(abs(a[k] - v) <= 1e-12 * v, f"{k} was fixed to {v}, but is {a[k]} after fitting")


def matters(case, m, k, t, y):
    """Whether the objective depends on a parameter."""
    name = {"lam": "lambda", "gamma": "gamma_factor" if case["m"]["kind"] == "RGPCM" else "gamma"}.get(k, k)
    names = [n for n in m.vs.names if "q_" not in n and n.endswith(name)]
    if not names:
        return True
    vec = arr(m.vs.get_latent_vector(*names))

    def f(d):
        vs = m.vs.copy()
        vs.set_latent_vector(jnp.asarray(vec + d), *names)
        inst = m(vs)
        state = B.create_random_state(jnp.float64, seed=0)
        if case["scheme"] == "structured":
            return float(arr(inst.approximation.elbo_collapsed_z(state, jnp.asarray(t), jnp.asarray(y), num_samples=2)[1]))
        return float(arr(inst.approximation.elbo(state, jnp.asarray(t), jnp.asarray(y))[1]))

    return max(abs(f(0.1) - f(0)), abs(f(-0.1) - f(0))) > 1e-2


def r_learn(case):
    x = setup(case)
    if x is None:
        return info(False, "ill-conditioned")
    s, m, t, y = x
    before, fbefore, abefore = hypers(m), factors(m), attributes(m())
    kw = dict(iters=case["iters"])
    if case["scheme"] == "structured":
        kw.update(rate=case["rate"], num_samples=2, optimise_hypers=case["hypers"])
    m.fit(t, y, **kw)
    a = constraints(case, s, m)
    fixed(case, s, a)
    unchanged(fbefore, factors(m), "fitting a conditioned model")
    after = hypers(m)
    check(sorted(after) == sorted(before), f"variables are {sorted(after)} after fitting, but {sorted(before)} before")
    moved = {k: not np.array_equal(after[k], before[k]) for k in before}
    names = ["noise", "alpha", "alpha_t", "t_u"] + (["lam", "gamma"] if s["kind"] == "RGPCM" else ["gamma", "omega", "t_z"])
    free = [k for k in names if k not in kept(case, s)]
    if any(moved.values()) or case["scheme"] == "structured":
        # A gradient step moves everything.
        for k in free:
            check(not np.array_equal(a[k], abefore[k]) or not matters(case, m, k, t, y), f"{k} was not fixed, but is still {a[k]} after fitting with {case['scheme']}")
    return info(any(moved.values()), s["kind"], case["scheme"], "second" if case["second"] else "first", f"fixed{sum(case['flags'])}")


def s_perturb():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 3)),
            scheme=st.sampled_from(M.SCHEMES),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            eps=st.lists(st.sampled_from([-3.0, -0.5, -0.125, 0.125, 0.5, 3.0]), min_size=12, max_size=12),
            how=st.sampled_from(["learned", "learned", "fresh"]),
        )
    )


def r_perturb(case):
    """Move everything that can be learned, as an optimiser may."""
    s = case["m"]
    m = M.build(s, case["scheme"], **dict(zip(("fix_noise", "fix_window", "fix_scale"), case["flags"])))
    inst = m()
    before = attributes(inst)
    names = list(m.vs.names)
    vec = arr(m.vs.get_latent_vector(*names))
    m.vs.set_latent_vector(jnp.asarray(vec + np.resize(case["eps"], len(vec))), *names)
    a = constraints(case, s, m, "after a step")
    fixed(case, s, a)
    free = [k for k in ("noise", "alpha", "alpha_t", "t_u") + (("lam", "gamma") if s["kind"] == "RGPCM" else ("gamma", "omega", "t_z")) if k not in kept(case, s)]
    for k in free:
        check(np.all(a[k] != before[k]), f"{k} was not fixed, but no variable that can be learned changes {before[k]}")
    return info(any(case["flags"]), s["kind"], *[f"fix_{k}" for k in kept(case, s)])


def r_keep(case):
    x = setup(case)
    if x is None:
        return info(False, "ill-conditioned")
    s, m, t, y = x
    before, fbefore, abefore = hypers(m), factors(m), attributes(m())
    m.fit(t, y, iters=case["iters"], **(dict(optimise_hypers=False) if case["scheme"] == "structured" else {}))
    unchanged(before, hypers(m), "fitting only the posterior")
    unchanged(abefore, attributes(m()), "fitting only the posterior")
    unchanged(fbefore, factors(m), "fitting a conditioned model")
    constraints(case, s, m)
    new = [n for n in factors(m) if n not in fbefore]
    check(len(new) > 0, "no posterior was stored")
    for n in new:
        check(np.all(np.isfinite(factors(m)[n])), f"{n} is not finite: {factors(m)[n]}")
    return info(any(case["eps"]) or case["second"], s["kind"], case["scheme"], "second" if case["second"] else "first")


CHECK = Check(
    "C21",
    [
        Sub("learn", s_learn, r_learn, 16, 1200, shards=8,
            rule="random models, flags and data, all schemes which learn hyperparameters, fresh or conditioned models, learning "
            "rates up to 2 so that bounds are reached: fixed parameters and earlier posteriors are as before, free ones moved, and "
            "all constraints hold; non-trivial: something moved"),
        Sub("perturb", s_perturb, r_perturb, 160, 4000, shards=4,
            rule="random models and flags: move every variable that an optimiser may move, in either direction, also by much: fixed "
            "parameters are as constructed, all others change, and all constraints hold; non-trivial: something is fixed"),
        Sub("keep", s_keep, r_keep, 24, 1500, shards=8,
            rule="random models with learned parameters, fresh or conditioned, of which only the posterior is fitted: no "
            "hyperparameter and no earlier posterior changes in any bit; non-trivial: parameters differ from the initial ones or "
            "the model is conditioned"),
    ],
    level_note="Random search.",
    assumptions=["At least two iterations.", "A first gradient step moves every free parameter, because the objective depends on all of them."],
)
