"""C23: gradients of the objectives."""
import os

import numpy as np

from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, Violation, info
from vp.lazy import B, jax, jnp, st
from vp.models import grid
from vp.num import arr, check

KINDS = ["RGPCM", "CGPCM", "GPCM"]
OBJECTIVES = ["mean-field", "mean-field z", "mean-field u", "structured", "gibbs"]


def structure(k, seed):
    """A model, of which parameters, factors and data vary."""
    kind, obj = KINDS[k % 3], OBJECTIVES[(k // 3) % 5]
    r = np.random.RandomState((seed * 1000 + k) % 2**31)
    pick = lambda xs: xs[r.randint(len(xs))]  # noqa
    n_u, n_z = pick([1, 2, 3]), pick([1, 2, 3])
    gaps = lambda n: np.cumsum(0.5 + r.randint(0, 5, n) / 8)  # noqa
    s = dict(kind=kind, T=pick([0.05, 1.0, 20.0]), alpha_t=pick([None, 0.3, 2.0]), noise=pick([0.05, 0.5]))
    if kind == "RGPCM":
        s.update(alpha=r.randint(2, 24) / 8, lam=r.randint(2, 40) / 8, gamma=r.randint(1, 6) / 8, gamma_t=pick([None, 0.5]),
                 t_u=list(gaps(n_u) - 0.5), m_max=pick([1, 2]), ms_perm=pick([0, 17]), a=r.randint(-8, 8) / 8, span=r.randint(8, 40) / 8)
    else:
        s.update(alpha=r.randint(2, 16) / 8, gamma=r.randint(1, 40) / 8, omega=r.randint(2, 32) / 4, t_u=list(gaps(n_u) - pick([0.5, 1.0])), t_z=list(gaps(n_z) - 1.5))
    far = pick([1, 1, 1, 8, 60])
    if kind == "RGPCM":
        s["span"] *= far
    flags = [False] * 3 if r.rand() < 0.7 else [bool(r.randint(2)) for _ in range(3)]
    return dict(m=s, flags=flags, n=int(pick([1, 2, 4])), objective=obj, gibbs=int(pick([1, 2])), samples=int(pick([1, 3])), far=far)


def s_grad(k, shards):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    s = structure(k, seed)
    return st.fixed_dictionaries(
        dict(
            s=st.just(s),
            eps=st.one_of(st.lists(grid(-0.5, 0.5, 16), min_size=8, max_size=8), st.just([0.0] * 8)),
            fu=Y.factor(),
            fz=Y.factor(),
            t=st.lists(grid(0, 1, 16), min_size=4, max_size=4),
            y=st.lists(grid(-2, 2, 8), min_size=4, max_size=4),
            us=st.lists(grid(-2, 2, 8), min_size=8, max_size=8),
            seed=st.integers(0, 1000),
            dir=st.integers(0, 10**6),
        )
    )


_cache = {}


def functions(case, m, names):
    """Compiled objective with gradients, and objective with fixed samples."""
    s = case["s"]
    key = repr(s)
    if key in _cache:
        return _cache[key]
    obj = s["objective"]

    def value(vec, t, y, seed, u, z, num):
        vs = m.vs.copy()
        vs.set_latent_vector(vec, *names, differentiable=True)
        a = m(vs).approximation
        if obj == "gibbs":
            _, v, u, z = a.elbo_gibbs(seed, t, y, u, z, num_samples=num)
            return v, (u, z)
        if obj == "structured":
            v = a.elbo_collapsed_z(seed, t, y, num_samples=s["samples"])[1]
        else:
            kw = {} if obj == "mean-field" else dict(collapsed=obj.split()[1])
            v = a.elbo(seed, t, y, **kw)[1]
        return v, (u, z)

    vg = jax.jit(jax.value_and_grad(value, has_aux=True), static_argnums=(6,))
    f = jax.jit(value, static_argnums=(6,)) if obj == "gibbs" else None
    _cache[key] = m, vg, f
    return _cache[key]


def r_grad(case):
    s = case["s"]["m"]
    rel = np.resize(case["t"], case["s"]["n"])
    t = M.times(s, rel)
    if s["kind"] == "RGPCM":
        # Inducing points move: keep inputs within the domain.
        t = 0.5 * (t + M.params(s)["b"])
    else:
        t = t * case["s"]["far"]
    y = np.resize(case["y"], case["s"]["n"])
    m = M.build(s, "structured" if case["s"]["objective"] in ("structured", "gibbs") else "mean-field-gradient",
                **dict(zip(("fix_noise", "fix_window", "fix_scale"), case["s"]["flags"])))
    inst = m()
    names = [n for n in m.vs.names if "q_" not in n]
    vec = arr(m.vs.get_latent_vector(*names))
    m.vs.set_latent_vector(jnp.asarray(vec + np.resize(case["eps"], len(vec))), *names)
    inst = m()
    K_u, K_z = arr(B.dense(inst.K_u)), arr(B.dense(inst.K_z))
    if not all(np.all(np.isfinite(K)) and np.linalg.cond(K) < 1e4 for K in (K_u, K_z)):
        return info(False, "ill-conditioned")
    if s["kind"] == "RGPCM":
        al, la, ga = (float(arr(getattr(inst, k))) for k in ("alpha", "lam", "gamma"))
        if abs(la - al + ga) < 0.05 * la or np.min(t) - np.max(arr(inst.t_u)) < M.params(s)["a"]:
            return info(False, "singular")
    fu, fz = Y.gauss(case["fu"], K_u), Y.gauss(case["fz"], K_z)
    inst.approximation.q_u, inst.approximation.q_z = Y.natural(fu), Y.natural(fz)
    names = list(m.vs.names)
    vec = arr(m.vs.get_latent_vector(*names))
    first, vg, f0 = functions(case, m, names)
    # The compiled functions belong to the first model: all of what is different must be in `vec`.
    check(list(first.vs.names) == names, "names of variables differ")
    state = B.create_random_state(jnp.float64, seed=case["seed"])
    u = jnp.asarray(Y.point(case["us"], K_u)[:, None])
    z = jnp.asarray(Y.point(case["us"][::-1], K_z)[:, None])
    num = case["s"]["gibbs"]
    rest = (jnp.asarray(t), jnp.asarray(y), state)
    (v, (u1, z1)), g = vg(jnp.asarray(vec), *rest, u, z, num)
    v, g = float(v), arr(g)
    check(np.isfinite(v), f"objective is {v}")
    check(g.shape == vec.shape, f"shape of the gradient is {g.shape}")
    if not np.all(np.isfinite(g)):
        raise Violation(f"gradient is not finite: {dict(zip(names, [arr(x) for x in blocks(m, names, g)]))}")
    if f0 is not None:
        # The samples are fixed in gradients.
        f = lambda x: float(f0(jnp.asarray(x), *rest, u1, z1, 0)[0])  # noqa
        check(abs(f(vec) - v) <= 1e-9 * (1 + abs(v)), f"objective for the final samples is {f(vec)}, not {v}")
    else:
        f = lambda x: float(vg(jnp.asarray(x), *rest, u, z, num)[0][0])  # noqa
    rng = np.random.RandomState(case["dir"])
    dirs = [(f"entry {i} of the gradient", np.eye(len(vec))[i]) for i in range(len(vec))]
    dirs += [("gradient in a random direction", rng.standard_normal(len(vec)) / np.sqrt(len(vec)))]
    worst, gmax = 0.0, np.max(np.abs(g))

    def stencil(d, h):
        a, b, c, e = (f(vec + k * h * d) for k in (-2, -1, 1, 2))
        return (a - 8 * b + 8 * c - e) / (12 * h), max(abs(a), abs(b), abs(c), abs(e))

    for name, d in dirs:
        D1, m1 = stencil(d, 2e-3)
        D2, m2 = stencil(d, 1e-3)
        # The difference bounds the truncation error; rounding errors are amplified by conditioning.
        tol = abs(D1 - D2) + 1e-6 * abs(D2) + 1e-7 * gmax + 1e-7 * max(m1, m2)
        err = abs(g @ d - D2)
        if not err <= tol:
            k = [n for n, b in zip(names, blocks(m, names, d)) if np.any(b != 0)]
            raise Violation(f"{name} ({', '.join(k[:3])}) of {case['s']['objective']} is {g @ d!r}, numerically {D2!r} (tolerance {tol:.3g})")
        worst = max(worst, err / tol)
    return info(np.any(y != 0) and gmax > 1e-3, s["kind"], case["s"]["objective"], "initial" if not any(case["eps"]) else "moved", f"far{case['s']['far']}", worst=worst)


def blocks(m, names, vec):
    """Split a vector per variable."""
    res, i = [], 0
    for n in names:
        k = int(np.prod(np.shape(arr(m.vs.get_latent_vector(n)))))
        res.append(vec[i : i + k])
        i += k
    return res


CHECK = Check(
    "C23",
    [
        Sub("grad", s_grad, r_grad, 150, 6000, shards=30,
            rule="for every model and every differentiable objective (mean-field, collapsed over z or u, structured with fixed "
            "random numbers, Gibbs with the final samples fixed), a random configuration, with random hyperparameters, factors and "
            "data: all entries of the gradient and a random direction against a fourth-order numerical derivative; non-trivial: "
            "non-zero data and gradient"),
    ],
    level_note="Random search; one configuration of sizes per model and objective and shard, because of compilation.",
    assumptions=["Inducing points stay at least the tolerances of other checks from ill-conditioning and singularities.",
                 "The gradient of the Gibbs objective is, by design, that for fixed final samples."],
)
