"""C34: a structured fit stores Gibbs samples of its own approximate posterior."""
import numpy as np

from checks.c35 import attributes
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check


def case(**kw):
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 4)),
            data=Y.data(1, 6),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            lib=st.sampled_from(["numpy", "jax"]),
            **kw,
        )
    )


def s_plain():
    return case(iters=st.sampled_from([2, 7, 50, 50, 1000, 2500]), before=st.sampled_from(["nothing", "nothing", "fit", "samples", "factor"]),
                eps=st.lists(grid(-0.4, 0.4, 16), min_size=4, max_size=4), f=Y.factor())


def s_learn():
    return case(iters=st.sampled_from([10, 20]), rate=st.sampled_from([0.1, 0.3]), hypers=st.sampled_from(["default", "default", "yes", 3]), num=st.sampled_from([1, 5, 5]))


def reference(s, m, t):
    """Reference at the current parameters of a model, or `None` if ill-conditioned."""
    from vp.refs_bayes import Terms

    a = attributes(m())
    p = M.params(s)
    for k in p:
        if k in a and k not in ("m_max", "ms"):
            p[k] = a[k] if a[k].ndim else float(a[k])
    if s["kind"] == "RGPCM" and abs(p["lam"] - p["alpha"] + p["gamma"]) < 1e-3 * p["lam"]:
        # A removable singularity.
        return None
    try:
        r = Terms(p, t)
    except (np.linalg.LinAlgError, FloatingPointError, ValueError):
        return None
    return r if np.isfinite(r.hx) and r.cond() <= Y.COND else None


def verify(case, m, s, t, y, successive):
    """Whiten the samples."""
    from vp.stats import white
    from vp.refs_bayes import Point

    R = reference(s, m, t)
    if R is None:
        return False
    a = m().approximation
    us, zs = arr(a.q_u_samples), arr(a.q_z_samples)
    n_u, n_z = len(R.K_u), len(R.K_z)
    check(us.shape == (n_u, 1000), f"samples of u have shape {us.shape}, expected {(n_u, 1000)}")
    check(zs.shape == (n_z, 1000), f"samples of z have shape {zs.shape}, expected {(n_z, 1000)}")
    check(np.all(np.isfinite(us)) and np.all(np.isfinite(zs)), "samples are not finite")

    def res(q, x):
        return np.linalg.cholesky(q.prec).T @ (x - q.mean)

    rz = np.array([res(R.q_z(y, Point(u)), z) for u, z in zip(us.T, zs.T)])
    white(rz, "samples of z given those of u")
    if successive:
        ru = np.array([res(R.q_u(y, Point(z)), u) for z, u in zip(zs.T[:-1], us.T[1:])])
        white(ru, "samples of u given the previous ones of z")
        # Successive draws of different variables are independent.
        white(np.concatenate([rz[:-1], ru, rz[1:]], axis=1)[::2], "samples")
    else:
        # Samples do not repeat.
        check(len(np.unique(us[0])) == 1000, f"there are {len(np.unique(us[0]))} different samples of u")
    return True


def prepare(case):
    s = case["m"]
    t, y = M.times(s, case["data"][0]), np.array(case["data"][1])
    if s["kind"] == "RGPCM":
        # Inducing points move: keep inputs within the domain.
        t = 0.5 * (t + M.params(s)["b"])
    m = M.build(s, "structured", **dict(zip(("fix_noise", "fix_window", "fix_scale"), case["flags"])))
    lib = np.asarray if case["lib"] == "numpy" else jnp.asarray
    return s, t, y, m, lib


def r_plain(case):
    s, t, y, m, lib = prepare(case)
    if reference(s, m, t) is None:
        return info(False, "ill-conditioned")
    if case["before"] == "fit":
        m.fit(lib(t[::-1] * 1.0), lib(1 - 2 * y), iters=4, optimise_hypers=False)
    elif case["before"] == "samples":
        # Other hyperparameters than the initial ones, and stored samples.
        inst = m()
        names = [n for n in m.vs.names if "q_" not in n]
        vec = arr(m.vs.get_latent_vector(*names))
        m.vs.set_latent_vector(jnp.asarray(vec + np.resize(case["eps"], len(vec))), *names)
        if reference(s, m, t) is None:
            return info(False, "ill-conditioned")
        a = inst.approximation
        a.q_u_samples = [jnp.ones((inst.n_u, 1))] * 3
        a.q_z_samples = [jnp.ones((inst.n_z, 1))] * 3
    elif case["before"] == "factor":
        inst = m()
        f = Y.gauss(case["f"], arr(B.dense(inst.K_u)))
        inst.approximation.q_u = Y.natural(f)
    m.fit(lib(t), lib(y), iters=case["iters"], optimise_hypers=False)
    ok = verify(case, m, s, t, y, case["iters"] < 2000)
    return info(ok and np.any(y != 0), s["kind"], case["before"], f"iters{case['iters']}")


def r_learn(case):
    s, t, y, m, lib = prepare(case)
    if reference(s, m, t) is None:
        return info(False, "ill-conditioned")
    before = attributes(m())
    kw = {} if case["hypers"] == "default" else dict(optimise_hypers=True if case["hypers"] == "yes" else case["hypers"])
    m.fit(lib(t), lib(y), iters=case["iters"], rate=case["rate"], num_samples=case["num"], **kw)
    after = attributes(m())
    moved = max(np.max(np.abs(after[k] / before[k] - 1)) for k in ("alpha_t", "noise", "alpha"))
    ok = verify(case, m, s, t, y, True)
    return info(ok and moved > 0.1, s["kind"], "moved" if moved > 0.1 else "not moved", "verified" if ok else "ill-conditioned")


CHECK = Check(
    "C34",
    [
        Sub("plain", s_plain, r_plain, 40, 1500, shards=8,
            rule="random models and data, fits without learning, of fresh models, of models with learned parameters, samples or "
            "factors, and of models fitted to other data: all stored samples, whitened by the optimal conditionals of the "
            "reference, are independent standard normal; non-trivial: non-zero data"),
        Sub("learn", s_learn, r_learn, 8, 300, shards=8,
            rule="as above, while learning hyperparameters with a large rate, under the final hyperparameters; non-trivial: a "
            "hyperparameter moved by more than 10%"),
    ],
    level_note="Random search; the false-alarm probability of the statistical tests is below 1e-7 per case.",
    assumptions=["At least two iterations.", "Models which become ill-conditioned while learning are not decided."],
)
