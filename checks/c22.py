"""C22: saving and loading."""
import os
import pickle
import tempfile

import numpy as np

from checks.c17 import scalar
from checks.c18 import pred
from checks.c35 import attributes
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close


def s_history(*uses):
    """What happens to a model before it is saved or loaded."""
    return st.fixed_dictionaries(
        dict(
            use=st.sampled_from(uses),
            eps=st.lists(grid(-0.4, 0.4, 16), min_size=4, max_size=4),
            fu=Y.factor(),
            fz=Y.factor(),
            samples=st.sampled_from([1, 2, 3, 4, 1000, 1200]),
            levels=st.integers(1, 2),
        )
    )


def s_trip():
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 3), n_z=(1, 4)),
            scheme=st.sampled_from(M.SCHEMES + ["structured"] * 3),
            flags=st.lists(st.booleans(), min_size=3, max_size=3),
            data=Y.data(1, 4),
            t=M.rel(2, 2),
            src=s_history("stored", "fit", "stored", "stored", "instantiated"),
            dst=s_history("fresh", "instantiated", "stored", "fit"),
            via=st.sampled_from(["model", "model", "instance"]),
            loads=st.sampled_from([1, 1, 2]),
            seed=st.integers(0, 10**6),
        )
    )


def rough_or_smooth(kw):
    return dict(zip(("fix_noise", "fix_window", "fix_scale"), kw))


def prepare(case, h, m, td, yd):
    """Give a model a history."""
    from probmods import fit

    if h["use"] == "fresh":
        return
    inst = m()
    if h["use"] == "instantiated":
        return
    # Learn hyperparameters.
    names = [n for n in m.vs.names if "q_" not in n]
    vec = arr(m.vs.get_latent_vector(*names))
    m.vs.set_latent_vector(jnp.asarray(vec + np.resize(h["eps"], len(vec))), *names)
    if h["use"] == "fit" and "structured" != case["scheme"]:
        # Fit, but always by coordinate ascent.
        other = M.build(case["m"], "mean-field-ca", **rough_or_smooth(case["flags"]))
        other.vs = m.vs
        fit(other, td, yd, iters=20)
        return
    for level in range(h["levels"] if case["scheme"] == "structured" else 1):
        inst = m()
        for _ in range(level):
            inst = inst.condition(td, yd)
        a = inst.approximation
        K_u, K_z = np.eye(inst.n_u), np.eye(inst.n_z)
        a.q_u, a.q_z = Y.natural(Y.gauss(h["fu"], K_u)), Y.natural(Y.gauss(h["fz"], K_z))
        if case["scheme"] == "structured":
            a.q_u_samples = [jnp.asarray(np.roll(Y.point(h["fu"]["mean"], K_u) + 0.1, i)[:, None]) * (i + 1) for i in range(h["samples"])]
            a.q_z_samples = [jnp.asarray(np.roll(Y.point(h["fz"]["mean"], K_z) + 0.1, i)[:, None]) * (i + 1) for i in range(h["samples"])]


def stored(m, case):
    """Everything a model has stored."""
    inst = m()
    res = attributes(inst)
    a = inst.approximation
    names = {n: True for n in m.vs.names}
    if any("q_u" in n for n in names):
        if any("prec" in n for n in names):
            for k in ("q_u", "q_z"):
                q = getattr(a, k)
                res[k + ".lam"], res[k + ".prec"] = arr(q.lam), arr(B.dense(q.prec))
        if case["scheme"] == "structured" and any("samples" in n for n in names):
            res["q_u.samples"], res["q_z.samples"] = arr(a.q_u_samples), arr(a.q_z_samples)
    return res


def answers(m, case, t, td, yd, factors, samples):
    """What a model answers."""
    res = {}
    if factors:
        B.set_random_seed(case["seed"])
        kw = dict(num_samples=3) if case["scheme"] == "structured" else {}
        if case["scheme"] == "structured":
            inst = m()
            _, v = inst.approximation.elbo_collapsed_z(B.create_random_state(jnp.float64, seed=3), jnp.asarray(td), jnp.asarray(yd), **kw)
            res["elbo"] = np.asarray(scalar(v, "ELBO"))
        else:
            res["elbo"] = np.asarray(scalar(m.elbo(td, yd), "ELBO"))
    post = m.condition(td, yd)
    if (case["scheme"] == "structured" and samples) or (case["scheme"] != "structured" and factors):
        res["mean"], res["var"] = pred(post, t, np.asarray)
        for what in ("kernel", "fourier"):
            B.set_random_seed(case["seed"])
            if what == "kernel":
                ks = post.sample_kernel(np.linspace(0, 1, 3) * case["m"]["T"], num_samples=3)[1]
                res["kernel"] = arr(ks)
            else:
                a, b = post.predict_fourier()
                res["fourier mean"], res["fourier var"] = arr(a), arr(b)
    return res


def compare(a, b, what, rtol=1e-6):
    check(sorted(a) == sorted(b), f"{what}: stored {sorted(a)}, expected {sorted(b)}")
    w = 0.0
    for k in b:
        check(a[k].shape == b[k].shape, f"{what}: shape of {k} is {a[k].shape}, expected {b[k].shape}")
        scale = np.max(np.abs(b[k])) if b[k].size else 0.0
        w = max(w, close(a[k], b[k], f"{what}: {k}", rtol=rtol, scale=scale, atol=1e-12))
    return w


def raw(m):
    return {n: arr(B.dense(m.vs[n])) for n in m.vs.names}


def conditioned(m, res):
    """Whether all matrices are well-conditioned."""
    inst = m()
    Ks = [arr(B.dense(inst.K_u)), arr(B.dense(inst.K_z))] + [v for k, v in res.items() if k.endswith("prec")]
    return all(np.linalg.cond(K) < 1e7 for K in Ks)


def r_trip(case):
    s = case["m"]
    td, yd = M.times(s, case["data"][0]), np.array(case["data"][1])
    t = M.times(s, case["t"])
    if Y.terms(s, td) is None:
        return info(False, "ill-conditioned")
    kw = rough_or_smooth(case["flags"])
    if s["kind"] == "RGPCM":
        # Inducing points move: keep inputs within the domain of the rough model.
        b = M.params(s)["b"]
        t, td = 0.5 * (t + b), 0.5 * (td + b)
    src, dst = M.build(s, case["scheme"], **kw), M.build(s, case["scheme"], **kw)
    with M.epsilon(0.0), tempfile.TemporaryDirectory() as d:
        prepare(case, case["src"], src, td, yd)
        prepare(case, case["dst"], dst, td[::-1] * 1.0, -yd)
        before, values = stored(src, case), raw(src)
        if not all(np.all(np.isfinite(v)) for v in before.values()):
            return info(False, "ill-conditioned")
        factors = any("prec" in n for n in values)
        samples = any("samples" in n for n in values)
        ok = conditioned(src, before)
        want = answers(src, case, t, td, yd, factors, samples) if ok else {}
        values = raw(src)
        path = os.path.join(d, "model.pickle")
        (src() if case["via"] == "instance" else src).save(path)
        # Saving does not change the model.
        after = raw(src)
        check(sorted(after) == sorted(values), f"saving changed the parameters to {sorted(after)}")
        for k in values:
            check(np.array_equal(after[k], values[k], equal_nan=True), f"saving changed {k}")
        compare(stored(src, case), before, "the model after saving", rtol=1e-13)
        check(os.listdir(d) == ["model.pickle"], f"files after saving: {os.listdir(d)}")
        for _ in range(case["loads"]):
            (dst() if case["via"] == "instance" else dst).load(path)
        got = stored(dst, case)
        w = compare({k: v for k, v in got.items() if k in before}, before, "loaded model")
        # The loaded values, for everything that was saved.
        now = raw(dst)
        for k, v in values.items():
            check(k in now, f"{k} was not loaded")
            check(now[k].shape == v.shape, f"shape of the loaded {k} is {now[k].shape}, expected {v.shape}")
            check(now[k].dtype == v.dtype, f"loaded {k} is of type {now[k].dtype}, expected {v.dtype}")
            # Parameters go through the transforms of their constraints.
            rtol = 1e-13 if "samples" in k else 1e-7
            close(now[k], v, f"loaded {k}", rtol=rtol, scale=np.max(np.abs(v)), atol=1e-12)
        if ok:
            reply = answers(dst, case, t, td, yd, factors, samples)
            for k in want:
                scale = np.max(np.abs(want[k]))
                close(reply[k], want[k], f"{k} of the loaded model", rtol=1e-4, scale=scale, atol=1e-9)
        # Again.
        path2 = os.path.join(d, "again.pickle")
        dst.save(path2)
        third = M.build(s, case["scheme"], **kw)
        third.load(path2)
        last = raw(third)
        for k, v in values.items():
            close(last[k], v, f"{k} after saving and loading again", rtol=1e-7, scale=np.max(np.abs(v)), atol=1e-12)
    nontrivial = case["src"]["use"] not in ("fresh", "instantiated") and ok
    return info(nontrivial, s["kind"], case["scheme"], f"{case['src']['use']}->{case['dst']['use']}", "answers" if len(want) > 1 else "no answers", worst=w)


CHECK = Check(
    "C22",
    [
        Sub("trip", s_trip, r_trip, 64, 8000, shards=8,
            rule="random models and schemes with random histories (fresh, instantiated, with changed hyperparameters and factors or "
            "samples, conditioned twice, fitted) of the saved and the loading one: parameters, factors, samples, ELBO, "
            "predictions, kernel and feature predictions, and saving again; non-trivial: something was learned, and answers "
            "are finite"),
    ],
    level_note="Random search; samples agree to 1e-13, parameters to 1e-7, and answers to 1e-4 (unconstrained values lose some precision).",
    assumptions=["The saved model has been used: before that, it has no parameters to save."],
)
