"""C19: conditioning, evaluating and predicting do not disturb the model."""
import os
import tempfile

import numpy as np

from checks.c35 import attributes
from vp import bayes as Y
from vp import models as M
from vp.core import Check, Sub, info
from vp.lazy import B, jnp, st
from vp.models import grid
from vp.num import arr, check, close

READS = ["predict", "sample_kernel", "predict_kernel", "predict_psd", "predict_filter", "predict_fourier", "sample", "elbo", "approx"]
DISTURB = ["instantiate", "condition", "condition_inst", "save", "condition_other"]
TARGETS = ["model", "post", "post", "inst", "inst", "inst"]


def s_ops(schemes):
    # Few different operations, so that they are repeated.
    reads = lambda pool: st.tuples(st.sampled_from(pool), st.integers(0, 1), st.sampled_from(TARGETS))  # noqa
    disturb = st.tuples(st.sampled_from(DISTURB), st.integers(0, 1), st.sampled_from(["model", "post"]))
    pool = st.lists(st.sampled_from(READS), min_size=2, max_size=3, unique=True)
    ops = pool.flatmap(lambda p: st.lists(st.one_of(reads(p), reads(p), reads(p), disturb), min_size=3, max_size=8))
    return st.fixed_dictionaries(
        dict(
            m=Y.model(scales=M.MODERATE, n_u=(1, 2), n_z=(1, 3), m_max=(1, 1)),
            scheme=st.sampled_from(schemes),
            data=Y.data(2, 2),
            t=M.rel(2, 2),
            eps=st.lists(grid(-0.25, 0.25, 16), min_size=6, max_size=6),
            fu=Y.factor(),
            fz=Y.factor(),
            us=st.lists(grid(-2, 2, 8), min_size=12, max_size=12),
            fit=st.sampled_from([False, False, False, True]),
            ops=ops,
            order=st.integers(0, 10**6),
            seed=st.integers(0, 1000),
        )
    )


def s_mf():
    return s_ops([x for x in M.SCHEMES if x != "structured"])


def s_st():
    return s_ops(["structured"])


def raw(m):
    return {n: arr(B.dense(m.vs[n])) for n in m.vs.names}


class World:
    """A fitted model, and everything that is derived from it."""

    def __init__(self, case):
        s = case["m"]
        self.case, self.s = case, s
        self.structured = case["scheme"] == "structured"
        self.t, self.td, self.yd = M.times(s, case["t"]), M.times(s, case["data"][0]), np.array(case["data"][1])
        if s["kind"] == "RGPCM":
            # Inducing points move: keep inputs within the domain.
            b = M.params(s)["b"]
            self.t, self.td = 0.5 * (self.t + b), 0.5 * (self.td + b)
        self.m = M.build(s, case["scheme"])
        B.set_random_seed(case["seed"])
        inst = self.m()
        names = list(self.m.vs.names)
        vec = arr(self.m.vs.get_latent_vector(*names))
        self.m.vs.set_latent_vector(jnp.asarray(vec + np.resize(case["eps"], len(vec))), *names)
        inst = self.m()
        Ks = [arr(B.dense(inst.K_u)), arr(B.dense(inst.K_z))]
        self.ok = all(np.all(np.isfinite(K)) and np.linalg.cond(K) < 1e4 for K in Ks)
        if s["kind"] == "RGPCM":
            al, la, ga = (float(arr(getattr(inst, k))) for k in ("alpha", "lam", "gamma"))
            self.ok = self.ok and abs(la - al + ga) > 0.02 * la
        if not self.ok:
            return
        if case["fit"] and not self.structured:
            other = M.build(s, "mean-field-ca")
            other.vs = self.m.vs
            other.fit(jnp.asarray(self.td), jnp.asarray(self.yd), iters=20)
        elif case["fit"]:
            self.m.fit(jnp.asarray(self.td), jnp.asarray(self.yd), iters=4, optimise_hypers=False)
        else:
            a = inst.approximation
            a.q_u, a.q_z = Y.natural(Y.gauss(case["fu"], Ks[0])), Y.natural(Y.gauss(case["fz"], Ks[1]))
            if self.structured:
                a.q_u_samples = [jnp.asarray(Y.point(np.roll(case["us"], i), Ks[0])[:, None]) for i in range(3)]
                a.q_z_samples = [jnp.asarray(Y.point(np.roll(case["us"], i + 5), Ks[1])[:, None]) for i in range(3)]
        self.post = self.m.condition(jnp.asarray(self.td), jnp.asarray(self.yd))
        self.inst = self.post()
        self.answers = {}
        # The stored state: hyperparameters and posterior.
        self.state = raw(self.m)
        self.attributes = attributes(self.m())

    def read(self, name, var, target):
        if self.structured and target == "model" and name == "predict":
            # A structured model must be conditioned to predict. This also tells priors from posteriors.
            name = "predict_fourier"
        x = dict(model=self.m, post=self.post, inst=self.inst)[target]
        T = self.s["T"]
        t = self.t if var == 0 else self.t[::-1] + 0.0
        kw = dict(num_samples=2 + var)
        B.set_random_seed(self.case["seed"] + var)
        np.random.seed(self.case["seed"] + var)
        if name == "predict":
            return list(x.predict(jnp.asarray(t), **(kw if self.structured else {})))
        if name == "sample_kernel":
            return list(x.sample_kernel(t_k=np.array([0.0, 0.5, 1.0]) * T, **kw))
        if name == "predict_kernel":
            p = x.predict_kernel(t_k=np.array([0.0, 0.5, 1.0]) * T, **kw)
            return [p.x, p.mean, p.var, p.err_95_lower, p.err_95_upper, p.samples, p.all_samples]
        if name == "predict_psd":
            p = x.predict_psd(t_k=np.array([0.0, 0.5, 1.0]) * T, **kw)
            return [p.x, p.mean, p.err_95_lower, p.err_95_upper]
        if name == "predict_filter":
            p = x.predict_filter(t_h=np.array([0.1, 0.4, 0.9]) * T, min_phase=bool(var), **kw)
            return [p.x, p.mean, p.var, p.all_samples]
        if name == "predict_fourier":
            return list(x.predict_fourier(**kw))
        if name == "sample":
            return list(self.m.sample(jnp.asarray(t), normalise=bool(var)))
        if name == "approx":
            return [x.kernel_approx(jnp.asarray(t), jnp.asarray(t), jnp.ones(int(arr(self.inst.n_u))) * (1 + var))]
        if name == "elbo":
            kw = kw if self.structured else (dict(collapsed="z") if var else {})
            return [x.elbo(jnp.asarray(self.td), jnp.asarray(self.yd), **kw)]
        raise AssertionError(name)

    def disturb(self, name, var, target):
        x = dict(model=self.m, post=self.post)[target]
        td, yd = jnp.asarray(self.td[::-1] + 0.0), jnp.asarray(2 * self.yd - 1)
        if name == "instantiate":
            x()
        elif name == "condition":
            x.condition(td, yd)
        elif name == "condition_other":
            # A posterior of other data, which is used.
            p = x.condition(td, yd)
            p.condition(td, yd)()
            if target == "model":
                p.predict(jnp.asarray(self.t), **(dict(num_samples=1) if self.structured else {}))
        elif name == "condition_inst":
            x().condition(td, yd)
        elif name == "save":
            with tempfile.TemporaryDirectory() as d:
                x.save(os.path.join(d, "m.pickle"))

    def comparable(self, name, target):
        # The structured ELBO fits mean-field factors, from wherever they are.
        return not (self.structured and name == "elbo")

    def verify(self, what, relaxed):
        now = raw(self.m)
        for k, v in self.state.items():
            check(k in now, f"{what}: {k} disappeared")
            if relaxed and "q_" in k and "samples" not in k:
                continue
            check(now[k].shape == v.shape and np.array_equal(now[k], v), f"{what}: {k} changed from {v} to {now[k]}")
        for n, x in (("the model", self.m), ("the posterior", self.post)):
            got = attributes(x())
            for k, v in self.attributes.items():
                check(np.array_equal(got[k], v), f"{what}: {k} of {n} changed from {v} to {got[k]}")

    def ask(self, op, what):
        name, var, target = op
        res = [arr(x) for x in self.read(name, var, target)]
        if not self.comparable(name, target):
            return
        # It does not matter whether a posterior is instantiated.
        key = (name, var, "-" if name == "sample" else "post" if target == "inst" else target)
        if key in self.answers:
            for i, (a, b) in enumerate(zip(res, self.answers[key])):
                # Compare what is not finite too.
                check(a.shape == b.shape, f"{what}: shape of output {i} of {key} is {a.shape}, and was {b.shape} before")
                good = np.isfinite(b)
                check(np.array_equal(np.isfinite(a), good), f"{what}: output {i} of {key} is {a}, and was {b} before")
                close(a[good], b[good], f"{what}: output {i} of {key}", rtol=1e-9, scale=np.max(np.abs(b[good]), initial=0.0))
        else:
            self.answers[key] = res


def r_ops(case):
    w = World(case)
    if not w.ok:
        return info(False, "ill-conditioned")
    asked = []
    relaxed = False
    # Before anything, what the model and the posterior predict.
    for target in ("model", "post"):
        w.ask(("predict", 0, target), "initially")
    for i, op in enumerate(case["ops"]):
        op = tuple(op)
        what = f"after {i} operations, {op[0]} of the {op[2]}"
        if op[0] in DISTURB:
            w.disturb(*op)
        else:
            relaxed = relaxed or (w.structured and op[0] == "elbo")
            w.ask(op, what)
            asked.append(op)
        w.verify(what, relaxed)
    # Again, in any order.
    again = list(dict.fromkeys(asked))
    np.random.RandomState(case["order"]).shuffle(again)
    # An instance must not remember, so also ask for something else in between.
    names = [op[0] for op in again if op[0] != "sample"][:1]
    more = [(n, v, x) for n in names for v, x in ((0, "inst"), (1, "inst"), (1, "post"), (0, "post"), (0, "inst"))]
    for op in again[:2] + more + [("predict", 0, "model"), ("predict", 0, "post")]:
        w.ask(tuple(op), f"after all operations, {op[0]} of the {op[2]}")
    w.verify("after all", relaxed)
    kinds = {op[0] for op in case["ops"]}
    return info(len(kinds) >= 2, case["m"]["kind"], "fitted" if case["fit"] else "stored", *sorted("op-" + k for k in kinds))


CHECK = Check(
    "C19",
    [
        Sub("mean-field", s_mf, r_ops, 22, 1500, shards=4,
            rule="random mean-field models with learned hyperparameters and factors, and random sequences of 3 to 8 predictions, "
            "samples, ELBOs, instantiations, conditionings and savings of the model, its posterior and an instance of it: after "
            "every operation no bit of parameters and posterior changes, repeated operations with the same seed agree, and all "
            "operations agree when repeated in another order at the end; non-trivial: two different operations"),
        Sub("structured", s_st, r_ops, 22, 1500, shards=4,
            rule="as above, for structured models with stored samples; the structured ELBO may change the mean-field factors that it "
            "is documented to fit"),
    ],
    level_note="Random search.",
    assumptions=["Conditioning an instance mutates the instance (this is how probmods works)."],
)
