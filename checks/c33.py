"""C33: the experiment harness."""
import contextlib
import os
import shutil
import sys
import tempfile

import numpy as np

from checks.c22 import raw
from checks.c35 import attributes
from vp import env
from vp import models as M
from vp.core import Check, Sub, Violation, info
from vp.lazy import B, G, jnp, st
from vp.models import grid
from vp.num import arr, check, close, raises

ORDER = ["gpcm", "cgpcm", "gprv"]
CLASSES = {"gpcm": "GPCM", "cgpcm": "CGPCM", "gprv": "RGPCM"}


@contextlib.contextmanager
def sandbox(argv=None):
    """A scratch working directory, and everything the harness redirects put back."""
    import matplotlib.pyplot as plt
    import wbml.out

    ex = env.load_experiments()
    cwd, d = os.getcwd(), tempfile.mkdtemp(prefix="vp_c33_")
    saved = sys.argv, sys.stdout, sys.stderr, list(wbml.out.streams)
    try:
        os.chdir(d)
        # Not a repository: nothing to report the difference to.
        sys.argv = ["script.py"] + list(argv or [])
        with open(os.devnull, "w") as null:
            sys.stderr = null
            yield ex, d
    finally:
        os.chdir(cwd)
        sys.argv, sys.stdout, sys.stderr = saved[:3]
        wbml.out.streams[:] = saved[3]
        plt.close("all")
        shutil.rmtree(d)


def s_settings(tiny=False):
    t = st.tuples(st.integers(4, 6) if tiny else st.integers(2, 12), grid(-4, 4, 8), grid(1, 3, 8))
    return dict(
        window=grid(0.75, 2, 8) if tiny else grid(0.5, 4, 8),
        ratio=st.sampled_from([1.25, 1.5]) if tiny else st.sampled_from([1.0625, 1.5, 2.0, 3.7, 8.0]),
        noise=st.sampled_from([0.05, 0.5, 2]),
        t=t,
        lib=st.sampled_from(["numpy", "jax"]),
        fix=st.booleans(),
        n_u=st.sampled_from([2, 3]) if tiny else st.one_of(st.none(), st.integers(2, 20)),
        n_z=st.sampled_from([3, 4]) if tiny else st.one_of(st.none(), st.integers(2, 21)),
        extend=st.booleans(),
    )


def settings(case):
    """Settings of an experiment."""
    n, lo, span = case["t"]
    scale = case["window"] / case["ratio"]
    # The data should span two length scales, for there to be two inducing points.
    t = lo + np.linspace(0, max(span, 2 * scale), n)
    if case["lib"] == "jax":
        t = jnp.asarray(t)
    return dict(noise=case["noise"], window=case["window"], scale=scale, t=t, n_u=case["n_u"], n_z=case["n_z"], fix_window_scale=case["fix"], extend_t_z=case["extend"])


def direct(name, scheme, s):
    """The model that the harness is documented to construct."""
    kw = {k: s[k] for k in ("noise", "window", "scale", "t", "n_u")}
    kw.update(scheme=scheme, fix_window=s["fix_window_scale"], fix_scale=s["fix_window_scale"])
    if name == "gprv":
        # Two features per frequency.
        kw["m_max"] = (s["n_z"] + 1) // 2 if s["n_z"] else None
    else:
        kw.update(n_z=s["n_z"], extend_t_z=s["extend_t_z"])
    return getattr(G, CLASSES[name])(**kw)


def flags(m):
    """Which parameters are learned."""
    m()
    return {n: bool(v) for n, v in learned(m).items()}


def learned(m):
    """Parameters which move if all latent variables move."""
    before = attributes(m())
    names = [n for n in m.vs.names if "q_" not in n]
    vec = arr(m.vs.get_latent_vector(*names)) if names else np.zeros(0)
    old = m.vs
    try:
        m.vs = m.vs.copy()
        if names:
            m.vs.set_latent_vector(jnp.asarray(vec + 0.1 + 0.01 * np.arange(len(vec))), *names)
        after = attributes(m())
    finally:
        m.vs = old
    return {k: not np.array_equal(before[k], after[k]) for k in before}


def check_models(models, names, scheme, s, what):
    want = [n for n in ORDER if n in names]
    got = [type(m).__name__ for m in models]
    check(got == [CLASSES[n] for n in want], f"{what}: built {got}, requested {names}")
    for n, m in zip(want, models):
        ref = direct(n, scheme, s)
        a, b = attributes(m), attributes(ref)
        for k in b:
            check(a[k].shape == b[k].shape, f"{what}: {n}: shape of {k} is {a[k].shape}, expected {b[k].shape}")
            close(a[k], b[k], f"{what}: {n}: {k}", rtol=1e-12)
        check(m.scheme == ref.scheme, f"{what}: {n}: scheme is {m.scheme!r}, expected {ref.scheme!r}")
        check(m.name == ref.name, f"{what}: name {m.name!r}, expected {ref.name!r}")


def s_names():
    return st.lists(st.sampled_from(ORDER), min_size=1, max_size=3, unique=True)


def s_build():
    return st.fixed_dictionaries(
        dict(
            names=s_names(),
            scheme=st.sampled_from(M.SCHEMES),
            upper=st.booleans(),
            container=st.sampled_from(["list", "list", "tuple", "set"]),
            unknown=st.one_of(st.none(), st.none(), st.sampled_from(["rgpcm", "gp-rv", "GPCM", "", "gp", "gpc", "cgpcm "])),
            where=st.integers(0, 3),
            **s_settings(),
        )
    )


def r_build(case):
    s = settings(case)
    scheme = case["scheme"].upper() if case["upper"] else case["scheme"]
    names = list(case["names"])
    with sandbox() as (ex, d):
        build = lambda names: ex.build_models(names, scheme=scheme, y=np.zeros(len(s["t"])), **s)
        if case["unknown"] is not None:
            names.insert(case["where"], case["unknown"])
            raises(lambda: build(names), ValueError, f"names {names}")
            raises(lambda: build([case["unknown"]]), ValueError, f"names {case['unknown']!r}")
            return info(True, "unknown")
        given = {"list": list, "tuple": tuple, "set": set}[case["container"]](names)
        models = build(given)
        check(given == {"list": list, "tuple": tuple, "set": set}[case["container"]](names), "names modified")
        check_models(models, names, scheme, s, "construction")
        if len(s["t"]) <= 6 and (case["n_z"] or 99) <= 6:
            for n, m in zip([n for n in ORDER if n in names], models):
                ref = direct(n, scheme, s)
                a, b = flags(m), flags(ref)
                check(a == b, f"{n}: learned parameters {a}, expected {b}")
                if case["fix"]:
                    check(not a["alpha"], f"{n}: the window is not fixed")
                    check(not a["lam" if n == "gprv" else "omega"] or n != "gprv", f"{n}: the length scale is not fixed")
        check(os.listdir(d) == [], f"construction wrote {os.listdir(d)}")
    return info(len(names) > 1 or case["n_z"] is not None, f"names{len(names)}", "fixed" if case["fix"] else "free")


def s_setup():
    return st.fixed_dictionaries(
        dict(
            seed=st.one_of(st.none(), st.integers(0, 10**6)),
            iters=st.one_of(st.none(), st.integers(1, 10**4)),
            scheme=st.one_of(st.none(), st.sampled_from(M.SCHEMES)),
            load=st.booleans(),
            fix=st.booleans(),
            model=st.one_of(st.none(), s_names()),
            path=st.lists(st.sampled_from(["a", "b1", "some_dir"]), max_size=2),
            first=st.booleans(),
            order=st.permutations(list(range(6))),
            bad=st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["rgpcm", "GPCM", "all"])),
        )
    )


def arguments(case):
    parts = [
        [] if case["seed"] is None else ["--seed", str(case["seed"])],
        [] if case["iters"] is None else ["--iters", str(case["iters"])],
        [] if case["scheme"] is None else ["--scheme", case["scheme"]],
        ["--load"] if case["load"] else [],
        ["--fix-hypers"] if case["fix"] else [],
        [] if case["model"] is None else ["--model"] + case["model"] + ([case["bad"]] if case.get("bad") else []),
    ]
    opts = [parts[i] for i in case["order"]]
    if case["first"]:
        return case["path"] + sum(opts, [])
    # A list of models would swallow a path.
    opts.sort(key=lambda p: p[:1] != ["--model"])
    if opts[0] and not any(opts[1:]):
        return case["path"] + opts[0]
    return sum(opts, []) + case["path"]


def r_setup(case):
    argv = arguments(case)
    with sandbox(argv) as (ex, d):
        if case["bad"] and case["model"]:
            try:
                ex.setup("test")
            except SystemExit as e:
                check(e.code not in (0, None), f"exit code {e.code} for {argv}")
                return info(True, "refused")
            raise Violation(f"arguments {argv} were accepted")
        args, wd = ex.setup("test")
        default = dict(seed=0, iters=None, scheme="structured", load=False, fix_hypers=False)
        for k, c in (("seed", "seed"), ("iters", "iters"), ("scheme", "scheme"), ("load", "load"), ("fix_hypers", "fix")):
            want = default[k] if case[c] is None else case[c]
            check(getattr(args, k) == want, f"{argv}: {k} is {getattr(args, k)!r}, expected {want!r}")
        want = set(ORDER if case["model"] is None else case["model"])
        check(set(args.model) == want, f"{argv}: models are {args.model}, expected {want}")
        # Everything goes to the directory of the experiment.
        draw = np.random.rand(3)
        state = B.global_random_state(jnp.float64)
        _, draw2 = B.randn(state, jnp.float64, 3)
        root = os.path.join(d, "_experiments", "test", *case["path"])
        f = wd.file("models", "x.pickle")
        check(os.path.dirname(os.path.abspath(f)) == os.path.join(os.path.realpath(root), "models") or os.path.dirname(os.path.abspath(f)) == os.path.join(root, "models"), f"{argv}: files are in {f}")
        # The seed determines all randomness.
        B.set_random_seed(0 if case["seed"] is None else case["seed"])
        check(np.array_equal(draw, np.random.rand(3)), f"{argv}: the seed is not set for NumPy")
        _, ref = B.randn(B.global_random_state(jnp.float64), jnp.float64, 3)
        check(np.array_equal(arr(draw2), arr(ref)), f"{argv}: the seed is not set for JAX")
    return info(any(case[k] is not None for k in ("seed", "iters", "scheme", "model")), "accepted", f"paths{len(case['path'])}")


def config(kind, iters):
    return {"plain": dict(iters=iters), "fixed": dict(iters=iters, optimise_hypers=False)}[kind]


def observations(case, s):
    rng = np.random.RandomState(case["y"])
    y = rng.randn(len(s["t"]))
    return jnp.asarray(y) if case["lib"] == "jax" else y


def answers(m, s, y):
    """What a fitted model predicts."""
    B.set_random_seed(7)
    post = m.condition(s["t"], y)
    mean, var = post.predict(s["t"])
    return arr(mean), arr(var)


def same_fit(m, ref, what, rtol=1e-6):
    a, b = raw(m), raw(ref)
    check(sorted(a) == sorted(b), f"{what}: variables {sorted(a)}, expected {sorted(b)}")
    for k in b:
        check(a[k].shape == b[k].shape, f"{what}: shape of {k} is {a[k].shape}, expected {b[k].shape}")
        scale = np.max(np.abs(b[k])) if b[k].size else 0
        close(a[k], b[k], f"{what}: {k}", rtol=rtol, scale=scale)


def check_fit(m, n, scheme, s, y, conf, seed, alone, what):
    """Compare a model with one fitted directly. Initial factors are random: only if the
    model is alone, it is certain with what it started."""
    ref = direct(n, scheme, s)
    if alone:
        B.set_random_seed(seed)
        ref()
        ref.fit(s["t"], y, **conf)
        same_fit(m, ref, what)
        return
    init = attributes(ref)
    now = attributes(m())
    for k in init:
        close(now[k], init[k], f"{what}: {k}, which is not learned", rtol=1e-9, scale=np.max(np.abs(init[k])))
    a = m().approximation
    if scheme == "structured":
        for k in ("q_u_samples", "q_z_samples"):
            got = arr(getattr(a, k))
            check(got.ndim == 2 and got.shape[1] == 1000 and np.all(np.isfinite(got)), f"{what}: {k} have shape {got.shape}")
    else:
        # The last update is that of `z`, or of `u`.
        q = m().approximation
        ts = q.construct_terms(jnp.asarray(s["t"]), jnp.asarray(y))
        diffs = []
        for got, opt in ((q.q_u, q.q_u_optimal_mean_field(ts, q.q_z)), (q.q_z, q.q_z_optimal_mean_field(ts, q.q_u))):
            x, z = arr(got.lam), arr(opt.lam)
            diffs.append(np.max(np.abs(x - z)) / (np.max(np.abs(z)) + 1e-300))
        check(min(diffs) < 1e-6, f"{what}: neither factor is optimal given the other: {diffs}")


def same_answers(m, ref, s, y, what):
    for k, x, z in zip(("mean", "variance"), answers(m, s, y), answers(ref, s, y)):
        close(x, z, f"{what}: predicted {k}", rtol=1e-6, scale=np.max(np.abs(z)))


class Folder:
    """The working directory."""

    def __init__(self, root):
        self.root = root

    def file(self, *name, exists=False):
        path = os.path.join(self.root, *name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        return path


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


SCHEMES = [("structured", "fixed"), ("mean-field-ca", "plain")]


def s_train(k, shards):
    # Fits take long: divide the schemes.
    return st.fixed_dictionaries(
        dict(
            names=s_names().filter(lambda x: len(x) < 3),
            how=st.sampled_from(SCHEMES[k % 2 :][:1] if shards > 1 else SCHEMES),
            iters=st.sampled_from([2, 5, 30]),
            y=st.integers(0, 10**6),
            wd=st.sampled_from([True, True, True, False]),
            reload=st.integers(1, 2),
            noise2=st.sampled_from([0.1, 0.7]),
            used=st.booleans(),
            seed=st.integers(0, 100),
            **s_settings(tiny=True),
        )
    )


def r_train(case):
    s = settings(case)
    y = observations(case, s)
    scheme, kind = case["how"]
    conf = config(kind, case["iters"])
    names = case["names"]
    want = [n for n in ORDER if n in names]
    with sandbox() as (ex, d):
        build = lambda **kw: ex.build_models(names, scheme=scheme, y=y, **{**s, **kw})
        models = build()
        given = dict(conf)
        wd = Folder(os.path.join(d, "wd")) if case["wd"] else None
        B.set_random_seed(case["seed"])
        ex.train_models(models, s["t"], y, given, False, **({} if wd is None else dict(wd=wd)))
        check(given == conf, f"training configuration changed to {given}")
        expected = [os.path.join("wd", "models", m.name + ".pickle") for m in models] if case["wd"] else []
        check(files(d) == sorted(expected), f"training wrote {files(d)}, expected {expected}")
        for n, m in zip(want, models):
            check_fit(m, n, scheme, s, y, conf, case["seed"], len(want) == 1, f"{n} trained by the harness")
        refs = models
        if wd is None:
            return info(True, "no directory", scheme)
        stamps = {f: open(os.path.join(d, f), "rb").read() for f in files(d)}
        # A later run, possibly with other initial values and only some of the models.
        names = names if case["reload"] == 1 else names[:1]
        fresh = build(noise=case["noise2"])
        if case["used"]:
            for m in fresh:
                m()
        ex.train_models(fresh, s["t"], y, given, True, wd=wd)
        for m, ref in zip(fresh, [r for n, r in zip(want, refs) if n in names]):
            same_fit(m, ref, "loaded", rtol=1e-12)
            same_answers(m, ref, s, y, "loaded")
        now = {f: open(os.path.join(d, f), "rb").read() for f in files(d)}
        check(now == stamps, "loading changed the stored models")
    return info(True, scheme, *want, f"iters{case['iters']}")


def s_run(k, shards):
    return st.fixed_dictionaries(
        dict(
            names=s_names().filter(lambda x: len(x) < 3) if k % 2 else st.sampled_from([[n] for n in ORDER]),
            all=st.sampled_from([False, False, False, True]),
            how=st.sampled_from(SCHEMES[(k + 1) % 2 :][:1] if shards > 1 else SCHEMES),
            iters=st.sampled_from([2, 3, 20]),
            seed=st.integers(0, 100),
            y=st.integers(0, 10**6),
            noise2=st.sampled_from([0.1, 0.7]),
            extra=st.booleans(),
            again=st.sampled_from(["load", "load", "same"]),
            **s_settings(tiny=True),
        )
    )


def r_run(case):
    s = settings(case)
    y = observations(case, s)
    scheme, kind = case["how"]
    names = ORDER if case["all"] else case["names"]
    want = [n for n in ORDER if n in names]
    opts = ["--iters", str(case["iters"]), "--seed", str(case["seed"])]
    opts += [] if case["all"] else ["--model"] + list(names)
    opts += ["--scheme", scheme] if scheme != "structured" or case["extra"] else []
    opts += ["--fix-hypers"] if kind == "fixed" else []
    seen = []

    def record(models, t, y, wd=None, **kw):
        seen.append((models, t, y, wd, kw))

    def once(ex, extra, **kw):
        old = ex.analyse_models
        ex.analyse_models = record
        try:
            sys.argv = ["script.py"] + opts + extra
            args, wd = ex.setup("test")
            state = np.random.get_state()[1].copy()
            given = {**s, **kw}
            for k in ("n_u", "n_z"):
                if given[k] is None:
                    del given[k]
            more = dict(x_range={"psd": (0, 1)}, true_kernel="some kernel") if case["extra"] else {}
            ex.run(args=args, wd=wd, y=y, **given, **more)
        finally:
            ex.analyse_models = old
        check(len(seen) == 1, f"models were analysed {len(seen)} times")
        models, t_, y_, wd_, kw_ = seen.pop()
        check(np.array_equal(arr(t_), arr(s["t"])) and np.array_equal(arr(y_), arr(y)), "analysed other data")
        check(wd_ is wd, "analysed in another directory")
        check(kw_ == more, f"analysed with {kw_}, expected {more}")
        got = [type(m).__name__ for m in models]
        check(got == [CLASSES[n] for n in want], f"{opts}: models are {got}")
        return models

    with sandbox() as (ex, d):
        models = once(ex, [])
        stored = [f for f in files(d) if f.endswith(".pickle")]
        expected = sorted(os.path.join("_experiments", "test", "models", m.name + ".pickle") for m in models)
        check(stored == expected, f"stored {stored}, expected {expected}")
        for n, m in zip(want, models):
            check_fit(m, n, scheme, s, y, config(kind, case["iters"]), case["seed"], len(want) == 1, f"{opts}: {n}")
        if case["again"] == "load":
            later = once(ex, ["--load"], noise=case["noise2"])
        else:
            later = once(ex, [])
        for a, b in zip(later, models):
            same_fit(a, b, f"{opts}: later run ({case['again']})")
            same_answers(a, b, s, y, f"{opts}: later run ({case['again']})")
    return info(True, scheme, case["again"], f"models{len(want)}", "default models" if case["all"] else "chosen models")


CHECK = Check(
    "C33",
    [
        Sub("build", s_build, r_build, 120, 3000,
            rule="Names in any order and container, with settings and unknown names; non-trivial if several models or a number of inducing points is requested, or a name is unknown."),
        Sub("setup", s_setup, r_setup, 60, 1500,
            rule="Command lines; non-trivial if it is refused or sets something that takes a value."),
        Sub("train", s_train, r_train, 8, 300, shards=3,
            rule="Train, store, load in fresh models, and compare with a direct fit; all are non-trivial."),
        Sub("run", s_run, r_run, 8, 300, shards=3,
            rule="Complete runs from the command line followed by a later run; all are non-trivial."),
    ],
    level_note="Random search over names, settings, command lines, and histories of runs, against direct construction and fitting. Fits are short and models small; the analysis is replaced by a recorder.",
    assumptions=[
        "Fixing hyperparameters is considered for the structured scheme, the only one with that option.",
        "A setting is passed on as documented: one number of inducing points for the excitation, of which the rough model makes half as many frequencies, rounded up.",
        "The analysis (plots and reports) is out of scope.",
    ],
)
