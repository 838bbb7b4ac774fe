"""Core: sub-checks, case execution, the Hypothesis driver, replay."""
import contextlib
import hashlib
import inspect
import io
import json
import os
import sys
import time
import traceback

import numpy as np

from . import env


class Violation(Exception):
    """The property is broken."""


class HarnessError(Exception):
    """The machinery is broken; says nothing about the property."""


class Known(Exception):
    """The case fails exactly as a listed known finding says."""

    def __init__(self, fid, msg=""):
        super().__init__(msg)
        self.fid = fid


class Info(dict):
    """What a case covered."""


def info(nontrivial=True, *classes, **kw):
    return Info(nontrivial=bool(nontrivial), classes=list(classes), **kw)


class Sub:
    """A sub-check: a generator of JSON-able cases and a function that decides one.

    Args:
        name (str): Name.
        strategy (function): Gives a Hypothesis strategy. May take the index of the
            parallel process and the number of those, to divide important combinations.
        run (function): Decides a case: raises `Violation` or returns `info(...)`.
        quick (int): Number of cases in the quick tier, over all shards.
        thorough (int): Number of cases in the thorough tier, over all shards.
        shards (int): Number of parallel processes in the quick tier.
        rule (str): What cases are and what makes one non-trivial.
        group (str): Sub-checks with the same group run in one process.
    """

    def __init__(
        self, name, strategy, run, quick, thorough=None, shards=1, rule="", group=None,
        shrink=True,
    ):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or 10 * quick
        self.shards = shards
        self.rule = rule
        self.group = group
        self.shrink = shrink


class Check:
    """All sub-checks of a property."""

    def __init__(self, pid, subs, level_note="", assumptions=()):
        self.pid = pid
        self.subs = {s.name: s for s in subs}
        self.level_note = level_note
        self.assumptions = list(assumptions)


def jdefault(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (set, tuple)):
        return list(x)
    return str(x)


def dumps(x, **kw):
    return json.dumps(x, default=jdefault, sort_keys=True, **kw)


def key_of(case):
    return hashlib.sha256(dumps(case).encode()).hexdigest()[:16]


def seed_of(*xs):
    return int.from_bytes(
        hashlib.sha256("|".join(map(str, xs)).encode()).digest()[:4], "big"
    )


def has_frame_in(exc, prefix):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def reseed(case):
    """Seed all global random state from the case."""
    import lab.jax as B
    import jax

    seed = seed_of("case", dumps(case))
    np.random.seed(seed)
    B.random  # noqa
    B.set_random_seed(seed)


def execute(sub, case):
    """Run a case: returns `info`, or raises `Violation`, `Known` or `HarnessError`."""
    # Go through JSON, so that a replay is exactly the same case.
    case = json.loads(dumps(case))
    reseed(case)
    out = io.StringIO()
    import warnings

    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = sub.run(case)
    except (Violation, Known, HarnessError):
        raise
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        if has_frame_in(e, os.path.join(env.REPO, "")):
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{tb}") from e
        if has_frame_in(e, os.path.join(env.VERIF, "vp", "refs")):
            raise HarnessError(f"reference failed: {type(e).__name__}: {e}\n{tb}")
        # The harness could not digest what the code under test returned.
        raise Violation(
            f"output of the code under test unusable: {type(e).__name__}: {e}\n{tb}"
        ) from e
    if not isinstance(res, Info):
        raise HarnessError(f"{sub.name}: a case must return `info`.")
    return res


class Job:
    """Statistics of a job."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = {}
        self.classes = {}
        self.samples = []
        self.known = {}
        self.stats = {}

    def add(self, sub, case, res):
        if res["nontrivial"]:
            k = key_of([sub.name, case])
            if k not in self.nontrivial:
                self.nontrivial[k] = 1
                if len(self.samples) < 4 or (
                    len(self.samples) < 12 and len(self.nontrivial) % 37 == 0
                ):
                    s = dumps(case)
                    if len(s) < 1500:
                        self.samples.append({"sub": sub.name, "case": json.loads(s)})
                    else:
                        self.samples.append({"sub": sub.name, "case": s[:1200] + "..."})
        else:
            self.classes["trivial"] = self.classes.get("trivial", 0) + 1
        for c in res["classes"]:
            c = f"{sub.name}:{c}"
            self.classes[c] = self.classes.get(c, 0) + 1
        for k, v in res.items():
            if k in {"nontrivial", "classes"}:
                continue
            # Record worst-case numbers.
            name = f"{sub.name}:{k}"
            self.stats[name] = max(self.stats.get(name, -np.inf), float(v))

    def to_dict(self):
        return dict(
            evaluations=self.evaluations,
            nontrivial=sorted(self.nontrivial),
            classes=self.classes,
            samples=self.samples,
            known=self.known,
            stats=self.stats,
        )


@contextlib.contextmanager
def no_mutations(engine, active):
    """Hypothesis spends much of its budget on copying parts of an example to other
    parts of it. If there are only few examples, new ones are worth more."""
    cls = engine.ConjectureRunner
    old = getattr(cls, "generate_mutations_from", None)
    if old is None or not active:
        yield
        return
    cls.generate_mutations_from = lambda self, data: None
    try:
        yield
    finally:
        cls.generate_mutations_from = old


def strategy_of(sub, shard):
    """The strategy of a sub-check for a shard `(index, number of shards)`."""
    if inspect.signature(sub.strategy).parameters:
        return sub.strategy(*shard)
    return sub.strategy()


def run_sub(sub, n, seed, job, heartbeat=None, shard=(0, 1)):
    """Drive a sub-check with Hypothesis. Returns `None` or `(case, message)`."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = float(os.environ.get("VP_SHRINK_S", "45"))

    failures = []
    # Hypothesis always starts with the simplest case. That is necessary only once.
    skip = [] if shard[0] == 0 else [True]

    def body(case):
        if skip:
            skip.pop()
            return
        if heartbeat:
            heartbeat(sub, case)
        job.evaluations += 1
        try:
            res = execute(sub, case)
        except Known as e:
            job.known[e.fid] = job.known.get(e.fid, 0) + 1
            return
        except Violation as e:
            failures.append((json.loads(dumps(case)), str(e)))
            raise
        job.add(sub, case, res)

    phases = [Phase.generate]
    if sub.shrink:
        phases.append(Phase.shrink)
    test = settings(
        max_examples=n + len(skip),
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=phases,
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )(hypothesis.seed(seed)(given(strategy_of(sub, shard))(body)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), no_mutations(engine, n < 100):
            test()
    except Violation:
        pass
    except HarnessError:
        raise
    except hypothesis.errors.Flaky:
        if not failures:
            raise
    except BaseException as e:
        if not failures or isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit)):
            raise
    if not failures:
        return None
    # The last failure is the smallest one Hypothesis ended on. Confirm outside of
    # Hypothesis; fall back to other recorded failures.
    cands = failures[::-1][:1] + sorted(failures, key=lambda f: len(dumps(f[0])))[:3]
    for case, _ in cands:
        try:
            execute(sub, case)
        except Violation as e:
            return case, str(e)
        except Known:
            pass
    raise HarnessError(
        f"{sub.name}: a failure did not reproduce: {dumps(cands[0][0])}: {cands[0][1]}"
    )
