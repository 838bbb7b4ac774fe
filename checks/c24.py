"""C24: every move of the elliptical slice sampler."""
import numpy as np

from vp.core import Check, Sub, Violation, info
from vp.lazy import B, S, jnp, st
from vp.models import grid
from vp.num import check

SHAPES = [[1], [2], [3], [3, 1], [2, 2], [1, 1], []]
BUDGET = 5000


class Likelihood:
    """Log-likelihoods of a flat state."""

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, x):
        s = self.spec
        x = np.ravel(np.asarray(x, dtype=float))
        w = np.resize(s["w"], x.size)
        a = w @ x
        kind = s["kind"]
        if kind == "const":
            v = 0.0
        elif kind == "gauss":
            v = -0.5 * s["scale"] * np.sum((x - w) ** 2)
        elif kind == "box":
            v = 0.0 if a > s["c"] - 1 else -np.inf
        elif kind == "ball":
            v = -np.sum(x**2) if np.sum(x**2) < (s["c"] + 2.5) ** 2 else -np.inf
        elif kind == "nan":
            v = -0.5 * np.sum((x - w) ** 2) if a > s["c"] - 1 else np.nan
        elif kind == "steps":
            v = -np.floor(s["scale"] * np.sum(np.abs(x - w)))
        elif kind == "modes":
            v = np.logaddexp(-0.5 * s["scale"] * np.sum((x - w) ** 2), -0.5 * s["scale"] * np.sum((x + w) ** 2))
        elif kind == "exp":
            v = s["scale"] * a - np.exp(a)
        return v + s["offset"]


def s_lik():
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["const", "gauss", "gauss", "box", "ball", "nan", "steps", "modes", "exp"]),
            w=st.lists(grid(-2, 2, 8), min_size=4, max_size=4),
            c=grid(-2, 2, 8),
            scale=st.sampled_from([0.25, 1.0, 8.0, 1e3]),
            offset=st.sampled_from([0.0, 0.0, -1e3, 1e6]),
        )
    )


def s_walk():
    return st.fixed_dictionaries(
        dict(
            lik=s_lik(),
            shape=st.sampled_from(SHAPES),
            L=st.lists(grid(-1, 1, 8), min_size=16, max_size=16),
            d=st.lists(grid(0.25, 2, 8), min_size=4, max_size=4),
            init=st.one_of(st.none(), st.lists(grid(-2, 2, 8), min_size=4, max_size=4)),
            seed=st.integers(0, 2**31 - 1),
            calls=st.lists(st.integers(0, 4), min_size=1, max_size=4),
            moves=st.lists(st.booleans(), min_size=4, max_size=4),
            faults=st.sampled_from([0, 0, 0, 1, 7, 98, 99, 100, 101, 150, 250]),
            fault=st.sampled_from(["-inf", "nan"]),
            lib=st.sampled_from(["numpy", "numpy", "jax"]),
            out=st.sampled_from(["float", "array"]),
        )
    )


class TooMany(Exception):
    pass


class Recorder:
    """Runs a sampler and records everything it does through its callbacks."""

    def __init__(self, case):
        self.case = case
        n = int(np.prod(case["shape"]))
        self.n = n
        self.L = np.tril(np.resize(case["L"], (n, n)), -1) + np.diag(np.resize(case["d"], n))
        self.rng = np.random.RandomState(case["seed"])
        self.lik = Likelihood(case["lik"])
        self.events = []
        self.values = {}
        self.faults = 0
        self.ess = None
        self.left = BUDGET
        np.random.seed(case["seed"] ^ 12345)

    def array(self, x):
        x = np.reshape(x, self.case["shape"])
        return jnp.asarray(x) if self.case["lib"] == "jax" else np.array(x)

    def state(self):
        e = self.ess
        if e is None or e.x is None or e.log_lik_x is None:
            return None
        return np.array(e.x, dtype=float).ravel(), float(e.log_lik_x)

    def prior(self):
        x = self.L @ self.rng.randn(self.n)
        self.events.append(("prior", x, self.state()))
        self.left -= 1
        if self.left < 0:
            raise TooMany()
        return self.array(x)

    def log_lik(self, x):
        check(tuple(np.shape(x)) == tuple(self.case["shape"]), f"shape of a proposal: {np.shape(x)}")
        v = self.lik(x)
        bad = False
        if self.faults > 0:
            self.faults -= 1
            bad = True
            v = {"-inf": -np.inf, "nan": np.nan}[self.case["fault"]]
        self.events.append(("lik", np.array(x, dtype=float).ravel(), v, self.state(), bad))
        self.left -= 1
        if self.left < 0:
            raise TooMany()
        if self.case["out"] == "array":
            return self.array(np.zeros(self.case["shape"])).sum() + v
        return v

    def build(self):
        x = None if self.case["init"] is None else self.array(np.array(self.case["init"][: self.n]))
        self.ess = None
        self.ess = S.ESS(self.log_lik, self.prior, **({} if x is None else {"x_init": x}))
        return self.ess


def angle(x, y, p):
    """The angle of a point on an ellipse, and how far it is off the ellipse."""
    A = np.stack([x, y], axis=1)
    scale = np.max(np.abs(A)) + 1e-300
    if len(x) == 1 or np.linalg.cond(A) > 1e6:
        # The direction is known only up to the sign of the sine.
        r = np.sqrt(np.sum(x**2) + np.sum(y**2))
        return None, max(0.0, np.sqrt(np.sum(p**2)) - r) / scale
    (c, s), *_ = np.linalg.lstsq(A, p, rcond=None)
    off = np.max(np.abs(A @ [c, s] - p)) / scale + abs(c**2 + s**2 - 1) * 1e-3
    return np.arctan2(s, c), off


def legal(phis):
    """Whether there is an initial bracket which explains a sequence of proposals, of
    which all but the last one are rejected."""
    tol = 1e-8
    ps = [p % (2 * np.pi) for p in phis]
    marks = sorted([0.0] + ps + [2 * np.pi])
    starts = [(a + b) / 2 for a, b in zip(marks, marks[1:])]
    for start in starts:
        hi = lo = start
        for i, p in enumerate(ps):
            if min(p, 2 * np.pi - p) < tol:
                continue
            if p <= hi + tol:
                hi = min(hi, p)
            elif p >= lo - tol:
                lo = max(lo, p)
            else:
                break
        else:
            return True
    return False


def judge(rec, events, x0, l0, x1, l1):
    """Decide a move."""
    segs = []
    for e in events:
        if e[0] == "prior":
            check(e[2] is not None and np.array_equal(e[2][0], x0) and e[2][1] == l0,
                  f"state is {e[2]} when an ellipse is drawn, but it was {(x0, l0)}")
            segs.append((e[1], []))
        else:
            check(segs, "a proposal before an ellipse was established")
            check(e[3] is not None and np.array_equal(e[3][0], x0) and e[3][1] == l0,
                  f"state is {e[3]} when a proposal is evaluated, but it was {(x0, l0)}")
            segs[-1][1].append(e[1:3])
    check(segs, "no ellipse was established")
    for k, (y, props) in enumerate(segs):
        last = k == len(segs) - 1
        check(len(props) > 0, "an ellipse without proposals")
        phis = []
        for p, v in props:
            phi, off = angle(x0, y, p)
            check(off < 1e-8, f"a proposal {p} is off the ellipse through {x0} and {y} by {off}")
            phis.append(phi)
        if all(p is not None for p in phis):
            check(legal(phis), f"angles of proposals {phis} do not come from a shrinking bracket around the current state")
        if len(props) >= 90:
            # A bracket around the state has shrunk by a factor of at least `exp(0.3)` per
            # proposal on average.
            off = np.max(np.abs(props[-1][0] - x0)) / (np.max(np.abs(x0)) + np.max(np.abs(y)))
            check(off < 1e-3, f"proposal {len(props)} for an ellipse is still off the state by {off}")
        rejected = props[:-1] if last else props
        for p, v in rejected:
            check(not v > l0, f"a proposal of log-likelihood {v} is rejected, but the slice is below {l0}")
        if last:
            p, v = props[-1]
            check(np.array_equal(p, x1), f"the new state {x1} is not the last proposal {p}")
            check(v > -np.inf, f"accepted a log-likelihood of {v}")
            for _, w in rejected:
                check(not w >= v, f"accepted {v} after {w} was rejected")
    return len(segs), sum(len(p) for _, p in segs)


def r_walk(case):
    rec = Recorder(case)
    ess = rec.build()
    try:
        return walk(case, rec, ess)
    except TooMany:
        raise Violation(f"more than {BUDGET} evaluations")


def check_state(rec, ess, what, bad=False):
    x, l = rec.state()
    if not bad:
        ref = rec.lik(x)
        check(l == ref or (np.isnan(l) and np.isnan(ref)), f"{what}: stored log-likelihood {l}, but that of the state is {ref}")
    check(tuple(np.shape(ess.x)) == tuple(case_shape(rec)), f"{what}: shape of the state: {np.shape(ess.x)}")
    return x, l


def case_shape(rec):
    return rec.case["shape"]


def walk(case, rec, ess):
    x, l = check_state(rec, ess, "after construction")
    if case["init"] is not None:
        check(np.array_equal(x, np.array(case["init"][: rec.n])), f"initial state is {x}")
    else:
        check(np.array_equal(x, rec.events[0][1]), f"initial state {x} is not the draw from the prior")
    inside = l > -np.inf
    if np.isnan(l):
        return info(False, "nan start")
    if l == -np.inf and case["lik"]["kind"] in ("nan",):
        return info(False, "nan start")
    # From outside the support, it must be possible to find it.
    rng = np.random.RandomState(1)
    mass = np.mean([rec.lik(rec.L @ rng.randn(rec.n)) > -np.inf for _ in range(100)])
    if not inside and mass < 0.3:
        return info(False, "no support")
    total, evals, failed = 0, 0, 0
    multi = False
    for i, num in enumerate(case["calls"]):
        if case["moves"][i] and i > 0:
            z = rec.L @ np.resize(case["lik"]["w"], rec.n) * 0.5
            if not np.isnan(rec.lik(z)) and (rec.lik(z) > -np.inf or mass >= 0.3):
                ess.move(rec.array(z))
                x, l = check_state(rec, ess, "after a move")
                check(np.array_equal(x, z), f"state after moving to {z}: {x}")
                inside = l > -np.inf
        if num == 0:
            before = len(rec.events)
            res = ess.sample(num=0)
            check(len(res) == 0, "asked for no samples")
            now = rec.state()
            check(np.array_equal(now[0], x) and now[1] == l, "no samples changed the state")
            check(len(rec.events) == before, "no samples evaluated something")
        elif num == 1:
            rec.events = []
            rec.faults = case["faults"] if i == 0 else 0
            res = ess.sample()
            check(len(res) == 1, f"asked for one sample, got {len(res)}")
            x1, l1 = check_state(rec, ess, "after a sample")
            check(np.array_equal(np.array(res[0], dtype=float).ravel(), x1), "the returned sample is not the state")
            a, b = judge(rec, rec.events, x, l, x1, l1)
            failed += a - 1
            evals += b
            x, l = x1, l1
            total += 1
            check(l > -np.inf, "the chain is outside the support")
        else:
            rec.events = []
            rec.faults = case["faults"] if i == 0 else 0
            res = ess.sample(num)
            check(isinstance(res, list) and len(res) == num, f"asked for {num} samples")
            xs = [np.array(r, dtype=float).ravel() for r in res]
            # Split the history: a move ends with the proposal which becomes the state.
            events, k = [], 0
            for j, e in enumerate(rec.events):
                events.append(e)
                nxt = rec.events[j + 1] if j + 1 < len(rec.events) else None
                ends = nxt is None or (nxt[0] == "prior" and nxt[2] is not None and np.array_equal(nxt[2][0], e[1]) and nxt[2][1] == e[2] > -np.inf)
                if e[0] == "lik" and ends:
                    check(k < num, "more moves than samples")
                    x1, l1 = xs[k], e[2]
                    a, b = judge(rec, events, x, l, x1, l1)
                    failed += a - 1
                    evals += b
                    x, l = x1, l1
                    events, k = [], k + 1
            check(k == num, f"{k} moves for {num} samples")
            now = check_state(rec, ess, "after samples")
            check(np.array_equal(now[0], x) and now[1] == l, "the last sample is not the state")
            total += num
            multi = True
    return info(total > 0 and evals > total, case["lik"]["kind"], "failures" if failed else "no failures", "outside" if not inside else "inside",
                "several" if multi else "single", evals_per_sample=evals / max(total, 1))


def s_same():
    return st.fixed_dictionaries(
        dict(
            lik=s_lik(),
            shape=st.sampled_from(SHAPES),
            L=st.lists(grid(-1, 1, 8), min_size=16, max_size=16),
            d=st.lists(grid(0.25, 2, 8), min_size=4, max_size=4),
            init=st.lists(grid(-2, 2, 8), min_size=4, max_size=4),
            seed=st.integers(0, 2**31 - 1),
            num=st.sampled_from([1, 3, 24, 30]),
            lib=st.sampled_from(["numpy", "numpy", "jax"]),
            out=st.sampled_from(["float", "array"]),
            fault=st.just("nan"),
        )
    )


def r_same(case):
    """Samples at once, one by one, and with a trace."""
    runs = []
    for how in ("all", "one", "trace"):
        rec = Recorder(case)
        ess = rec.build()
        if not rec.state()[1] > -np.inf:
            return info(False, "outside")
        rec.left = 200 * BUDGET
        if how == "all":
            res = ess.sample(case["num"])
        elif how == "one":
            res = [ess.sample()[0] for _ in range(case["num"])]
        else:
            res = ess.sample(case["num"], trace=True)
        check(len(res) == case["num"], f"asked for {case['num']} samples, got {len(res)} ({how})")
        runs.append(np.array([np.array(r, dtype=float).ravel() for r in res]))
        check(np.array_equal(runs[-1][-1], rec.state()[0]), f"the last sample is not the state ({how})")
    for r, how in zip(runs[1:], ("one by one", "with a trace")):
        check(np.array_equal(r, runs[0]), f"samples {how} are different from samples at once, with the same seed")
    return info(case["num"] > 1, case["lik"]["kind"], "trace window" if case["num"] > 20 else "short")


def s_slice():
    return st.fixed_dictionaries(dict(c=st.sampled_from([0.1, 0.3, 0.7, 1.2, 2.0, 3.5]), n=st.integers(1, 3), seed=st.integers(0, 2**31 - 1), offset=st.sampled_from([0.0, -30.0, 1e4])))


class Done(Exception):
    pass


def r_slice(case):
    """The slice: the state has a higher log-likelihood than everything else by `c`."""
    from scipy.stats import binom

    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] ^ 999)
    x0 = rng.randn(case["n"])
    N, acc = 3000, 0
    for _ in range(N):
        calls = [0]

        def log_lik(x):
            calls[0] += 1
            if calls[0] > 2:
                raise Done()
            return case["offset"] + (0.0 if np.array_equal(x, x0) else -case["c"])

        ess = S.ESS(log_lik, lambda: rng.randn(case["n"]), x_init=x0)
        try:
            ess.sample()
            acc += 1
        except Done:
            pass
    p = np.exp(-case["c"])
    tail = min(binom.cdf(acc, N, p), binom.sf(acc - 1, N, p))
    check(tail > 1e-9, f"accepted {acc} of {N} proposals which are {case['c']} below the state in log-likelihood: expected {N * p:.1f}")
    return info(True, f"c{case['c']}")


CHECK = Check(
    "C24",
    [
        Sub("walk", s_walk, r_walk, 2400, 150000, shards=5,
            rule="random likelihoods (constant, Gaussian, truncated, undefined, stepped, multimodal, ...), priors, shapes, array libraries, "
            "starts inside and outside the support, calls, moves, and evaluations which are made to fail: every evaluation and "
            "every state is judged; non-trivial: proposals were rejected"),
        Sub("same", s_same, r_same, 120, 6000, shards=1,
            rule="samples at once, one by one and with a trace, with the same seed; non-trivial: at least two samples"),
        Sub("slice", s_slice, r_slice, 10, 300, shards=2, shrink=False,
            rule="frequency with which proposals a given amount below the state are accepted (exponential slice), 3000 ellipses "
            "each; all non-trivial"),
    ],
    level_note="Random search over histories seen through the callbacks; the distribution of the slice is tested at 1e-9 significance.",
)
