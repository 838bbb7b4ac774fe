"""C25: elliptical slice sampling leaves the target invariant."""
import math

import numpy as np

from vp.core import Check, Sub, info
from vp.lazy import B, S, st
from vp.models import grid
from vp.num import check


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


class Target:
    """Prior `N(0, L L^T)` and a likelihood bounded by one."""

    def __init__(self, case):
        n = case["n"]
        self.n, self.kind = n, case["kind"]
        self.L = np.tril(np.resize(case["L"], (n, n)), -1) + np.diag(np.resize(case["d"], n))
        self.w = np.resize(case["w"], n)
        self.sd = np.sqrt(np.sum((self.L.T @ self.w) ** 2))  # Of `w^T x`.
        self.c = case["c"] * self.sd  # Offset in standard deviations.
        self.s = case["s"] * self.sd  # Width.
        self.shift = case["shift"]

    def log_lik(self, x):
        a = float(self.w @ x)
        k = self.kind
        if k == "gauss":
            v = -0.5 * ((a - self.c) / self.s) ** 2
        elif k == "radial":
            v = -0.5 * np.sum((x - self.c) ** 2) / self.s**2
        elif k == "half":
            v = 0.0 if a > self.c else -np.inf
        elif k == "slab":
            v = 0.0 if self.c - self.s < a < self.c + self.s else -np.inf
        elif k == "outside":
            v = -np.inf if abs(a) < 0.3 * self.s else -0.5 * (a / self.sd) ** 2
        elif k == "probit":
            p = phi((a - self.c) / self.s)
            v = math.log(p) if p > 0 else -np.inf
        elif k == "modes":
            v = np.logaddexp(-0.5 * ((a - 1.5 * self.sd) / self.s) ** 2, math.log(0.4) - 0.5 * ((a + 1.5 * self.sd) / self.s) ** 2) - math.log(1.4)
        elif k == "gumbel":
            b = (a - self.c) / self.s
            v = 1 + b - math.exp(min(b, 500.0))
        elif k == "rings":
            v = 2 * math.cos(3 * a / self.sd) - 2
        return v

    def value(self, x):
        return self.log_lik(x) + self.shift

    def draw(self, rng, N):
        """Exact draws by rejection; `None` if that is not feasible."""
        out, tried = [], 0
        while len(out) < N:
            xs = rng.randn(2000, self.n) @ self.L.T
            es = rng.exponential(size=2000)
            out += [x for x, e in zip(xs, es) if self.log_lik(x) > -e]
            tried += 2000
            if len(out) < 0.03 * tried:
                return None
        return np.array(out[:N])


def s_inv(N):
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["gauss", "radial", "half", "slab", "outside", "probit", "modes", "gumbel", "rings"]),
            n=st.sampled_from([1, 1, 2, 2, 3, 5]),
            L=st.lists(grid(-1, 1, 8), min_size=25, max_size=25),
            d=st.lists(grid(0.25, 2, 8), min_size=5, max_size=5),
            w=st.lists(st.sampled_from([-1.0, -0.5, 0.5, 1.0]), min_size=5, max_size=5),
            c=grid(-1, 1, 4),
            s=st.sampled_from([0.3, 0.6, 1.0, 2.0]),
            shift=st.sampled_from([0.0, 0.0, 50.0, -300.0]),
            k=st.sampled_from([1, 1, 2, 4]),
            N=st.just(N),
            seed=st.integers(0, 2**31 - 1),
        )
    )


def functions(T, X, rng):
    """Bounded functions of states, standardised with prior scales."""
    a = X @ T.w / T.sd
    Z = np.linalg.solve(T.L, X.T).T
    cols = [a] + [Z[:, i] for i in range(T.n)]
    for _ in range(2):
        v = rng.randn(T.n)
        cols.append(Z @ v / np.linalg.norm(v))
    fs = []
    for v in cols:
        fs += [np.tanh(v), np.cos(2 * v), np.sin(2 * v), np.tanh(v**2 - 1)]
    for q in (-1.5, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 1.5):
        fs.append((a > q).astype(float))
    fs.append(np.tanh(np.sum(Z**2, axis=1) - T.n))
    fs.append(np.exp(np.array([T.log_lik(x) for x in X])))
    return np.array(fs)


def scores(T, case, N, seed):
    """Standardised changes of functions by moves; `None` if draws are not feasible."""
    rng = np.random.RandomState(seed)
    np.random.seed(seed ^ 4321)
    X0 = T.draw(rng, N)
    if X0 is None:
        return None
    ess = S.ESS(T.value, lambda: T.L @ rng.randn(T.n), x_init=X0[0])
    X1 = np.empty_like(X0)
    for i, x in enumerate(X0):
        ess.move(x)
        X1[i] = ess.sample(case["k"])[-1]
    check(np.all(np.isfinite(X1)), "states are not finite")
    seed = case["seed"]
    D = functions(T, X1, np.random.RandomState(seed)) - functions(T, X0, np.random.RandomState(seed))
    sd = np.std(D, axis=1)
    # Functions which rarely change are far from normally distributed.
    ok = np.sum(np.abs(D) > 1e-3, axis=1) > 100
    z = np.where(ok, np.mean(D, axis=1) / np.maximum(sd, 1e-300) * np.sqrt(N), 0.0)
    return z, np.mean(np.any(X1 != X0, axis=1))


def r_inv(case):
    T = Target(case)
    res = scores(T, case, case["N"], case["seed"])
    if res is None:
        return info(False, "rare")
    z, moves = res
    cls = [case["kind"], f"n{case['n']}", f"k{case['k']}"]
    if np.max(np.abs(z)) > 3.5:
        # Suspicious: draw many more, and decide only with those.
        N = 24 * case["N"] // case["k"]
        z, moves = scores(T, case, N, case["seed"] ^ 0x5EED)
        i = int(np.argmax(np.abs(z)))
        check(np.abs(z[i]) < 6.5, f"the distribution changes after {case['k']} moves: z-score {z[i]:.3g} of a mean over {N} chains")
        cls.append("examined")
    return info(moves > 0.9, *cls, z=np.max(np.abs(z)))


CHECK = Check(
    "C25",
    [
        Sub("inv", lambda: s_inv(5000), r_inv, 320, 4000, shards=8, shrink=False,
            rule="random priors, dimensions and likelihoods (Gaussian, truncated to a half-space or slab, with a hole, probit, multimodal, "
            "Gumbel, periodic), 5000 exact posterior draws by rejection each, moved and compared through bounded functions "
            "(paired z-scores; those above 3.5 are decided with 24 times as many draws, at 6.5); non-trivial: the chains move"),
    ],
    level_note="Statistical: biases of bounded functions of about 1 per cent are found.",
)
