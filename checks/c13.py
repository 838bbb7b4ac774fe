"""C13: Gaussians by natural parameters."""
import numpy as np

from vp import models as M
from vp import stats
from vp.core import Check, Sub, info
from vp.lazy import B, N, jnp, st
from vp.models import grid
from vp.num import arr, check, close

STRUCT = ["dense", "dense", "matrix", "diag", "woodbury"]


def s_dist(n):
    return st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(STRUCT),
            n=st.just(n),
            rank=st.integers(1, 2),
            d=st.lists(st.integers(1, 64), min_size=n, max_size=n),
            # Entries of a unit-lower-triangular matrix or of a low-rank factor.
            l=st.lists(grid(-1.5, 1.5, 8), min_size=16, max_size=16),
            lam=st.lists(grid(-4, 4, 8), min_size=n, max_size=n),
            scale=st.sampled_from([1e-3, 1.0, 1.0, 50.0]),
        )
    )


def st_normal(mean, var):
    from stheno import Normal

    return Normal(mean, var)


def prec_of(d):
    n = d["n"]
    D = np.array(d["d"]) / 16
    l = np.array(d["l"])
    if d["kind"] == "diag":
        P = np.diag(D)
    elif d["kind"] == "woodbury":
        F = np.resize(l, (n, d["rank"])) + 3 / 16
        P = np.diag(D) + F @ F.T
    else:
        L = np.eye(n) + np.tril(np.resize(l, (n, n)), -1)
        P = (L * D) @ L.T
    return P * d["scale"]


def lib_of(case):
    return jnp.asarray if case["lib"] == "jax" else np.asarray


def build(d, lib):
    from matrix import Dense, Diagonal, LowRank

    P, n = prec_of(d), d["n"]
    lam = np.array(d["lam"])[:, None] * np.sqrt(d["scale"])
    if d["kind"] == "diag":
        prec = Diagonal(lib(np.diag(P).copy()))
    elif d["kind"] == "woodbury":
        F = (np.resize(np.array(d["l"]), (n, d["rank"])) + 3 / 16) * np.sqrt(d["scale"])
        prec = Diagonal(lib(np.array(d["d"]) / 16 * d["scale"])) + LowRank(left=lib(F))
    elif d["kind"] == "matrix":
        prec = Dense(lib(P))
    else:
        prec = lib(P)
    return N.NaturalNormal(lib(lam), prec), P, lam


def s_alg():
    return st.integers(1, 4).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(
                p=s_dist(n),
                q=s_dist(n),
                x=st.lists(grid(-3, 3, 8), min_size=n, max_size=n),
                lib=st.sampled_from(["numpy", "jax"]),
                # Gaussians may share their precision or their natural mean, and be the same.
                share=st.sampled_from(["", "", "", "prec", "lam", "both"]),
                order=st.permutations(["mean", "var", "m2", "kl", "logpdf", "sample"]),
            )
        )
    )


def r_alg(case):
    with M.epsilon(1e-15):
        return _r_alg(case)


def _r_alg(case):
    lib = lib_of(case)
    p, P, lam = build(case["p"], lib)
    q, Q, mu = build(case["q"], lib)
    n = len(P)
    share = case.get("share", "")
    if share in ("prec", "both"):
        q, Q = N.NaturalNormal(q.lam, p.prec), P
    if share in ("lam", "both"):
        q, mu = N.NaturalNormal(p.lam, q.prec), lam
    if max(np.linalg.cond(P), np.linalg.cond(Q)) > 1e6:
        return info(False, "ill-conditioned")
    V, m = np.linalg.inv(P), np.linalg.solve(P, lam)
    W, k = np.linalg.inv(Q), np.linalg.solve(Q, mu)
    x = np.array(case["x"])[:, None] * np.sqrt(np.max(np.diag(V))) + m
    tol = 1e-12 * max(np.linalg.cond(P), np.linalg.cond(Q))
    kl = 0.5 * (
        np.trace(Q @ V) - n + np.linalg.slogdet(P)[1] - np.linalg.slogdet(Q)[1]
        + ((k - m).T @ Q @ (k - m))[0, 0]
    )
    logpdf = 0.5 * (np.linalg.slogdet(P)[1] - n * np.log(2 * np.pi) - ((x - m).T @ P @ (x - m))[0, 0])
    size = 1 + abs(kl) + np.abs(np.trace(Q @ V))
    w = 0.0
    # The order matters, since quantities are cached.
    for what in case["order"]:
        if what == "mean":
            w = max(w, close(p.mean, m, "mean", rtol=1e-8, scale=np.max(np.abs(m)), atol=1e-12))
        elif what == "var":
            w = max(w, close(p.var, V, "variance", rtol=1e-8, scale=np.max(np.abs(V))))
        elif what == "m2":
            w = max(w, close(p.m2, V + m @ m.T, "second moment", rtol=1e-8, scale=np.max(np.abs(V + m @ m.T))))
        elif what == "logpdf":
            w = max(w, close(arr(p.logpdf(lib(x))), np.array(logpdf), "log-density", rtol=1e-8, atol=1e-8))
        elif what == "kl":
            got = float(arr(p.kl(q)))
            w = max(w, close(got, np.array(kl), "KL divergence", rtol=1e-8, atol=tol * size * 10))
            check(got >= -tol * size * 10, f"negative KL divergence {got}")
            close(arr(p.kl(p)), np.array(0.0), "KL divergence to itself", rtol=0, atol=tol * 10 * n)
        else:
            s = arr(p.sample())
            check(s.shape == (n, 1), f"sample has shape {s.shape}")
    check(int(p.dim) == n, f"dimensionality {p.dim}")
    # Converting to and from the other form.
    r = p.to_normal()
    close(r.mean, m, "mean of the converted", rtol=1e-8, scale=np.max(np.abs(m)), atol=1e-12)
    close(r.var, V, "variance of the converted", rtol=1e-8, scale=np.max(np.abs(V)))
    if case["p"]["kind"] == "woodbury":
        # `matrix` cannot invert the difference of a diagonal and a low-rank matrix.
        r = st_normal(arr(r.mean), arr(r.var))
    b = N.NaturalNormal.from_normal(r)
    close(b.prec, P, "round trip: precision", rtol=1e-7, scale=np.max(np.abs(P)))
    close(b.lam, lam, "round trip: natural mean", rtol=1e-7, scale=np.max(np.abs(lam)), atol=1e-9 * np.max(np.abs(P)) * np.max(np.abs(m)))
    close(p.lam, lam, "the natural mean changed", rtol=0)
    close(p.prec, P, "the precision changed", rtol=1e-14)
    if kl > 1e-6:
        check(float(arr(p.kl(q))) > 0, "zero KL divergence between different distributions")
    return info(n > 1, case["p"]["kind"], f"kl {case['p']['kind']} {case['q']['kind']}", case["lib"], f"share {share or 'nothing'}", worst=w)


def s_samp():
    return st.integers(1, 3).flatmap(
        lambda n: st.fixed_dictionaries(
            dict(p=s_dist(n), lib=st.sampled_from(["numpy", "jax"]), num=st.sampled_from([1, 2, 5, 400]), state=st.booleans(), seed=st.integers(0, 1000))
        )
    )


def r_samp(case):
    lib = lib_of(case)
    p, P, lam = build(case["p"], lib)
    n = len(P)
    if np.linalg.cond(P) > 1e5 or np.min(np.linalg.eigvalsh(P)) < 1e-6:
        return info(False, "ill-conditioned")
    dt = jnp.float64 if case["lib"] == "jax" else float

    def draw():
        """400 draws, and the shape of the last."""
        xs = []
        if case["state"]:
            state = B.create_random_state(dt, seed=case["seed"])
        else:
            B.set_random_seed(case["seed"])
        while sum(x.shape[1] for x in xs) < 400 and len(xs) < 40:
            if case["state"]:
                state, x = p.sample(state, case["num"])
            elif case["num"] == 1:
                x = p.sample()
            else:
                x = p.sample(num=case["num"])
            xs.append(arr(x))
            check(xs[-1].shape == (n, case["num"]), f"samples have shape {xs[-1].shape}")
        return np.concatenate(xs, axis=1)

    x = draw()
    close(draw(), x, "samples with the same seed", rtol=0)
    m = np.linalg.solve(P, lam)
    # `L' (x - m)` is white if `P = L L'`.
    r = (np.linalg.cholesky(P).T @ (x - m)).T
    stats.white(r, "whitened samples")
    return info(True, case["p"]["kind"], case["lib"], f"num{case['num']}")


CHECK = Check(
    "C13",
    [
        Sub("alg", s_alg, r_alg, 600, 15000, shards=6,
            rule="pairs of Gaussians with dense, diagonal and low-rank-plus-diagonal precisions (NumPy and JAX, three scales), "
            "quantities requested in random order, against dense linear algebra; non-trivial: at least two dimensions and "
            "condition numbers below 1e6"),
        Sub("samp", s_samp, r_samp, 80, 2000, shards=2,
            rule="40-400 samples whitened by the precision; non-trivial: well conditioned"),
    ],
    level_note="Random search against dense linear algebra; samples by tests at false-alarm probability 1e-9.",
)
