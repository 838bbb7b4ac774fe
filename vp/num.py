"""Numeric comparison."""
import numpy as np

from .core import Violation


def arr(x):
    """Convert anything that the code under test returns to a NumPy array."""
    import lab as B
    import lab.jax  # noqa

    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def finite(x, what):
    x = arr(x)
    if not np.all(np.isfinite(x)):
        raise Violation(f"{what}: not finite: {short(x)}")
    return x


def short(x):
    return np.array2string(np.asarray(x), threshold=12, precision=6)


def close(x, ref, what, rtol=1e-6, atol=0.0, scale=None):
    """Check that `x` is close to `ref`. The tolerance is
    `atol + rtol * max(|ref|, scale)`. NaNs never agree. Returns the worst ratio of
    error to tolerance."""
    x, ref = arr(x), arr(ref)
    if x.shape != ref.shape:
        raise Violation(f"{what}: shape {x.shape}, expected {ref.shape}")
    if x.size == 0:
        return 0.0
    if not np.all(np.isfinite(x) == np.isfinite(ref)):
        raise Violation(f"{what}: got {short(x)}, expected {short(ref)}")
    inf = ~np.isfinite(ref)
    if np.any(inf) and not np.array_equal(x[inf], ref[inf]):
        raise Violation(f"{what}: got {short(x)}, expected {short(ref)}")
    x, ref = x[~inf], ref[~inf]
    if x.size == 0:
        return 0.0
    s = np.abs(ref) if scale is None else np.maximum(np.abs(ref), scale)
    tol = atol + rtol * s
    err = np.abs(x - ref)
    bad = err > tol
    if np.any(bad):
        i = int(np.argmax(err - tol))
        raise Violation(
            f"{what}: got {x.flat[i]!r}, expected {ref.flat[i]!r} "
            f"(error {err.flat[i]:.3g}, tolerance {np.ravel(tol)[i] if np.size(tol) > 1 else float(np.ravel(tol)[0]):.3g}, "
            f"{int(bad.sum())}/{bad.size} entries off)"
        )
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.where(tol > 0, err / np.where(tol > 0, tol, 1), 0)
    return float(np.max(r))


def check(cond, what):
    if not cond:
        raise Violation(what)


def raises(f, excs, what):
    """Check that `f` raises one of `excs`."""
    try:
        res = f()
    except excs:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {excs}")
    raise Violation(f"{what}: returned {short_any(res)}, expected an exception")


def short_any(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."
