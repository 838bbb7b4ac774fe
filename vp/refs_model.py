"""Reference for the models: definitions, integrated numerically with NumPy."""
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(16)


def rule(lo, hi, h):
    """Composite Gauss--Legendre rule with panels of length at most `h`."""
    n = max(1, int(np.ceil((hi - lo) / h)))
    e = np.linspace(lo, hi, n + 1)
    m, d = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    return (m[:, None] + d[:, None] * _X).ravel(), (d[:, None] * _W).ravel()


def rule_breaks(breaks, h):
    xs, ws = [], []
    b = np.unique(breaks)
    for lo, hi in zip(b[:-1], b[1:]):
        x, w = rule(lo, hi, h)
        xs.append(x)
        ws.append(w)
    return np.concatenate(xs), np.concatenate(ws)


class Smooth:
    """`f(t) = int h(t - tau) x(tau) dtau` with white noise `x` and a filter `h` that is
    a windowed squared-exponential process."""

    def __init__(self, p):
        self.p = p
        a, g, o = p["alpha"], p["gamma"], p["omega"]
        self.S = np.sqrt(45 / a)  # The window is zero beyond this.
        self.h = 1.0 / np.sqrt(2 * a + 2 * g + 2 * o)
        lo = 0.0 if p["causal"] else -self.S
        self.s, self.w = rule(lo, self.S, self.h)

    def k_h(self, t1, t2):
        p = self.p
        return p["alpha_t"] ** 2 * np.exp(
            -p["alpha"] * (t1**2 + t2**2) - p["gamma"] * (t1 - t2) ** 2
        )

    def k_xs(self, t1, t2):
        p = self.p
        return p["omega_t"] * np.exp(-p["omega"] * (t1 - t2) ** 2)

    def K_u(self):
        t = self.p["t_u"]
        return self.k_h(t[:, None], t[None, :])

    def K_z(self):
        t = self.p["t_z"]
        R = np.sqrt(45 / self.p["omega"])
        x, w = rule(np.min(t) - R, np.max(t) + R, 0.7 / np.sqrt(self.p["omega"]))
        F = self.k_xs(x[:, None], t[None, :])
        return (F * w[:, None]).T @ F

    def _nodes(self, r):
        """Nodes for the lag of the first, such that both lags are allowed; the second
        lag is the first one plus `r`."""
        if self.p["causal"]:
            lo = max(0.0, -r)
            return rule(lo, lo + self.S, self.h)
        return self.s, self.w

    def i_hx(self, t1, t2):
        t1, t2 = np.broadcast_arrays(t1, t2)
        res = np.empty(t1.shape)
        for i in np.ndindex(*t1.shape):
            r = t2[i] - t1[i]
            s, w = self._nodes(r)
            res[i] = np.sum(w * self.k_h(s, s + r))
        return res

    def I_ux(self, t1, t2):
        """For vectors `t1` and `t2`."""
        tu = self.p["t_u"]
        res = np.empty((len(t1), len(t2), len(tu), len(tu)))
        for i in range(len(t1)):
            for j in range(len(t2)):
                r = t2[j] - t1[i]
                s, w = self._nodes(r)
                F1 = self.k_h(s[:, None], tu[None, :])
                F2 = self.k_h(s[:, None] + r, tu[None, :])
                res[i, j] = (F1 * w[:, None]).T @ F2
        return res

    def I_hz(self, t):
        tz = self.p["t_z"]
        s, w = self.s, self.w
        K = self.k_h(s[:, None], s[None, :])
        res = np.empty((len(t), len(tz), len(tz)))
        for i in range(len(t)):
            F = w[:, None] * self.k_xs(t[i] - s[:, None], tz[None, :])
            res[i] = F.T @ (K @ F)
        return res

    def I_uz(self, t):
        tu, tz = self.p["t_u"], self.p["t_z"]
        s, w = self.s, self.w
        Fu = w[:, None] * self.k_h(s[:, None], tu[None, :])
        res = np.empty((len(t), len(tu), len(tz)))
        for i in range(len(t)):
            res[i] = Fu.T @ self.k_xs(t[i] - s[:, None], tz[None, :])
        return res


class Rough:
    """`f(t) = int h(t - tau) x(tau) dtau` with an Ornstein--Uhlenbeck process `x` and
    windowed white noise `h`; `u` is an exponentially-weighted average of the noise and
    `z` are the Fourier features of `x` in its RKHS on `[a, b]`."""

    def __init__(self, p):
        self.p = p
        m = np.where(p["ms"] > p["m_max"], p["ms"] - p["m_max"], p["ms"])
        self.om = 2 * np.pi * m / (p["b"] - p["a"])
        self.sin = p["ms"] > p["m_max"]
        self.h = 1.0 / (
            p["alpha"] + p["lam"] + p["gamma"] + np.max(self.om) + 1 / (p["b"] - p["a"])
        )

    def phi(self, x):
        """Covariance between `x(tau)` and the features. To the left of `a`, it decays."""
        p = self.p
        x = np.asarray(x)[..., None]
        d = x - p["a"]
        inside = np.where(self.sin, np.sin(self.om * d), np.cos(self.om * d))
        left = np.where(self.sin, 0.0, np.exp(p["lam"] * np.minimum(d, 0)))
        return np.where(d < 0, left, inside)

    def K_u(self):
        p = self.p
        t = p["t_u"]
        # `int_{-inf}^{min} gamma_t^2 exp(-gamma (t1 - s) - gamma (t2 - s)) ds`
        s, w = rule(0, 45 / p["gamma"], 1 / p["gamma"])
        base = np.sum(w * p["gamma_t"] ** 2 * np.exp(-2 * p["gamma"] * s))
        return base * np.exp(-p["gamma"] * np.abs(t[:, None] - t[None, :]))

    def K_z(self):
        """Inner products in the RKHS of the Ornstein--Uhlenbeck process on `[a, b]`."""
        p = self.p
        x, w = rule(p["a"], p["b"], self.h)
        d = (x - p["a"])[:, None]
        f = np.where(self.sin, np.sin(self.om * d), np.cos(self.om * d))
        df = np.where(self.sin, self.om * np.cos(self.om * d), -self.om * np.sin(self.om * d))
        g = df + p["lam"] * f
        fa = np.where(self.sin, 0.0, 1.0)
        return (g * w[:, None]).T @ g / (2 * p["lam"]) + np.outer(fa, fa)

    def i_hx(self, t1, t2):
        p = self.p
        s, w = rule(0, 45 / p["alpha"], 1 / p["alpha"])
        base = np.sum(w * p["alpha_t"] ** 2 * np.exp(-2 * p["alpha"] * s))
        return base * np.exp(-p["lam"] * np.abs(np.asarray(t1) - np.asarray(t2)))

    def _hu(self, s, tu):
        """Covariance between the filter's noise at `s` and `u(tu)`, on `0 <= s <= tu`."""
        p = self.p
        return (
            p["alpha_t"] * p["gamma_t"] * np.exp(-p["alpha"] * s - p["gamma"] * (tu - s))
        )

    def I_ux(self, t1, t2):
        """Entry `[i, j, k, l]` pairs `t1[i]` with `u_l` and `t2[j]` with `u_k`."""
        p = self.p
        tu = p["t_u"]
        res = np.empty((len(t1), len(t2), len(tu), len(tu)))
        for i in range(len(t1)):
            for j in range(len(t2)):
                r = t1[i] - t2[j]
                for k in range(len(tu)):
                    for l in range(len(tu)):
                        res[i, j, k, l] = self._two(tu[l], tu[k], r)
        return res

    def _two(self, U1, U2, r):
        """`int_0^U1 int_0^U2 hu(s1) hu(s2) exp(-lam |r - s1 + s2|) ds2 ds1`. The kink is at
        `s2 = s1 - r`; the inner integral over either side is done in closed form."""
        p = self.p
        if U1 <= 0 or U2 <= 0:
            return 0.0
        brk = np.clip([0.0, r, r + U2, U1], 0.0, U1)
        x, w = rule_breaks(np.append(brk, [0.0, U1]), 0.5 / (p["alpha"] + p["lam"]))
        c, lam = p["gamma"] - p["alpha"], p["lam"]
        k = np.clip(x - r, 0.0, U2)

        def prim(e, lo, hi):
            # `int_lo^hi exp(e s) ds`
            if abs(e) * U2 < 1e-9:
                return (hi - lo) * (1 + e * (lo + hi) / 2)
            return np.exp(e * lo) * np.expm1(e * (hi - lo)) / e

        # For `s2 < s1 - r`: `|r - s1 + s2| = s1 - r - s2`.
        inner = np.exp(-lam * (x - r)) * prim(c + lam, 0.0, k) * (k > 0)
        with np.errstate(over="ignore", invalid="ignore"):
            up = np.exp(lam * np.minimum(x - r, k)) * prim(c - lam, k, U2)
        inner = np.where(k > 0, inner, 0.0) + up
        inner = p["alpha_t"] * p["gamma_t"] * np.exp(-p["gamma"] * U2) * inner
        return float(np.sum(w * self._hu(x, U1) * inner))

    def I_hz(self, t):
        p = self.p
        n = len(self.om)
        res = np.empty((len(t), n, n))
        for i in range(len(t)):
            split = max(t[i] - p["a"], 0.0)
            end = split + 45 / (p["alpha"] + p["lam"])
            s, w = rule_breaks([0.0, split, end], self.h)
            F = self.phi(t[i] - s)
            # Make sure that the split is on the right side.
            res[i] = (
                F * (w * p["alpha_t"] ** 2 * np.exp(-2 * p["alpha"] * s))[:, None]
            ).T @ F
        return res

    def I_uz(self, t):
        p = self.p
        tu = p["t_u"]
        res = np.empty((len(t), len(tu), len(self.om)))
        for i in range(len(t)):
            for j in range(len(tu)):
                s, w = rule(0.0, tu[j], self.h)
                res[i, j] = (w * self._hu(s, tu[j])) @ self.phi(t[i] - s)
        return res


def reference(p):
    return Rough(p) if p["kind"] == "RGPCM" else Smooth(p)
