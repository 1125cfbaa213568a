"""Executable reference: labels, textbook filter, anchoring, deterministic simulation.

Written from the documentation and works on label-addressed parameters
P[(category, period, name1, name2)] and on arrays of delivered values, with full
covariance matrices instead of square roots and without any code of the package.
"""
from itertools import combinations

import numpy as np

from vsim import spec as sp


# ------------------------------------------------------------------ structure
class Model:
    def __init__(self, spec):
        self.spec = spec
        self.latent = sp.latent(spec)
        self.observed = list(spec["observed"])
        self.all = self.latent + self.observed
        self.controls = ["constant"] + list(spec["controls"])
        self.T = sp.n_periods(spec)
        self.M = sp.n_mixtures(spec)
        self.S = len(self.latent)
        anch = spec["anchoring"] or {}
        out = dict((f, o) for f, o in anch.get("outcomes", []))
        # in the order of the model's factors
        self.anchored = [(f, out[f]) for f in self.latent if f in out]
        self.ignore_const = bool(anch.get("ignore_constant_when_anchoring", False))
        self.updates = []  # (period, name, data column, loading factors, purpose)
        for t in range(self.T):
            loads = {}
            for fac in spec["factors"]:
                for m in sp.meas_of(fac, t):
                    loads.setdefault(m, []).append(fac["name"])
            for m, facs in loads.items():
                self.updates.append((t, m, m, tuple(facs), "measurement"))
            for f, o in self.anchored:
                self.updates.append((t, f"{o}_{f}", o, (f,), "anchoring"))
        self.keys = [(u[0], u[1]) for u in self.updates]
        self.measured_periods = sorted({u[0] for u in self.updates if u[4][0] == "m"})

    # -- parameters
    def trans_names(self, fac):
        kind = fac["trans"]
        A = self.all
        if isinstance(kind, list):
            return custom_param_names(kind)
        squares = [f"{f} ** 2" for f in A]
        inter = [f"{a} * {b}" for a, b in combinations(A, 2)]
        return {
            "linear": A + ["constant"],
            "translog": A + squares + inter + ["constant"],
            "robust_translog": A + squares + inter + ["constant"],
            "linear_and_squares": A + squares + ["constant"],
            "log_ces": A + ["phi"],
            "log_ces_general": A + [f"sigma_{f}" for f in A] + ["tfp"],
            "constant": [],
        }[kind]

    def template(self):
        out = []
        for t, name, *_ in self.updates:
            out += [("controls", t, name, c) for c in self.controls]
        for t, name, _, facs, _ in self.updates:
            out += [("loadings", t, name, f) for f in self.latent if f in facs]
        out += [("meas_sds", t, name, "-") for t, name, *_ in self.updates]
        for t in range(self.T - 1):
            out += [("shock_sds", t, f, "-") for f in self.latent]
        for m in range(self.M):
            out += [("initial_states", 0, f"mixture_{m}", f) for f in self.latent]
        out += [("mixture_weights", 0, f"mixture_{m}", "-") for m in range(self.M)]
        for m in range(self.M):
            for r, a in enumerate(self.latent):
                for b in self.latent[: r + 1]:
                    out.append(("initial_cholcovs", 0, f"mixture_{m}", f"{a}-{b}"))
        for fac in self.spec["factors"]:
            for t in range(self.T - 1):
                out += [("transition", t, fac["name"], n) for n in self.trans_names(fac)]
        return out

    def anchoring_arrays(self, P):
        scale = np.ones((self.T, len(self.all)))
        const = np.zeros((self.T, len(self.all)))
        for f, o in self.anchored:
            j = self.latent.index(f)
            for t in range(self.T):
                scale[t, j] = P[("loadings", t, f"{o}_{f}", f)]
                if not self.ignore_const:
                    const[t, j] = P[("controls", t, f"{o}_{f}", "constant")]
        return scale, const

    def next_factor(self, fac, P, t, X):
        """Transition function of one factor on anchored states X (..., n_all)."""
        pars = {n: P[("transition", t, fac["name"], n)] for n in self.trans_names(fac)}
        return transition(fac, self.all, pars, X)

    def next_states(self, P, t, unanchored, scale, const):
        """unanchored: (..., n_all) -> (..., n_latent) in period t + 1."""
        X = unanchored * scale[t] + const[t]
        nxt = np.stack(
            [self.next_factor(fac, P, t, X) for fac in self.spec["factors"]], axis=-1
        )
        S = self.S
        return (nxt - const[t + 1][:S]) / scale[t + 1][:S]

    def meas_equation(self, P, k):
        t, name, _, facs, _ = self.updates[k]
        lam = np.zeros(self.S)
        for f in facs:
            lam[self.latent.index(f)] = P[("loadings", t, name, f)]
        beta = np.array([P[("controls", t, name, c)] for c in self.controls])
        return lam, beta, P[("meas_sds", t, name, "-")]

    def initial(self, P):
        w = np.array(
            [P[("mixture_weights", 0, f"mixture_{m}", "-")] for m in range(self.M)]
        )
        means, covs = [], []
        for m in range(self.M):
            means.append(
                [P[("initial_states", 0, f"mixture_{m}", f)] for f in self.latent]
            )
            L = np.zeros((self.S, self.S))
            for r, a in enumerate(self.latent):
                for c, b in enumerate(self.latent[: r + 1]):
                    L[r, c] = P[("initial_cholcovs", 0, f"mixture_{m}", f"{a}-{b}")]
            covs.append(L @ L.T)
        return w, np.array(means), np.array(covs)


# ---------------------------------------------------------------- transitions
def custom_param_names(kind):
    _, style, own, other = kind
    return {
        "named": ["own", "other", "shift"],
        "minus": ["own", "other", "shift"],
        "states": ["rho", "shift"],
        "tanh": ["a", "b"],
    }[style]


def _lse(x):
    m = x.max(axis=-1, keepdims=True)
    return (m + np.log(np.exp(x - m).sum(axis=-1, keepdims=True)))[..., 0]


def transition(fac, names, pars, X):
    kind = fac["trans"]
    if isinstance(kind, list):
        _, style, own, other = kind
        xo, xq = X[..., names.index(own)], X[..., names.index(other)]
        if style == "named":
            return pars["own"] * xo + pars["other"] * xq + pars["shift"]
        if style == "minus":
            return pars["own"] * xo - pars["other"] * xq + pars["shift"]
        if style == "states":
            return pars["rho"] * X.mean(axis=-1) + pars["shift"]
        return pars["a"] * np.tanh(xo) + pars["b"] * xq
    if kind == "constant":
        return X[..., names.index(fac["name"])] + 0.0
    if kind == "robust_translog":
        X = np.clip(X, -1e12, 1e12)
    if kind in ("log_ces", "log_ces_general"):
        gam = np.array([pars[n] for n in names])
        if kind == "log_ces":
            return _lse(np.log(gam) + X * pars["phi"]) / pars["phi"]
        sig = np.array([pars[f"sigma_{n}"] for n in names])
        return _lse(np.log(gam) + X * sig) * pars["tfp"]
    out = np.full(X.shape[:-1], float(pars["constant"]))
    for j, n in enumerate(names):
        out = out + pars[n] * X[..., j]
        if kind != "linear":
            out = out + pars[f"{n} ** 2"] * X[..., j] ** 2
    if kind in ("translog", "robust_translog"):
        for (i, a), (j, b) in combinations(enumerate(names), 2):
            out = out + pars[f"{a} * {b}"] * X[..., i] * X[..., j]
    return out


# --------------------------------------------------------------- delivered data
def soft_clip(x, options):
    lo = options.get("clipping_lower_bound", -1e250)
    hi = options.get("clipping_upper_bound", None)
    lh = options.get("clipping_lower_hardness", 1)
    uh = options.get("clipping_upper_hardness", 1)
    if lo is not None:
        x = np.logaddexp(lh * x, lh * lo) / lh
    if hi is not None:
        x = -np.logaddexp(-uh * x, -uh * hi) / uh
    return x


class Feed:
    """What arrived: cells[var] is an (N, T) array, NaN where nothing arrived."""

    def __init__(self, model, cells, present):
        """present: (N, T) bool, rows that arrived at all."""
        self.model = m = model
        N, T = present.shape
        self.N = N
        nan = np.full((N, T), np.nan)

        def get(var):
            return np.where(present, cells[var], np.nan) if var in cells else nan

        self.controls = np.ones((T, N, len(m.controls)))
        for j, c in enumerate(m.controls[1:], start=1):
            self.controls[:, :, j] = get(c).T
        self.observed = np.zeros((T, N, len(m.observed)))
        for j, f in enumerate(m.observed):
            self.observed[:, :, j] = get(f).T
        y = np.zeros((len(m.updates), N))
        for k, (t, _, col, *_) in enumerate(m.updates):
            y[k] = get(col)[:, t]
        self.raw = y.copy()
        # rows whose controls are incomplete although there is a measurement.
        # note: the constant only exists (and all others are missing) in absent rows
        self.discarded = []
        bad = np.isnan(self.controls).any(axis=2)  # (T, N)
        for t in range(T):
            ks = [k for k, u in enumerate(m.updates) if u[0] == t]
            if not ks:
                continue
            has = ~np.isnan(y[ks]).all(axis=0)
            for i in np.nonzero(bad[t] & has)[0]:
                self.discarded.append((int(i), t))
                y[ks, i] = np.nan
        self.discarded.sort()
        self.arrived = np.isfinite(y)
        self.y = y
        self.refusals = []
        for t in range(T):
            for j, c in enumerate(m.controls):
                if np.isnan(self.controls[t, :, j]).all():
                    self.refusals.append(("control", t, c))
            for j, f in enumerate(m.observed):
                if np.isnan(self.observed[t, :, j]).any():
                    self.refusals.append(("observed", t, f))
        for k, (t, name, col, *_) in enumerate(m.updates):
            if col not in cells:
                self.refusals.append(("column", t, name))
            else:
                v = self.raw[k]
                if len(np.unique(v[~np.isnan(v)])) == 1:
                    self.refusals.append(("variance", t, name))


# --------------------------------------------------------------------- filter
class Ill(Exception):
    """The scenario leaves the numerically meaningful range."""


def run_filter(model, P, feed):
    m = model
    N, M, S, U = feed.N, m.M, m.S, len(m.updates)
    kappa = m.spec["options"].get("sigma_points_scale", 2)
    w, means, covs = m.initial(P)
    a = np.tile(means, (N, 1, 1))
    C = np.tile(covs, (N, 1, 1, 1))
    logw = np.tile(np.log(w), (N, 1))
    scale, const = m.anchoring_arrays(P)
    out = {
        "ll": np.zeros((U, N)),
        "resid": np.full((U, N, M), np.nan),
        "sd": np.full((U, N, M), np.nan),
        "post": np.zeros((U, N, M, S)),
        "logw": np.zeros((U, N, M)),
        "cov": np.zeros((U, N, M, S, S)),
    }
    for k, (t, name, _, facs, purpose) in enumerate(m.updates):
        if k and m.updates[k - 1][0] != t:
            for s in range(m.updates[k - 1][0], t):
                a, C = predict(m, P, s, a, C, feed.observed[s], kappa, scale, const)
        lam, beta, sd = m.meas_equation(P, k)
        ok = feed.arrived[k]
        y = np.where(ok, feed.y[k], 0.0)
        x = np.where(ok[:, None], feed.controls[t], 0.0)
        resid = y[:, None] - a @ lam - (x @ beta)[:, None]
        Cl = C @ lam
        F = Cl @ lam + sd**2
        root = np.sqrt(F)
        lp = -0.5 * np.log(2 * np.pi) - np.log(root) - 0.5 * (resid / root) ** 2
        if M > 1:
            joint = lp + logw
            ll = _lse(joint)
            new_logw = joint - ll[:, None]
        else:
            ll, new_logw = lp[:, 0], logw
        out["ll"][k] = np.where(ok, ll, 0.0)
        out["resid"][k][ok] = resid[ok]
        out["sd"][k][ok] = root[ok]
        if purpose == "measurement":
            K = Cl / F[..., None]
            a_new = a + K * resid[..., None]
            C_new = C - K[..., :, None] * Cl[..., None, :]
            C_new = 0.5 * (C_new + np.swapaxes(C_new, -1, -2))
            a = np.where(ok[:, None, None], a_new, a)
            C = np.where(ok[:, None, None, None], C_new, C)
        logw = np.where(ok[:, None], new_logw, logw)
        out["post"][k], out["logw"][k], out["cov"][k] = a, logw, C
        if not np.isfinite(a).all() or np.abs(a).max() > 1e5:
            raise Ill("states")
        ev = np.linalg.eigvalsh(C)
        if ev.min() < 1e-9 or ev.max() > 1e8:
            raise Ill("covariance")
    out["clipped"] = soft_clip(out["ll"], m.spec["options"])
    out["contributions"] = out["clipped"].sum(axis=0)
    out["value"] = float(out["clipped"].sum())
    # states after the last measurement update of each measured period
    weights = np.exp(out["logw"])
    agg = (out["post"] * weights[..., None]).sum(axis=2)
    last = {}
    for k, u in enumerate(m.updates):
        if u[4] == "measurement":
            last[u[0]] = k
    out["filtered"] = {t: agg[k] for t, k in sorted(last.items())}
    out["anchored"] = {
        t: v * scale[t][:S] + const[t][:S] for t, v in out["filtered"].items()
    }
    if not np.isfinite(out["value"]):
        raise Ill("value")
    return out


def predict(m, P, t, a, C, observed, kappa, scale, const):
    N, M, S = a.shape
    L = np.linalg.cholesky(C)
    spread = np.sqrt(S + kappa) * np.swapaxes(L, -1, -2)  # rows are the directions
    pts = np.concatenate([a[:, :, None], a[:, :, None] + spread, a[:, :, None] - spread],
                         axis=2)
    wts = np.full(2 * S + 1, 0.5 / (S + kappa))
    wts[0] = kappa / (S + kappa)
    if observed.shape[1]:
        obs = np.broadcast_to(
            observed[:, None, None, :], (N, M, 2 * S + 1, observed.shape[1])
        )
        pts = np.concatenate([pts, obs], axis=-1)
    nxt = m.next_states(P, t, pts, scale, const)
    mean = np.einsum("p,nmps->nms", wts, nxt)
    dev = nxt - mean[:, :, None]
    cov = np.einsum("p,nmps,nmpr->nmsr", wts, dev, dev)
    q = np.array([P[("shock_sds", t, f, "-")] for f in m.latent]) ** 2
    return mean, cov + np.diag(q)


def log_likelihood(model, P, feed):
    return run_filter(model, P, feed)["value"]
