"""C10: simulated panels follow the model's data generating process."""
import numpy as np

from vsim import panel, world
from vsim.core import Skip, Violation, require, require_close
from vsim.rng import h
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 320, "thorough": 5000}
STUBS = "the survey that delivers controls and observed factors; seeds of numpy's generator"


def plan(rng, tier):
    mode = rng.choice(["exact", "exact", "noise"])
    small = rng.random() < 0.2  # a panel so small that some mixture components are rare
    cfg = {"max_periods": 5 if tier == "quick" else 8}
    if mode == "noise":
        cfg = {"max_periods": 4, "max_latent": 3}
        if tier == "thorough":
            cfg["max_latent"] = 4
    bare = rng.random() < 0.2
    if bare:
        cfg.update(controls=False, observed=False)
    n = rng.randint(5, 12) if mode == "exact" else rng.choice([250, 400, 900])
    if small:
        mode, n = "noise", rng.randint(3, 30)
    p = world.gen_scenario(rng, cfg, n_range=(n, n), fault_rate=0.0,
                           rare=("long", "mixtures", "wide"))
    from vsim.ref import Model

    kinds = ["drop_ctrl", "drop_cell", "drop_row", "attrit", "late", "inf", "corrupt"]
    p["faults"] = world.gen_faults(rng, Model(p["spec"]), n, 1.0, kinds)
    p["mode"] = mode
    p["feed"] = "none" if bare else "frame"
    p["nobs"] = rng.choice([None, None, "same", "more", "fewer"])
    p["seeds"] = [rng.randrange(2**32) for _ in range(rng.choice([1, 2]))]
    p["zero"] = rng.choice(["all", "shocks", "errors", "initial", "some"]) \
        if mode == "noise" else "all"
    p["zseed"] = rng.randrange(10**6)
    if mode == "noise" and rng.random() < 0.5:  # factors that are strongly correlated
        m = Model(p["spec"])
        diagonal = [f"{f}-{f}" for f in m.latent]
        for lab in m.template():
            if lab[0] == "initial_cholcovs" and lab[3] not in diagonal:
                p.setdefault("overrides", []).append(
                    [list(lab), rng.choice([-1, 1]) * rng.uniform(0.5, 1.5)])
    return p


def zeroed(m, P, plan):
    """Set some standard deviations to zero: those draws must have no effect at all."""
    P = dict(P)
    for lab in P:
        cat = lab[0]
        if plan["mode"] == "exact":
            zero = cat in ("meas_sds", "shock_sds", "initial_cholcovs")
        else:
            z = plan["zero"]
            zero = (
                (z == "shocks" and cat == "shock_sds")
                or (z == "errors" and cat == "meas_sds")
                or (z == "initial" and cat == "initial_cholcovs")
                or (z == "some" and cat in ("meas_sds", "shock_sds")
                    and h(plan["zseed"], *lab) % 3 == 0)
            )
        if zero:
            P[lab] = 0.0
    return P


def simulate(plan, sc, P, df, seed, policies=None, n_obs="plan"):
    kw = {}
    if df is not None:
        kw["data"] = df
    how = plan.get("nobs") if n_obs == "plan" else None
    if df is None or how == "same":
        kw["n_obs"] = sc.N
    elif how == "more":
        kw["n_obs"] = sc.N + 3
    elif how == "fewer":
        kw["n_obs"] = max(sc.N // 2, 1)
    if policies is not None:
        kw["policies"] = policies
    frame = world.params_frame(P, plan.get("param_delivery"))
    np.random.seed(seed)
    with quiet():
        return api().simulate_dataset(model_dict(plan["spec"]), frame, **kw)


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    m = sc.model
    if sc.fine():
        raise Skip(sc.fine())
    P = zeroed(m, sc.P, plan)
    df = sc.frame()[0] if plan["feed"] == "frame" else None
    for seed in plan["seeds"]:
        out = simulate(plan, sc, P, df, seed)
        check(plan, sc, m, P, out, log)
    log.count("waves", m.T * sc.N * len(plan["seeds"]))
    log.count(f"mode_{plan['mode']}_{plan['zero']}")
    log.mark(("model", plan["mode"], plan["zero"], m.S, m.M, m.T, len(m.observed),
              len(m.controls), len(m.anchored)))


def check(plan, sc, m, P, out, log):
    n = sc.N
    require(set(out) >= {"unanchored_states", "anchored_states", "measurements"},
            "C10/keys", f"keys {sorted(out)}")
    s = panel.states_array(out["unanchored_states"]["states"], m, n, "C10/unanchored",
                           "unanchored states")
    anch = panel.states_array(out["anchored_states"]["states"], m, n, "C10/anchored",
                              "anchored states")
    y = panel.measurement_array(out["measurements"], m, n, "C10/measurements")
    log.ev("states", s)
    log.ev("measurements", np.nan_to_num(y, nan=-12345.0))
    require_close("C10/anchored-states", "anchored states (individual x period x factor)",
                  anch, panel.anchored(m, P, s))
    for kind, arr in [("unanchored_states", s), ("anchored_states", anch)]:
        panel.check_ranges(out[kind]["state_ranges"],
                           {t: arr[:, t] for t in range(m.T)}, m.latent,
                           f"C10/{kind}", kind)
    if np.abs(s).max() > 1e5 or not np.isfinite(s).all():
        raise Skip("path explodes")
    draws, names = [], []

    # start
    w, means, covs = m.initial(P)
    if plan["mode"] == "exact" or plan["zero"] == "initial":
        d = np.abs(s[:, 0][:, None, :] - means[None]).max(axis=-1).min(axis=1)
        require(d.max() < 1e-6, "C10/initial-exact",
                f"with zero covariance an initial state is {d.max():.3g} away from every "
                "component mean")
        if m.M > 1 and n >= 200:
            sep = min(np.abs(means[i] - means[j]).max()
                      for i in range(m.M) for j in range(i))
            if sep > 1e-3:
                comp = np.abs(s[:, 0][:, None] - means[None]).max(axis=-1).argmin(axis=1)
                for j in range(m.M):
                    panel.check_order(comp == j, "C10/initial", f"component {j}")
                    k = (comp == j).sum()
                    z = abs(k - n * w[j]) / np.sqrt(n * w[j] * (1 - w[j]))
                    require(z < 6.5, "C10/initial-weights",
                            f"component {j} was drawn {k} times of {n}, weight {w[j]:.3f}")
    else:
        panel.check_distinct(s[:, 0], "C10/initial", "initial states")
        rng = np.random.RandomState(7)
        dirs = [np.eye(m.S)[j] for j in range(m.S)] + [rng.randn(m.S) for _ in range(3)]
        from scipy import stats

        for j, v in enumerate(dirs):
            u = panel.mixture_cdf(
                s[:, 0] @ v, w, means @ v, [np.sqrt(v @ c @ v) for c in covs]
            )
            what = f"initial {m.latent[j]}" if j < m.S else f"initial factors along {v}"
            panel.check_uniform(u, "C10/initial-distribution", what)
            panel.check_order(u, "C10/initial", what)
            if j == 0:
                draws.append(stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)))
                names.append(what)
        if n >= 100:
            check_cov(m, s[:, 0], w, means, covs, n)

    # transitions
    for t in range(m.T - 1):
        f = panel.transition_of(m, P, t, s[:, t], sc.feed.observed[t])
        for j, fac in enumerate(m.latent):
            sd = P[("shock_sds", t, fac, "-")]
            diff = s[:, t + 1, j] - f[:, j]
            what = f"shock of {fac} between periods {t} and {t + 1}"
            if sd == 0:
                require_close("C10/transition-exact",
                              f"{fac} in period {t + 1} without shocks",
                              s[:, t + 1, j], f[:, j], 1e-7, 1e-7)
            elif np.abs(f[:, j]).max() < 1e6 * sd:
                panel.check_normal(diff / sd, "C10/shock", what)
                draws.append(diff / sd)
                names.append(what)

    # measurements
    unusable = np.isnan(sc.feed.controls).any(axis=2)  # (T, n)
    if plan["feed"] == "none":
        unusable = np.zeros_like(unusable)
    for k, (t, name, *_rest) in enumerate(m.updates):
        lam, beta, sd = m.meas_equation(P, k)
        bad = unusable[t]
        require(np.isnan(y[k, bad]).all(), "C10/unusable-controls",
                f"{name} in period {t} is {y[k, bad][:3]} although controls are missing")
        require(np.isfinite(y[k, ~bad]).all(), "C10/missing-measurement",
                f"{name} in period {t} is missing for individuals "
                f"{np.nonzero(~bad & ~np.isfinite(y[k]))[0][:5]} with usable controls")
        x = np.ones((n, 1)) if plan["feed"] == "none" else sc.feed.controls[t]
        pred = s[:, t] @ lam + np.where(np.isnan(x), 0, x) @ beta
        what = f"error of {name} in period {t}"
        if sd == 0:
            require_close("C10/measurement-exact", f"{name} in period {t} without errors",
                          y[k, ~bad], pred[~bad], 1e-7, 1e-7)
        else:
            e = (y[k] - pred) / sd
            if (~bad).sum() >= 100:
                panel.check_normal(e[~bad], "C10/error", what)
            if not bad.any():
                draws.append(e)
                names.append(what)
    panel.check_uncorrelated(draws, names, "C10/dependence", "independent draws")
    log.count("unusable_control_rows", int(unusable.sum()))
    log.count("draws_tested", len(draws) * n if plan["mode"] == "noise" else 0)


def check_cov(m, s0, w, means, covs, n):
    mu = w @ means
    want = sum(a * (c + np.outer(b - mu, b - mu)) for a, b, c in zip(w, means, covs))
    dev = s0 - mu
    for i in range(m.S):
        for j in range(i + 1):
            prod = dev[:, i] * dev[:, j]
            se = prod.std() / np.sqrt(n)
            if abs(prod.mean() - want[i, j]) > 8 * se + 1e-9:
                raise Violation(
                    "C10/initial-covariance",
                    f"covariance of initial {m.latent[i]} and {m.latent[j]} is "
                    f"{prod.mean():.4f} instead of {want[i, j]:.4f} (n={n})",
                )
