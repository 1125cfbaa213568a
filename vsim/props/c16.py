"""C16: the filter is calibrated for panels that the simulator produced."""
import numpy as np

from vsim import panel, ref, world
from vsim.core import Skip, Violation, require
from vsim.rng import gen
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 240, "thorough": 4000}
STUBS = ("the survey that delivers controls and observed factors and loses parts of the "
         "simulated panel independently of its values; seeds of numpy's generator")
ASSUMPTIONS = ["normality, moments and correlations are tested at 6.5 to 7.5 standard "
               "errors, so miscalibration below roughly 0.2 sd with 900 individuals can "
               "go unnoticed",
               "a clean batch of seeded runs is evidence, not proof"]


def plan(rng, tier):
    anchoring = rng.random() < 0.25
    cfg = {"max_periods": 4 if tier == "quick" else 6, "max_latent": 3,
           "max_mixtures": 1, "trans": ["linear", "linear", "constant"],
           "anchoring": anchoring, "options": False}
    n = rng.choice([500, 900, 1500])
    p = world.gen_scenario(rng, cfg, n_range=(n, n), fault_rate=0.0, faithful=0.4)
    if p["spec"]["anchoring"]:
        out = p["spec"]["anchoring"]["outcomes"]
        p["spec"]["anchoring"]["outcomes"] = [[f, f"outcome_{f}"] for f, _ in out]
    p["faults"] = []
    p["delivery"].pop("levels", None)
    p["npseed"] = rng.randrange(2**32)
    p["loss"] = {
        "seed": rng.randrange(10**9),
        "cell": rng.choice([0.0, 0.05, 0.2, 0.4]),
        "row": rng.choice([0.0, 0.0, 0.1, 0.25]),
        "attrition": rng.choice([0.0, 0.0, 0.15]),
        "control": rng.choice([0.0, 0.0, 0.1]),
    }
    p["wrong"] = rng.choice(["meas_sds", "controls", "initial_states", "loadings"])
    if rng.random() < 0.3:
        p["spec"]["options"]["sigma_points_scale"] = rng.choice([0.5, 1, 3])
    return p


def lose(m, cells, n, loss, log):
    g = gen("loss", loss["seed"])
    present = np.ones((n, m.T), dtype=bool)
    gone = g.random((n, m.T)) < loss["row"]
    start = np.where(g.random(n) < loss["attrition"], g.integers(1, m.T + 1, n), m.T)
    gone |= np.arange(m.T)[None, :] >= start[:, None]
    cols = sorted({u[2] for u in m.updates})
    out = {k: v.copy() for k, v in cells.items()}
    for c in cols:
        out[c][(g.random((n, m.T)) < loss["cell"]) | gone] = np.nan
    if not m.observed:
        gone[:, 0] &= False
        present &= ~gone
    for c in m.controls[1:]:
        out[c][g.random((n, m.T)) < loss["control"]] = np.nan
    log.count("rows_lost", int((~present).sum()))
    return out, present


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    m, P, n = sc.model, sc.P, sc.N
    base = sc.frame({})[0]
    md = model_dict(plan["spec"])
    np.random.seed(plan["npseed"])
    a = api()
    with quiet():
        out = a.simulate_dataset(md, world.params_frame(P), data=base)
    truth = panel.states_array(out["unanchored_states"]["states"], m, n, "C16/unanchored",
                               "simulated states")
    y = panel.measurement_array(out["measurements"], m, n, "C16/measurements")
    if np.abs(truth).max() > 1e4:
        raise Skip("path explodes")
    cells = {k: v.copy() for k, v in sc.clean.items()}
    for k, (t, _, col, *_) in enumerate(m.updates):
        cells[col] = cells[col].copy()
        cells[col][:, t] = y[k]
    cells, present = lose(m, cells, n, plan["loss"], log)
    feed = ref.Feed(m, cells, present)
    if feed.refusals:
        raise Skip("refusal")
    df, *_ = world.deliver(m, cells, present, plan["delivery"])
    with quiet():
        mi = a.get_maximization_inputs(md, df)
        dbg = mi["debug_loglike"](sc.params())
    U = len(m.updates)
    z = np.full((U, n), np.nan)
    pos = {key: k for k, key in enumerate(m.keys)}
    res, sds = dbg["residuals"], dbg["residual_sds"]
    where = np.array([pos[x] for x in zip(res["period"], res["measurement"])])
    z[where, res["id"].to_numpy()] = res["residual"].to_numpy()
    where = np.array([pos[x] for x in zip(sds["period"], sds["measurement"])])
    s = np.full((U, n), np.nan)
    s[where, sds["id"].to_numpy()] = sds["residual"].to_numpy()
    with np.errstate(all="ignore"):
        z = z / s
    require((np.isfinite(z) == feed.arrived).all(), "C16/arrived",
            "prediction errors are not reported exactly for the measurements that arrived")
    log.ev("z", np.nan_to_num(z))
    ok = []
    for k, u in enumerate(m.updates):
        v = z[k][feed.arrived[k]]
        if len(v) >= 150:
            panel.check_normal(v, "C16/prediction-error",
                               f"standardized prediction errors of {u[1]} in period {u[0]}")
            log.count("error_series")
            if u[4] == "measurement":
                ok.append(k)
    # white across updates: later errors cannot be predicted by earlier ones
    for i, k in enumerate(ok):
        for j in ok[:i]:
            both = feed.arrived[k] & feed.arrived[j]
            if both.sum() >= 150:
                c = (z[k] * z[j])[both].sum() / np.sqrt(both.sum())
                if abs(c) > 7.5:
                    raise Violation("C16/white", f"prediction errors of {m.keys[j]} and "
                                    f"{m.keys[k]} are correlated ({c:.1f} standard errors)")
                log.count("pairs_of_series")
    check_states(m, P, n, feed, truth, a, md, df, sc, log)
    # the truth is more likely than clearly wrong parameters
    wrong = dict(P)
    for lab in P:
        if lab[0] == plan["wrong"]:
            if lab[0] == "meas_sds":
                wrong[lab] = P[lab] * 1.7
            elif lab[0] == "controls" and lab[3] == "constant":
                wrong[lab] = P[lab] + 0.8
            elif lab[0] == "initial_states":
                wrong[lab] = P[lab] + 1.5
            elif lab[0] == "loadings":
                wrong[lab] = P[lab] * 2.0
    with quiet():
        right = float(dbg["value"])
        other = float(mi["loglike"](world.params_frame(wrong))["value"])
    require(right > other, "C16/truth-not-preferred",
            f"log likelihood {right:.2f} at the truth, {other:.2f} with wrong "
            f"{plan['wrong']}")
    log.count(f"wrong_{plan['wrong']}")
    log.count("waves", int(present.sum()))
    log.mark(("model", m.S, m.T, len(m.observed), len(m.controls), len(m.anchored),
              plan["loss"]["cell"], plan["loss"]["row"], plan["loss"]["attrition"]))


def check_states(m, P, n, feed, truth, a, md, df, sc, log):
    with quiet():
        table = a.get_filtered_states(md, df, sc.params())["unanchored_states"]["states"]
    try:
        want = ref.run_filter(m, P, feed)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    last = {u[0]: k for k, u in enumerate(m.updates) if u[4] == "measurement"}
    for t, k in last.items():
        part = table[table["period"] == t]
        est = np.full((n, m.S), np.nan)
        est[part["id"].to_numpy()] = part[m.latent].to_numpy(dtype=float)
        err = est - truth[:, t]
        # posterior covariance depends on the loss pattern only
        L = np.linalg.cholesky(want["cov"][k][:, 0])
        e = np.linalg.solve(L, err[..., None])[..., 0]
        for j, f in enumerate(m.latent):
            panel.check_normal(e[:, j], "C16/state-error",
                               f"standardized error of filtered {f} in period {t}")
            x = est[:, j] - est[:, j].mean()
            if x.std() > 1e-6:
                c = (e[:, j] * x / x.std()).sum() / np.sqrt(n)
                require(abs(c) < 7.5, "C16/state-error-predictable",
                        f"error of filtered {f} in period {t} is correlated with the "
                        f"filtered state ({c:.1f} standard errors)")
        log.count("state_series", m.S)


def shrinks(plan):
    from vsim import shrink

    for k in ("cell", "row", "attrition", "control"):
        if plan["loss"][k]:
            yield {**plan, "loss": {**plan["loss"], k: 0.0}}
    yield from shrink.delivery(plan)
    yield from shrink.delivery(plan, "param_delivery")
    yield from shrink.specs(plan)
