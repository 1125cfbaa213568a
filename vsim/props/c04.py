"""C04: value, debug value, gradient and jacobian agree, and stay finite under losses."""
import numpy as np

from vsim import ref, world
from vsim.core import Skip, Violation, require, require_close
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 160, "thorough": 2500}
SOFT = {"quick": 60.0, "thorough": 780.0}


def plan(rng, tier):
    cfg = {"max_latent": 2, "max_periods": 3, "max_mixtures": 2, "max_meas": 2}
    if tier == "thorough":
        cfg = {"max_latent": 3, "max_periods": 5}
    p = world.gen_scenario(rng, cfg, n_range=(5, 9), faithful=0.6, rare=("long", "mixtures"))
    p["jacobian_type"] = rng.choice(["jacrev", "jacfwd", None])
    p["use"] = rng.choice([["gradient", "jacobian"], ["loglike_and_gradient"],
                           ["gradient", "loglike_and_gradient"], ["jacobian"]])
    p["order"] = rng.randrange(10**6)
    return p


STEP = 2e-5


def fd_gradient(m, P, labels, feed, cells, step=STEP):
    """Central differences of the reference, and the unit of each parameter: that of a
    coefficient of a control is the smaller, the larger the control."""
    g, units = np.zeros(len(labels)), np.ones(len(labels))
    for j, lab in enumerate(labels):
        vals = []
        if lab[0] == "controls" and lab[3] != "constant":
            units[j] /= max(1.0, float(np.nanmax(np.abs(cells[lab[3]]), initial=1.0)))
        h = step * units[j]
        for s in (-2, -1, 1, 2):
            Q = dict(P)
            Q[lab] = P[lab] + s * h
            vals.append(ref.run_filter(m, Q, feed)["value"])
        g[j] = (vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h)
    return g, units


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m, P = sc.model, sc.P
    df, *_ = sc.frame()
    kw = {"jacobian_type": plan["jacobian_type"]} if plan["jacobian_type"] else {}
    with quiet():
        mi = api().get_maximization_inputs(model_dict(plan["spec"]), df, **kw)
    labels = [tuple(x) for x in mi["params_template"].index]
    require(sorted(labels, key=str) == sorted(m.template(), key=str), "C04/template",
            "the template's rows are not the model's parameters")
    try:
        want = ref.run_filter(m, P, sc.feed)["value"]
        g_ref, units = fd_gradient(m, P, labels, sc.feed, sc.cells)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    frame = sc.params()
    with quiet():
        fast = mi["loglike"](frame)
        grads = {}
        for what in plan["use"]:
            r = mi[what](frame)
            if what == "loglike_and_gradient":
                require_close("C04/lg-value", "value of loglike_and_gradient",
                              r[0]["value"], fast["value"], 1e-9, 1e-9)
                require_close("C04/lg-contributions",
                              "contributions of loglike_and_gradient",
                              r[0]["contributions"], fast["contributions"], 1e-9, 1e-9)
                r = r[1]
            grads[what] = r
        dbg = mi["debug_loglike"](frame)
        again = mi["loglike"](frame)
    require(np.isfinite(fast["contributions"]).all() and np.isfinite(fast["value"]),
            "C04/finite-value", "likelihood is not finite")
    require_close("C04/value", "loglike against the reference", fast["value"], want)
    require_close("C04/debug", "debug_loglike against loglike", dbg["value"],
                  fast["value"], 1e-9, 1e-9)
    require_close("C04/debug-contributions", "debug contributions against loglike",
                  dbg["contributions"], fast["contributions"], 1e-9, 1e-9)
    require_close("C04/sum", "sum of contributions against value",
                  np.sum(fast["contributions"]), fast["value"], 1e-9, 1e-9)
    require(again["value"] == fast["value"], "C04/again", "second evaluation differs")
    for what, g in grads.items():
        g = np.asarray(g, dtype=float)
        if g.ndim == 2 and g.shape[0] == sc.N and what == "jacobian":
            g = g.sum(axis=0)
        require(g.shape == (len(labels),), "C04/shape", f"{what} has shape {g.shape}")
        bad = [labels[j] for j in np.nonzero(~np.isfinite(g))[0]]
        require(not bad, "C04/finite-gradient", f"{what} is not finite for {bad[:4]}")
        # differences of large values are that much less exact
        noise = 30 * np.finfo(float).eps * max(abs(want), np.abs(fast["contributions"]).sum())
        err = np.maximum(np.abs(g - g_ref) * units - noise / STEP, 0)
        err = err / (1 + np.abs(g_ref) * units)
        j = int(np.argmax(err))
        require(err[j] < 2e-4, f"C04/{what}",
                f"{what} of {labels[j]}: {g[j]!r}, finite difference of the reference "
                f"{g_ref[j]!r}")
        log.ev(what, np.round(g, 8))
        log.count(f"checked_{what}")
    log.mark(("model", m.S, m.M, len(m.observed), len(m.controls), bool(m.anchored),
              tuple(f["trans"] if isinstance(f["trans"], str) else "c"
                    for f in m.spec["factors"])))
    log.count("waves", m.T * sc.N)
    log.ev("value", fast["value"])
