"""C11: injected policy shocks hit the named factor and period, and propagate forward."""
import copy

import numpy as np

from vsim import panel, world
from vsim.core import Skip, require, require_close
from vsim.props.c10 import simulate
from vsim.ref import Model
from vsim.target import api, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 320, "thorough": 6000}
STUBS = "the policy maker who injects shocks; seeds of numpy's generator"


def plan(rng, tier):
    mode = rng.choice(["exact", "exact", "exact", "random"])
    cfg = {"max_periods": 5 if tier == "quick" else 8, "min_periods": 2}
    if mode == "random":
        cfg.update(max_mixtures=1, max_periods=4)
    n = rng.randint(5, 12) if mode == "exact" else rng.choice([250, 500])
    p = world.gen_scenario(rng, cfg, n_range=(n, n), fault_rate=0.0, rare=("long",))
    m = Model(p["spec"])
    p["mode"] = mode
    p["seed"] = rng.randrange(2**32)
    p["faults"] = world.gen_faults(rng, m, n, 0.5, ["drop_ctrl", "drop_cell", "late"])
    p["ops"] = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        t = rng.randrange(m.T - 1)
        if p["ops"] and rng.random() < 0.4:
            t = p["ops"][-1]["period"]
        f = rng.choice(m.latent)
        if p["ops"] and rng.random() < 0.3:
            f = p["ops"][-1]["factor"]
        p["ops"].append({
            "period": t, "factor": f,
            "effect_size": rng.choice([0.5, -0.5, 1, 0.25, 2.0, 0.0]),
            "standard_deviation": 0 if mode == "exact" or rng.random() < 0.25
            else rng.choice([0.1, 0.5, 1.0]),
        })
        if mode == "exact" and rng.random() < 0.3:
            p["ops"][-1]["standard_deviation"] = 0.0
    p["negative"] = rng.random() < 0.2
    p["int_effect"] = rng.random() < 0.2
    return p


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m, n = sc.model, sc.N
    P = dict(sc.P)
    if plan["mode"] == "random":
        for lab in P:
            if lab[0] in ("shock_sds", "initial_cholcovs"):
                P[lab] = 0.0
    ops = [p for p in plan["ops"] if p["factor"] in m.latent and p["period"] < m.T - 1]
    if not ops:
        raise Skip("no policy left")
    df = sc.frame()[0]

    def run(policies):
        out = simulate(plan, sc, P, df, plan["seed"], policies, n_obs=None)
        s = panel.states_array(out["unanchored_states"]["states"], m, n, "C11/unanchored",
                               "unanchored states")
        an = panel.states_array(out["anchored_states"]["states"], m, n, "C11/anchored",
                                "anchored states")
        y = panel.measurement_array(out["measurements"], m, n, "C11/measurements")
        return s, an, y

    mine = copy.deepcopy(ops)
    before = fp(mine)
    s0, an0, y0 = run(None)
    s1, an1, y1 = run(mine)
    require(fp(mine) == before, "C11/mutated", "the list of policies was modified")
    log.ev("base", s0)
    log.ev("policy", s1)
    if max(np.abs(s0).max(), np.abs(s1).max()) > 1e5:
        raise Skip("path explodes")
    names = [(p["period"], p["factor"], p["effect_size"], p["standard_deviation"])
             for p in ops]
    if plan["mode"] == "exact":
        want = s0.copy()
        for t in range(m.T):
            if t > 0:
                obs = sc.feed.observed[t - 1]
                want[:, t] = (
                    panel.transition_of(m, P, t - 1, want[:, t - 1], obs)
                    + s0[:, t]
                    - panel.transition_of(m, P, t - 1, s0[:, t - 1], obs)
                )
            for p in ops:
                if p["period"] == t:
                    want[:, t, m.latent.index(p["factor"])] += p["effect_size"]
        for t in range(m.T):
            hit = [x for x in names if x[0] == t]
            require_close("C11/states", f"states of period {t} with policies {names}",
                          s1[:, t], want[:, t])
            log.mark(("period", t, len(hit)))
        first = min(p["period"] for p in ops)
        require(np.array_equal(s1[:, :first], s0[:, :first]), "C11/before",
                f"states before period {first} differ bitwise")
        want_y = y0.copy()
        for k, (t, *_rest) in enumerate(m.updates):
            lam, _, _ = m.meas_equation(P, k)
            want_y[k] = y0[k] + (want[:, t] - s0[:, t]) @ lam
        require_close("C11/measurements", f"measurements with policies {names}", y1, want_y)
        require_close("C11/anchored-states", "anchored states with policies", an1,
                      panel.anchored(m, P, want))
    else:
        # without other sources of noise the injected shift itself is visible
        total = []
        for t in range(m.T):
            pred = s0[:, 0] if t == 0 else panel.transition_of(
                m, P, t - 1, s1[:, t - 1], sc.feed.observed[t - 1])
            for j, fac in enumerate(m.latent):
                shift = s1[:, t, j] - pred[:, j]
                here = [p for p in ops if p["period"] == t and p["factor"] == fac]
                mean = sum(p["effect_size"] for p in here)
                sd = np.sqrt(sum(p["standard_deviation"] ** 2 for p in here))
                what = f"shift of {fac} in period {t} with policies {names}"
                if sd == 0:
                    require_close("C11/random-other", what, shift, np.full(n, mean))
                else:
                    panel.check_normal((shift - mean) / sd, "C11/random-shift", what)
                    total.append(((shift - mean) / sd, what))
        panel.check_uncorrelated([x for x, _ in total], [w for _, w in total],
                                 "C11/random-dependence", "shocks of separate policies")
        for k, (t, name, *_r) in enumerate(m.updates):
            lam, beta, sd = m.meas_equation(P, k)
            x = sc.feed.controls[t]
            ok = ~np.isnan(x).any(axis=1)
            e = (y1[k] - s1[:, t] @ lam - np.where(np.isnan(x), 0, x) @ beta) / sd
            panel.check_normal(e[ok], "C11/random-measurement",
                               f"error of {name} in period {t}")
    if plan["negative"]:
        bad = copy.deepcopy(ops)
        bad[-1]["standard_deviation"] = -0.5
        try:
            run(bad)
        except Exception as e:  # noqa: BLE001
            log.ev("refused", type(e).__name__)
        else:
            require(False, "C11/negative", "a negative standard deviation was accepted")
        s2, _, y2 = run(mine)
        require(np.array_equal(s2, s1), "C11/after-refusal",
                "states after a refused policy differ")
        log.count("refused_policies")
    log.count("policies_injected", len(ops))
    log.count("waves", 2 * m.T * n)
    log.mark(("policies", plan["mode"], len(ops), m.T, m.S, m.M))
