"""C03: delivery order, labels and container history do not matter; refusals."""
import copy

import numpy as np

from vsim import ref, world
from vsim.core import Skip, Violation, require, require_close
from vsim.rng import stream
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 4000}
REFUSALS = ["dup_row", "dup_row_changed", "drop_measurement_column", "drop_control_column",
            "drop_observed_column", "drop_outcome_column", "control_all_missing",
            "no_variance", "observed_cell", "observed_row"]


def plan(rng, tier):
    cfg = {"max_periods": 4}
    mode = rng.choice(["orders", "orders", "refusal"])
    if mode == "refusal":
        cfg["max_periods"] = 3
        if rng.random() < 0.6:
            cfg["observed"] = True
        if rng.random() < 0.6:
            cfg["controls"] = True
    p = world.gen_scenario(rng, cfg, n_range=(6, 12), fault_rate=0.6, faithful=0.0,
                           rare=world.RARE)
    p["mode"] = mode
    p["deliveries"] = [p.pop("delivery")] + [
        world.gen_delivery(rng, 0.0) for _ in range(rng.choice([1, 2]))
    ]
    if mode == "refusal":
        p["refusals"] = [
            [rng.choice(REFUSALS), rng.randrange(10**6)] for _ in range(rng.randint(2, 5))
        ]
    p["corr"] = rng.random() < 0.5
    return p


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    if plan["mode"] == "refusal":
        return refusals(plan, sc, log)
    m = sc.model
    try:
        want = ref.run_filter(m, sc.P, sc.feed)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    a = api()
    md = model_dict(plan["spec"])
    first_corr = None
    for n, d in enumerate(plan["deliveries"]):
        for key in d:
            log.count(f"delivery_{key}")
        log.mark(("delivery", d.get("ids"), d.get("periods"), d.get("unused_levels"),
                  "rows" in d, d.get("extra_waves", 0)))
        df, ids, pers = sc.frame(d)
        with quiet():
            mi = a.get_maximization_inputs(md, df)
            fast = mi["loglike"](sc.params())
            fs = a.get_filtered_states(md, df, sc.params())
        require_close("C03/value", f"loglike of delivery {d}", fast["value"], want["value"])
        require_close("C03/contributions",
                      f"contributions in ascending order of ids, delivery {d}",
                      fast["contributions"], want["contributions"])
        states = fs["unanchored_states"]["states"]
        require(
            sorted(set(states["period"].tolist())) == m.measured_periods,
            "C03/filtered-periods",
            f"filtered periods {sorted(set(states['period'].tolist()))}",
        )
        for t in m.measured_periods:
            part = states[states["period"] == t].sort_values("id", kind="stable")
            require_close("C03/filtered", f"filtered states of period {t}, delivery {d}",
                          part[m.latent].to_numpy(), want["filtered"][t])
        if plan["corr"]:
            with quiet():
                corr = correlations(a, md, df, m)
            if first_corr is None:
                first_corr = corr
            else:
                for what, c in corr.items():
                    f = first_corr[what]
                    require(list(c.index) == list(f.index)
                            and list(c.columns) == list(f.columns),
                            "C03/correlation-labels", f"{what} labels change with {d}")
                    require_close("C03/correlation", f"{what} with delivery {d}",
                                  c.to_numpy(), f.to_numpy(), 1e-9, 1e-9)
        log.ev("delivery", n, fast["value"], fast["contributions"])
        log.count("waves", m.T * sc.N)
    # an absent row is a row of missing values
    if not m.observed:
        present = np.ones_like(sc.present)
        cells = {k: np.where(sc.present, v, np.nan) for k, v in sc.cells.items()}
        df, *_ = world.deliver(m, cells, present, plan["deliveries"][0])
        with quiet():
            full = a.get_maximization_inputs(md, df)["loglike"](sc.params())
        require_close("C03/absent-row", "rows of missing values instead of absent rows",
                      full["contributions"], want["contributions"])


def correlations(a, md, df, m):
    out = {}
    for name, func in [("measurements", a.ch.get_measurements_corr),
                       ("quasi_scores", a.ch.get_quasi_scores_corr)]:
        for periods in (0, list(m.measured_periods)[:2]):
            out[f"{name} {periods}"] = func(df, md, None, periods)
    return out


def refusals(plan, sc, log):
    """Panels that cannot be used, and a usable control panel before and after."""
    m, a = sc.model, api()
    md = model_dict(plan["spec"])
    d = plan["deliveries"][0]

    def usable(when):
        with quiet():
            mi = a.get_maximization_inputs(md, sc.frame(d)[0])
        require(len(mi["params_template"]) == len(m.template()), "C03/usable",
                f"usable panel {when} the refusals: template of {len(mi['params_template'])}")

    usable("before")
    for kind, seed in plan["refusals"]:
        rng = stream("refusal", kind, seed)
        df = broken(kind, rng, m, sc, d)
        if df is None:
            continue
        log.count(f"refusal_{kind}")
        log.mark(("refusal", kind))
        for name, call in [
            ("get_maximization_inputs", lambda: a.get_maximization_inputs(md, df)),
            ("get_filtered_states", lambda: a.get_filtered_states(md, df, sc.params())),
        ]:
            if name == "get_filtered_states" and rng.random() < 0.7:
                continue
            try:
                with quiet():
                    call()
            except Exception as e:  # noqa: BLE001
                log.ev("refused", kind, type(e).__name__)
            else:
                raise Violation(f"C03/accepted-{kind}",
                                f"{name} accepted an unusable panel ({kind})")
    usable("after")


def broken(kind, rng, m, sc, d):
    import pandas as pd

    cells = {k: v.copy() for k, v in sc.cells.items()}
    present = sc.present.copy()
    frame = lambda: world.deliver(m, cells, present, d)[0]
    ctl, obs = m.controls[1:], m.observed
    meas = [u for u in m.updates if u[4] == "measurement"]
    if kind.startswith("dup_row"):
        df = frame()
        # a row of a period the model uses
        inside = [
            k for k, lab in enumerate(df.index)
            if lab[1] in world.period_labels(d.get("periods", "zero"), m.T)
        ]
        row = df.iloc[[rng.choice(inside)]].copy()
        if kind == "dup_row_changed":
            u = rng.choice(meas)
            row[u[2]] = row[u[2]] + 1.5
        out = pd.concat([df, row])
        return out.iloc[np.random.RandomState(rng.randrange(1000)).permutation(len(out))]
    if kind == "drop_measurement_column":
        return frame().drop(columns=rng.choice(meas)[2])
    if kind == "drop_control_column":
        return frame().drop(columns=rng.choice(ctl)) if ctl else None
    if kind == "drop_observed_column":
        return frame().drop(columns=rng.choice(obs)) if obs else None
    if kind == "drop_outcome_column":
        return frame().drop(columns=rng.choice(m.anchored)[1]) if m.anchored else None
    if kind == "control_all_missing":
        if not ctl:
            return None
        cells[rng.choice(ctl)][:, rng.randrange(m.T)] = np.nan
        return frame()
    if kind == "no_variance":
        u = rng.choice(m.updates)
        col = cells[u[2]]
        if rng.random() < 0.5:
            ok = present[:, u[0]] & np.isfinite(col[:, u[0]])
            if not ok.any():
                return None
            col[~np.isfinite(col[:, u[0]]), u[0]] = np.nan
            col[ok, u[0]] = 0.75
        else:  # only one individual delivered
            ok = np.nonzero(present[:, u[0]] & np.isfinite(col[:, u[0]]))[0]
            if len(ok) == 0:
                return None
            keep = rng.choice(list(ok))
            v = col[keep, u[0]]
            col[:, u[0]] = np.nan
            col[keep, u[0]] = v
        return frame()
    if kind == "observed_cell":
        if not obs:
            return None
        cells[rng.choice(obs)][rng.randrange(sc.N), rng.randrange(m.T)] = np.nan
        return frame()
    if kind == "observed_row":
        if not obs:
            return None
        i, t = rng.randrange(sc.N), rng.randrange(m.T)
        present[i, t] = False
        if not present.any(axis=0).all() or not present.any(axis=1).all():
            return None
        return frame()
    raise AssertionError(kind)
