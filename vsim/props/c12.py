"""C12: filtered and anchored states, ranges and debug labels."""
import numpy as np

from vsim import panel, ref, world
from vsim.core import Skip, require, require_close
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 5000}


def plan(rng, tier):
    cfg = {"max_periods": 5 if tier == "quick" else 8}
    if rng.random() < 0.6:
        cfg["anchoring"] = True
        cfg["min_latent"] = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        cfg["min_mixtures"] = 2
    p = world.gen_scenario(rng, cfg, n_range=(5, 12), fault_rate=1.0, rare=world.RARE)
    if rng.random() < 0.25:
        # nobody could be reached in the last waves
        m = ref.Model(p["spec"])
        t = m.measured_periods[-1]
        if t > 0 and not (m.anchored and rng.random() < 0.5):
            for u in m.updates:
                if u[0] == t and rng.random() < 0.8:
                    p["faults"].append(["drop_var", t, u[2]])
    p["want_debug"] = rng.random() < 0.5
    return p


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m, P = sc.model, sc.P
    try:
        want = ref.run_filter(m, P, sc.feed)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    df, ids, pers = sc.frame()
    a = api()
    md = model_dict(plan["spec"])
    with quiet():
        fs = a.get_filtered_states(md, df, sc.params())
    require(set(fs) >= {"anchored_states", "unanchored_states"}, "C12/keys",
            f"keys {sorted(fs)}")
    for kind, expect in [("unanchored_states", want["filtered"]),
                         ("anchored_states", want["anchored"])]:
        table = fs[kind]["states"]
        check_states(m, sc.N, table, expect, f"C12/{kind}")
        panel.check_ranges(fs[kind]["state_ranges"], expect_of(m, table, sc.N), m.latent,
                           f"C12/{kind}", kind)
        log.ev(kind, table[m.latent].to_numpy())
    if plan["want_debug"]:
        with quiet():
            dbg = a.get_maximization_inputs(md, df)["debug_loglike"](sc.params())
        check_states(m, sc.N, dbg["filtered_states"], want["filtered"], "C12/debug")
        panel.check_ranges(dbg["state_ranges"], expect_of(m, dbg["filtered_states"], sc.N),
                           m.latent, "C12/debug", "debug")
        check_tables(m, sc.N, dbg, want)
        log.count("debug_tables_checked")
    log.count("waves", m.T * sc.N)
    log.count("anchored_factors", len(m.anchored))
    log.mark(("model", m.S, m.M, m.T, tuple(m.measured_periods), len(m.anchored),
              m.ignore_const, tuple(f for f, _ in plan["spec"]["anchoring"]["outcomes"])
              if plan["spec"]["anchoring"] else ()))
    for i in range(min(sc.N, 5)):
        log.mark(("loss", "".join("x" if x else "." for x in sc.feed.arrived[:, i])))


def expect_of(m, table, n):
    """Ranges are judged against the reported states (which are judged themselves)."""
    return {
        t: table[table["period"] == t][m.latent].to_numpy(dtype=float)
        for t in m.measured_periods
    }


def check_states(m, n, table, expect, cls):
    got = list(zip(table["period"].tolist(), table["id"].tolist()))
    want = {(t, i) for t in m.measured_periods for i in range(n)}
    require(len(got) == len(want) and set(got) == want, f"{cls}-labels",
            f"{len(got)} rows, labels that differ: {sorted(set(got) ^ want)[:5]}")
    for t in m.measured_periods:
        part = table[table["period"] == t].sort_values("id", kind="stable")
        require_close(f"{cls}", f"states of period {t} (individual x factor)",
                      part[m.latent].to_numpy(), expect[t])


def check_tables(m, n, dbg, want):
    """Every row is found by its own labels, whatever the order of rows."""
    keys = m.keys
    for name, column, ref_key, mix in [
        ("all_contributions", "contribution", "ll", False),
        ("residuals", "residual", "resid", True),
        ("residual_sds", "residual", "sd", True),
        ("post_update_states", None, "post", True),
    ]:
        t = dbg[name]
        rows = list(zip(t["period"].tolist(), t["measurement"].tolist(), t["id"].tolist(),
                        t["mixture"].tolist() if mix else [0] * len(t)))
        n_mix = m.M if mix else 1
        require(len(rows) == len(keys) * n * n_mix, "C12/debug-rows",
                f"{name} has {len(rows)} rows instead of {len(keys) * n * n_mix}")
        pos = {r: j for j, r in enumerate(rows)}
        require(len(pos) == len(rows), "C12/debug-labels",
                f"{name}: {len(rows) - len(pos)} rows have the same labels as others")
        cols = [column] if column else m.latent
        vals = t[cols].to_numpy(dtype=float)
        expect = want[ref_key]
        got = np.full((len(keys), n, n_mix, len(cols)), np.nan)
        for k, (per, meas) in enumerate(keys):
            for i in range(n):
                for j in range(n_mix):
                    r = (per, meas, i, j)
                    require(r in pos, "C12/debug-labels", f"{name} has no row {r}")
                    got[k, i, j] = vals[pos[r]]
        require_close(f"C12/debug-{name}", f"{name} (update x individual x mixture)",
                      got, np.asarray(expect).reshape(got.shape))
