"""C02: lost measurements are inert; data faults stay confined to their individual."""
import re

import numpy as np

from vsim import ref, world
from vsim.core import Skip, Violation, require, require_close
from vsim.target import PKG, api, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 240, "thorough": 4000}


def plan(rng, tier):
    cfg = {"max_periods": 4 if tier == "quick" else 7}
    if rng.random() < 0.35:
        cfg["controls"] = True
    p = world.gen_scenario(rng, cfg, n_range=(6, 10), fault_rate=0.5,
                           rare=("long", "mixtures", "wide"))
    m = ref.Model(p["spec"])
    n_victims = rng.choice([1, 1, 2])
    p["victims"] = sorted(rng.sample(range(p["N"]), n_victims))
    more = []
    while len(more) < rng.choice([1, 2, 4]):
        for f in world.gen_faults(rng, m, p["N"], 1.0):
            if f[0] == "drop_var":
                continue
            f[1] = rng.choice(p["victims"])
            if f[0] == "corrupt" and rng.random() < 0.3:
                f[4] = rng.choice([1e4, -1e6, 1e8])
            more.append(f)
            if len(more) >= 6:
                break
        else:
            more.append(["drop_cell", p["victims"][0], m.updates[-1][0], m.updates[-1][2]])
    if m.controls[1:] + m.observed and rng.random() < 0.25:
        more.append(["corrupt", p["victims"][0], rng.randrange(m.T),
                     rng.choice(m.controls[1:] + m.observed),
                     rng.choice([float("inf"), -float("inf"), 1e200])])
    p["ops"] = more
    p["leavers"] = sorted(rng.sample(range(p["N"]), rng.randint(1, 2)))
    p["leave"] = rng.random() < 0.35
    return p


def evaluate(plan, m, P, cells, present, log):
    df, ids, pers = world.deliver(m, cells, present, plan.get("delivery"))
    with quiet() as caught:
        mi = api().get_maximization_inputs(model_dict(plan["spec"]), df)
        dbg = mi["debug_loglike"](world.params_frame(P))
        fast = mi["loglike"](world.params_frame(P)) if plan.get("fast", True) else None
    feed = ref.Feed(m, cells, present)
    U, N, M, S = len(m.updates), feed.N, m.M, m.S
    out = {
        "feed": feed,
        "contrib": dbg["all_contributions"]["contribution"].to_numpy().reshape(U, N),
        "resid": dbg["residuals"]["residual"].to_numpy().reshape(U, N, M),
        "sd": dbg["residual_sds"]["residual"].to_numpy().reshape(U, N, M),
        "post": dbg["post_update_states"][m.latent].to_numpy().reshape(U, N, M, S),
        "total": dbg["contributions"],
        "fast": fast["contributions"],
    }
    check_warning(feed, ids, pers, caught, log)
    check_inert(m, P, out, log)
    return out


def forms(x):
    out = {str(x), repr(x)}
    if isinstance(x, (int, float)):
        out |= {str(float(x)), f"{x:g}"}
        if float(x).is_integer():
            out.add(str(int(x)))
    if hasattr(x, "value"):
        out |= {str(x.value), str(x)[:10]}
    return out


def check_warning(feed, ids, pers, caught, log):
    mine = [w for w in caught if issubclass(w.category, UserWarning)
            and w.filename.startswith(PKG)]
    text = "\n".join(str(w.message) for w in mine)
    want = [(ids[i], pers[t]) for i, t in feed.discarded]
    if not want:
        require(not mine, "C02/warning", f"warning without discarded rows: {text[:300]}")
        return
    log.count("discard_warnings")
    log.mark(("discarded", len(want)))
    require(mine, "C02/warning", f"no warning although rows {want} were discarded")
    for a, b in want:
        require(
            any(x in text for x in forms(a)) and any(x in text for x in forms(b)),
            "C02/warning",
            f"warning does not name individual {a!r} in period {b!r}: {text[:400]}",
        )
    if isinstance(ids[0], (int, float)) and isinstance(pers[0], (int, float)):
        num = r"(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)"
        found = re.findall(rf"\(\s*{num}\s*,\s*{num}\s*\)", text)
        if found:
            got = {(float(a), float(b)) for a, b in found}
            exp = {(float(a), float(b)) for a, b in want}
            require(got == exp, "C02/warning",
                    f"warning names {sorted(got)} instead of {sorted(exp)}")


def check_inert(m, P, out, log):
    feed = out["feed"]
    miss = ~feed.arrived
    log.count("inert_updates_checked", int(miss.sum()))
    c = out["contrib"][miss]
    require((c == 0).all(), "C02/inert-contribution",
            f"contribution of a lost measurement is {c[c != 0][:3]} instead of 0")
    require(np.isnan(out["resid"][miss]).all(), "C02/inert-residual",
            "a lost measurement has a residual")
    for k in range(1, len(m.updates)):
        same_period = m.updates[k][0] == m.updates[k - 1][0]
        if not same_period:
            continue
        a, b = out["post"][k][miss[k]], out["post"][k - 1][miss[k]]
        require(np.array_equal(a, b, equal_nan=True), "C02/inert-state",
                f"update {m.keys[k]}: a lost measurement moved a state "
                f"by {np.max(np.nan_to_num(np.abs(a - b)), initial=0)}")


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m, P = sc.model, sc.P
    try:
        ref.run_filter(m, P, sc.feed)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    victims = [v for v in plan["victims"] if v < sc.N]
    a = evaluate(plan, m, P, sc.cells, sc.present, log)
    extra = [f for f in plan["ops"] if f[1] in victims]
    cells, present = world.apply_faults(m, sc.cells, sc.N, extra, log.stats)
    present &= sc.present
    if not world.in_scope(m, cells, present):
        raise Skip("victims out of scope")
    b = evaluate(plan, m, P, cells, present, log)
    others = [i for i in range(sc.N) if i not in victims]
    for key in ("contrib", "resid", "sd", "post"):
        require_close(f"C02/isolation-{key}",
                      f"{key} of individuals without the fault (victims {victims})",
                      b[key][:, others], a[key][:, others], 1e-9, 1e-9)
    for key in ("total", "fast"):
        require_close(f"C02/isolation-{key}", f"{key} contributions of others",
                      b[key][others], a[key][others], 1e-9, 1e-9)
    for v in victims:
        k = first_difference(m, a["feed"], b["feed"], v)
        log.mark(("first", k))
        for key in ("contrib", "resid", "sd", "post"):
            require_close(f"C02/causality-{key}",
                          f"{key} of individual {v} before its first fault (update {k})",
                          b[key][:k, v], a[key][:k, v], 1e-9, 1e-9)
    try:
        exploded = [k for k, v in cells.items() if k in m.controls + m.observed
                    and (np.abs(v[present]) > 1e100).any()]
        if exploded:  # the victim has no usable states, which is its own affair
            log.count("unusable_control_or_observed_factor")
            raise ref.Ill("not finite")
        want = ref.run_filter(m, P, b["feed"])
    except ref.Ill:
        want = None
        log.count("victim_outside_numeric_range")
    if want is not None:
        require_close("C02/posterior", "contribution after the faults", b["contrib"],
                      want["ll"])
        require_close("C02/posterior-state", "states after the faults", b["post"],
                      want["post"])
    if plan["leave"]:
        stay = [i for i in range(sc.N) if i not in plan["leavers"]]
        sub = {k: v[stay] for k, v in sc.cells.items()}
        if len(stay) >= 3 and world.in_scope(m, sub, sc.present[stay]):
            c = evaluate(plan, m, P, sub, sc.present[stay], log)
            log.count("individuals_withdrawn", sc.N - len(stay))
            for key in ("contrib", "resid", "sd", "post"):
                require_close(f"C02/withdrawal-{key}",
                              f"{key} of those who stay when {plan['leavers']} withdraw",
                              c[key], a[key][:, stay], 1e-9, 1e-9)
    log.count("waves", 2 * m.T * sc.N)
    log.ev("a", a["total"], a["fast"])
    log.ev("b", b["total"], b["fast"])


def first_difference(m, fa, fb, v):
    """Index of the first update that may differ for individual v."""
    for k, (t, *_rest) in enumerate(m.updates):
        if t > 0 and not np.array_equal(fa.observed[:t, v], fb.observed[:t, v]):
            return k
        if not np.array_equal(fa.y[k, v], fb.y[k, v], equal_nan=True):
            return k
        if not np.array_equal(fa.controls[t, v], fb.controls[t, v], equal_nan=True):
            return k
    return len(m.updates)
