"""C08: parameter tables delivered out of order, incomplete, duplicated or polluted."""
import numpy as np
import pandas as pd

from vsim import calls, ref, world
from vsim.core import Skip, Violation, require, require_close
from vsim.rng import stream
from vsim.target import api, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 4000}
STUBS = "the channel that delivers parameter tables to the estimation functions"
FUNCS = ["loglike"] * 4 + ["debug_loglike", "gradient", "loglike_and_gradient",
                           "jacobian", "filtered"]
FAULTS = ["missing", "missing", "extra", "extra", "duplicate", "duplicate_changed",
          "swap_label", "missing_and_extra", "missing_and_duplicate", "missing_block",
          "empty"]


def plan(rng, tier):
    p = calls.gen_small(rng, max_latent=3, max_mixtures=3)
    p["points"] = [rng.randrange(10**9) for _ in range(2)]
    p["ops"] = []
    for _ in range(rng.randint(8, 20)):
        f = rng.choice(FUNCS[:5] if rng.random() < 0.7 else FUNCS)
        if rng.random() < 0.5:
            p["ops"].append(["good", f, rng.randrange(2), rng.randrange(10**6)])
        else:
            p["ops"].append([rng.choice(FAULTS), f, rng.randrange(2),
                             rng.randrange(10**6)])
    return p


def extra_label(rng, m, taken):
    kinds = [
        ("loadings", 0, "no_such_measurement", m.latent[0]),
        ("meas_sds", 97, m.updates[0][1], "-"),
        ("transition", m.T - 1, m.latent[0], "constant"),
        ("shock_sds", m.T - 1, m.latent[0], "-"),
        ("no_such_category", 0, "-", "-"),
        ("initial_states", 0, f"mixture_{m.M}", m.latent[0]),
        ("controls", 0, m.updates[0][1], "no_such_control"),
    ]
    kinds = [k for k in kinds if k not in taken]
    return rng.choice(kinds)


def break_table(kind, frame, rng, m):
    """-> (table, missing labels, additional labels)"""
    labs = [tuple(x) for x in frame.index]
    missing, extra = [], []
    out = frame
    if kind.startswith("missing"):
        k = 1 if rng.random() < 0.5 else rng.randint(1, min(4, len(labs)))
        missing = rng.sample(labs, k)
        if kind == "missing_block":
            cat = rng.choice(labs)[0]
            missing = [x for x in labs if x[0] == cat]
        gone = set(missing)
        out = out[[x not in gone for x in labs]]
    if kind in ("extra", "missing_and_extra"):
        for _ in range(rng.choice([1, 1, 2])):
            x = extra_label(rng, m, set(labs) | set(extra))
            extra.append(x)
            idx = pd.MultiIndex.from_tuples([x], names=frame.index.names)
            row = pd.DataFrame({c: [0.5] if c == "value" else [np.nan]
                                for c in frame.columns}, index=idx)
            out = pd.concat([out, row] if rng.random() < 0.6 else [row, out])
    if kind.startswith("duplicate") or kind == "missing_and_duplicate":
        keep = [tuple(x) for x in out.index]
        pos = rng.randrange(len(keep))
        row = out.iloc[[pos]].copy()
        if kind != "duplicate":
            row["value"] = row["value"] + 0.5
        out = pd.concat([out, row] if rng.random() < 0.6 else [row, out])
    if kind == "swap_label":
        x = rng.choice(labs)
        y = extra_label(rng, m, set(labs))
        missing, extra = [x], [y]
        out = frame.copy()
        out.index = pd.MultiIndex.from_tuples([y if z == x else z for z in labs],
                                              names=frame.index.names)
    if kind == "empty":
        out, missing = frame.iloc[:0], labs[:3]
    if rng.random() < 0.4:
        out = out.iloc[rng.sample(range(len(out)), len(out))]
    return out, missing, extra


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m, a = sc.model, api()
    df, md = sc.frame()[0], model_dict(plan["spec"])
    wants, tables = [], []
    for ps in plan["points"]:
        P = world.make_params(m, ps)
        try:
            wants.append(ref.run_filter(m, P, sc.feed))
        except ref.Ill as e:
            raise Skip(f"ill {e}")
        tables.append(P)
    with quiet():
        mi = a.get_maximization_inputs(md, df)
    seen = {}

    def call(func, frame):
        if func == "filtered":
            return calls.states(a.get_filtered_states(md, df, frame), "filtered")
        out = mi[func](frame)
        if func == "loglike":
            return [("contributions", np.asarray(out["contributions"], float)),
                    ("value", np.asarray(out["value"], float))]
        if func == "debug_loglike":
            return calls.debug(out)
        if func == "loglike_and_gradient":
            return [("value", np.asarray(out[0]["value"], float)),
                    ("gradient", np.asarray(out[1], float))]
        return [(func, np.asarray(out, float))]

    def good(func, j, delivery, when):
        frame = world.params_frame(tables[j], delivery)
        before = fp(frame)
        with quiet():
            got = call(func, frame)
        require(fp(frame) == before, "C08/mutated", f"{func} modified the table")
        if func in ("loglike", "debug_loglike"):
            c = dict(got)["contributions"]
            require_close(f"C08/{func}", f"{func} with table {delivery} {when}", c,
                          wants[j]["contributions"])
        if (func, j) in seen:
            d = calls.differ(got, seen[func, j], 0, 0)
            require(not d, f"C08/{func}-order",
                    f"{func} depends on how the table is delivered ({delivery}) {when}: {d}")
        seen[func, j] = got
        log.ev(func, j, calls.bits(got))
        log.count("good_tables")

    for n, (kind, func, j, seed) in enumerate(plan["ops"]):
        rng = stream("table", seed)
        delivery = world.gen_param_delivery(rng, 0.1)
        names = world.gen_level_names(rng)
        if func != "filtered":
            delivery["names"] = names
        if kind == "good":
            good(func, j, delivery, f"in operation {n}")
            continue
        frame = world.params_frame(tables[j], delivery)
        bad, missing, extra = break_table(kind, frame, rng, m)
        if func == "filtered" and extra and not missing:
            continue  # only estimation functions have to refuse additional rows
        before = fp(bad)
        try:
            with quiet():
                got = call(func, bad)
        except Exception as e:  # noqa: BLE001
            text = str(e)
            if func != "filtered" and not kind.endswith("duplicate"):
                for what, labels in [("missing", missing), ("additional", extra)]:
                    for lab in labels:
                        absent = [str(p) for p in lab if str(p) not in text]
                        require(not absent, "C08/message",
                                f"{func} does not name the {what} label {lab}: "
                                f"{text[:300]}")
            log.ev("refused", kind, type(e).__name__)
            log.count(f"refused_{kind}")
            log.mark(("refused", kind, func))
        else:
            raise Violation(f"C08/accepted-{kind}",
                            f"{func} accepted a table with fault {kind} (missing {missing}, "
                            f"additional {extra}) and returned {str(got)[:200]}")
        require(fp(bad) == before, "C08/mutated", f"{func} modified a table it refused")
    good("loglike", 0, {}, "after the history")
    good("loglike", 1, {"rows": 1}, "after the history")
    log.count("waves", m.T * sc.N)
