"""C13: sequences of model edits against edits by hand."""
import copy

import numpy as np

from vsim import interrupt, ref, world
from vsim import spec as sp
from vsim.core import Skip, require, require_close
from vsim.ref import Model
from vsim.rng import stream, uniform
from vsim.target import api, canon, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 9000}
STUBS = "the analyst who edits models; interruptions at program points"
KINDS = ["remove_factors", "extract_factors", "remove_measurements", "remove_controls",
         "reduce_n_periods", "switch_translog_to_linear", "switch_linear_to_translog",
         "update_parameter_values"]


def plan(rng, tier):
    cfg = {"max_latent": 4, "max_periods": 6, "min_latent": 2 if rng.random() < 0.7 else 1,
           "trans": ["linear", "translog", "linear", "translog", "log_ces", "constant",
                     "robust_translog", "custom"]}
    if rng.random() < 0.5:
        cfg["controls"] = True
    p = world.gen_scenario(rng, cfg, n_range=(6, 9), fault_rate=0.3, faithful=0.7,
                           rare=("long", "wide", "mixtures"))
    p["columns"] = rng.sample(["lower_bound", "upper_bound", "note"], rng.randint(0, 3))
    p["ops"] = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        p["ops"].append({
            "kind": rng.choice(KINDS),
            "seed": rng.randrange(10**6),
            "params": rng.random() < 0.75,
            "fault": rng.choice([None] * 6 + ["interrupt", "memory", "error",
                                              "missing_row"]),
            "at": [rng.choice(["event", "place"]), rng.random(), rng.random()],
        })
    p["estimate"] = rng.random() < 0.25
    return p


# ---------------------------------------------------------------- edits by hand
def shorten(spec, T):
    s = copy.deepcopy(spec)
    for f in s["factors"]:
        f["meas"] = f["meas"][:T]
        if f["norm"]:
            f["norm"] = {k: v[:T] for k, v in f["norm"].items()}
    if s["stagemap"] is not None:
        s["stagemap"] = s["stagemap"][: T - 1]
    return s


def by_hand(spec, kind, arg):
    s = copy.deepcopy(spec)
    if kind in ("remove_factors", "extract_factors"):
        names = [arg] if isinstance(arg, str) else list(arg)
        if kind == "extract_factors":
            names = [f["name"] for f in s["factors"] if f["name"] not in names]
        s["factors"] = [f for f in s["factors"] if f["name"] not in names]
        if s["anchoring"]:
            s["anchoring"]["outcomes"] = [
                o for o in s["anchoring"]["outcomes"] if o[0] not in names
            ]
            if not s["anchoring"]["outcomes"]:
                s["anchoring"] = None
        return shorten(s, sp.n_periods(s)) if s["factors"] else s
    if kind == "remove_measurements":
        names = [arg] if isinstance(arg, str) else list(arg)
        for f in s["factors"]:
            f["meas"] = [[x for x in ms if x not in names] for ms in f["meas"]]
            if f["norm"]:
                f["norm"] = {
                    k: [{a: b for a, b in d.items() if a not in names} for d in v]
                    for k, v in f["norm"].items()
                }
        return s
    if kind == "remove_controls":
        names = [arg] if isinstance(arg, str) else list(arg)
        s["controls"] = [c for c in s["controls"] if c not in names]
        return s
    if kind == "reduce_n_periods":
        return shorten(s, arg)
    old, new = ("translog", "linear") if kind == "switch_translog_to_linear" \
        else ("linear", "translog")
    for f in s["factors"]:
        if f["trans"] == old:
            f["trans"] = new
    return s


def draw_arg(spec, kind, rng):
    """An argument for which the edited model is still a model, or None."""
    names = [f["name"] for f in spec["factors"]]
    if kind in ("remove_factors", "extract_factors"):
        if len(names) < 2:
            return None
        k = rng.randint(1, len(names) - (kind == "remove_factors"))
        arg = rng.sample(names, k)
        if kind == "remove_factors" and rng.random() < 0.1:
            arg.append("no_such_factor")
        return arg[0] if k == 1 and rng.random() < 0.5 else arg
    if kind == "remove_measurements":
        every = sorted({x for f in spec["factors"] for ms in f["meas"] for x in ms})
        arg = rng.sample(every, min(len(every), rng.randint(1, 3)))
        return arg[0] if len(arg) == 1 and rng.random() < 0.5 else arg
    if kind == "remove_controls":
        if not spec["controls"]:
            return None
        arg = rng.sample(spec["controls"], rng.randint(1, len(spec["controls"])))
        return arg[0] if len(arg) == 1 and rng.random() < 0.5 else arg
    if kind == "reduce_n_periods":
        return rng.randint(2, sp.n_periods(spec) + 1)
    return ()


def usable(spec):
    if not spec["factors"] or sp.n_periods(spec) < 2:
        return False
    names = {f["name"] for f in spec["factors"]} | set(spec["observed"])
    for f in spec["factors"]:
        if isinstance(f["trans"], list) and f["trans"][3] not in names:
            return False
    return any(ms for f in spec["factors"] for ms in f["meas"])


# -------------------------------------------------------------------- execution
def table_for(plan, m, P):
    df = world.params_frame(P, plan.get("param_delivery"))
    labs = [tuple(x) for x in df.index]
    for col in plan["columns"]:
        if col == "note":
            df[col] = [f"n{uniform('note', *x):.6f}" for x in labs]
        else:
            df[col] = [uniform(col, *x) - (2 if col[0] == "l" else -2) for x in labs]
    return df


def as_dict(df):
    return {tuple(lab): tuple(row) for lab, row in
            zip(df.index.tolist(), df.itertuples(index=False, name=None))}


def execute(plan, log):
    spec = plan["spec"]
    if not usable(spec):
        raise Skip("spec")
    ut = api().ut
    m = Model(spec)
    P = world.make_params(m, plan["pseed"])
    md, params = model_dict(spec), table_for(plan, m, P)
    for n, op in enumerate(plan["ops"]):
        kind = op["kind"]
        rng = stream("edit", op["seed"])
        if kind == "update_parameter_values":
            params = update(ut, params, m, rng, n, log)
            continue
        arg = draw_arg(spec, kind, rng)
        if arg is None:
            continue
        new_spec = by_hand(spec, kind, arg)
        if not usable(new_spec):
            continue
        func = getattr(ut, kind)
        args = () if kind.startswith("switch") else (arg,)
        args = tuple(list(x) if isinstance(x, list) else x for x in args)
        # extract_factors(factors, model_dict), reduce_n_periods(model_dict, n)
        if kind == "reduce_n_periods":
            pos = (md, *args)
        else:
            pos = (*args, md)
        kw = {"params": params} if op["params"] else {}
        before = (fp(md), fp(params), fp(args))

        def unchanged(when):
            now = (fp(md), fp(params), fp(args))
            require(now == before, f"C13/{kind}-original",
                    f"edit {n} ({kind} {arg}): original "
                    f"{[w for w, a, b in zip(['model', 'table', 'argument'], now, before) if a != b]}"
                    f" changed {when}")

        if op["fault"] == "missing_row" and op["params"] and kind not in (
            "reduce_n_periods", "switch_linear_to_translog"
        ):
            keep = Model(new_spec).template()
            short = params.drop(index=[rng.choice(keep)])
            s_before = fp(short)
            try:
                with quiet():
                    func(*pos, params=short)
            except Exception as e:  # noqa: BLE001
                log.ev("refused", kind, type(e).__name__)
            else:
                require(False, f"C13/{kind}-missing-row",
                        f"{kind} {arg}: a table that lacks a needed row was accepted")
            require(fp(short) == s_before, f"C13/{kind}-original", "table changed")
            unchanged("after a refusal")
            log.count("refused_edits")
        elif op["fault"] in interrupt.KINDS:
            with interrupt.Points(record=True) as pts, quiet():
                func(*pos, **kw)
            where = interrupt.choose(pts.trace, *op["at"])
            fired = interrupt.Points(kind=op["fault"], where=where)
            try:
                with quiet(), fired:
                    func(*pos, **kw)
            except interrupt.ALL:
                pass
            except Exception:  # noqa: BLE001  (caught inside, and failed later on)
                if not fired.fired:
                    raise
            if fired.fired:
                log.count(f"fault_{op['fault']}")
                log.mark(("interrupted", *fired.fired))
            unchanged(f"after {op['fault']} at {fired.fired}")
        with quiet():
            out = func(*pos, **kw)
        unchanged("by the edit")
        new_md, new_params = out if op["params"] else (out, None)
        want = model_dict(new_spec)
        require(canon_eq(new_md, want), f"C13/{kind}-model",
                f"edit {n} ({kind} {arg}): {difference(new_md, want)}")
        new_m = Model(new_spec)
        if op["params"]:
            check_table(kind, arg, params, new_params, new_m.template(), log)
            log.ev("params", fp(np.asarray(new_params["value"], dtype=float)))
            params = new_params
        else:
            # the analyst keeps a table that fits, built by label
            old = as_dict(params)
            P2 = {lab: old[lab][list(params.columns).index("value")] if lab in old
                  else 0.05 for lab in new_m.template()}
            params = table_for(plan, new_m, P2)
        spec, m, md = new_spec, new_m, new_md
        log.count(f"edit_{kind}")
        log.mark(("state", sp.describe(spec)))
    # edits never move what the caller still holds
    log.ev("final", sp.describe(spec))
    if plan["estimate"]:
        estimate(plan, spec, md, params, log)


def canon_eq(a, b):
    return sort_keys(canon(a)) == sort_keys(canon(b))


def sort_keys(c):
    if isinstance(c, tuple):
        if c and c[0] == "dict":
            return ("dict", tuple(sorted((sort_keys(k), sort_keys(v)) for k, v in c[1])))
        return tuple(sort_keys(x) for x in c)
    return str(c)


def difference(got, want, path=""):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in sorted(set(got) | set(want), key=str):
            if k not in got:
                return f"{path}/{k} is missing"
            if k not in want:
                return f"{path}/{k} should not be there"
            d = difference(got[k], want[k], f"{path}/{k}")
            if d:
                return d
        return ""
    return "" if canon_eq(got, want) else f"{path} is {got!r} instead of {want!r}"


def check_table(kind, arg, old, new, template, log):
    labs = [tuple(x) for x in new.index]
    require(len(labs) == len(set(labs)) and set(labs) == set(template),
            f"C13/{kind}-rows",
            f"{kind} {arg}: rows that differ from the template "
            f"{sorted(set(labs) ^ set(template), key=str)[:5]}")
    require(list(new.columns) == list(old.columns), f"C13/{kind}-columns",
            f"columns {list(new.columns)}")
    a, b = as_dict(old), as_dict(new)
    v = list(old.columns).index("value")
    for lab in labs:
        if lab in a:
            require(b[lab] == a[lab], f"C13/{kind}-values",
                    f"{kind} {arg}: row {lab} became {b[lab]} instead of {a[lab]}")
        else:
            log.count("filled_rows")
            require(b[lab][v] == 0.05, f"C13/{kind}-fill",
                    f"{kind} {arg}: new row {lab} has value {b[lab][v]}")


def update(ut, params, m, rng, n, log):
    import pandas as pd

    labs = [tuple(x) for x in params.index]
    others, want = [], {lab: row for lab, row in as_dict(params).items()}
    v = list(params.columns).index("value")
    for _ in range(rng.randint(1, 3)):
        sub = rng.sample(labs, rng.randint(0, len(labs)))
        if rng.random() < 0.3:
            sub = sub + [("loadings", 99, "no_such_measurement", m.latent[0])]
        vals = [rng.choice([rng.uniform(0.1, 2)] * 2 + [0.0, -0.7, 1.0, 1e-9])
                for _ in sub]
        idx = pd.MultiIndex.from_tuples(sub, names=params.index.names) if sub else \
            params.index[:0]
        other = pd.DataFrame({"value": vals}, index=idx, dtype=float)
        if rng.random() < 0.4:
            other["lower_bound"] = -5.0
        others.append(other)
        for lab, x in zip(sub, vals):
            if lab in want:
                row = list(want[lab])
                row[v] = x
                want[lab] = tuple(row)
    before = (fp(params), fp(others))
    arg = others[0] if len(others) == 1 and rng.random() < 0.6 else others
    with quiet():
        out = ut.update_parameter_values(params, arg)
    require((fp(params), fp(others)) == before, "C13/update-original",
            f"edit {n}: update_parameter_values changed its arguments")
    require([tuple(x) for x in out.index] == labs, "C13/update-rows", "rows changed")
    got = as_dict(out)
    bad = [lab for lab in labs if got[lab] != want[lab]]
    require(not bad, "C13/update-values",
            f"edit {n}: {len(bad)} rows, e.g. {bad[:1]}: "
            f"{got[bad[0]] if bad else ''} instead of {want[bad[0]] if bad else ''}")
    log.count("edit_update_parameter_values")
    return out


def estimate(plan, spec, md, params, log):
    """The edited specification is accepted, and is the model written by hand."""
    if sp.repair_gaps(copy.deepcopy(spec)) != spec:
        log.count("not_estimated_gap")
        return
    base = Model(plan["spec"])
    P0 = world.make_params(base, plan["pseed"])
    cells = world.make_cells(base, P0, plan["N"], plan["dseed"])
    present = np.ones((plan["N"], base.T), dtype=bool)
    m = Model(spec)
    P = {tuple(lab): float(x) for lab, x in params["value"].items()}
    feed = ref.Feed(m, {k: v[:, : m.T] for k, v in cells.items()}, present[:, : m.T])
    if feed.refusals:
        return
    try:
        want = ref.run_filter(m, P, feed)
    except (ref.Ill, FloatingPointError):
        log.count("not_estimated_ill")
        return
    df, *_ = world.deliver(base, cells, present, plan.get("delivery"))
    with quiet():
        mi = api().get_maximization_inputs(md, df)
        got = mi["loglike"](params)
    require({tuple(x) for x in mi["params_template"].index} == set(m.template()),
            "C13/template", "template of the edited model")
    require_close("C13/loglike", f"loglike of the edited model {sp.describe(spec)}",
                  got["contributions"], want["contributions"])
    log.count("edited_models_estimated")
    log.ev("loglike", got["value"])

