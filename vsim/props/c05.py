"""C05: histories of calls, failing calls and caller-side mutations."""
import copy

import numpy as np

from vsim import calls, ref, world
from vsim import spec as sp
from vsim.core import Skip, require, require_close
from vsim.ref import Model
from vsim.rng import stream
from vsim.target import api, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 200, "thorough": 4000}
SOFT = {"quick": 60.0, "thorough": 780.0}
STUBS = "a caller who mutates everything it owns between calls"

MUTATIONS = ["data_cell", "data_column", "data_rows", "model_deep", "model_shallow",
             "params_table", "template", "constraints", "result", "debug_tables"]
OPS = (["value"] * 6 + ["debug"] * 2 + ["filtered", "gradient"] + ["mutate"] * 6
       + ["same_table"] * 3 + ["fail"] * 2 + ["other"] * 3 + ["rebuild"] * 2 + ["edit_in_place"] * 4)


def plan(rng, tier):
    p = calls.gen_small(rng, max_meas=2)
    p["points"] = [rng.randrange(10**9) for _ in range(3)]
    p["ops"] = [[rng.choice(OPS), rng.randrange(10**6)]
                for _ in range(rng.randint(6, 14))]
    p["same_objects"] = rng.random() < 0.5
    p["names"] = world.gen_level_names(rng)
    return p


class Caller:
    """One set of caller-owned objects, and what functions built from them must answer."""

    def __init__(self, plan, sc, log):
        self.plan, self.sc, self.log = plan, sc, log
        self.spec = copy.deepcopy(plan["spec"])
        self.cells = {k: v.copy() for k, v in sc.cells.items()}
        self.present = sc.present
        self.md = model_dict(self.spec)
        self.df = self.fresh_frame()
        self.built = []
        self.table = None

    def fresh_frame(self):
        return world.deliver(Model(self.spec), self.cells, self.present,
                             self.plan.get("delivery"))[0]

    def build(self):
        m = Model(self.spec)
        before = [fp(self.md), fp(self.df)]
        with quiet():
            mi = api().get_maximization_inputs(self.md, self.df)
        require([fp(self.md), fp(self.df)] == before, "C05/mutated",
                "get_maximization_inputs modified its arguments")
        feed = ref.Feed(m, self.cells, self.present)
        b = {"m": m, "mi": mi, "feed": feed, "seen": {}, "want": {}}
        labels = [tuple(x) for x in mi["params_template"].index]
        require(sorted(map(str, labels)) == sorted(map(str, m.template())),
                "C05/template", "template of a build is not that of its model")
        self.built.append(b)
        return b

    def wanted(self, b, j):
        if j not in b["want"]:
            P = world.make_params(b["m"], self.plan["points"][j])
            try:
                b["want"][j] = ref.run_filter(b["m"], P, b["feed"])
            except ref.Ill:
                b["want"][j] = None
        return b["want"][j]

    def params(self, b, j):
        return world.params_frame(world.make_params(b["m"], self.plan["points"][j]),
                                  {**(self.plan.get("param_delivery") or {}),
                                   "names": self.plan.get("names")})


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    c = Caller(plan, sc, log)
    c.build()
    for n, (op, seed) in enumerate(plan["ops"]):
        step(c, n, op, stream("op", seed), log)
        log.count(f"op_{op}")
    # after the whole history, every function still answers for what it was built for
    for b in c.built:
        value(c, b, 0, "at the end of the history", log)
    c.md, c.df = model_dict(c.spec), c.fresh_frame()
    again = c.build()
    value(c, again, 0, "in functions built at the end of the history", log)
    log.count("waves", sc.model.T * sc.N)


def value(c, b, j, when, log):
    want = c.wanted(b, j)
    if want is None:
        return None
    frame = c.params(b, j)
    before = fp(frame)
    with quiet():
        out = b["mi"]["loglike"](frame)
    require(fp(frame) == before, "C05/mutated", "loglike modified the parameter table")
    require_close("C05/value", f"contributions {when}", out["contributions"],
                  want["contributions"])
    got = (float(out["value"]), np.asarray(out["contributions"]).tobytes())
    if j in b["seen"]:
        require(b["seen"][j] == got, "C05/repeat",
                f"the same functions answer {got[0]!r} {when}, "
                f"{b['seen'][j][0]!r} before")
    b["seen"][j] = got
    log.ev("value", j, got[0])
    return out


def step(c, n, op, rng, log):
    b = rng.choice(c.built)
    j = rng.randrange(len(c.plan["points"]))
    mi = b["mi"]
    when = f"in operation {n}"
    if op == "value":
        value(c, b, j, when, log)
    elif op == "debug":
        want = c.wanted(b, j)
        if want is not None:
            frame = c.params(b, j)
            with quiet():
                dbg = mi["debug_loglike"](frame)
            U, N, M, S = want["post"].shape
            require_close("C05/debug", f"debug contributions {when}",
                          dbg["all_contributions"]["contribution"].to_numpy(),
                          want["ll"].ravel())
            require_close("C05/debug-states", f"debug states {when}",
                          dbg["post_update_states"][b["m"].latent].to_numpy(),
                          want["post"].reshape(-1, S))
    elif op == "gradient":
        if c.wanted(b, j) is not None:
            with quiet():
                g = np.asarray(mi["gradient"](c.params(b, j)), float)
            key = ("gradient", j)
            if key in b["seen"]:
                require(np.array_equal(b["seen"][key], g, equal_nan=True), "C05/gradient",
                        f"the same gradient function answers differently {when}")
            b["seen"][key] = g
    elif op == "filtered":
        want = c.wanted(c.built[-1], j)
        if want is not None:
            # caller objects may have been mutated since; the answer is about their
            # present content, so only unmutated content is judged
            m = Model(c.spec)
            md, df = model_dict(c.spec), c.fresh_frame()
            frame = world.params_frame(world.make_params(m, c.plan["points"][j]))
            feed = ref.Feed(m, c.cells, c.present)
            try:
                w = ref.run_filter(m, world.make_params(m, c.plan["points"][j]), feed)
            except ref.Ill:
                return
            before = [fp(x) for x in (md, df, frame)]
            with quiet():
                fs = api().get_filtered_states(md, df, frame)
            require([fp(x) for x in (md, df, frame)] == before, "C05/mutated",
                    "get_filtered_states modified its arguments")
            st = fs["anchored_states"]["states"]
            for t in m.measured_periods:
                part = st[st["period"] == t].sort_values("id", kind="stable")
                require_close("C05/filtered", f"anchored states of period {t} {when}",
                              part[m.latent].to_numpy(), w["anchored"][t])
    elif op == "same_table":
        same_table(c, b, j, rng, when, log)
    elif op == "mutate":
        mutate(c, b, rng, log)
    elif op == "fail":
        fail(c, b, j, rng, log)
    elif op == "other":
        other(c, rng, log)
    elif op == "rebuild":
        if len(c.built) < 4:
            c.md = model_dict(c.spec)
            c.df = c.fresh_frame()
            new = c.build()
            value(c, new, j, f"in functions rebuilt in operation {n}", log)
    elif op == "edit_in_place":
        if len(c.built) < 5:
            edit_in_place(c, rng, j, n, log)


def same_table(c, b, j, rng, when, log):
    """The caller keeps one table and edits it in place between evaluations."""
    points = [j, rng.randrange(len(c.plan["points"]))]
    if any(c.wanted(b, k) is None for k in points):
        return
    if c.table is None or sorted(map(repr, c.table.index)) != sorted(
            map(repr, c.params(b, j).index)):
        c.table = c.params(b, j)
    call = rng.choice(["loglike", "loglike", "debug_loglike", "loglike_and_gradient"])
    for k in points:
        edit_table(c.table, c.params(b, k), rng, log)
        want = c.wanted(b, k)
        with quiet():
            out = b["mi"][call](c.table)
        what = f"of {call} {when}, one table edited in place"
        if call == "loglike_and_gradient":
            require_close("C05/same-table", f"value {what}", float(out[0]["value"]),
                          want["value"])
        else:
            require_close("C05/same-table", f"contributions {what}",
                          out["contributions"], want["contributions"])


def edit_table(table, content, rng, log):
    how = rng.choice(["values", "cells", "rows"])
    new = {tuple(k): v for k, v in zip(content.index, content["value"])}
    if how == "cells":
        pos = list(table.columns).index("value")
        for r, k in enumerate(table.index):
            table.iloc[r, pos] = new[tuple(k)]
    else:
        if how == "rows":
            table.sort_index(inplace=True, ascending=rng.random() < 0.5)
        table["value"] = [new[tuple(k)] for k in table.index]
    log.count(f"same_table_{how}")


def scribble(df, rng):
    """Overwrite cells of a frame the caller owns, without changing its labels."""
    for _ in range(3):
        r = rng.randrange(len(df))
        k = rng.randrange(df.shape[1])
        if df.dtypes.iloc[k] != object:
            df.iloc[r, k] = 37.5


def mutate(c, b, rng, log):
    kind = rng.choice(MUTATIONS)
    log.count(f"mutation_{kind}")
    mi, md, df = b["mi"], c.md, c.df
    if kind == "data_cell":
        scribble(df, rng)
    elif kind == "data_column":
        col = rng.choice(list(df.columns))
        if df[col].dtype != object:
            df[col] = -3.25
    elif kind == "data_rows":
        df.drop(index=df.index[: len(df) // 2], inplace=True)
    elif kind == "model_shallow":
        md["estimation_options"] = {"n_mixtures": 1, "clipping_upper_bound": -100.0}
        md.pop("anchoring", None)
        md["controls"] = []
    elif kind == "model_deep":
        for f in md["factors"].values():
            for ms in f["measurements"]:
                ms.reverse()
                if len(ms) > 1:
                    ms.pop()
            f["transition_function"] = "constant"
            if "normalizations" in f:
                f["normalizations"].clear()
        for x in md.get("controls", []), md.get("observed_factors", []):
            if len(x) > 0:
                x.reverse()
        if "anchoring" in md:
            md["anchoring"]["outcomes"].clear()
            md["anchoring"]["ignore_constant_when_anchoring"] = True
        if "stagemap" in md:
            md["stagemap"][:] = [0] * len(md["stagemap"])
        md["estimation_options"]["n_mixtures"] = (
            md["estimation_options"].get("n_mixtures", 1) + 1)
        md["estimation_options"]["sigma_points_scale"] = 17
        md["estimation_options"]["clipping_lower_bound"] = -0.1
    elif kind == "params_table":
        j = rng.randrange(len(c.plan["points"]))
        if c.wanted(b, j) is None:
            return
        frame = c.params(b, j)
        with quiet():
            mi["loglike"](frame)
        frame["value"] = 123.0
        frame.drop(index=frame.index[:2], inplace=True)
    elif kind == "template":
        t = mi["params_template"]
        t["value"] = 7.0
        if rng.random() < 0.5:
            t["lower_bound"] = 3.0
        if rng.random() < 0.5:
            t.drop(index=t.index[rng.randrange(len(t))], inplace=True)
        if rng.random() < 0.3:
            t.sort_index(inplace=True)
        if rng.random() < 0.3:
            t.index.names = ["a", "b", "c", "d"]
    elif kind == "constraints":
        mi["constraints"].clear()
    else:
        j = rng.randrange(len(c.plan["points"]))
        if c.wanted(b, j) is None:
            return
        name = "loglike" if kind == "result" else "debug_loglike"
        with quiet():
            out = mi[name](c.params(b, j))
        for k, v in list(out.items()):
            try:
                if hasattr(v, "iloc"):
                    v.iloc[:, 0] = 1
                elif isinstance(v, np.ndarray) and v.ndim:
                    v[:] = -1.0
            except (ValueError, TypeError):
                pass  # read-only results are fine
            out[k] = None
    log.mark(("mutation", kind))


def fail(c, b, j, rng, log):
    kind = rng.choice(["missing_row", "not_a_table", "empty_data", "bad_model", "nan"])
    frame = c.params(b, j)
    mi = b["mi"]

    def attempt(f):
        with quiet():
            try:
                f()
            except Exception as e:  # noqa: BLE001
                log.ev("failed", kind, type(e).__name__)
                log.count(f"failed_{kind}")

    if kind == "missing_row":
        attempt(lambda: mi["loglike"](frame.iloc[1:]))
    elif kind == "not_a_table":
        attempt(lambda: mi["debug_loglike"](None))
    elif kind == "nan":
        bad = frame.copy()
        bad["value"] = np.nan
        attempt(lambda: mi["loglike"](bad))
    elif kind == "empty_data":
        attempt(lambda: api().get_maximization_inputs(model_dict(c.spec), c.df.iloc[:0]))
    else:
        md = model_dict(c.spec)
        next(iter(md["factors"].values()))["transition_function"] = "no_such_function"
        attempt(lambda: api().get_maximization_inputs(md, c.fresh_frame()))


def other(c, rng, log):
    """Other public functions on other objects, which they must not modify."""
    name = rng.choice([n for n in calls.CHEAP if n != "build"]
                      + ["transition_plots", "transition_plots_arguments", "densities"])
    x = calls.Ctx(c.sc)
    before = x.fingerprints()
    with quiet():
        calls.run(name, x)
    require(x.fingerprints() == before, f"C05/mutated-{name}",
            f"{name} modified the caller's "
            f"{[w for w, a, b in zip(x.NAMES, x.fingerprints(), before) if a != b]}")
    log.count(f"other_{name}")


EDITS = ["transition", "custom", "custom", "measurement", "data", "options", "control",
         "mixtures", "stages", "anchoring", "order", "observed", "periods"]


def edit(spec, cells, rng, kind):
    """Changes one aspect of the specification or of the delivered cells. False: the
    model has no such aspect."""
    facs = spec["factors"]
    fac = rng.choice(facs)
    if kind == "transition":
        others = ["linear", "robust_translog", "translog", "constant"]
        fac["trans"] = rng.choice([k for k in others if k != fac["trans"]])
    elif kind == "custom":
        old = [f for f in facs if isinstance(f["trans"], list)]
        fac = rng.choice(old) if old else fac
        everyone = [f["name"] for f in facs] + spec["observed"]
        if old and rng.random() < 0.7:
            style = fac["trans"][1]
            twin = {"named": "minus", "minus": "named"}.get(style, "named")
            fac["trans"] = sp.custom(twin, *fac["trans"][2:])
        else:
            fac["trans"] = sp.custom(rng.choice(["named", "minus"]), fac["name"],
                                     rng.choice(everyone))
    elif kind == "measurement":
        t = rng.randrange(len(fac["meas"]))
        if len(fac["meas"][t]) < 2:
            return False
        if rng.random() < 0.5:
            fac["meas"][t].reverse()
        else:
            fac["meas"][t].pop()
        fac["norm"] = None
    elif kind == "options":
        key, values = rng.choice([("clipping_lower_bound", [-1.5, -3.0]),
                                  ("clipping_upper_bound", [-1.0, 0.25]),
                                  ("sigma_points_scale", [0.5, 1, 3])])
        spec["options"][key] = rng.choice(values)
    elif kind == "control":
        if not spec["controls"]:
            return False
        if len(spec["controls"]) > 1 and rng.random() < 0.5:
            spec["controls"].reverse()
        else:
            spec["controls"].pop()
    elif kind == "mixtures":
        old = spec["options"].get("n_mixtures", 1)
        spec["options"]["n_mixtures"] = rng.choice([k for k in (1, 2, 3) if k != old])
    elif kind == "stages":
        T = max(len(f["meas"]) for f in facs)
        spec["stagemap"] = [0] * (T - 1) if spec["stagemap"] is None else None
    elif kind == "anchoring":
        a = spec["anchoring"]
        if not a:
            return False
        if len(a["outcomes"]) > 1 and rng.random() < 0.4:
            (f, x), (g, y) = a["outcomes"][:2]
            a["outcomes"][:2] = [[f, y], [g, x]]
        elif rng.random() < 0.3:
            spec["anchoring"] = None
        else:
            key = rng.choice(["ignore_constant_when_anchoring", "free_loadings",
                              "free_constant", "free_controls"])
            a[key] = not a.get(key, False)
    elif kind == "order":
        if len(facs) < 2:
            return False
        facs.reverse()
    elif kind == "observed":
        if len(spec["observed"]) < 2:
            return False
        spec["observed"].reverse()
    elif kind == "periods":
        T = max(len(f["meas"]) for f in facs)
        if T < 3:
            return False
        for f in facs:
            f["meas"] = f["meas"][: T - 1]
            f["norm"] = None
        if spec["stagemap"] is not None:
            spec["stagemap"] = spec["stagemap"][: T - 2]
    else:
        u = rng.choice(Model(spec).updates)
        cells[u[2]][:, u[0]] = cells[u[2]][:, u[0]] * 1.5 + 0.25
    return True


def assign(old, new):
    """Give old the content of new, keeping the identity of nested dicts and lists."""
    if isinstance(old, dict):
        items = [(k, assign(old[k], v) if k in old else v) for k, v in new.items()]
        old.clear()
        old.update(items)
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = [assign(a, b) for a, b in zip(old, new)] + new[len(old):]
        return old
    return new


def edit_in_place(c, rng, j, n, log):
    """The caller edits the very objects it used before, or copies, and builds again."""
    kind = rng.choice(EDITS)
    spec = copy.deepcopy(c.spec)
    cells = {k: v.copy() for k, v in c.cells.items()}
    md, df = model_dict(c.spec), c.fresh_frame()
    if not edit(spec, cells, rng, kind):
        return
    if not world.in_scope(Model(spec), cells, c.present):
        return
    with quiet():
        api().get_maximization_inputs(md, df)
    how = rng.choice(["deep", "deep", "top", "new"])
    new = model_dict(spec)
    if how == "deep":
        assign(md, new)
    elif how == "top":
        md.clear()
        md.update(new)
    else:
        md = new
    if kind == "data":
        fresh = world.deliver(Model(spec), cells, c.present, c.plan.get("delivery"))[0]
        if how == "new":
            df = fresh
        else:
            for col in df.columns:
                if df[col].dtype != object:
                    df[col] = fresh[col].to_numpy()
    c.spec, c.cells, c.md, c.df = spec, cells, md, df
    b = c.build()
    value(c, b, j, f"in functions built in operation {n} after editing {kind} "
          f"({how})", log)
    log.count(f"edited_in_place_{kind}")
    log.mark(("edited", kind))
