"""The menu of public calls, on one model, panel and parameter table.

Every call returns a list of (label, value) where value is a float array or a string, so
that results of different executions can be compared value by value.
"""
import copy

import numpy as np

from vsim import world
from vsim.core import worst
from vsim.rng import stream
from vsim.target import api, fp, model_dict


class Ctx:
    """Objects a caller holds. share: reuse another caller's model, panel and table."""

    def __init__(self, sc, hook=None, share=None, md=None):
        a = share
        self.sc, self.m = sc, sc.model
        self.md = md if md is not None else (
            a.md if a else model_dict(sc.plan["spec"], hook))
        self.df = a.df if a else sc.frame()[0]
        self.params = a.params if a else sc.params()
        self.mi = a.mi if a else None
        self.kw = a.kw if a else plot_arguments(sc)
        self.states = a.states if a else states_frame(sc)

    def owned(self):
        return [self.md, self.df, self.params, self.kw, self.states]

    NAMES = ("model", "data", "parameters", "plot arguments", "states")

    def fingerprints(self):
        return [fp(x) for x in self.owned()]

    def build(self):
        if self.mi is None:
            self.mi = api().get_maximization_inputs(self.md, self.df)
        return self.mi


def plot_arguments(sc):
    """Dicts and lists of plotting arguments that the caller owns."""
    rng, m = stream("plot arguments", sc.plan["pseed"]), sc.model

    def some(d):
        return {k: v for k, v in d.items() if rng.random() < 0.7}

    return {
        "layout": some({"title": {"text": "T"}, "showlegend": True, "height": 333,
                        "xaxis_showgrid": True, "legend": {"orientation": "v"}}),
        "layout3d": some({"scene": {"xaxis": {"showgrid": False}}, "height": 222}),
        "legend": some({"orientation": "h", "x": 0.5}),
        "title": some({"text": "Title", "x": 0.25}),
        "subplot": some({"column_titles": [f"c{k}" for k in range(len(m.latent))],
                         "horizontal_spacing": 0.1}),
        "dist": some({"bin_size": 0.5, "show_rug": True, "show_hist": True}),
        "contour": some({"ncontours": 4, "showscale": True}),
        "heatmap": some({"zmin": -1.0, "colorscale": "Viridis"}),
        "mapping": some({f: f"Label of {f}" for f in m.all}),
        "order": list(rng.sample(m.latent, len(m.latent))),
        "factors": list(m.latent),
        "quantiles": [0.75, 0.25],
        "ticks": [11, 13],
        "ranges": {f: _range_frame(m, rng) for f in m.all},
        "periods": list(m.measured_periods),
        "policies": [{"period": 0, "factor": m.latent[-1], "effect_size": 0.5,
                      "standard_deviation": 0.0}],
    }


def _range_frame(m, rng):
    import pandas as pd

    return pd.DataFrame({"minimum": [-1.0 - rng.random() for _ in range(m.T)],
                         "maximum": [1.0 + rng.random() for _ in range(m.T)]},
                        index=pd.Index(range(m.T), name="period"))


def states_frame(sc):
    """Tidy states as filtered states come, without running the filter."""
    import pandas as pd

    m = sc.model
    rows = []
    for t in range(m.T):
        for i in range(sc.N):
            rows.append([i, t] + [world_normal(sc, f, t, i) for f in m.latent])
    return pd.DataFrame(rows, columns=["id", "period"] + m.latent)


def world_normal(sc, *key):
    from vsim.rng import normal

    return 0.5 + normal(sc.plan["pseed"], "states", *key)


def table(df, name):
    out = [(f"{name}.index", repr(df.index.tolist())),
           (f"{name}.columns", repr(df.columns.tolist()))]
    for c in dict.fromkeys(df.columns):
        col = df[c]
        if getattr(col, "ndim", 1) == 1 and col.dtype != object:
            out.append((f"{name}.{c}", col.to_numpy(dtype=float)))
        else:
            out.append((f"{name}.{c}", repr(np.asarray(col).tolist())))
    return out


def figure(fig, name):
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                walk(x[k], f"{path}.{k}")
        elif isinstance(x, (list, tuple, np.ndarray)):
            try:
                arr = np.asarray(x, dtype=float)
            except (TypeError, ValueError):
                for k, v in enumerate(x):
                    walk(v, f"{path}[{k}]")
            else:
                out.append((path, arr))
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            out.append((path, np.asarray(float(x))))
        else:
            out.append((path, repr(x)))

    d = fig.to_plotly_json()
    layout = {k: v for k, v in d.get("layout", {}).items() if k != "template"}
    walk({"data": d.get("data", []), "layout": layout}, name)
    return out


def states(out, name):
    res = []
    for kind in ("anchored_states", "unanchored_states"):
        res += table(out[kind]["states"], f"{name}.{kind}")
        for f, df in out[kind]["state_ranges"].items():
            res += table(df, f"{name}.{kind}.{f}")
    return res


def debug(out):
    res = [("value", np.asarray(out["value"], dtype=float)),
           ("contributions", np.asarray(out["contributions"], dtype=float))]
    for key in ("all_contributions", "residuals", "residual_sds", "post_update_states",
                "filtered_states"):
        res += table(out[key], key)
    return res


# ------------------------------------------------------------------------- calls
def c_build(x):
    mi = api().get_maximization_inputs(x.md, x.df)
    x.mi = mi
    return table(mi["params_template"], "template") + [
        ("constraints", repr([_plain(c) for c in mi["constraints"]]))]


def c_loglike(x):
    out = x.build()["loglike"](x.params)
    return [("value", np.asarray(out["value"], float)),
            ("contributions", np.asarray(out["contributions"], float))]


def c_gradient(x):
    return [("gradient", np.asarray(x.build()["gradient"](x.params), float))]


def c_jacobian(x):
    return [("jacobian", np.asarray(x.build()["jacobian"](x.params), float))]


def c_loglike_and_gradient(x):
    out, g = x.build()["loglike_and_gradient"](x.params)
    return [("value", np.asarray(out["value"], float)), ("gradient", np.asarray(g, float))]


def c_debug(x):
    return debug(x.build()["debug_loglike"](x.params))


def c_filtered(x):
    return states(api().get_filtered_states(x.md, x.df, x.params), "filtered")


def c_simulate(x):
    np.random.seed(4711)
    out = api().simulate_dataset(x.md, x.params, data=x.df)
    return states(out, "simulated") + table(out["measurements"], "measurements")


def c_simulate_policy(x):
    np.random.seed(4712)
    pol = [{"period": 0, "factor": x.m.latent[-1], "effect_size": 0.5,
            "standard_deviation": 0.25}]
    out = api().simulate_dataset(x.md, x.params, data=x.df, policies=pol)
    return states(out, "simulated") + table(out["measurements"], "measurements")


def c_simulate_exact(x):
    """Without noise: does not depend on the state of any generator."""
    p = x.params.copy(deep=True)
    zero = [lab[0] in ("meas_sds", "shock_sds", "initial_cholcovs") for lab in p.index]
    p.loc[zero, "value"] = 0.0
    w = [lab[0] == "mixture_weights" for lab in p.index]
    s = [lab[0] == "initial_states" for lab in p.index]
    first = {lab[3]: v for lab, v in p.loc[s, "value"].items() if lab[2] == "mixture_0"}
    for lab in p.index[s]:
        p.loc[lab, "value"] = first[lab[3]]
    assert any(w)
    out = api().simulate_dataset(x.md, p, data=x.df)
    return states(out, "simulated") + table(out["measurements"], "measurements")


def c_corr_measurements(x):
    return table(api().ch.get_measurements_corr(x.df, x.md, None, x.m.measured_periods),
                 "corr")


def c_corr_quasi(x):
    return table(api().ch.get_quasi_scores_corr(x.df, x.md, None, x.m.measured_periods),
                 "corr")


def c_corr_scores(x):
    return table(
        api().ch.get_scores_corr(x.df, x.params, x.md, None, x.m.measured_periods[0]),
        "corr")


def c_heatmap(x):
    corr = api().ch.get_quasi_scores_corr(x.df, x.md, None, x.m.measured_periods)
    return figure(api().ch.plot_correlation_heatmap(corr, annotate=True), "heatmap")


def _edit(out, *names):
    md, params = out
    return [("model", repr(_plain(md)))] + table(params, "params")


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return getattr(x, "__name__", "function") if callable(x) else x


def c_switch_to_translog(x):
    return _edit(api().ut.switch_linear_to_translog(x.md, x.params))


def c_switch_to_linear(x):
    return _edit(api().ut.switch_translog_to_linear(x.md, x.params))


def c_reduce_periods(x):
    return _edit(api().ut.reduce_n_periods(x.md, max(2, x.m.T - 1), x.params))


def c_remove_measurement(x):
    every = [ms[0] for f in x.md["factors"].values() for ms in f["measurements"] if ms]
    return _edit(api().ut.remove_measurements(every[-1], x.md, x.params))


def c_extract_factor(x):
    keep = [f for f in x.m.latent
            if not isinstance(next(g for g in x.m.spec["factors"]
                                   if g["name"] == f)["trans"], list)] or x.m.latent
    keep = keep[:1] if keep != x.m.latent else x.m.latent
    return _edit(api().ut.extract_factors(keep, x.md, x.params))


def c_remove_controls(x):
    if not x.m.controls[1:]:
        return [("none", "none")]
    return _edit(api().ut.remove_controls(x.m.controls[1:], x.md, x.params))


def c_update_params(x):
    other = x.params.iloc[::2][["value"]].copy()
    other["value"] = other["value"] + 0.25
    return table(api().ut.update_parameter_values(x.params, other), "params")


def c_transition_plots(x):
    q = x.m.measured_periods[0]
    figs = api().vt.get_transition_plots(x.md, x.params, x.df, q, n_points=5)
    out = [("keys", repr(list(figs)))]
    for k, f in figs.items():
        out += figure(f, str(k))
    return out + figure(api().vt.combine_transition_plots(figs), "combined")


def c_transition_plots_average(x):
    np.random.seed(4713)
    q = x.m.measured_periods[0]
    figs = api().vt.get_transition_plots(x.md, x.params, x.df, q, n_points=4, n_draws=3,
                                         quantiles_of_other_factors=None)
    out = []
    for k, f in figs.items():
        out += figure(f, str(k))
    return out


def c_densities(x):
    q = x.m.measured_periods[-1]
    a = api()
    st = a.get_filtered_states(x.md, x.df, x.params)["anchored_states"]["states"]
    kde = a.vd.univariate_densities(x.df, x.md, x.params, q, states=st)
    con = a.vd.bivariate_density_contours(x.df, x.md, x.params, q, states=st, n_points=5)
    sur = a.vd.bivariate_density_surfaces(x.df, x.md, x.params, q, states=st, n_points=4)
    out = [("keys", repr([list(kde), list(con), list(sur)]))]
    for d in (kde, con, sur):
        for k, f in d.items():
            out += figure(f, str(k))
    return out + figure(a.vd.combine_distribution_plots(kde, con, sur), "combined")


def c_densities_states(x):
    """Density plots of given states: needs no filter."""
    a, kw = api(), x.kw
    q = x.m.measured_periods[-1]
    args = (x.df, x.md, x.params, q)
    kde = a.vd.univariate_densities(*args, factors=kw["factors"], states=x.states,
                                    distplot_kwargs=kw["dist"],
                                    layout_kwargs=kw["layout"])
    con = a.vd.bivariate_density_contours(*args, factors=kw["factors"], states=x.states,
                                          n_points=4, contour_kwargs=kw["contour"],
                                          layout_kwargs=kw["layout"])
    sur = a.vd.bivariate_density_surfaces(*args, factors=kw["factors"], states=x.states,
                                          n_points=3, layout_kwargs=kw["layout3d"])
    out = [("keys", repr([list(kde), list(con), list(sur)]))]
    for d in (kde, con, sur):
        for k, f in d.items():
            out += figure(f, str(k))
    fig = a.vd.combine_distribution_plots(
        kde, con, sur, factor_order=kw["order"], factor_mapping=kw["mapping"],
        make_subplot_kwargs=kw["subplot"], layout_kwargs=kw["layout"],
        legend_kwargs=kw["legend"], title_kwargs=kw["title"])
    return out + figure(fig, "combined")


def c_densities_scenarios(x):
    """Several scenarios, observed factors included."""
    a = api()
    q = x.m.measured_periods[0]
    args = (x.df, x.md, x.params, q)
    shifted = x.states.copy()
    shifted[x.m.latent] += 0.75
    scen = {"a": x.states, "b": shifted}
    kde = a.vd.univariate_densities(*args, states=scen, observed_factors=True)
    con = a.vd.bivariate_density_contours(*args, states=[x.states, shifted], n_points=3,
                                          observed_factors=True)
    out = []
    for d in (kde, con):
        for k, f in d.items():
            out += figure(f, str(k))
    return out


def c_densities_degenerate(x):
    """Densities that do not exist: the plots are empty, with a warning."""
    a = api()
    q = x.m.measured_periods[-1]
    flat = x.states.copy()
    flat[x.m.latent] = 1.0
    args = (x.df, x.md, x.params, q)
    out = []
    for f in (a.vd.univariate_densities, a.vd.bivariate_density_contours,
              a.vd.bivariate_density_surfaces):
        for k, fig in f(*args, states=flat).items():
            out += figure(fig, str(k))
    return out


def c_heatmap_arguments(x):
    a, kw = api(), x.kw
    corr = a.ch.get_measurements_corr(x.df, x.md, kw["factors"], kw["periods"])
    fig = a.ch.plot_correlation_heatmap(
        corr, heatmap_kwargs=kw["heatmap"], layout_kwargs=kw["layout"],
        trim_heatmap=True, show_diagonal=False, show_upper_triangle=False,
        axes_tick_fontsize=kw["ticks"], axes_tick_label_angle=kw["ticks"])
    return figure(fig, "heatmap")


def c_transition_plots_arguments(x):
    a, kw = api(), x.kw
    figs = a.vt.get_transition_plots(
        x.md, x.params, x.df, x.m.measured_periods[0], n_points=3,
        state_ranges=kw["ranges"], quantiles_of_other_factors=kw["quantiles"],
        layout_kwargs=kw["layout"])
    out = []
    for k, f in figs.items():
        out += figure(f, str(k))
    fig = a.vt.combine_transition_plots(
        figs, column_order=kw["order"], row_order=kw["order"],
        factor_mapping=kw["mapping"], make_subplot_kwargs=kw["subplot"],
        layout_kwargs=kw["layout"], legend_kwargs=kw["legend"], title_kwargs=kw["title"])
    return out + figure(fig, "combined")


def c_simulate_arguments(x):
    np.random.seed(4714)
    out = api().simulate_dataset(x.md, x.params, data=x.df, policies=x.kw["policies"])
    return states(out, "simulated") + table(out["measurements"], "measurements")


# calls that fail by themselves; they must leave nothing behind
def _failing(f):
    from vsim import interrupt

    try:
        f()
    except interrupt.ALL:
        raise
    except Exception as e:  # noqa: BLE001
        return [("raised", type(e).__name__)]
    return [("raised", "nothing")]


def c_fail_model(x):
    md = copy.deepcopy(x.md)
    md["factors"][x.m.latent[-1]]["transition_function"] = "no_such_function"
    return _failing(lambda: api().get_maximization_inputs(md, x.df))


def c_fail_data(x):
    return _failing(lambda: api().get_maximization_inputs(
        x.md, x.df.drop(columns=[x.m.updates[0][2]])))


def c_fail_policy(x):
    """Fails in the middle of a simulation."""
    np.random.seed(4715)
    bad = [dict(x.kw["policies"][0], period=x.m.T - 1, standard_deviation=-1.0)]
    return _failing(lambda: api().simulate_dataset(x.md, x.params, data=x.df,
                                                   policies=bad))


def c_fail_simulate_table(x):
    return _failing(lambda: api().simulate_dataset(x.md, x.params.iloc[1:], data=x.df))


def c_fail_period(x):
    return _failing(lambda: api().vt.get_transition_plots(
        x.md, x.params, x.df, x.m.T - 1, n_points=3))


def c_fail_surfaces(x):
    return _failing(lambda: api().vd.bivariate_density_surfaces(
        x.df, x.md, x.params, x.m.measured_periods[0], states=[x.states]))


def c_fail_layout(x):
    return _failing(lambda: api().vd.univariate_densities(
        x.df, x.md, x.params, x.m.measured_periods[0], states=x.states,
        layout_kwargs={"no_such_property": 1}))


def c_fail_corr(x):
    return _failing(lambda: api().ch.get_quasi_scores_corr(
        x.df, x.md, ["no_such_factor"], x.kw["periods"]))


def c_fail_extract(x):
    return _failing(lambda: api().ut.extract_factors("no_such_factor", x.md, x.params))


def c_fail_remove(x):
    return _failing(lambda: api().ut.remove_factors(
        [x.m.latent[0]], x.md, x.params.iloc[::2]))


CALLS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
RANDOM = {"simulate", "simulate_policy", "simulate_arguments", "fail_policy",
          "fail_simulate_table", "transition_plots_average"}
CHEAP = ["build", "corr_measurements", "corr_quasi", "corr_scores", "heatmap",
         "switch_to_translog", "switch_to_linear", "reduce_periods",
         "remove_measurement", "extract_factor", "remove_controls", "update_params",
         "simulate", "simulate_policy", "simulate_exact", "densities_states",
         "densities_scenarios", "densities_degenerate", "heatmap_arguments",
         "simulate_arguments"]
FAILING = [n for n in CALLS if n.startswith("fail_")]
CHEAP = CHEAP + FAILING
LIKELIHOOD = ["loglike", "gradient", "jacobian", "loglike_and_gradient", "debug",
              "filtered"]
PLOTS = ["transition_plots", "transition_plots_arguments", "transition_plots_average", "densities"]
EVERYTHING = CHEAP + LIKELIHOOD + PLOTS


def run(name, x):
    return CALLS[name](x)


def differ(got, want, rtol=1e-9, atol=1e-9):
    """'' or a description of the first difference."""
    if [k for k, _ in got] != [k for k, _ in want]:
        a, b = [k for k, _ in got], [k for k, _ in want]
        k = next((k for k, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        return f"structure differs at item {k}: {a[k:k + 2]} instead of {b[k:k + 2]}"
    for (k, g), (_, w) in zip(got, want):
        if isinstance(w, str) or isinstance(g, str):
            if g != w:
                j = next((j for j, (p, q) in enumerate(zip(str(g), str(w))) if p != q),
                         min(len(str(g)), len(str(w))))
                return f"{k}: ...{str(g)[max(0, j - 30):j + 40]!r} instead of " \
                       f"...{str(w)[max(0, j - 30):j + 40]!r}"
        else:
            if np.shape(g) != np.shape(w) or not np.isclose(
                g, w, rtol=rtol, atol=atol, equal_nan=True
            ).all():
                return f"{k}: {worst(np.atleast_1d(g), np.atleast_1d(w))}"
    return ""


def bits(res):
    """Digest of a result, bit by bit."""
    return fp([[k, v] for k, v in res])


def gen_small(rng, **cfg):
    """A small scenario on which every call of the menu works."""
    c = {"max_latent": 2, "max_periods": 3, "max_mixtures": 2, "max_meas": 2,
         "short_lists": False, "trailing": False, "gaps": False}
    c.update(cfg)
    p = world.gen_scenario(rng, c, n_range=(7, 9), fault_rate=0.25, faithful=0.6)
    p["faults"] = [f for f in p["faults"] if f[0] not in ("drop_var",)]
    return p


__all__ = ["Ctx", "CALLS", "RANDOM", "CHEAP", "LIKELIHOOD", "PLOTS", "EVERYTHING", "run",
           "differ", "bits", "gen_small", "copy"]
