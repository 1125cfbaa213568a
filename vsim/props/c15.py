"""C15: plotted values recomputed from the delivered panel."""
import itertools

import numpy as np
from scipy.stats import gaussian_kde

from vsim import ref, world
from vsim.core import Skip, require, require_close
from vsim.rng import stream
from vsim.target import api, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 10000}
TOL = {"rtol": 1e-5, "atol": 1e-6}


def plan(rng, tier):
    cfg = {"max_periods": 4, "max_latent": 3, "max_mixtures": 2,
           "short_lists": rng.random() < 0.3}
    if rng.random() < 0.5:
        cfg["observed"] = True
    if rng.random() < 0.5:
        cfg["anchoring"] = True
    if rng.random() < 0.7:
        cfg["min_latent"] = 2
    p = world.gen_scenario(rng, cfg, n_range=(6, 12), fault_rate=0.6, faithful=0.2,
                           rare=("long", "mixtures"))
    m = ref.Model(p["spec"])
    p["ops"] = []
    early = [t for t in m.measured_periods if t < m.T - 1]
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5 and early:
            op = {"op": "transition", "period": rng.choice(early),
                  "points": rng.randint(2, 7), "ranges": None, "draws": 3,
                  "rng": rng.randrange(10**6)}
            k = rng.random()
            if k < 0.3:
                op["q"] = None
                op["draws"] = rng.choice([1, 2, 3, p["N"], p["N"]])
            elif k < 0.45:
                op["q"] = rng.choice([0.5, 0.1, 0, 1])
            elif k < 0.6:
                op["q"] = "default"
            else:
                op["q"] = rng.sample([0.0, 0.1, 0.25, 0.5, 0.6, 0.9, 1.0],
                                     rng.randint(1, 3))
            if rng.random() < 0.25:
                op["ranges"] = [round(rng.uniform(-4, -1), 3), round(rng.uniform(1, 4), 3)]
            op["cols"] = pick_order(rng, m.all)
            op["rows"] = pick_order(rng, m.latent)
            op["mapping"] = pick_mapping(rng, m.all)
        else:
            op = {"op": "density", "period": rng.choice(m.measured_periods),
                  "points": rng.randint(2, 6)}
            k = rng.random()
            op["observed"] = rng.random() < 0.5
            op["factors"] = None
            if k < 0.6:
                op["factors"] = rng.sample(m.all, rng.randint(1, len(m.all)))
            op["states"] = rng.choice(["none", "none", "frame", "shuffled", "list", "dict",
                                       "subset"])
            op["rng"] = rng.randrange(10**6)
            op["hist"] = rng.random() < 0.3
            have = op["factors"] or (m.all if op["observed"] else m.latent)
            op["order"] = None
            if rng.random() < 0.5:
                op["order"] = rng.sample(have, rng.randint(1, len(have)))
                if len(op["order"]) == 1 and rng.random() < 0.5:
                    op["order"] = op["order"][0]
            op["mapping"] = pick_mapping(rng, have)
            op["surfaces"] = rng.random() < 0.7
        p["ops"].append(op)
    return p


def pick_order(rng, names):
    k = rng.random()
    if k < 0.4:
        return None
    if k < 0.5:
        return rng.choice(names)
    return rng.sample(names, rng.randint(1, len(names)))


def pick_mapping(rng, names):
    if rng.random() < 0.5:
        return None
    return {f: f"Label of {f}" for f in names if rng.random() < 0.6}


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m = sc.model
    try:
        want = ref.run_filter(m, sc.P, sc.feed)
    except ref.Ill as e:
        raise Skip(f"ill {e}")
    df, *_ = sc.frame()
    md = model_dict(plan["spec"])
    params = sc.params()
    table = {}
    for t in m.measured_periods:
        table[t] = np.concatenate([want["anchored"][t], sc.feed.observed[t]], axis=1)
    before = [fp(x) for x in (md, df, params)]
    done = 0
    for op in plan["ops"]:
        (transition if op["op"] == "transition" else density)(
            op, sc, m, table[op["period"]], md, params, df, log)
        done += 1
    require([fp(x) for x in (md, df, params)] == before, "C15/mutated",
            "plotting modified the model, the parameters or the data")
    log.count("waves", m.T * sc.N)
    log.mark(("model", m.S, len(m.observed), m.M, len(m.anchored), done))


def curve(fac, m, P, t, grid, pos, others):
    X = np.tile(np.asarray(others, dtype=float), (len(grid), 1))
    X[:, pos] = grid
    return m.next_factor(fac, P, t, X)


def trace_xy(tr):
    return np.asarray(tr.x, dtype=float), np.asarray(tr.y, dtype=float)


# ------------------------------------------------------------------ transition plots
def transition(op, sc, m, states, md, params, df, log):
    import pandas as pd

    a, t = api(), op["period"]
    q = op["q"]
    kw = {"n_points": op["points"], "n_draws": op["draws"]}
    if q != "default":
        kw["quantiles_of_other_factors"] = q
    lo, hi = states.min(axis=0), states.max(axis=0)
    if op["ranges"]:
        kw["state_ranges"] = {
            f: pd.DataFrame({"minimum": [op["ranges"][0] - 0.1 * j] * m.T,
                             "maximum": [op["ranges"][1] + 0.1 * j] * m.T},
                            index=pd.Index(range(m.T), name="period"))
            for j, f in enumerate(m.all)}
        lo = np.array([op["ranges"][0] - 0.1 * j for j in range(len(m.all))])
        hi = np.array([op["ranges"][1] + 0.1 * j for j in range(len(m.all))])
    if q is None and (hi - lo).min() < 1e-6:
        return
    np.random.seed(op["rng"])
    with quiet():
        figs = a.vt.get_transition_plots(md, params, df, t, **kw)
    require(set(figs) == set(itertools.product(m.all, m.latent)), "C15/transition-keys",
            f"plots for {list(figs)}")
    for fac in m.spec["factors"]:
        for pos, inp in enumerate(m.all):
            what = f"effect of {inp} on {fac['name']} in period {t}"
            fig = figs[inp, fac["name"]]
            require((fig.layout.xaxis.title.text, fig.layout.yaxis.title.text)
                    == (inp, fac["name"]), "C15/transition-titles",
                    f"{what}: axes {fig.layout.xaxis.title.text}, "
                    f"{fig.layout.yaxis.title.text}")
            grid = np.linspace(lo[pos], hi[pos], op["points"])
            if q is None:
                require(len(fig.data) == 1, "C15/transition-lines",
                        f"{what}: {len(fig.data)} lines")
                x, y = trace_xy(fig.data[0])
                require_close("C15/transition-grid", f"grid, {what}", x, grid, **TOL)
                k = min(op["draws"], sc.N)
                cands = itertools.combinations(range(sc.N), k)
                cache = [curve(fac, m, sc.P, t, grid, pos, states[i])
                         for i in range(sc.N)]
                for c in cands:
                    if np.allclose(np.mean([cache[i] for i in c], axis=0), y, rtol=1e-5,
                                   atol=1e-6):
                        break
                else:
                    require(False, "C15/transition-average",
                            f"{what}: not the average over any {k} individuals: {y}")
                log.count("averaged_curves")
            else:
                qs = [0.25, 0.5, 0.75] if q == "default" else q
                qs = [qs] if isinstance(qs, (int, float)) else list(qs)
                require(len(fig.data) == len(qs), "C15/transition-lines",
                        f"{what}: {len(fig.data)} lines for quantiles {qs}")
                for tr, v in zip(fig.data, qs):
                    if len(qs) > 1:
                        require(float(tr.name) == v, "C15/transition-legend",
                                f"{what}: line {tr.name} instead of {v}")
                    x, y = trace_xy(tr)
                    require_close("C15/transition-grid", f"grid, {what}", x, grid, **TOL)
                    require_close("C15/transition", f"{what}, others at quantile {v}", y,
                                  curve(fac, m, sc.P, t, grid, pos,
                                        np.quantile(states, v, axis=0)), **TOL)
                    log.count("curves")
            log.ev("curve", inp, fac["name"], [round(float(v), 5) for v in y])
    with quiet():
        both = a.vt.combine_transition_plots(figs, column_order=op["cols"],
                                             row_order=op["rows"],
                                             factor_mapping=op["mapping"])
    as_list = lambda x, d: list(d) if x is None else [x] if isinstance(x, str) else x  # noqa
    cols, rows = as_list(op["cols"], m.all), as_list(op["rows"], m.latent)
    label = {**{f: f for f in m.all}, **(op["mapping"] or {})}
    total = 0
    for r, out in enumerate(rows):
        for c, inp in enumerate(cols):
            sub = both.get_subplot(r + 1, c + 1)
            name = sub.xaxis.plotly_name.replace("xaxis", "x")
            mine = [tr for tr in both.data if (tr.xaxis or "x") == name]
            src = figs[inp, out].data
            total += len(src)
            same_traces(mine, src, ("x", "y", "name"), "C15/transition-combined",
                        f"row {r}, column {c} of the combined figure ({inp} on {out})")
            require(sub.xaxis.title.text == label[inp], "C15/transition-combined",
                    f"x label of row {r}, column {c}: {sub.xaxis.title.text}")
            if c == 0:
                require(sub.yaxis.title.text == label[out], "C15/transition-combined",
                        f"y label of row {r}: {sub.yaxis.title.text}")
    require(len(both.data) == total, "C15/transition-combined",
            f"{len(both.data)} lines instead of {total}")
    log.count("combined_figures")


def same_traces(mine, src, keys, cls, what):
    require(len(mine) == len(src), cls, f"{what}: {len(mine)} of {len(src)} traces")
    for g, w in zip(mine, src):
        for key in keys:
            a, b = getattr(g, key), getattr(w, key)
            if isinstance(b, str) or b is None:
                require(a == b, cls, f"{what}: {key} is {a!r} instead of {b!r}")
            else:
                require_close(cls, f"{what}, {key}", np.asarray(a, dtype=float),
                              np.asarray(b, dtype=float))


# ---------------------------------------------------------------------- density plots
def density(op, sc, m, states, md, params, df, log):
    a, t = api(), op["period"]
    rng = stream("states", op["rng"])
    factors = op["factors"] or (m.all if op["observed"] else m.latent)
    kw = {"factors": op["factors"], "observed_factors": op["observed"]}
    scenarios = {"none": states}
    given = None
    if op["states"] != "none":
        with quiet():
            given = a.get_filtered_states(md, df, params)["anchored_states"]["states"]
        given = given.reset_index(drop=True)
        if op["states"] != "frame":
            given = given.iloc[rng.sample(range(len(given)), len(given))]
            if rng.random() < 0.5:
                given = given.reset_index(drop=True)
        if op["states"] == "subset":
            keep = rng.sample(range(sc.N), max(4, sc.N - 2))
            given = given[given["id"].isin(keep)]
            scenarios = {"none": states[sorted(keep)]}
        if op["states"] in ("list", "dict"):
            other = given.copy()
            other[m.latent] = other[m.latent] * 1.5 + 0.3
            moved = states.copy()
            moved[:, :m.S] = moved[:, :m.S] * 1.5 + 0.3
            if op["states"] == "list":
                given, scenarios = [given, other], {"0": states, "1": moved}
            else:
                given = {"base": given, "policy": other}
                scenarios = {"base": states, "policy": moved}
    values = {k: {f: v[:, m.all.index(f)] for f in factors} for k, v in scenarios.items()}
    many = len(scenarios) > 1
    uni_kw = dict(kw, states=given, show_hist=op["hist"])
    with quiet():
        kde = a.vd.univariate_densities(df, md, params, t, **uni_kw)
        con = a.vd.bivariate_density_contours(df, md, params, t, states=given,
                                              n_points=op["points"], **kw)
        sur = None
        if not many:
            sur = a.vd.bivariate_density_surfaces(df, md, params, t, states=given,
                                                  n_points=op["points"], **kw)
    require(list(kde) == list(factors), "C15/density-keys", f"plots for {list(kde)}")
    pairs = {(f, g) for f in factors for g in factors if f != g}
    require(set(con) == pairs, "C15/density-keys", f"contours for {list(con)}")
    complete = True
    for f in factors:
        complete &= check_univariate(kde[f], f, {k: v[f] for k, v in values.items()},
                                     op["hist"], t, log)
    for f, g in sorted(pairs):
        both = {k: np.stack([v[f], v[g]]) for k, v in values.items()}
        complete &= check_contour(con[f, g], f, g, both, op["points"], t, log)
        if sur is not None:
            complete &= check_surface(sur[f, g], f, g, both["none"], op["points"], t, log)
    if not complete:
        log.count("degenerate_densities")
        return
    order = op["order"] or list(factors)
    order = [order] if isinstance(order, str) else order
    use_sur = sur if op["surfaces"] else None
    with quiet():
        fig = a.vd.combine_distribution_plots(kde, con, use_sur, factor_order=op["order"],
                                              factor_mapping=op["mapping"])
    label = {**{f: f for f in factors}, **(op["mapping"] or {})}
    total = 0
    for c, f in enumerate(order):
        for r, g in enumerate(order):
            what = f"row {r}, column {c} of the combined figure"
            sub = fig.get_subplot(r + 1, c + 1)
            if r < c:
                if use_sur is None:
                    continue
                mine = [x for x in fig.data if getattr(x, "scene", None) == sub.plotly_name
                        or (sub.plotly_name == "scene" and x.type == "surface"
                            and x.scene is None)]
                same_traces(mine, sur[f, g].data, ("x", "y", "z"), "C15/density-combined",
                            what)
                total += 1
                continue
            name = sub.xaxis.plotly_name.replace("xaxis", "x")
            mine = [x for x in fig.data if x.type != "surface" and (x.xaxis or "x") == name]
            src = kde[f].data if r == c else con[f, g].data
            keys = ("x", "y") if r == c else ("x", "y", "z")
            same_traces(mine, src, keys, "C15/density-combined", what)
            total += len(src)
            titles = (sub.xaxis.title.text, sub.yaxis.title.text)
            expect = (label[f], "Density" if r == c else label[g])
            require(titles == expect, "C15/density-combined",
                    f"{what}: labels {titles} instead of {expect}")
    require(len(fig.data) == total, "C15/density-combined",
            f"{len(fig.data)} traces instead of {total}")
    log.count("combined_figures")


def kernel(vals):
    """gaussian_kde or None if the values are (nearly) degenerate."""
    vals = np.atleast_2d(vals)
    cov = np.atleast_2d(np.cov(vals))
    scale = np.sqrt(np.clip(np.diag(cov), 0, None))
    if (scale < 1e-4).any():
        return None
    corr = cov / np.outer(scale, scale)
    if len(vals) > 1 and np.linalg.eigvalsh(corr).min() < 1e-5:
        return None
    return gaussian_kde(vals)


def check_univariate(fig, f, values, hist, t, log):
    kernels = {k: kernel(v) for k, v in values.items()}
    if any(k is None for k in kernels.values()):
        return False
    what = f"density of {f} in period {t}"
    curves = [x for x in fig.data if x.type == "scatter"]
    require(len(curves) == len(values), "C15/density-lines", f"{what}: {len(curves)} curves")
    require(fig.layout.xaxis.title.text == f, "C15/density-titles",
            f"{what}: x label {fig.layout.xaxis.title.text}")
    for tr, (name, v) in zip(curves, values.items()):
        x, y = trace_xy(tr)
        require(str(tr.name) == name, "C15/density-legend", f"{what}: curve {tr.name}")
        require_close("C15/density-grid", f"grid, {what}", x.min(), v.min(), **TOL)
        require(v.max() - np.ptp(v) / 50 <= x.max() <= v.max() + 1e-5, "C15/density-grid",
                f"{what}: grid ends at {x.max()} instead of {v.max()}")
        require_close("C15/density", f"{what} ({name})", y, kernels[name](x), 1e-4, 1e-5)
        log.ev("density", f, name, [round(float(k), 4) for k in y[::100]])
        log.count("densities")
    if hist:
        bars = [x for x in fig.data if x.type == "histogram"]
        require(len(bars) == len(values), "C15/density-hist", f"{what}: {len(bars)} bars")
        for tr, v in zip(bars, values.values()):
            require_close("C15/density-hist", f"values in the histogram, {what}",
                          np.sort(np.asarray(tr.x, dtype=float)), np.sort(v), **TOL)
    return True


def check_contour(fig, f, g, values, points, t, log):
    kernels = {k: kernel(v) for k, v in values.items()}
    if any(k is None for k in kernels.values()):
        return False
    what = f"joint density of {f} and {g} in period {t}"
    require((fig.layout.xaxis.title.text, fig.layout.yaxis.title.text) == (f, g),
            "C15/density-titles", f"{what}: labels {fig.layout.xaxis.title.text}, "
                                  f"{fig.layout.yaxis.title.text}")
    require(len(fig.data) == len(values), "C15/density-lines",
            f"{what}: {len(fig.data)} contours")
    for tr, (name, v) in zip(fig.data, values.items()):
        x, y = trace_xy(tr)
        z = np.asarray(tr.z, dtype=float)
        for grid, row, axis in ((x, v[0], "x"), (y, v[1], "y")):
            require_close("C15/density-grid", f"{axis} grid, {what}", grid,
                          np.linspace(row.min(), row.max(), points), **TOL)
        xx, yy = np.meshgrid(x, y)  # z[i][j] is drawn at (x[j], y[i])
        expect = kernels[name](np.stack([xx.ravel(), yy.ravel()])).reshape(xx.shape)
        require_close("C15/contour", f"{what} ({name})", z, expect, 1e-3, 1e-5)
        log.ev("contour", f, g, [round(float(k), 4) for k in z.ravel()[:5]])
        log.count("contours")
    return True


def check_surface(fig, f, g, v, points, t, log):
    k = kernel(v)
    if k is None:
        return False
    what = f"density surface of {f} and {g} in period {t}"
    require(len(fig.data) == 1, "C15/density-lines", f"{what}: {len(fig.data)} surfaces")
    scene = fig.layout.scene
    require((scene.xaxis.title.text, scene.yaxis.title.text) == (f, g),
            "C15/density-titles", f"{what}: labels {scene.xaxis.title.text}, "
                                  f"{scene.yaxis.title.text}")
    tr = fig.data[0]
    x, y = trace_xy(tr)
    z = np.asarray(tr.z, dtype=float)
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    for grid, row in ((x, v[0]), (y, v[1])):
        require_close("C15/density-grid", f"grid, {what}", np.unique(np.round(grid, 6)),
                      np.round(np.linspace(row.min(), row.max(), points), 6), 1e-4, 1e-5)
    require(x.shape == z.shape, "C15/surface", f"{what}: shapes {x.shape}, {z.shape}")
    require_close("C15/surface", what, z,
                  k(np.stack([x.ravel(), y.ravel()])).reshape(x.shape), 1e-3, 1e-5)
    log.count("surfaces")
    return True
