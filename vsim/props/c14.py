"""C14: correlation tables against a plain store of the delivered values."""
import numpy as np

from vsim import world
from vsim.core import Skip, require
from vsim.ref import Model
from vsim.rng import stream
from vsim.target import api, fp, model_dict, quiet

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}


def plan(rng, tier):
    cfg = {"max_periods": 4 if tier == "quick" else 7, "max_latent": 3}
    if rng.random() < 0.5:
        cfg["observed"] = True
    p = world.gen_scenario(rng, cfg, n_range=(6, 16), fault_rate=0.0, faithful=0.2,
                           rare=("long", "wide", "crowd"))
    m = Model(p["spec"])
    kinds = ["drop_cell", "drop_row", "attrit", "corrupt", "drop_ctrl", "drop_var", "late"]
    p["faults"] = world.gen_faults(rng, m, p["N"], 1.5,
                                   [k for k in kinds if rng.random() < 0.6] or kinds)
    # observed factors may be incomplete here
    p["lost_observed"] = [
        [rng.randrange(p["N"]), rng.randrange(m.T), rng.choice(m.observed)]
        for _ in range(rng.choice([0, 0, 2, 6]))
    ] if m.observed else []
    p["ops"] = []
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < 0.3:
            fac = None
        elif k < 0.5:
            fac = rng.choice(m.all)
        else:
            fac = rng.sample(m.all, rng.randint(1, len(m.all)))
        k = rng.random()
        if k < 0.3:
            per = rng.randrange(m.T)
        elif k < 0.45:
            per = None
        else:
            per = rng.sample(range(m.T), rng.randint(1, m.T))
        p["ops"].append([rng.choice(["measurements", "quasi", "scores"]), fac, per])
    p["heatmaps"] = rng.random() < 0.6
    return p


def select(m, fac):
    if fac is None:
        return m.latent, m.observed
    fac = [fac] if isinstance(fac, str) else fac
    return [f for f in fac if f in m.latent], [f for f in fac if f in m.observed]


def column(cells, present, var, t):
    return np.where(present[:, t], cells[var][:, t], np.nan)


def nanmean(cols, n):
    if not cols:
        return np.full(n, np.nan)
    X = np.stack(cols)
    cnt = (~np.isnan(X)).sum(axis=0)
    with np.errstate(all="ignore"):
        return np.where(cnt > 0, np.nansum(X, axis=0) / cnt, np.nan)


def wanted(m, P, cells, present, kind, fac, per):
    """{label: values over individuals}"""
    n = present.shape[0]
    lat, obs = select(m, fac)
    pers = list(range(m.T)) if per is None else [per] if isinstance(per, int) else list(per)
    out = {}
    for t in pers:
        tail = f", {t}" if len(pers) > 1 else ""
        for f in lat:
            ups = [(k, u) for k, u in enumerate(m.updates)
                   if u[0] == t and u[4] == "measurement" and f in u[3]]
            if kind == "measurements":
                for _, u in ups:
                    out[u[1] + tail] = column(cells, present, u[2], t)
                continue
            cols = []
            for k, u in ups:
                v = column(cells, present, u[2], t)
                if kind == "quasi":
                    ok = v[~np.isnan(v)]
                    if len(ok) < 2:
                        v = np.full(n, np.nan)
                    else:
                        v = (v - ok.mean()) / ok.std(ddof=1)
                elif len(u[3]) > 1:
                    continue
                else:
                    v = (v - P[("controls", t, u[1], "constant")]) \
                        / P[("loadings", t, u[1], f)]
                cols.append(v)
            out[f + tail] = nanmean(cols, n)
        for f in obs:
            out[f + tail] = column(cells, present, f, t)
    return out


def pair_corr(a, b):
    """(value, fragile)"""
    ok = ~(np.isnan(a) | np.isnan(b))
    if ok.sum() < 2:
        return np.nan, False
    x, y = a[ok], b[ok]
    sx, sy = x.std(), y.std()
    if sx < 1e-7 * (1 + np.abs(x).max()) or sy < 1e-7 * (1 + np.abs(y).max()):
        return np.nan, True
    return float(((x - x.mean()) * (y - y.mean())).mean() / (sx * sy)), False


def heatmap(a, corr, rng, what, log):
    """The figure shows the entries of the table, each at its labels."""
    upper, diagonal, trim, annotate = [rng.random() < 0.5 for _ in range(4)]
    digits = rng.choice([1, 2, 5])
    with quiet():
        fig = a.ch.plot_correlation_heatmap(
            corr, rounding=digits, show_upper_triangle=upper, show_diagonal=diagonal,
            trim_heatmap=trim, annotate=annotate)
    n = len(corr)
    vals = np.round(corr.to_numpy(dtype=float), digits)
    shown = np.tril(np.ones((n, n), dtype=bool), k=-1)
    if upper:
        shown |= shown.T
    if diagonal:
        shown |= np.eye(n, dtype=bool)
    want = np.where(shown, vals, np.nan)
    rows = cols = np.ones(n, dtype=bool)
    if trim:
        rows, cols = (~np.isnan(want)).any(axis=1), (~np.isnan(want)).any(axis=0)
    want = want[rows][:, cols]
    trace, = fig.data
    got = np.array(trace.z, dtype=float).reshape(want.shape)
    require(list(trace.y) == list(corr.index[rows]) and
            list(trace.x) == list(corr.columns[cols]), "C14/heatmap-labels",
            f"heatmap of {what}: labels {list(trace.y)} and {list(trace.x)}")
    require(np.array_equal(got, want, equal_nan=True), "C14/heatmap-value",
            f"heatmap of {what} (upper {upper}, diagonal {diagonal}, trim {trim})")
    off = np.abs(vals[np.tril_indices(n, k=-1)])
    if not np.isnan(off).all():
        top = np.nanmax(off)
        require((trace.zmin, trace.zmid, trace.zmax) == (-top, 0, top), "C14/heatmap-scale",
                f"heatmap of {what}: scale from {trace.zmin} to {trace.zmax} instead of "
                f"{top}")
    if annotate:
        texts = sorted((t.x, t.y, t.text) for t in fig.layout.annotations if t.text)
        wanted = sorted(
            (x, y, str(want[r, c])) for r, y in enumerate(corr.index[rows])
            for c, x in enumerate(corr.columns[cols]) if not np.isnan(want[r, c]))
        require(texts == wanted, "C14/heatmap-annotations",
                f"heatmap of {what}: {sorted(set(texts) ^ set(wanted))[:4]}")
    log.count("heatmaps")


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    m, P = sc.model, sc.P
    cells = {k: v.copy() for k, v in sc.cells.items()}
    for i, t, col in plan["lost_observed"]:
        if i < sc.N and t < m.T and col in cells:
            cells[col][i, t] = np.nan
            log.count("lost_observed")
    if any(np.isinf(v).any() for v in cells.values()):
        raise Skip("infinite values")
    df, *_ = world.deliver(m, cells, sc.present, plan.get("delivery"))
    a = api()
    md = model_dict(plan["spec"])
    params = sc.params()
    before = [fp(df), fp(md), fp(params)]
    for kind, fac, per in plan["ops"]:
        names = [] if fac is None else [fac] if isinstance(fac, str) else fac
        pers = [] if per is None else [per] if isinstance(per, int) else per
        if any(f not in m.all for f in names) or any(t >= m.T for t in pers):
            continue
        want = wanted(m, P, cells, sc.present, kind, fac, per)
        if not want:
            continue
        with quiet():
            if kind == "measurements":
                corr = a.ch.get_measurements_corr(df, md, fac, per)
            elif kind == "quasi":
                corr = a.ch.get_quasi_scores_corr(df, md, fac, per)
            else:
                corr = a.ch.get_scores_corr(df, params, md, fac, per)
        what = f"{kind} correlations of factors {fac} in periods {per}"
        require(set(corr.index) == set(want) and set(corr.columns) == set(want),
                f"C14/{kind}-labels",
                f"{what}: labels that differ {sorted(set(corr.index) ^ set(want))[:6]}")
        vals = corr.to_numpy(dtype=float)
        for r, x in enumerate(corr.index):
            for c, y in enumerate(corr.columns):
                w, fragile = pair_corr(want[x], want[y])
                if fragile:
                    log.count("fragile_pairs")
                    continue
                v = vals[r, c]
                ok = (np.isnan(v) and np.isnan(w)) or abs(v - w) < 1e-7
                require(ok, f"C14/{kind}-value",
                        f"{what}: {x} with {y} is {v!r} instead of {w!r}")
        if plan.get("heatmaps"):
            heatmap(a, corr, stream("heatmap", plan["dseed"], kind, names, pers), what, log)
        log.ev(kind, np.nan_to_num(np.round(vals, 9), nan=-9))
        log.count(f"tables_{kind}")
        log.mark((kind, "none" if fac is None else type(fac).__name__,
                  "none" if per is None else type(per).__name__, len(want)))
    require([fp(df), fp(md), fp(params)] == before, "C14/mutated",
            "a correlation function modified its arguments")
    log.count("waves", m.T * sc.N)
