"""Parameters, clean panel, the unreliable survey channel, and delivery of the panel."""
import math

import numpy as np

from vsim import ref
from vsim import spec as sp
from vsim.rng import gen, h, normal, normals, stream, uniform


# ------------------------------------------------------------------ parameters
def make_params(model, pseed, overrides=None):
    """Value per label; a pure function of the label, so it survives model shrinking."""
    P = {}
    for lab in model.template():
        P[lab] = _value(model, lab, pseed)
    # restrictions across labels
    ws = [("mixture_weights", 0, f"mixture_{m}", "-") for m in range(model.M)]
    tot = sum(P[w] for w in ws)
    for w in ws:
        P[w] = P[w] / tot
    for fac in model.spec["factors"]:
        if fac["trans"] == "log_ces":
            for t in range(model.T - 1):
                labs = [("transition", t, fac["name"], n) for n in model.all]
                tot = sum(P[x] for x in labs)
                for x in labs:
                    P[x] = P[x] / tot
    for lab, val in overrides or []:
        P[tuple(lab)] = val
    return P


def _value(model, lab, pseed):
    cat, t, n1, n2 = lab
    z, u = normal(pseed, *lab), uniform(pseed, *lab)
    if cat == "controls":
        return (0.5 if n2 == "constant" else 0.35) * z
    if cat == "loadings":
        anchoring = any(
            u_[1] == n1 and u_[0] == t and u_[4] == "anchoring" for u_ in model.updates
        )
        if anchoring:
            return 0.6 + 0.9 * u
        return (0.5 + 1.1 * u) * (-1 if uniform(pseed, "sign", *lab) < 0.15 else 1)
    if cat == "meas_sds":
        return 0.4 + 0.7 * u
    if cat == "shock_sds":
        fac = next(f for f in model.spec["factors"] if f["name"] == n1)
        if fac["trans"] == "constant" and uniform(pseed, "zero", n1) < 0.7:
            return 0.0
        return 0.25 + 0.6 * u
    if cat == "initial_states":
        return 0.8 * z
    if cat == "mixture_weights":
        return 0.3 + 0.7 * u
    if cat == "initial_cholcovs":
        return 0.6 + 0.6 * u if n2 in [f"{f}-{f}" for f in model.latent] else 0.25 * z
    assert cat == "transition", lab
    fac = next(f for f in model.spec["factors"] if f["name"] == n1)
    kind = fac["trans"]
    if isinstance(kind, list):
        return {"own": 0.6, "rho": 0.8, "a": 1.0}.get(n2, 0.0) + 0.2 * z
    if kind == "log_ces":
        if n2 == "phi":
            return (0.2 + 0.6 * u) * (-1 if uniform(pseed, "sg", *lab) < 0.4 else 1)
        return 0.15 + 0.85 * u
    if kind == "log_ces_general":
        if n2 == "tfp":
            return 0.5 + 0.6 * u
        if n2.startswith("sigma_"):
            return 0.2 + 0.5 * u
        return 0.1 + 0.4 * u
    if n2 == "constant":
        return 0.25 * z
    if " ** 2" in n2 or " * " in n2:
        return 0.03 * z
    return 0.15 * z + (0.65 if n2 == n1 else 0.0)


# ------------------------------------------------------------------ clean panel
def make_cells(model, P, N, dseed):
    """Clean panel, prefix-stable in N. Not produced by the package."""
    m = model
    scale, const = m.anchoring_arrays(P)
    cells = {}
    obs = np.zeros((m.T, N, len(m.observed)))
    for j, f in enumerate(m.observed):
        base = normals(N, dseed, "obs", f)
        for t in range(m.T):
            obs[t, :, j] = 0.7 * base + 0.5 * normals(N, dseed, "obs", f, t)
        cells[f] = obs[:, :, j].T.copy()
    X = np.ones((m.T, N, len(m.controls)))
    for j, c in enumerate(m.controls[1:], start=1):
        base = normals(N, dseed, "ctl", c)
        for t in range(m.T):
            X[t, :, j] = 0.5 * base + 0.7 * normals(N, dseed, "ctl", c, t)
        if uniform(dseed, "offset", c) < 0.15:  # such as a year of birth
            X[:, :, j] += 2000.0
        cells[c] = X[:, :, j].T.copy()
    w, means, covs = m.initial(P)
    comp = np.searchsorted(np.cumsum(w)[:-1], gen(dseed, "comp").random(N))
    z = np.stack([normals(N, dseed, "init", f) for f in m.latent], axis=-1)
    s = np.zeros((N, m.S))
    for k in range(m.M):
        L = np.linalg.cholesky(covs[k])
        s[comp == k] = (means[k] + z @ L.T)[comp == k]
    for t in range(m.T):
        for k, (p, name, col, *_rest) in enumerate(m.updates):
            if p != t:
                continue
            lam, beta, sd = m.meas_equation(P, k)
            y = s @ lam + X[t] @ beta + sd * normals(N, dseed, "eps", col, t)
            cells.setdefault(col, np.full((N, m.T), np.nan))[:, t] = y
        if t < m.T - 1:
            s = m.next_states(P, t, np.concatenate([s, obs[t]], axis=1), scale, const)
            s = s + np.stack(
                [
                    P[("shock_sds", t, f, "-")] * normals(N, dseed, "eta", f, t)
                    for f in m.latent
                ],
                axis=-1,
            )
            s = np.clip(s, -6, 6)
    return cells


# ------------------------------------------------------------- channel: data faults
LOSSY = ["drop_cell", "drop_row", "attrit", "inf", "corrupt", "drop_ctrl", "drop_var",
         "late"]


def gen_faults(rng, model, N, rate=1.0, kinds=None):
    """Explicit list of data faults. Each is a list starting with its kind."""
    m = model
    kinds = kinds or [k for k in LOSSY if rng.random() < 0.6] or ["drop_cell"]
    cols = sorted({u[2] for u in m.updates})
    by_col = {}
    for u in m.updates:
        by_col.setdefault(u[2], []).append(u[0])
    n = int(rng.choice([0, 1, 2, 4, 8, 16, 30]) * rate)
    # bursts: many faults hit the same individual, the same wave or the same variable
    burst_i = rng.randrange(N) if rng.random() < 0.4 else None
    burst_t = rng.randrange(m.T) if rng.random() < 0.3 else None
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        i = burst_i if burst_i is not None and rng.random() < 0.6 else rng.randrange(N)
        col = rng.choice(cols)
        t = rng.choice(by_col[col])
        if burst_t is not None and rng.random() < 0.5:
            t = burst_t
        if k in ("drop_cell", "inf", "corrupt"):
            if k == "drop_cell":
                out.append([k, i, t, col])
            elif k == "inf":
                out.append([k, i, t, col, rng.choice([1, -1])])
            else:
                val = rng.choice([3.0, -7.5, 25.0, -60.0, 400.0])
                out.append([k, i, t, col, val])
                if rng.random() < 0.2 and (m.controls[1:] or m.observed):
                    other = rng.choice(m.controls[1:] + m.observed)
                    out[-1] = [k, i, rng.randrange(m.T), other,
                               rng.choice([2.0, -3.0, 5.0])]
        elif k == "drop_row":
            out.append([k, i, t])
        elif k == "attrit":
            out.append([k, i, t])
        elif k == "late":
            out.append([k, i, t])
        elif k == "drop_ctrl":
            if m.controls[1:]:
                out.append([k, i, t, rng.choice(m.controls[1:])])
        elif k == "drop_var":
            # nobody delivers this variable in this wave
            if rng.random() < 0.3:
                out.append([k, t, col])
    return out


def apply_faults(model, cells, N, faults, stats=None):
    """Returns (cells, present) after the channel. Faults that would take the panel out
    of scope (an entire wave lost, the last variance of a variable, observed factors of
    a lost row) are skipped; they are exercised as refusals in C03."""
    m = model
    cells = {k: v.copy() for k, v in cells.items()}
    present = np.ones((N, m.T), dtype=bool)

    def count(kind):
        if stats is not None:
            stats[kind] = stats.get(kind, 0) + 1

    for f in faults:
        kind = f[0]
        c2, p2 = {k: v for k, v in cells.items()}, present.copy()
        if kind in ("drop_row", "attrit", "late") and m.observed:
            # rows stay, all but the observed factors is lost
            i, t = f[1], f[2]
            ts = {"drop_row": [t], "attrit": range(t, m.T), "late": range(t)}[kind]
            touched = False
            for col in list(c2):
                if col in m.observed:
                    continue
                c2[col] = c2[col].copy()
                for s in ts:
                    c2[col][i, s] = np.nan
                    touched = True
            kind = kind + "_keep_observed" if touched else kind
        elif kind == "drop_row":
            p2[f[1], f[2]] = False
        elif kind == "attrit":
            p2[f[1], f[2] :] = False
        elif kind == "late":
            p2[f[1], : f[2]] = False
        elif kind == "drop_var":
            if f[2] not in c2:
                continue
            c2[f[2]] = c2[f[2]].copy()
            c2[f[2]][:, f[1]] = np.nan
        else:
            i, t, col = f[1], f[2], f[3]
            if col not in c2 or t >= m.T or i >= N:
                continue
            c2[col] = c2[col].copy()
            c2[col][i, t] = {
                "drop_cell": lambda: np.nan,
                "drop_ctrl": lambda: np.nan,
                "inf": lambda: np.inf * f[4],
                "corrupt": lambda: f[4],
            }[kind]()
        if in_scope(m, c2, p2):
            if (p2 != present).any() or any(
                not np.array_equal(c2[k], cells[k], equal_nan=True) for k in cells
            ):
                count(kind)
            cells, present = c2, p2
    return cells, present


def in_scope(model, cells, present):
    m = model
    if not present.any(axis=0).all() or not present.any(axis=1).all():
        return False
    for t, name, col, *_ in m.updates:
        v = cells[col][:, t][present[:, t]]
        v = v[~np.isnan(v)]
        if len(np.unique(v)) == 1:
            return False
    for c in m.controls[1:]:
        if np.isnan(np.where(present, cells[c], np.nan)).all(axis=0).any():
            return False
    for c in m.observed:
        if np.isnan(np.where(present, cells[c], np.nan)).any():
            return False
    return True


# ------------------------------------------------------------ delivery (container)
ID_STYLES = ["int", "gap", "neg", "str", "float", "date"]
PERIOD_STYLES = ["zero", "year", "gap", "float", "date", "str"]


# unrelated columns whose names the package uses internally
CLASHES = ["constant", "period", "id", "__old_id__", "__old_period__", "outcome",
           "category", "aug_period"]


def gen_delivery(rng, faithful=0.25):
    if rng.random() < faithful:
        return {}
    d = {}
    d["ids"] = rng.choice(ID_STYLES)
    d["periods"] = rng.choice(PERIOD_STYLES)
    for key in ["rows", "cols"]:
        if rng.random() < 0.6:
            d[key] = rng.randrange(10**6)
    if rng.random() < 0.4:
        d["extra_cols"] = rng.randint(1, 3)
    if rng.random() < 0.35:
        d["extra_waves"] = rng.randint(1, 2)
    if rng.random() < 0.4:
        d["unused_levels"] = rng.choice(["ids", "periods_before", "periods_after", "both"])
    if rng.random() < 0.35:
        d["levels"] = rng.choice(["appearance", "reversed", rng.randrange(1, 10**6)])
    if rng.random() < 0.4:
        d["names"] = rng.choice([["pid", "wave"], [None, None], ["period", "id"]])
    if rng.random() < 0.3:
        d["absent_as_nan"] = True
    if rng.random() < 0.35:
        d["clash"] = rng.sample(CLASHES, rng.randint(1, 3))
    return d


def id_labels(style, n):
    import pandas as pd

    if style == "gap":
        return [10 + 7 * i for i in range(n)]
    if style == "neg":
        return [i - n // 2 for i in range(n)]
    if style == "str":
        return [f"p{i:04d}" for i in range(n)]
    if style == "float":
        return [0.5 * i + 0.25 for i in range(n)]
    if style == "date":
        return [pd.Timestamp("2001-01-01") + pd.Timedelta(days=3 * i) for i in range(n)]
    return list(range(n))


def period_labels(style, n):
    import pandas as pd

    if style == "year":
        return [1997 + i for i in range(n)]
    if style == "gap":
        return [5, 8, 9, 13, 20, 21, 34, 55, 56, 60, 61, 62, 63, 64][:n]
    if style == "float":
        return [1.5 * i - 2 for i in range(n)]
    if style == "date":
        return [pd.Timestamp(f"{1990 + 2 * i}-06-01") for i in range(n)]
    if style == "str":
        return [f"w{i:02d}" for i in range(n)]
    return list(range(n))


def deliver(model, cells, present, delivery=None):
    """Build the data frame that arrives. Returns (df, ids, period labels)."""
    import pandas as pd

    d = delivery or {}
    N, T = present.shape
    extra = d.get("extra_waves", 0)
    ids = id_labels(d.get("ids", "int"), N)
    pers = period_labels(d.get("periods", "zero"), T + extra)
    cols = list(cells)
    rng = stream("delivery", d.get("cols", 0), d.get("rows", 0))
    rows = [
        (i, t)
        for i in range(N)
        for t in range(T + extra)
        if t >= T or present[i, t] or d.get("absent_as_nan")
    ]
    if "rows" in d:
        rng.shuffle(rows)
    data = {}
    for col in cols:
        data[col] = np.array(
            [
                (cells[col][i, t] if present[i, t] else np.nan)
                if t < T
                else 100.0 + i + 3 * t
                for i, t in rows
            ],
            dtype=float,
        )
    for k in range(d.get("extra_cols", 0)):
        if k == 0:
            data["unrelated"] = np.array([f"s{i}" for i, t in rows], dtype=object)
        else:
            data[f"unrelated{k}"] = np.array(
                [np.nan if (i + t) % 2 else 1.0 for i, t in rows]
            )
    for k, name in enumerate(d.get("clash", [])):
        names = [name]
        if name == "outcome":
            anch = (model.spec["anchoring"] or {"outcomes": []})["outcomes"]
            names = [f"{o}_{f}" for f, o in anch]
        for name in names:
            if name in data:
                continue
            how = h("clash", d["clash"], name) % 3
            data[name] = np.array(
                [(t if how == 0 else (3 * i + t) % 2 if how == 1 else 7.5 - i + 2 * t)
                 for i, t in rows], dtype=float)
            if how == 2:
                data[name][:: 3] = np.nan
    order = list(data)
    if "cols" in d:
        rng.shuffle(order)
    index = pd.MultiIndex.from_tuples([(ids[i], pers[t]) for i, t in rows])
    df = pd.DataFrame({c: data[c] for c in order}, index=index)
    unused = d.get("unused_levels")
    if unused:
        # the caller filtered a larger frame: levels without rows stay in the index
        more_ids = id_labels(d.get("ids", "int"), N + 2)[N:] if unused in ("ids", "both") else []
        allp = period_labels(d.get("periods", "zero"), T + extra + 1)
        more_pers = []
        if unused in ("periods_after", "both"):
            more_pers.append(allp[-1])
        if unused == "periods_before":
            more_pers.append(_before(pers[0]))
        pad = [(x, pers[0]) for x in more_ids] + [(ids[0], y) for y in more_pers]
        if pad:
            big = pd.concat(
                [df, pd.DataFrame(index=pd.MultiIndex.from_tuples(pad), columns=df.columns,
                                  dtype=float)]
            )
            keep = np.zeros(len(big), dtype=bool)
            keep[: len(df)] = True
            dtypes = df.dtypes
            df = big[keep].astype(dtypes)
    if "levels" in d:
        # the order of an index's levels is an artefact of how the frame was made
        df.index = relevel(df.index, d["levels"])
    names = d.get("names", ["id", "period"])
    df.index = df.index.set_names(names)
    return df, ids, pers


def relevel(index, how):
    import pandas as pd

    levels, codes = [], []
    for lev in (0, 1):
        values = index.get_level_values(lev)
        order = list(dict.fromkeys(values))
        unused = [x for x in index.levels[lev] if x not in set(order)]
        if how == "reversed":
            order = sorted(order, reverse=True)
        elif how != "appearance":
            stream("levels", how, lev).shuffle(order)
        order = order + unused
        pos = {x: k for k, x in enumerate(order)}
        levels.append(pd.Index(order))
        codes.append([pos[x] for x in values])
    return pd.MultiIndex(levels=levels, codes=codes)


def _before(p):
    import pandas as pd

    if isinstance(p, str):
        return "a" + p
    if isinstance(p, pd.Timestamp):
        return p - pd.Timedelta(days=400)
    return p - 1


# -------------------------------------------------------------- parameter tables
def gen_param_delivery(rng, faithful=0.5):
    if rng.random() < faithful:
        return {}
    d = {"rows": rng.randrange(10**6)}
    k = rng.random()
    if k < 0.4:  # some columns of the labels keep the order of the template
        d["within"] = rng.choice([[0], [0, 1], [0, 1, 2], [0, 2, 3], [1, 2]])
    elif k < 0.55:
        d["swap"] = True
    if rng.random() < 0.4:
        d["extra_cols"] = True
    return d


def gen_level_names(rng):
    """Names of the index levels; the functions that maximize match labels only."""
    return rng.choice(["none", "other"]) if rng.random() < 0.2 else None


def params_frame(P, delivery=None, labels=None):
    import pandas as pd

    d = delivery or {}
    labs = list(P) if labels is None else list(labels)
    if d.get("swap"):
        k = d["rows"] % max(1, len(labs) - 1)
        labs[k:k + 2] = labs[k:k + 2][::-1]
    elif "within" in d:
        groups = {}
        for x in labs:
            groups.setdefault(tuple(x[j] for j in d["within"]), []).append(x)
        order = [tuple(x[j] for j in d["within"]) for x in labs]
        for key, g in groups.items():
            stream("params", d["rows"], *key).shuffle(g)
        labs = [groups[key].pop() for key in order]
    elif "rows" in d:
        stream("params", d["rows"]).shuffle(labs)
    names = {"none": None, "other": ["a", "b", "c", "d"]}.get(
        d.get("names"), ["category", "period", "name1", "name2"])
    idx = pd.MultiIndex.from_tuples(labs, names=names)
    df = pd.DataFrame({"value": [P[x] for x in labs]}, index=idx)
    if d.get("extra_cols"):
        df.insert(0, "lower_bound", -np.inf)
        df["note"] = "x"
    return df


# ---------------------------------------------------------------- whole scenario
class Scenario:
    """spec + params + clean panel + faults, resolved."""

    def __init__(self, plan, stats=None):
        self.plan = plan
        self.model = ref.Model(plan["spec"])
        self.N = plan["N"]
        self.P = make_params(self.model, plan["pseed"], plan.get("overrides"))
        self.clean = make_cells(self.model, self.P, self.N, plan["dseed"])
        self.cells, self.present = apply_faults(
            self.model, self.clean, self.N, plan.get("faults", []), stats
        )
        self.feed = ref.Feed(self.model, self.cells, self.present)

    def frame(self, delivery=None):
        d = self.plan.get("delivery") if delivery is None else delivery
        return deliver(self.model, self.cells, self.present, d)

    def params(self, delivery=None):
        d = self.plan.get("param_delivery") if delivery is None else delivery
        return params_frame(self.P, d)

    def fine(self):
        """None if the scenario is usable, else the reason."""
        if self.feed.refusals:
            return "refusal"
        return None


RARE = {
    # two-digit periods, mixture components and updates per period
    "long": {"max_latent": 1, "min_latent": 1, "min_periods": 11, "max_periods": 12,
             "max_meas": 1, "max_mixtures": 1, "min_mixtures": 1},
    "mixtures": {"max_latent": 1, "min_latent": 1, "min_periods": 2, "max_periods": 2,
                 "max_meas": 1, "min_mixtures": 11, "max_mixtures": 11},
    "wide": {"max_latent": 1, "min_latent": 1, "min_periods": 2, "max_periods": 2,
             "max_meas": 12, "max_mixtures": 1, "min_mixtures": 1},
    "crowd": {"max_latent": 2, "min_latent": 1, "min_periods": 2, "max_periods": 2,
              "max_meas": 2, "max_mixtures": 1, "min_mixtures": 1},
}


def gen_scenario(rng, cfg=None, n_range=(6, 18), fault_rate=1.0, faithful=0.25, rare=()):
    """rare: kinds of unusually large models that may occur."""
    cfg = dict(cfg or {})
    kind = None
    if rare and rng.random() < 0.09:
        kind = rng.choice(list(rare))
        cfg.update(RARE[kind])
    spec = sp.gen_spec(rng, **cfg)
    model = ref.Model(spec)
    N = rng.randint(*n_range)
    if kind == "crowd":
        N = rng.choice([130, 300, 1100])
    plan = {
        "spec": spec,
        "N": N,
        "pseed": rng.randrange(10**9),
        "dseed": rng.randrange(10**9),
        "faults": gen_faults(rng, model, N, fault_rate),
        "delivery": gen_delivery(rng, faithful),
        "param_delivery": gen_param_delivery(rng),
    }
    return plan
