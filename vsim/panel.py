"""Reading simulated panels, and exact tests for draws."""
import numpy as np
from scipy import stats

from vsim.core import Violation, require, require_close


def states_array(table, m, n, cls, what):
    """(n, T, S) array of a table of states; every individual and period exactly once."""
    for col in ("id", "period", *m.latent):
        require(col in table.columns, f"{cls}/columns", f"{what}: no column {col}")
    ids, pers = table["id"].to_numpy(), table["period"].to_numpy()
    want = {(i, t) for i in range(n) for t in range(m.T)}
    got = list(zip(ids.tolist(), pers.tolist()))
    require(len(got) == len(want) and set(got) == want, f"{cls}/rows",
            f"{what}: {len(got)} rows, {len(set(got) ^ want)} labels differ from "
            f"{n} individuals x {m.T} periods")
    out = np.full((n, m.T, m.S), np.nan)
    out[ids.astype(int), pers.astype(int)] = table[m.latent].to_numpy(dtype=float)
    return out


def measurement_array(table, m, n, cls):
    """(U, n) array in the order of the model's updates, and nothing else."""
    want_cols = {u[1] for u in m.updates} | {"id", "period"}
    missing = want_cols - set(table.columns)
    require(not missing, f"{cls}/columns", f"measurements have no column {missing}")
    ids, pers = table["id"].to_numpy().astype(int), table["period"].to_numpy().astype(int)
    want = {(i, t) for i in range(n) for t in range(m.T)}
    got = list(zip(ids.tolist(), pers.tolist()))
    require(len(got) == len(want) and set(got) == want, f"{cls}/rows",
            f"measurements: {len(got)} rows instead of {n} x {m.T}")
    out = np.full((len(m.updates), n), np.nan)
    for k, (t, name, *_) in enumerate(m.updates):
        sel = pers == t
        out[k, ids[sel]] = table[name].to_numpy(dtype=float)[sel]
    by_name = {}
    for t, name, *_ in m.updates:
        by_name.setdefault(name, set()).add(t)
    for name, periods in by_name.items():
        sel = ~np.isin(pers, sorted(periods))
        extra = table[name].to_numpy(dtype=float)[sel]
        require(np.isnan(extra).all(), f"{cls}/extra-values",
                f"{name} has values in periods in which it is not measured")
    return out


def transition_of(m, P, t, states, observed):
    scale, const = m.anchoring_arrays(P)
    return m.next_states(P, t, np.concatenate([states, observed], axis=1), scale, const)


def anchored(m, P, arr):
    scale, const = m.anchoring_arrays(P)
    return arr * scale[None, :, : m.S] + const[None, :, : m.S]


def check_ranges(ranges, arr_by_period, factors, cls, what):
    """arr_by_period: {period: (n, S) array}."""
    require(set(ranges) == set(factors), f"{cls}/range-factors",
            f"{what}: ranges of {sorted(ranges)}")
    for j, f in enumerate(factors):
        df = ranges[f]
        require(sorted(df.index.tolist()) == sorted(arr_by_period), f"{cls}/range-periods",
                f"{what} range of {f}: periods {df.index.tolist()}")
        for t, arr in arr_by_period.items():
            require_close(f"{cls}/range", f"{what} range of {f} in period {t}",
                          [df.loc[t, "minimum"], df.loc[t, "maximum"]],
                          [arr[:, j].min(), arr[:, j].max()], 1e-9, 1e-9)


# ---------------------------------------------------------------- tests for draws
ALPHA = 1e-10


def check_normal(z, cls, what):
    """z should be iid standard normal draws across individuals."""
    z = np.asarray(z, dtype=float)
    n = len(z)
    zm = z.mean() * np.sqrt(n)
    if abs(zm) > 6.5:
        raise Violation(f"{cls}-mean", f"{what}: mean {z.mean():.4f} of {n} draws is "
                                       f"{zm:.1f} standard errors from 0")
    ss = (z**2).sum()
    p = 2 * min(stats.chi2.cdf(ss, n), stats.chi2.sf(ss, n))
    if p < ALPHA:
        raise Violation(f"{cls}-sd", f"{what}: sd of {n} standardized draws is "
                                     f"{np.sqrt(ss / n):.4f} (p={p:.1e})")
    check_uniform(stats.norm.cdf(z), f"{cls}-distribution", what)
    distinct = len(np.unique(np.round(np.abs(z), 9)))  # also up to the sign
    if distinct < n - max(n // 10, 3):
        raise Violation(f"{cls}-ties", f"{what}: only {distinct} distinct draws (up to "
                                       f"the sign) for {n} individuals")
    check_order(z, cls, what)


def check_order(z, cls, what):
    """Draws of different individuals must not depend on the order of individuals."""
    z = np.asarray(z, dtype=float)
    n = len(z)
    if n < 100 or z.std() == 0:
        return
    for name, a, b in [("neighbouring individuals", z[1:], z[:-1]),
                       ("every second individual", z[2:], z[:-2]),
                       ("individuals and their position", z, np.arange(n))]:
        r = np.clip(np.corrcoef(a, b)[0, 1], -0.999999999, 0.999999999)
        if abs(np.arctanh(r)) * np.sqrt(n - 5) > 6.5:
            raise Violation(f"{cls}-serial", f"{what}: correlation {r:.3f} between {name}")


def check_distinct(vectors, cls, what):
    """Draws from a continuous distribution: no two individuals may share one."""
    keys = np.asarray(vectors, dtype=float)
    _, first, count = np.unique(keys, axis=0, return_index=True, return_counts=True)
    if (count > 1).any():
        i = first[count > 1][0]
        raise Violation(f"{cls}-ties", f"{what}: {count.max()} of {len(keys)} individuals "
                                       f"share the draw {vectors[i]}")


def check_uniform(u, cls, what):
    p = stats.kstest(u, "uniform").pvalue
    if p < ALPHA:
        raise Violation(cls, f"{what}: distribution differs (KS p={p:.1e}, n={len(u)})")


def check_uncorrelated(cols, names, cls, what):
    """cols: list of standardized draws; all pairs must be uncorrelated (also squared)."""
    if len(cols) < 2 or len(cols[0]) < 100:
        return
    X = np.stack(cols)
    n = X.shape[1]
    for power in (1, 2):
        c = np.corrcoef(X**power) if power == 1 else np.corrcoef(np.clip(X, -4, 4) ** 2)
        np.fill_diagonal(c, 0)
        c = np.clip(np.nan_to_num(c), -0.999999999, 0.999999999)
        limit = 6.5 if power == 1 else 9.0
        z = np.abs(np.arctanh(c)) * np.sqrt(n - 3)
        i, j = np.unravel_index(int(np.argmax(z)), z.shape)
        if z[i, j] > limit:
            raise Violation(cls, f"{what}: {names[i]} and {names[j]} have correlation "
                                 f"{c[i, j]:.3f}{' of squares' if power == 2 else ''}")


def mixture_cdf(x, w, mu, sd):
    return sum(a * stats.norm.cdf((x - b) / c) for a, b, c in zip(w, mu, sd))
