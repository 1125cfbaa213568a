"""Candidates for smaller scenarios, most drastic first."""
import copy

from vsim import spec as sp


def drop_chunks(lst):
    """ddmin-style: every list with a chunk removed, large chunks first."""
    n = len(lst)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield lst[:a] + lst[a + size :]
        size //= 2


def lists(plan, key):
    if plan.get(key):
        for shorter in drop_chunks(plan[key]):
            yield {**plan, key: shorter}


def delivery(plan, key="delivery"):
    d = plan.get(key) or {}
    if d:
        yield {**plan, key: {}}
        for k in d:
            yield {**plan, key: {a: b for a, b in d.items() if a != k}}


def sizes(plan, key="N", low=4):
    n = plan.get(key, 0)
    for m in (low, (low + n) // 2, n - 1):
        if low <= m < n:
            yield {**plan, key: m}


def specs(plan, key="spec"):
    s = plan[key]

    def out(**kw):
        t = {**copy.deepcopy(s), **kw}
        return {**plan, key: t}

    if s["options"]:
        yield out(options={})
        for k in s["options"]:
            yield out(options={a: b for a, b in s["options"].items() if a != k})
    if s["anchoring"]:
        yield out(anchoring=None)
        if len(s["anchoring"]["outcomes"]) > 1:
            for x in s["anchoring"]["outcomes"]:
                yield out(
                    anchoring={
                        **s["anchoring"],
                        "outcomes": [y for y in s["anchoring"]["outcomes"] if y != x],
                    }
                )
    if s["controls"]:
        yield out(controls=s["controls"][:-1])
    uses_obs = {f["trans"][3] for f in s["factors"] if isinstance(f["trans"], list)}
    if s["observed"] and s["observed"][-1] not in uses_obs:
        yield out(observed=s["observed"][:-1])
    if s["stagemap"] is not None:
        yield out(stagemap=None)
    if any(f["norm"] for f in s["factors"]):
        yield out(factors=[{**f, "norm": None} for f in copy.deepcopy(s["factors"])])
    for i, f in enumerate(s["factors"]):
        if f["trans"] != "linear":
            fs = copy.deepcopy(s["factors"])
            fs[i]["trans"] = "linear"
            yield out(factors=fs)
    T = sp.n_periods(s)
    if T > 2:
        fs = copy.deepcopy(s["factors"])
        for f in fs:
            f["meas"] = f["meas"][: T - 1]
            f["norm"] = None
        sm = s["stagemap"][: T - 2] if s["stagemap"] is not None else None
        if any(f["meas"][t] for f in fs for t in range(len(f["meas"]))):
            yield out(factors=fs, stagemap=sm)
    if len(s["factors"]) > 1:
        for i, f in enumerate(s["factors"]):
            if f["name"] in uses_obs:
                continue
            fs = [copy.deepcopy(g) for g in s["factors"] if g is not f]
            an = s["anchoring"]
            if an:
                o = [x for x in an["outcomes"] if x[0] != f["name"]]
                an = {**an, "outcomes": o} if o else None
            if all(
                any(sp.meas_of(g, t) for g in fs)
                for t in range(max(len(g["meas"]) for g in fs))
            ):
                q = out(factors=fs, anchoring=an)
                if q[key]["stagemap"] is not None:
                    q[key]["stagemap"] = None
                yield q
    for i, f in enumerate(s["factors"]):
        for t, ms in enumerate(f["meas"]):
            if len(ms) > 1:
                fs = copy.deepcopy(s["factors"])
                fs[i]["meas"][t] = ms[:1]
                fs[i]["norm"] = None
                yield out(factors=fs)


def scenario_shrinks(plan, extra_lists=("faults", "ops", "points")):
    for key in extra_lists:
        for cand in lists(plan, key):
            if key in ("points", "ops") and not cand[key]:
                continue
            yield cand
    for key in ("delivery", "param_delivery"):
        yield from delivery(plan, key)
    if "N" in plan:
        for cand in sizes(plan):
            cand = {
                **cand,
                "faults": [
                    f
                    for f in cand.get("faults", [])
                    if f[0] == "drop_var" or f[1] < cand["N"]
                ],
            }
            yield cand
    if "spec" in plan:
        for cand in specs(plan):
            try:
                yield fix_refs(cand)
            except Exception:  # noqa: BLE001
                continue


def fix_refs(plan):
    """Drop faults that refer to variables or periods that no longer exist."""
    from vsim import ref

    m = ref.Model(plan["spec"])
    cols = {u[2] for u in m.updates} | set(m.controls) | set(m.observed)
    ok = []
    for f in plan.get("faults", []):
        t = f[1] if f[0] == "drop_var" else f[2]
        col = f[2] if f[0] == "drop_var" else (f[3] if len(f) > 3 else None)
        if t < m.T and (col is None or col in cols):
            ok.append(f)
    return {**plan, "faults": ok}
