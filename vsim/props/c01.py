"""C01: the likelihood is the filter's answer for whatever data arrived."""
from vsim import ref, world
from vsim.core import Skip, Violation, require, require_close
from vsim.target import api, model_dict, quiet

LEVEL = "exploration"
TITLE = "likelihood against a full-covariance reference filter under a lossy survey feed"
RUNS = {"quick": 320, "thorough": 6000}


def plan(rng, tier):
    cfg = {}
    if tier == "thorough" or rng.random() < 0.2:
        cfg = {"max_latent": 4, "max_periods": 8 if tier == "thorough" else 6}
    p = world.gen_scenario(rng, cfg, n_range=(6, 14), faithful=0.5,
                           rare=world.RARE)
    # how many parameter points are evaluated with one set of functions
    p["points"] = [p["pseed"]] + [rng.randrange(10**9) for _ in range(rng.choice([0, 1]))]
    p["names"] = world.gen_level_names(rng)
    return p


def get_debug(P, mi, frame):
    return mi["debug_loglike"](frame)


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    m = sc.model
    points = []
    for ps in plan["points"]:
        P = world.make_params(m, ps, plan.get("overrides"))
        try:
            points.append((P, ref.run_filter(m, P, sc.feed)))
        except ref.Ill as e:
            log.count(f"ill_{e}")
    if not points:
        raise Skip("ill-conditioned")
    df, ids, pers = sc.frame()
    a = api()
    with quiet():
        mi = a.get_maximization_inputs(model_dict(plan["spec"]), df)
        for n, (P, want) in enumerate(points):
            frame = world.params_frame(P, {**(plan.get("param_delivery") or {}),
                                           "names": plan.get("names")})
            dbg = mi["debug_loglike"](frame)
            fast = mi["loglike"](frame)
            compare(m, sc, want, dbg, fast, log)
            log.ev("point", n, fast["value"], fast["contributions"])
    log.count("waves", m.T * sc.N)
    log.count("updates", len(m.updates))
    log.count("updates_missing", int((~sc.feed.arrived).sum()))
    log.count("rows_discarded_for_controls", len(sc.feed.discarded))
    mark_states(m, sc, log)


def mark_states(m, sc, log):
    kinds = {f["trans"] if isinstance(f["trans"], str) else "c" for f in m.spec["factors"]}
    log.mark(("model", m.S, len(m.observed), len(m.controls), m.T, m.M,
              bool(m.anchored), tuple(sorted(kinds))))
    for i in range(min(sc.N, 6)):
        log.mark(("loss", "".join("x" if a else "." for a in sc.feed.arrived[:, i])))


def compare(m, sc, want, dbg, fast, log, cls="C01"):
    U, N, M, S = want["post"].shape
    require_close(f"{cls}/value", "loglike value", fast["value"], want["value"])
    require_close(f"{cls}/contributions", "loglike contributions",
                  fast["contributions"], want["contributions"])
    require_close(f"{cls}/debug-value", "debug value", dbg["value"], want["value"])
    require_close(f"{cls}/debug-contributions", "debug contributions",
                  dbg["contributions"], want["contributions"])
    c = dbg["all_contributions"]
    check_updates(cls, m, c, N, 1)
    require_close(f"{cls}/contribution", "contribution per update (update x individual)",
                  c["contribution"].to_numpy().reshape(U, N), want["ll"])
    for key, col, ref_key in [("residuals", "residual", "resid"),
                              ("residual_sds", "residual", "sd")]:
        t = dbg[key]
        check_updates(cls, m, t, N, M)
        require_close(f"{cls}/{key}", f"{key} (update x individual x mixture)",
                      t[col].to_numpy().reshape(U, N, M), want[ref_key])
    post = dbg["post_update_states"]
    check_updates(cls, m, post, N, M)
    require_close(f"{cls}/post_update_states",
                  "post_update_states (update x individual x mixture x factor)",
                  post[m.latent].to_numpy().reshape(U, N, M, S), want["post"])


def check_updates(cls, m, table, N, M):
    """One block of rows per update, in update order, with the right labels."""
    want = [(t, name) for t, name, *_ in m.updates for _ in range(N * M)]
    got = list(zip(table["period"].tolist(), table["measurement"].tolist()))
    require(got == want, f"{cls}/update-labels",
            f"update labels: first difference {next(((g, w) for g, w in zip(got, want) if g != w), (len(got), len(want)))}")
