"""C07: several threads under a deterministic preemptive scheduler."""
import warnings

import numpy as np

from vsim import sched

sched.install_locks()

from vsim import calls, world  # noqa: E402
from vsim.core import Skip, Violation, require  # noqa: E402
from vsim.target import api, diff_state, global_state, preload, shared_watch  # noqa: E402

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 10000}
STUBS = ("the thread scheduler (real threads, switched only by the simulator) and the "
         "locks that package modules create")
RULE = ("One evaluation is one seeded run: 2-4 threads with 1-3 public calls each on "
        "shared, equal or different models under one seeded schedule; every result is "
        "compared with that of the same call made alone. Non-trivial: at least one "
        "preemption inside package code, and a schedule and results that differ from "
        "those of every other run.")
MENU = (["build"] * 4 + ["corr_scores", "corr_quasi", "corr_measurements",
        "simulate_exact", "simulate_exact", "simulate_exact", "extract_factor",
        "remove_controls", "remove_measurement", "reduce_periods", "switch_to_translog",
        "switch_to_linear", "update_params", "heatmap"]
        + ["filtered"] * 4 + ["debug"] * 2 + ["loglike"] * 5)
RARE = ["gradient", "loglike_and_gradient", "jacobian", "transition_plots", "densities"]


def plan(rng, tier):
    kind = rng.choice(["rate", "rate", "place", "write"])
    n_models = rng.choice([1, 2, 2]) if kind != "write" else 2
    models = [calls.gen_small(rng, max_latent=2, max_periods=rng.choice([2, 3]))
              for _ in range(n_models)]
    if n_models == 2 and rng.random() < (0.65 if kind == "write" else 0.5):
        # the same sizes and labels, other numbers
        models[1] = {**models[0], **{k: models[1][k] for k in
                     rng.choice([["pseed"], ["pseed"], ["dseed"], ["pseed", "dseed"]])}}
    p = {"models": models, "share_mi": rng.random() < 0.35, "threads": []}
    focus = rng.choice(MENU) if rng.random() < (0.8 if kind == "write" else 0.4) else None
    for n in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) + (kind == "write")):
            name = focus or rng.choice(MENU)
            if rng.random() < 0.06:
                name = rng.choice(RARE)
            on = n % 2 if kind == "write" else rng.randrange(n_models)
            ops.append([on, name])
        # own: private equal objects; otherwise the very same objects
        p["threads"].append({"ops": ops, "own": rng.random() < 0.3})
    p["rule"] = {"kind": kind, "seed": rng.randrange(10**9), "first": rng.randrange(4)}
    if kind == "rate":
        p["rule"]["p"] = rng.choice([0.2, 0.05, 0.02, 0.005, 0.001])
    elif kind == "write":
        p["rule"]["p"] = rng.choice([0.005, 0.002, 0.0005])
        p["rule"]["q"] = rng.choice([1.0, 0.5])
    else:
        p["rule"]["p"] = rng.choice([1.0, 0.5])
        p["rule"]["q"] = rng.choice([0.02, 0.05, 0.15])
    return p


def simulate(plan, log):
    """-> (scheduler, problem or None)"""
    api()
    preload()
    scs = [world.Scenario(m, log.stats) for m in plan["models"]]
    for sc in scs:
        if sc.fine():
            raise Skip(sc.fine())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = {}
        alone = [calls.Ctx(sc) for sc in scs]
        needed = sorted({tuple(op) for t in plan["threads"] for op in t["ops"]})
        for k, name in needed:
            want[k, name] = attempt(name, alone[k])
        shared = [calls.Ctx(sc) for sc in scs]
        if plan["share_mi"]:
            for x in shared:
                x.build()
        before_fp = [x.fingerprints() for x in shared]
        results = {}

        def body(n, spec):
            ctx = [calls.Ctx(sc) if spec["own"] else calls.Ctx(sc, share=x)
                   for sc, x in zip(scs, shared)]

            def run(t):
                for j, (k, name) in enumerate(spec["ops"]):
                    t.op, t.count = j, 0
                    results[n, j] = attempt(name, ctx[k])

            return run

        bodies = [body(n, t) for n, t in enumerate(plan["threads"])]
        before = global_state(False)
        watch = shared_watch() if plan["rule"]["kind"] == "write" else None
        s = sched.Scheduler(bodies, sched.Rule(plan["rule"]),
                            atomic_jax=plan["share_mi"], watch=watch).run()
        after = global_state(False)
        problem = None
        for t in s.threads:
            if t.error is not None:
                raise t.error
        if s.deadlock is not None:
            problem = ("C07/blocked-forever",
                       f"threads {s.deadlock} wait for ever; others have ended")
        for (n, j), got in sorted(results.items()):
            k, name = plan["threads"][n]["ops"][j]
            d = calls.differ(got, want[k, name])
            if d and problem is None:
                problem = (f"C07/{name}", f"thread {n}, operation {j}, {name} on model "
                           f"{k}: {d} (compared with the call made alone)")
            log.ev("result", n, j, calls.bits(got))
        if problem is None and diff_state(before, after):
            problem = ("C07/global-state", "after all threads have ended, process-wide "
                       f"state differs: {diff_state(before, after)}")
        if problem is None:
            for x, a in zip(shared, before_fp):
                if x.fingerprints() != a:
                    problem = ("C07/mutated", "shared model, data or parameters changed")
    return s, problem


def attempt(name, x):
    try:
        return calls.run(name, x)
    except Exception as e:  # noqa: BLE001
        return [("raised", f"{type(e).__name__}: {str(e)[:200]}")]


def execute(plan, log):
    s, problem = simulate(plan, log)
    log.count("preemptions", len(s.switches))
    log.count("scheduling_points", s.steps)
    log.count("threads", len(s.threads))
    log.count("writes_to_shared_state", s.writes)
    if s.free:
        log.count("stalled_outside_control")
    for pl in s.places:
        log.mark(("preempted at", *pl))
    log.ev("schedule", s.switches)
    require(np.isfinite(s.steps), "C07/steps", "")
    if problem:
        raise Violation(problem[0], problem[1] + f"; {len(s.switches)} preemptions, the "
                        f"first: {s.switches[:6]}", switches=s.switches[:3000])
    if not s.switches:
        log.count("no_preemption")
    log.count("waves", sum(m["N"] for m in plan["models"]))


def shrinks(plan):
    """First the schedule (explicit preemptions, as few as possible), then the rest."""
    from vsim import core, shrink

    if plan["rule"]["kind"] != "given":
        try:
            s, _ = simulate(plan, core.Log())
        except Exception:  # noqa: BLE001
            return
        yield {**plan, "rule": {**plan["rule"], "kind": "given", "switches": s.switches}}
    else:
        sw = plan["rule"]["switches"]
        size = len(sw)
        while size >= 1:
            for a in range(0, len(sw), size):
                yield {**plan, "rule": {**plan["rule"],
                                        "switches": sw[:a] + sw[a + size:]}}
            size //= 2
    for i, t in enumerate(plan["threads"]):
        if len(plan["threads"]) > 2:
            yield without(plan, i)
        if len(t["ops"]) > 1:
            new = {**t, "ops": t["ops"][:-1]}
            yield {**plan, "threads": plan["threads"][:i] + [new]
                   + plan["threads"][i + 1:]}
    for i, m in enumerate(plan["models"]):
        for cand in shrink.scenario_shrinks(m):
            yield {**plan, "models": plan["models"][:i] + [cand] + plan["models"][i + 1:]}


def without(plan, i):
    """The plan without thread i; explicit preemptions are renumbered."""
    out = {**plan, "threads": plan["threads"][:i] + plan["threads"][i + 1:]}
    rule = dict(plan["rule"])
    if rule["kind"] == "given":
        def new(k):
            return k - (k > i)

        rule["switches"] = [[new(a), b, c, new(d) if d != i else 0]
                            for a, b, c, d in rule["switches"] if a != i]
        out["rule"] = rule
    return out
