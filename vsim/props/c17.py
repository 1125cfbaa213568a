"""C17: the same calls in simulated processes with different environments."""
import os

from vsim import calls, probe, world
from vsim.core import Skip, Violation
from vsim.rng import stream
from vsim.target import quiet

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 6000}
STUBS = "the process environment (every process is started by the simulator)"
RULE = ("One evaluation is one seeded run: a list of public calls is answered by a "
        "reference process and by 2-3 processes with other environments, call orders and "
        "histories; all values are compared. Non-trivial: in scope, and the digests of "
        "results and environments differ from every other run.")
FLAGS = ("--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen={} "
         "intra_op_parallelism_threads={}")
HEAVY = ["gradient", "jacobian", "loglike_and_gradient"]


def gen_env(rng):
    env, setup = {"PYTHONHASHSEED": str(rng.randrange(1, 2**31))}, []
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 4, 8])
        env["XLA_FLAGS"] = FLAGS.format("true" if n > 1 else "false", n)
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = str(n)
    if rng.random() < 0.3:
        env["LC_ALL"] = rng.choice(["C", "C.UTF-8", "POSIX"])
        env["PYTHONUTF8"] = rng.choice(["0", "1"])
    if rng.random() < 0.3:
        env["TZ"] = rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])
    if rng.random() < 0.2:
        env["COLUMNS"] = str(rng.choice([20, 300]))
    steps = []
    if rng.random() < 0.45:
        steps.append(["cow", True])
    if rng.random() < 0.4:
        steps.append(["chdir"])
    if rng.random() < 0.3:
        steps.append(["clock", rng.choice([-3600.0, 86400.0, 0.0])])
    if rng.random() < 0.3:
        steps.append(["gc", int(rng.random() < 0.5)])
    if rng.random() < 0.3:
        steps.append(["options", rng.choice([2, 5, 1000])])
    if rng.random() < 0.4:
        steps.append(["random", rng.randrange(10**6)])
    if rng.random() < 0.2:
        steps.append(["jax_first"])
    rng.shuffle(steps)
    setup = steps
    if rng.random() < 0.6:
        setup.insert(rng.randint(0, len(steps)), ["import", rng.randrange(10**6)])
    return env, setup


def plan(rng, tier):
    p = calls.gen_small(rng, max_latent=rng.choice([2, 3, 4]), max_meas=3,
                        observed=True if rng.random() < 0.6 else None,
                        controls=True if rng.random() < 0.6 else None)
    light = [n for n in calls.EVERYTHING if n not in HEAVY]
    p["calls"] = rng.sample(calls.CHEAP, rng.randint(4, 7))
    slow = [n for n in light if n not in calls.CHEAP]
    p["calls"] += rng.sample(slow, rng.choice([0, 1, 1, 2]))
    if rng.random() < 0.15:
        p["calls"].append(rng.choice(HEAVY))
    p["other"] = calls.gen_small(rng) if rng.random() < 0.5 else None
    p["envs"] = []
    for _ in range(rng.choice([1, 2, 2])):
        env, setup = gen_env(rng)
        history = []
        if p["other"] and rng.random() < 0.6:
            history = rng.sample(calls.CHEAP + ["loglike"],
                                 rng.randint(1, 3))
        p["envs"].append({"env": env, "setup": setup, "history": history,
                          "order": rng.randrange(10**6) if rng.random() < 0.6 else None})
    return p


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    plans = [{k: v for k, v in plan.items() if k not in ("envs", "calls", "other")}]
    if plan["other"]:
        plans.append(plan["other"])
    names = plan["calls"]
    want = {}
    here = calls.Ctx(sc)
    for n in names:  # the reference process is this one, with its own history
        with quiet():
            try:
                want[n] = calls.run(n, here)
            except Exception as e:  # noqa: BLE001
                want[n] = [("raised", type(e).__name__)]
        log.ev("reference", n, calls.bits(want[n]))
        if want[n][0][0] == "raised":
            log.count("raised_" + want[n][0][1])
    for e in plan["envs"]:
        order = list(names)
        if e["order"] is not None:
            stream("order", e["order"]).shuffle(order)
        hist = e["history"]
        ops = [["call", 1, n] for n in hist if len(plans) > 1]
        k = len(ops)
        got = probe.child(plans, ops + [["call", 0, n] for n in order], e["setup"],
                          e["env"])[k:]
        log.count("processes")
        for key in e["env"]:
            log.count(f"env_{key}")
        for s in e["setup"]:
            log.count(f"setup_{s[0]}")
        for n, res in zip(order, got):
            # scalars from a large sum differ in the last bits across thread counts
            d = calls.differ(res, want[n], 1e-8, 1e-8)
            if d:
                raise Violation(f"C17/{n}", f"{n} in a process with {e}: {d}")
            log.ev("child", n, [k for k, _ in res][:3])
            log.mark((n, *sorted(s[0] for s in e["setup"])))
    log.count("waves", sc.model.T * sc.N)
    log.mark(("cwd", os.path.basename(os.getcwd()) != ""))


def shrinks(plan):
    from vsim import shrink

    for key in ("envs", "calls"):
        for cand in shrink.lists(plan, key):
            if cand[key]:
                yield cand
    for i, e in enumerate(plan["envs"]):
        def put(new):
            return {**plan, "envs": plan["envs"][:i] + [new] + plan["envs"][i + 1:]}
        for key in ("setup", "history"):
            for cand in shrink.lists(e, key):
                yield put(cand)
        if e["order"] is not None:
            yield put({**e, "order": None})
        for k in list(e["env"]):
            yield put({**e, "env": {a: b for a, b in e["env"].items() if a != k}})
    if plan["other"] and not any(e["history"] for e in plan["envs"]):
        yield {**plan, "other": None}
    yield from shrink.scenario_shrinks(plan)
