"""C09: random functions under seeded histories and process restarts."""
import random

import numpy as np

from vsim import calls, interrupt, probe, world
from vsim.core import Skip, Violation, require
from vsim.target import api, quiet, rng_state

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 8000}
STUBS = "numpy's global generator is seeded and advanced by the simulator"
RULE = ("One evaluation is one seeded run: a sequence of random calls after a seed is "
        "answered, then repeated after a history of other calls (finished or cut short), "
        "other seeds and, in part of the runs, in another process; bits are compared. "
        "Non-trivial: in scope, and its event log differs from that of every other run.")
QUIET = [n for n in calls.EVERYTHING
         if n not in calls.RANDOM and n != "simulate_exact"
         and n not in ("gradient", "jacobian", "loglike_and_gradient")]


def simulate(x, k):
    """A random simulation; k selects the policies. Draws from the current state."""
    pol = None
    if k:
        pol = [{"period": 0, "factor": x.m.latent[j % len(x.m.latent)],
                "effect_size": 0.3 * (j + 1), "standard_deviation": 0.5 * (j + 1)}
               for j in range(k)]
    out = api().simulate_dataset(x.md, x.params, data=x.df, policies=pol)
    return calls.states(out, "simulated") + calls.table(out["measurements"], "meas")


def average(x, k):
    q = x.m.measured_periods[0]
    figs = api().vt.get_transition_plots(x.md, x.params, x.df, q, n_points=3,
                                         n_draws=2 + k, quantiles_of_other_factors=None)
    out = []
    for key, f in figs.items():
        out += calls.figure(f, str(key))
    return out


def plan(rng, tier):
    average_too = rng.random() < 0.3
    p = calls.gen_small(rng, **({"min_latent": 2} if average_too else {}))
    if average_too:
        p["spec"]["factors"][0]["trans"] = "linear"
    p["seq"] = [["simulate", rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(1, 3))]
    if average_too:
        p["seq"].insert(rng.randint(0, len(p["seq"])), ["average", rng.randint(0, 2)])
    p["seed"] = rng.randrange(2**31)
    p["other_seed"] = rng.randrange(2**31)
    p["burn"] = rng.choice([0, 1, 7, 640])
    slow = calls.LIKELIHOOD + calls.PLOTS
    cheap = [n for n in QUIET if n not in slow]
    p["ops"] = [["call", rng.choice(cheap)] for _ in range(rng.randint(3, 8))]
    if rng.random() < 0.4:
        p["ops"].append(["call", rng.choice([n for n in QUIET if n in slow])])
    for _ in range(rng.randint(0, 2)):
        p["ops"].append(["cut", rng.choice(cheap + ["simulate"] * 4), rng.random(),
                         rng.choice(list(interrupt.KINDS))])
    if rng.random() < 0.3:
        p["ops"].append(["python_random", rng.randrange(100)])
    rng.shuffle(p["ops"])
    p["isolate"] = rng.sample(["mixture", "initial", "shocks", "errors", "policy"],
                              rng.randint(0, 2))
    if "mixture" in p["isolate"] and p["spec"]["options"].get("n_mixtures", 1) == 1:
        p["spec"]["options"]["n_mixtures"] = 2
    p["child"] = None
    if rng.random() < 0.25:
        p["child"] = {"PYTHONHASHSEED": str(rng.randrange(1, 10**9))}
    return p


def only(source, m, P):
    """Parameters under which one source of noise is the only one."""
    P = dict(P)
    first = {lab[3]: v for lab, v in P.items() if lab[:3:2] == ("initial_states",
                                                                "mixture_0")}
    for lab in P:
        cat = lab[0]
        if cat == "mixture_weights" and source == "mixture":
            P[lab] = 1 / m.M
        elif cat == "initial_states":
            P[lab] = (3.0 * int(lab[2].split("_")[1]) if source == "mixture"
                      else first[lab[3]])
        elif (cat, source) in {("initial_cholcovs", "initial"), ("shock_sds", "shocks"),
                               ("meas_sds", "errors")}:
            continue
        elif cat in ("initial_cholcovs", "shock_sds", "meas_sds"):
            P[lab] = 0.0
    return P


def isolated(plan, sc, x, source, log):
    """One source of noise alone: repeatable, and different under different seeds."""
    m = sc.model
    P = only(source, m, sc.P)
    if source == "mixture" and m.M == 1:
        return
    if source == "shocks" and not any(v > 0 for k, v in P.items() if k[0] == "shock_sds"):
        return
    frame = world.params_frame(P, plan.get("param_delivery"))
    pol = None
    if source == "policy":
        pol = [{"period": 0, "factor": m.latent[0], "effect_size": 0.5,
                "standard_deviation": 0.5}]
    seeds = [plan["seed"]] * 2 + [(plan["other_seed"] + 7919 * k) % 2**32
                                  for k in range(9)]
    outs = []
    for k, seed in enumerate(seeds):
        np.random.seed(seed)
        out = api().simulate_dataset(x.md, frame, data=x.df, policies=pol)
        outs.append(calls.states(out, "simulated")
                    + calls.table(out["measurements"], "meas"))
        if k == 1:
            d = calls.differ(outs[1], outs[0], 0, 0)
            require(not d, "C09/not-a-function-of-the-seed",
                    f"{source} alone with seed {seed} twice: {d}")
        if k >= 2 and calls.bits(outs[-1]) != calls.bits(outs[0]):
            log.count(f"isolated_{source}")
            return
    raise Violation("C09/noise-not-random",
                    f"the only noise is that of {source}, and {len(seeds) - 1} different "
                    "seeds give the same panel")


def trans_of(m, fac):
    return next(f["trans"] for f in m.spec["factors"] if f["name"] == fac)


def varied(plan, x, want, log):
    """Averages over random individuals differ under different seeds."""
    m = x.m
    P = x.sc.P
    mixed = any(k[0] == "transition" and k[1] == m.measured_periods[0] and v != 0
                and isinstance(trans_of(m, k[2]), str) and trans_of(m, k[2]) == "linear"
                and k[3] not in (k[2], "constant") for k, v in P.items())
    if m.S < 2 or not mixed or x.sc.N < 7:
        return  # the curves may not depend on who is drawn
    for k in range(9):
        np.random.seed((plan["other_seed"] + 104729 * k) % 2**32)
        if calls.bits(average(x, 1)) != calls.bits(want):
            log.count("varied_averages")
            return
    raise Violation("C09/noise-not-random", "averages over 3 random individuals are the "
                    "same under 10 different seeds")


def noisy_columns(out):
    return {k: v for k, v in out if isinstance(v, np.ndarray) and v.dtype.kind == "f"
            and not k.endswith((".id", ".period"))}


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    x = calls.Ctx(sc)
    funcs = {"simulate": simulate, "average": average}

    def sequence(seed, burn=0):
        np.random.seed(seed)
        if burn:
            np.random.normal(size=burn)
        out = []
        for name, k in plan["seq"]:
            out.append(funcs[name](x, k))
            out.append([("state", rng_state())])
        return out

    def same(got, what):
        for j, (g, w) in enumerate(zip(got, want)):
            d = calls.differ(g, w, 0, 0)
            if d:
                raise Violation("C09/not-a-function-of-the-seed",
                                f"{what}: random call {plan['seq'][j // 2]} (number "
                                f"{j // 2}) with seed {plan['seed']}: {d}")

    with quiet():
        want = sequence(plan["seed"])
        log.ev("random", *[calls.bits(r) for r in want])
        results = {}
        for op in plan["ops"]:
            name = op[1]
            if op[0] == "python_random":
                random.seed(name)
                continue
            if op[0] == "cut":
                with interrupt.Points(record=True) as pts:
                    calls.run(name, x)
                where = interrupt.choose(pts.trace, "event", op[2], 0)
                before = rng_state()
                try:
                    with interrupt.Points(kind=op[3], where=where) as cut:
                        calls.run(name, x)
                except interrupt.ALL:
                    log.count("calls_cut_short")
                except Exception:  # noqa: BLE001  (caught inside, and failed later on)
                    if not cut.fired:
                        raise
                    log.count("calls_cut_short")
                if name not in calls.RANDOM and name != "simulate_exact":
                    require(rng_state() == before, "C09/touches-generator",
                            f"{name}, cut short, changed numpy's generator")
                continue
            # a function that is not random: two different generator states
            for seed in (plan["seed"], plan["other_seed"]):
                np.random.seed(seed)
                before = rng_state()
                res = calls.run(name, x)
                if rng_state() != before:
                    raise Violation("C09/touches-generator",
                                    f"{name} consumed or reseeded numpy's generator")
                if name in results:
                    d = calls.differ(res, results[name], 0, 0)
                    require(not d, "C09/depends-on-generator",
                            f"{name} depends on the state of numpy's generator: {d}")
                results[name] = res
                log.count("quiet_calls")
            log.ev("quiet", name, calls.bits(results[name]))
            log.mark(("quiet", name))
        same(sequence(plan["seed"]), f"after {plan['ops']}")
        # noise differs between seeds and between positions of one stream
        for seed, burn in ((plan["other_seed"], 0), (plan["seed"], plan["burn"])):
            if (seed, burn) == (plan["seed"], 0):
                continue
            other = sequence(seed, burn)
            log.count("other_streams")
            for j, (name, k) in enumerate(plan["seq"]):
                if name != "simulate":
                    continue
                a, b = noisy_columns(want[2 * j]), noisy_columns(other[2 * j])
                for key in a:
                    if drawn(key, sc):
                        n = int(np.isfinite(a[key]).sum())
                        eq = int((a[key] == b[key]).sum())
                        require(eq == 0 or n < 3, "C09/noise-not-random",
                                f"{key} has {eq} of {n} values in common under different "
                                f"generator states")
        for source in plan["isolate"]:
            isolated(plan, sc, x, source, log)
        if any(n == "average" for n, _ in plan["seq"]):
            np.random.seed(plan["seed"])
            varied(plan, x, average(x, 1), log)
        sims = [j for j, (n, k) in enumerate(plan["seq"]) if n == "simulate"]
        for i, j in zip(sims, sims[1:]):
            a, b = noisy_columns(want[2 * i]), noisy_columns(want[2 * j])
            for key in a:
                if drawn(key, sc):
                    require(not (a[key] == b[key]).any(), "C09/noise-not-random",
                            f"{key}: consecutive simulations share noise")
    if plan["child"] is not None:
        ops = [["seed", 99]] + [["call", 0, n] for n in ("simulate", "simulate_policy")]
        base = {k: v for k, v in plan.items() if k not in ("seq", "ops")}
        got = probe.child([base], ops, [["random", 5]], plan["child"])
        with quiet():
            for n, g in zip(("simulate", "simulate_policy"), got):
                d = calls.differ(g, calls.run(n, x), 0, 0)
                require(not d, "C09/process", f"{n} with the same seed in a process "
                        f"with {plan['child']}: {d}")
        log.count("processes")
    with quiet():
        same(sequence(plan["seed"]), "at the end of the run")
    log.count("waves", sc.model.T * sc.N)


def drawn(key, sc):
    """Does this column of a simulated panel contain noise in every cell?"""
    if key.startswith("meas."):
        return key[5:] in {u[2] for u in sc.model.updates}
    return key in {f"simulated.unanchored_states.{f}" for f in sc.model.latent}


def shrinks(plan):
    from vsim import shrink

    if plan["child"]:
        yield {**plan, "child": None}
    for cand in shrink.lists(plan, "seq"):
        if cand["seq"]:
            yield cand
    for cand in shrink.lists(plan, "ops"):
        yield cand
    yield from shrink.scenario_shrinks(plan, ("faults",))
