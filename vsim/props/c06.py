"""C06: public calls cut short at seeded program points, or failing in a dependency."""
import warnings

import numpy as np

from vsim import calls, interrupt, world
from vsim import spec as sp
from vsim.core import Skip, Violation, require
from vsim.rng import uniform
from vsim.target import (ambient, diff_state, gen_ambient, global_state, model_dict,
                         preload, quiet, watcher)

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 8000}
STUBS = ("the exceptions (raised at LINE or CALL events of package code, in the user's "
         "transition function, or by turning warnings into errors)")
RULE = ("One evaluation is one seeded run: several public calls of one model and panel are "
        "cut short at chosen program points; after each cut the caller's objects, the "
        "global state, the repeated call and previously returned functions are compared "
        "with their values before. Non-trivial: at least one cut took effect and the "
        "run's event log differs from that of every other run.")


def plan(rng, tier):
    p = calls.gen_small(rng)
    facs = p["spec"]["factors"]
    if rng.random() < 0.35:
        f = rng.choice(facs)
        f["trans"] = sp.custom(rng.choice(sp.CUSTOM), f["name"],
                               rng.choice([g["name"] for g in facs]))
    has_custom = any(isinstance(f["trans"], list) for f in facs)
    p["ops"] = []
    names = rng.sample([n for n in calls.CHEAP if n not in calls.FAILING],
                       rng.randint(1, 2))
    if rng.random() < 0.2:  # with the public function that is the slowest to cut
        names.append(rng.choice(calls.PLOTS))
    names += rng.sample(calls.FAILING, rng.choice([0, 1, 1, 2]))
    if rng.random() < 0.6:
        names.append(rng.choice(["loglike", "debug", "filtered"] * 3
                                + calls.LIKELIHOOD + calls.PLOTS))
    for n in names:
        cuts = (1 if n in calls.FAILING else rng.randint(2, 5) if n in calls.CHEAP
                else rng.randint(1, 3))
        for _ in range(cuts):
            kind = rng.choice(["interrupt", "interrupt", "memory", "error"])
            how = rng.random()
            if has_custom and how < 0.25:
                p["ops"].append(["hook", n, kind, rng.random()])
            elif how < 0.35:
                p["ops"].append(["warnings", n])
            else:
                mode = rng.choice(["event", "place", "place", "exposed"])
                p["ops"].append(["cut", n, kind, mode, rng.random(), rng.random(),
                                 int(rng.random() < 0.5), int(rng.random() < 0.4)])
    p["witness"] = rng.random() < 0.4
    p["ambient"] = gen_ambient(rng) if rng.random() < 0.5 else {}
    return p


class Hook:
    """Stands in the user's transition function."""

    def __init__(self):
        self.n, self.at, self.kind, self.fired = 0, None, None, False

    def __call__(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise interrupt.KINDS[self.kind]("injected in the user's function")


def execute(plan, log):
    sc = world.Scenario(plan, log.stats)
    if sc.fine():
        raise Skip(sc.fine())
    preload()
    hook = Hook()

    def variant(n):
        """The same model and panel with other remarks, so that nothing the package
        may have remembered by content is known of them."""
        md = model_dict(plan["spec"], hook)
        md["description"] = f"variant {n}"
        x = calls.Ctx(sc, md=md)
        x.df = x.df.assign(remark=float(n))
        x.n, x.owned_before = n, x.fingerprints()
        return x

    x = first = variant(0)
    n_variants = 0
    base, traces, hooks = {}, {}, {}
    held, held_results = None, None

    def owned_ok(x, what):
        now = x.fingerprints()
        for name, a, b in zip(x.NAMES, x.owned_before, now):
            require(a == b, "C06/mutated", f"{what} left the caller's {name} modified")

    def plain(res, n):
        return [(k, v.replace(f"variant {n}", "variant 0") if isinstance(v, str) else v)
                for k, v in res]

    def compare(got, want, what, n=0):
        got = plain(got, n)
        d = calls.differ(got, want)
        require(not d, "C06/answers", f"{what}: {d}")
        return got

    def measure(name, prebuilt, x, key):
        """Undisturbed execution, with its program points."""
        watch = watcher(x.md, x.df, x.params)
        x.mi = None
        if prebuilt and name in calls.LIKELIHOOD:
            x.build()
        hook.n = 0
        with interrupt.Points(record=True, watch=watch) as pts:
            res = calls.run(name, x)
        if name in base:
            compare(res, base[name], f"undisturbed call {name}", x.n)
        else:
            base[name] = plain(res, x.n)
        traces[key] = pts.trace, pts.exposed
        if pts.exposed:
            log.count("calls_with_exposed_points")
        hooks[name] = hook.n

    with quiet() as record, ambient(plan.get("ambient", {})):
        if plan["witness"]:
            held = calls.Ctx(sc, share=x)
            held.build()
            held_results = {n: calls.run(n, held) for n in ("loglike",)}
        fired = 0
        for k, op in enumerate(plan["ops"]):
            how, name = op[:2]
            prebuilt = op[6] if how == "cut" else 0
            new = how == "cut" and len(op) > 7 and op[7]
            key = (name, prebuilt, new)
            random = name in calls.RANDOM | {"simulate_exact"}
            x = first
            if name not in base or key not in traces:
                if new:
                    n_variants += 1
                    x = variant(n_variants)
                before = global_state(not random)
                measure(name, prebuilt, x, key)
                bad = diff_state(before, global_state(not random))
                require(not bad, "C06/global-state",
                        f"undisturbed call {name} changed process-wide state: {bad}")
                owned_ok(x, f"undisturbed call {name}")
            if new:
                n_variants += 1
                x = variant(n_variants)
                log.count("first_calls_cut")
            x.mi = None
            if prebuilt and name in calls.LIKELIHOOD:
                x.build()
            del record[:]
            before = global_state(not random)
            raised = None
            what = f"{name} cut by {op}"
            try:
                if how == "cut":
                    trace, exposed = traces[key]
                    where = interrupt.choose(trace, *op[3:6], exposed)
                    if where is None:
                        continue
                    with interrupt.Points(kind=op[2], where=where) as pts:
                        calls.run(name, x)
                    hit = pts.fired
                elif how == "hook":
                    hook.n, hook.fired, hook.kind = 0, False, op[2]
                    hook.at = 1 + int(op[3] * max(1, hooks[name]))
                    calls.run(name, x)
                    hit = hook.fired
                else:
                    with warnings.catch_warnings():
                        warnings.simplefilter("error")
                        inner = repr(warnings.filters)
                        try:
                            calls.run(name, x)
                        finally:
                            require(repr(warnings.filters) == inner, "C06/global-state",
                                    f"{name} changed warnings.filters ({op})")
                    hit = None
            except Violation:
                raise
            except interrupt.ALL as e:
                raised = type(e).__name__
                hit = True
            except Exception as e:  # noqa: BLE001  (wrapped, or a warning as error)
                raised = type(e).__name__
                hit = True
                if how == "cut" and not pts.fired:
                    raise
                if how == "hook" and not hook.fired:
                    raise
            finally:
                hook.at = None
            if how == "cut" and pts.fired:
                log.mark(("place", *pts.fired[:2], pts.fired[2]))
                what += f" at {pts.fired}"
            bad = diff_state(before, global_state(not random))
            require(not bad, "C06/global-state",
                    f"process-wide state is not restored after {what}: {bad}")
            owned_ok(x, what)
            log.ev(how, name, str(raised), what)
            if hit:
                fired += 1
                log.count(f"injected_{how}" + (f"_{op[2]}" if how != "warnings" else ""))
            else:
                log.count(f"not_reached_{how}")
            # the same call again, with the same functions if there were any
            again = calls.run(name, x)
            again = compare(again, base[name], f"repetition of {what}", x.n)
            log.ev("again", calls.bits(again))
            owned_ok(x, f"repetition of {what}")
            if held is not None and uniform(plan["pseed"], "held", k) < 0.5:
                for n, want in held_results.items():
                    compare(calls.run(n, held), want,
                            f"function {n} returned before {what}")
        if held is not None:
            for n, want in held_results.items():
                compare(calls.run(n, held), want, f"function {n} returned earlier")
        # equal objects that no interrupted call has seen
        fresh = variant(0)
        for n in [n for n in base if n not in calls.LIKELIHOOD or uniform(
                plan["pseed"], "fresh", n) < 0.3]:
            compare(calls.run(n, fresh), base[n], f"{n} on equal objects after all cuts")
        if fired:
            log.mark(("cuts", fired))
    log.count("waves", sc.model.T * sc.N)
    assert np.isfinite(fired)


def shrinks(plan):
    from vsim import shrink

    if plan["witness"]:
        yield {**plan, "witness": False}
    if plan.get("ambient"):
        yield {**plan, "ambient": {}}
    yield from shrink.scenario_shrinks(plan)
