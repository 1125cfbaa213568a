"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation, seeded search with fault injection: "
TRUST = (" Trusts the harness's own oracle, numpy/scipy and the interpreter; explores "
         "seeded samples of small models and panels, so a clean run is evidence, not "
         "proof.")
T = {
    "C01": ("lossy survey channel delivers panels; refinement against an independent "
            "numpy filter",
            "Every reported quantity of every update is compared (1e-6) with a reference "
            "recursion written from the textbook, on seeded models, parameters and "
            "loss/attrition/corruption histories."),
    "C02": ("paired runs with and without injected data faults; confinement invariants",
            "Differences between paired executions must be confined to the faulted "
            "individual and later updates; inert measurements contribute exactly 0."),
    "C03": ("permuted, padded and refused deliveries of one panel; equality of results",
            "Metamorphic equality over delivery histories plus refusal of unusable "
            "panels; labels are recomputed from what was delivered."),
    "C04": ("random walk of evaluation calls under data loss; cross-view agreement and "
            "directional derivatives",
            "Views must agree to 1e-7 and derivatives to central differences; "
            "finiteness under every injected loss pattern."),
    "C05": ("seeded histories of calls, caller mutations and failing calls; results "
            "against the reference filter and against a history-free execution",
            "Histories of up to ~25 operations over several models; every answer is "
            "judged, every caller object is fingerprinted."),
    "C06": ("exception injection at seeded program points of every public call; state, "
            "result and global-state invariants",
            "Cuts calls at LINE/CALL events of the package, and lets dependencies, user "
            "functions and warnings fail; crash points are sampled, not exhausted."),
    "C07": ("seeded preemptive thread scheduler over package code; concurrent results "
            "against sequential results; deadlock detection",
            "Schedules preempt between source lines of the package (and at lock "
            "operations); code below jax and pandas frames is atomic."),
    "C08": ("faulty parameter channel (reordered, lost, duplicated, additional rows); "
            "refinement against the reference filter and refusal checks",
            "Every accepted table must give the reference result, every unusable one "
            "must be refused by an error that names the labels."),
    "C09": ("seeded call histories and process restarts around numpy's generator; "
            "bitwise equality and generator-state invariants",
            "Bitwise comparison of random results across histories and processes; "
            "generator state is compared around every non-random call."),
    "C10": ("simulated random streams; recomputation of innovations from the returned "
            "states and independence/moment tests at 6.5 sigma",
            "Deterministic parts are recomputed exactly, noise by tests whose false "
            "alarm probability is below 1e-9 per run and fixed by the seed."),
    "C11": ("paired simulations with and without policies under one random stream",
            "Differences are recomputed exactly through the model's transition "
            "functions; random policies by tests at 6.5 sigma."),
    "C12": ("lossy survey channel; filtered states and debug tables against the "
            "reference filter",
            "Posterior means, anchoring, labels and ranges are recomputed for every "
            "individual and period."),
    "C13": ("seeded sequences of model edits with failing edits in between, against a "
            "small reference editor",
            "Edits and parameter tables are compared exactly with the reference model "
            "after every step."),
    "C14": ("lossy survey channel; correlation tables recomputed from delivered cells",
            "Recomputed by hand from the delivered cells with pairwise-complete "
            "correlations (1e-8)."),
    "C15": ("lossy and permuted deliveries; plotted values recomputed from the "
            "reference states",
            "Every plotted line, density and position is recomputed."),
    "C16": ("long simulated panels with value-independent losses; calibration tests of "
            "prediction errors at 6.5 sigma",
            "Statistical: detects miscalibration beyond the power of ~1500 simulated "
            "individuals."),
    "C17": ("process restarts under different environments; digests of all results "
            "compared",
            "Runs the menu of public calls in processes that differ in hash seed, "
            "threads, import order, copy-on-write, working directory and history."),
}
NA = {
    "C18": "a pure function of the model specification: there is no schedule, clock, "
           "I/O, randomness or fault for a simulator to control",
    "C19": "a pure function of the model specification: no source of nondeterminism or "
           "fault to simulate",
    "C20": "validation is a pure function of the specification; input fuzzing, not "
           "simulation, would decide it",
    "C21": "closed formulas evaluated pointwise; no schedule or fault influences them",
    "C22": "a pure numeric function; nothing to schedule or to inject",
    "C23": "rendering of one given table, a pure function without time, I/O or faults",
}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, "vsim", "props", p.lower() + ".py")):
            tech, note = T[p]
            checks.append({
                "property": p,
                "quick_cmd": f"./check {p} quick",
                "thorough_cmd": f"./check {p} thorough",
                "technique": SIM + tech,
                "level": "exploration",
                "level_note": note + TRUST,
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "not built yet")})
    out = {
        "version": 1,
        "setup_cmd": "true",
        "hooks": {
            "guard": "none needed: the simulator uses sys.monitoring, numpy's global "
                     "generator, child processes and the data frames passed in as seams",
            "enable": "nothing to enable",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. ./check replay FILE replays a violation; ./check "
                 "selftest shows that one seed is one execution.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
