"""Entry point: python -m vsim.main check C01 quick | replay FILE | selftest ..."""
import collections
import json
import os
import selectors
import subprocess
import sys
import tempfile
import time

from vsim import worker as wk

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SOFT = {"quick": 50.0, "thorough": 780.0}
SHRINK = {"quick": 40.0, "thorough": 240.0}
STALL = 240.0


def log(*a):
    print(*a, flush=True)


def env_for(mod=None, **over):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR", "VERIF_SEED", "VERIF_TIER",
                 "VSIM_REPO")
    }
    env.update(
        PYTHONPATH=ROOT,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        JAX_TRACEBACK_FILTERING="off",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_backend_optimization_level=0 "
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    env.update(getattr(mod, "ENV", {}))
    env.update(over)
    return env


class Job:
    """One worker process and the lines it sends."""

    def __init__(self, job, scratch, env):
        raw = json.dumps(job)
        if len(raw) > 30000:
            fd, path = tempfile.mkstemp(dir=scratch, suffix=".json")
            os.write(fd, raw.encode())
            os.close(fd)
            raw = path
        self.err = tempfile.TemporaryFile(dir=scratch)
        self.p = subprocess.Popen(
            [PY, "-m", "vsim.worker", raw],
            cwd=scratch,
            env=env,
            stdout=subprocess.PIPE,
            stderr=self.err,
            start_new_session=True,
        )
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.last = time.monotonic()
        self.current = None
        self.bye = False

    def read(self):
        chunk = self.p.stdout.read()
        if chunk:
            self.buf += chunk
            self.last = time.monotonic()
        eof = chunk == b""
        lines = []
        while b"\n" in self.buf:
            raw, self.buf = self.buf.split(b"\n", 1)
            msg = json.loads(raw)
            if msg["ev"] == "start":
                self.current = msg["i"]
            elif msg["ev"] == "bye":
                self.bye = True
            lines.append(msg)
        return lines, eof

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-3000:]


def drive(jobs, stop_on_violation=True, on_msg=None):
    """Collect messages of all jobs. -> (messages, error text or None)"""
    sel = selectors.DefaultSelector()
    for j in jobs:
        sel.register(j.p.stdout, selectors.EVENT_READ, j)
    msgs, error = [], None
    open_jobs = set(jobs)
    try:
        while open_jobs:
            for key, _ in sel.select(timeout=1.0):
                j = key.data
                lines, eof = j.read()
                for m in lines:
                    m["job"] = jobs.index(j)
                    msgs.append(m)
                    if on_msg:
                        on_msg(m)
                    if m["ev"] == "done" and m["status"] == "violation" and stop_on_violation:
                        return msgs, None
                    if m["ev"] == "done" and m["status"] == "error":
                        error = error or f"harness error in run {m['i']}:\n{m['msg']}"
                if eof:
                    sel.unregister(j.p.stdout)
                    open_jobs.discard(j)
                    j.p.wait()
                    if not j.bye:
                        error = error or (
                            f"worker died with status {j.p.returncode} in run "
                            f"{j.current}:\n{j.stderr()}"
                        )
            for j in list(open_jobs):
                if time.monotonic() - j.last > STALL:
                    return msgs, f"run {j.current} did not finish within {STALL} s"
    finally:
        for j in jobs:
            j.kill()
    return msgs, error


def run_plans(prop, mod, plans, scratch, env=None):
    j = Job({"mode": "plans", "prop": prop, "plans": plans}, scratch, env or env_for(mod))
    msgs, error = drive([j], stop_on_violation=False)
    return [m for m in msgs if m["ev"] == "done"], error


def check(prop, tier, seed, n_workers=8, total=None, soft=None):
    t0 = time.monotonic()
    mod = wk.get_prop(prop)
    total = total or mod.RUNS[tier]
    soft = soft or float(os.environ.get("VSIM_BUDGET", 0)) or getattr(
        mod, "SOFT", SOFT)[tier]
    n_workers = min(n_workers, getattr(mod, "WORKERS", n_workers), total)
    log(f"vsim {prop} tier={tier} VERIF_SEED={seed} runs<={total} workers={n_workers}")
    with tempfile.TemporaryDirectory(prefix="vsim-") as scratch:
        known = known_findings(prop)
        for k in known:
            res, error = run_plans(prop, mod, [k["plan"]], scratch)
            if error:
                log("ERROR", error)
                return 2
            if res and res[0]["status"] == "violation" and res[0]["cls"] == k["cls"]:
                log(f"KNOWN-FINDING: property={prop} {k['what']}")
            else:
                log(f"note: listed finding did not show: {k['what']}")
        jobs = [
            Job(
                {
                    "mode": "search",
                    "prop": prop,
                    "tier": tier,
                    "seed": seed,
                    "start": w,
                    "stride": n_workers,
                    "total": total,
                    "deadline": soft,
                },
                scratch,
                env_for(mod),
            )
            for w in range(n_workers)
        ]
        msgs, error = drive(jobs)
        done = [m for m in msgs if m["ev"] == "done"]
        bad = [m for m in done if m["status"] == "violation"]
        wall_search = time.monotonic() - t0
        code = 0
        if bad:
            path = report(prop, mod, tier, seed, bad[0], n_workers, scratch)
            log(f"VIOLATION property={prop} replay={path}")
            code = 1
        elif error:
            log("ERROR", error)
            code = 2
        elif not done:
            log("ERROR no run finished")
            code = 2
        evidence(prop, mod, tier, seed, done, wall_search, time.monotonic() - t0,
                 len(bad), len(known))
    return code


def report(prop, mod, tier, seed, m, n_workers, scratch):
    """Confirm in a fresh process, minimise, write the replay file."""
    log(f"violation in run {m['i']}: {m['msg']}")
    plan, cls = m["plan"], m["cls"]
    same = lambda res: bool(res) and res[-1]["status"] == "violation" and res[-1]["cls"] == cls
    history, reproduced = [], False
    for _ in range(2):
        res, error = run_plans(prop, mod, [plan], scratch)
        if same(res):
            reproduced = True
            break
    if not reproduced:
        w = m["i"] % n_workers
        history = [
            wk.make_plan(mod, prop, tier, seed, i) for i in range(w, m["i"], n_workers)
        ]
        res, error = run_plans(prop, mod, history + [plan], scratch)
        reproduced = same(res)
        t_end = time.monotonic() + SHRINK[tier]
        size = max(1, len(history) // 2)
        while reproduced and history and time.monotonic() < t_end:
            for a in range(0, len(history), size):
                cand = history[:a] + history[a + size :]
                res, error = run_plans(prop, mod, cand + [plan], scratch)
                if same(res):
                    history = cand
                    break
                if time.monotonic() > t_end:
                    break
            else:
                if size == 1:
                    break
                size //= 2
    tried = 0
    if reproduced and not history:
        j = Job(
            {"mode": "shrink", "prop": prop, "plan": plan, "cls": cls,
             "budget": SHRINK[tier]},
            scratch,
            env_for(mod),
        )
        msgs, error = drive([j], stop_on_violation=False)
        better = [x for x in msgs if x["ev"] == "better"]
        tried = sum(x.get("tried", 0) for x in msgs)
        # a minimised plan only counts if it fails the same way in a fresh process
        for cand in reversed(better[-3:]):
            res, error = run_plans(prop, mod, [cand["plan"]], scratch)
            if same(res):
                plan = cand["plan"]
                break
    res, _ = run_plans(prop, mod, history + [plan], scratch)
    final = res[-1] if res else m
    out_dir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, f"{prop}-{tier}-{seed}-{m['i']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": tier,
                "verif_seed": seed,
                "run": m["i"],
                "class": cls,
                "message": final.get("msg", m["msg"]),
                "detail": final.get("detail", m.get("detail")),
                "digest": final.get("digest"),
                "reproduced_in_fresh_process": reproduced,
                "history": history,
                "plan": plan,
                "original_plan": m["plan"],
                "shrink_candidates_tried": tried,
            },
            f,
            indent=1,
            default=str,
        )
    log(f"  class: {cls}")
    log(f"  minimised: {final.get('msg', m['msg'])[:1200]}")
    log(f"  reproduced in a fresh process: {reproduced}; history of {len(history)} runs")
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r["property"]
    mod = wk.get_prop(prop)
    with tempfile.TemporaryDirectory(prefix="vsim-") as scratch:
        res, error = run_plans(prop, mod, r["history"] + [r["plan"]], scratch)
    if error or not res:
        log("ERROR", error)
        return 2
    last = res[-1]
    log(json.dumps({k: last.get(k) for k in ("status", "cls", "msg", "digest")}, indent=1))
    if last["status"] == "violation" and last["cls"] == r["class"]:
        log(f"same digest as recorded: {last['digest'] == r['digest']}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)["known"]
    return [e for e in entries if e["property"] == prop]


def evidence(prop, mod, tier, seed, done, wall, wall_total, n_bad, n_known):
    stats, marks = collections.Counter(), set()
    status = collections.Counter(m["status"] for m in done)
    for m in done:
        stats.update(m["stats"])
        marks.update(m["marks"])
    digests = {m["digest"] for m in done if m["status"] == "ok"}
    judged = [m for m in done if m["status"] != "skip"]
    kinds = collections.Counter()
    for x in marks:
        kinds[x.split(",")[0].strip("('\"") if x.startswith("(") else x] += 1
    faults = {k: v for k, v in sorted(stats.items()) if k not in ("waves", "updates")}
    samples = [m["sample"] for m in done if "sample" in m][:2]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(judged),
            "distinct_nontrivial": len(digests),
            "rule": getattr(mod, "RULE", "")
            or "One evaluation is one seeded run (model, parameters, panel, explicit fault "
            "and delivery lists, judged by the oracle). Non-trivial: the run was in scope "
            "and its event log (results included) differs from that of every other run.",
            "samples": samples or [{"note": "no sample"}],
            "runs_by_status": dict(status),
            "runs_per_hour": round(3600 * len(done) / max(wall, 1e-9)),
            "seeds_per_hour": round(3600 * len(done) / max(wall, 1e-9)),
            "simulated_time": {
                "unit": "individual-waves delivered by the simulated survey",
                "amount": stats.get("waves", 0),
            },
            "injected_and_observed": faults,
            "distinct_states": {
                "measure": "distinct values of the run's reached-state marks, by kind",
                "total": len(marks),
                "by_kind": dict(kinds.most_common(40)),
            },
            "components": {
                "real": "all of skillmodels' code reached by the calls, jax, pandas, numpy, plotly",
                "stub": getattr(mod, "STUBS", "the survey that delivers panel and parameters"),
            },
            "known_findings_listed": n_known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        or ["a clean batch of seeded runs is evidence, not proof"],
        "wall_s": round(wall_total, 2),
        "violations": n_bad,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    log(
        f"{len(done)} runs ({dict(status)}), {len(digests)} distinct logs, "
        f"{len(marks)} states, {wall_total:.1f} s"
    )


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "selftest":
        from vsim import selftest

        return selftest.main(argv[1:])
    raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
