"""A worker process: executes runs one after another and reports one JSON line each.

argv[1] is a JSON job:
  {"mode": "search", "prop", "tier", "seed", "start", "stride", "total", "deadline"}
  {"mode": "plans", "prop", "plans": [...]}           execute given plans in order
  {"mode": "shrink", "prop", "plan", "cls", "budget", "history": [...]}
Jobs that do not fit on a command line are read from the file named by argv[1].
"""
import gc
import importlib
import json
import os
import sys
import time
import traceback

from vsim import core
from vsim.rng import stream


def get_prop(prop):
    return importlib.import_module(f"vsim.props.{prop.lower()}")


def make_plan(mod, prop, tier, seed, i):
    return mod.plan(stream("vsim", prop, tier, seed, i), tier)


HARNESS_ERRORS = (MemoryError, OSError)


def run_one(mod, plan):
    """-> dict(status, cls, msg, digest, ...). Never raises for Exceptions."""
    log = core.Log()
    t0 = time.perf_counter()
    out = {"status": "ok"}
    try:
        mod.execute(plan, log)
    except core.Skip as e:
        out = {"status": "skip", "msg": str(e)}
    except core.Violation as e:
        out = {"status": "violation", "cls": e.cls, "msg": str(e), "detail": e.detail}
    except HARNESS_ERRORS:
        out = {"status": "error", "msg": traceback.format_exc()}
    except Exception as e:  # noqa: BLE001
        from vsim.target import PKG

        tb = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        inside = [f for f in tb if f.filename.startswith(PKG)]
        in_ref = tb and tb[-1].filename.endswith(("vsim/ref.py", "vsim/world.py",
                                                  "vsim/spec.py", "vsim/rng.py"))
        if inside:
            kind, where = "exception", f" (from {os.path.basename(inside[-1].filename)})"
        elif in_ref or any("vsim/ref.py" in f.filename for f in tb):
            out = {"status": "error", "msg": text}
            kind = None
        else:
            kind, where = "malformed-result", ""
        if kind:
            prop = mod.__name__.rsplit(".", 1)[-1].upper()
            first = str(e).strip().splitlines()[0][:300] if str(e).strip() else ""
            out = {
                "status": "violation",
                "cls": f"{prop}/{kind}:{type(e).__name__}",
                "msg": f"{type(e).__name__}: {first}{where}",
                "detail": {"traceback": text},
            }
    log.ev("end", out["status"], out.get("cls", ""))
    out["digest"] = log.digest
    out["stats"] = log.stats
    out["marks"] = sorted(log.marks)
    out["events"] = log.n
    out["seconds"] = time.perf_counter() - t0
    return out


def emit(obj):
    os.write(OUT, (json.dumps(obj, default=str) + "\n").encode())


def housekeeping(k):
    if k % 30 == 29 and "jax" in sys.modules:
        import jax

        jax.clear_caches()
        gc.collect()


def search(job):
    mod = get_prop(job["prop"])
    t_end = time.monotonic() + job["deadline"]
    done = 0
    for i in range(job["start"], job["total"], job["stride"]):
        if time.monotonic() > t_end:
            break
        emit({"ev": "start", "i": i})
        plan = make_plan(mod, job["prop"], job["tier"], job["seed"], i)
        res = run_one(mod, plan)
        res.update(ev="done", i=i)
        if res["status"] == "violation":
            res["plan"] = plan
        if done == 0 and job["start"] < 2:
            res["sample"] = plan
        emit(res)
        done += 1
        if res["status"] in ("violation", "error") and not job.get("keep_going"):
            break
        housekeeping(done)
    emit({"ev": "bye"})


def plans(job):
    mod = get_prop(job["prop"])
    for i, plan in enumerate(job["plans"]):
        emit({"ev": "start", "i": i})
        res = run_one(mod, plan)
        res.update(ev="done", i=i)
        emit(res)
    emit({"ev": "bye"})


def shrink(job):
    """Greedy minimisation in this (fresh) process; keeps the violation class."""
    from vsim import shrink as sh

    mod = get_prop(job["prop"])
    emit({"ev": "start", "i": -1})
    cands = getattr(mod, "shrinks", sh.scenario_shrinks)
    t_end = time.monotonic() + job["budget"]
    best, tried, kept = job["plan"], 0, 0
    again = True
    while again and time.monotonic() < t_end:
        again = False
        for cand in cands(best):
            if time.monotonic() > t_end:
                break
            tried += 1
            try:
                res = run_one(mod, cand)
            except BaseException:  # noqa: BLE001
                continue
            if res["status"] == "violation" and res["cls"] == job["cls"]:
                best, again = cand, True
                kept += 1
                emit({"ev": "better", "i": -1, "plan": best, "msg": res["msg"]})
                break
    emit({"ev": "shrunk", "i": -1, "plan": best, "tried": tried, "kept": kept})
    emit({"ev": "bye"})


if __name__ == "__main__":
    OUT = os.dup(1)
    os.dup2(2, 1)  # prints of the system under test never mix with the protocol
    raw = sys.argv[1]
    if not raw.startswith("{"):
        with open(raw) as f:
            raw = f.read()
    job = json.loads(raw)
    {"search": search, "plans": plans, "shrink": shrink}[job["mode"]](job)
