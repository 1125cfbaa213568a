"""A child process that answers a list of public calls under a chosen environment.

argv: job file (JSON), result file (pickle). The environment variables are set by the
parent; "setup" lists what happens inside the process before the calls.
"""
import importlib
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

class ProbeError(OSError):
    """The child could not run (harness problem)."""


def prepare(step, state):
    kind = step[0]
    if kind == "import":
        from vsim.rng import stream
        from vsim.target import PKG, REPO

        if REPO not in sys.path[:1]:
            sys.path.insert(0, REPO)
        names = sorted(f[:-3] for f in os.listdir(PKG)
                       if f.endswith(".py") and not f.startswith("_"))
        stream("import order", step[1]).shuffle(names)
        for name in names:
            importlib.import_module(f"skillmodels.{name}")
    elif kind == "cow":
        import pandas as pd

        pd.set_option("mode.copy_on_write", step[1])
    elif kind == "chdir":
        d = tempfile.mkdtemp(dir=os.getcwd())
        os.chdir(d)
    elif kind == "clock":
        import time

        real, n = time.time, [0]

        def jumping():
            n[0] += 1
            return real() + step[1] * n[0]

        time.time = jumping
    elif kind == "gc":
        import gc

        gc.disable() if step[1] else gc.set_threshold(20, 2, 2)
    elif kind == "jax_first":
        import jax
        import jax.numpy as jnp

        jax.jit(lambda x: x * 2)(jnp.ones(3)).block_until_ready()
    elif kind == "options":
        import pandas as pd

        pd.set_option("display.max_rows", step[1])
        pd.set_option("display.precision", 2)
        np.set_printoptions(precision=2, threshold=4)
    elif kind == "random":
        import random

        random.seed(step[1])
        np.random.seed(step[1])
    else:
        raise ValueError(kind)


def main(job, out):
    for step in job["setup"]:
        prepare(step, None)
    from vsim import calls, world
    from vsim.target import quiet

    results = []
    ctx = {}
    with quiet():
        for op in job["ops"]:
            if op[0] == "seed":
                np.random.seed(op[1])
                continue
            _, k, name = op
            if k not in ctx:
                ctx[k] = calls.Ctx(world.Scenario(job["plans"][k]))
            try:
                res = calls.run(name, ctx[k])
            except Exception as e:  # noqa: BLE001
                res = [("raised", type(e).__name__)]
            results.append(res)
    with open(out, "wb") as f:
        pickle.dump(results, f)


def child(plans, ops, setup=(), env=None, timeout=150):
    """Run ops in a child process. -> list of results"""
    with tempfile.TemporaryDirectory(prefix="probe-", dir=os.getcwd()) as d:
        job, out = os.path.join(d, "job.json"), os.path.join(d, "out.pickle")
        with open(job, "w") as f:
            json.dump({"plans": plans, "ops": ops, "setup": list(setup)}, f)
        p = subprocess.run(
            [sys.executable, "-m", "vsim.probe", job, out],
            env={**os.environ, **(env or {})}, cwd=d, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, check=False,
        )
        if not os.path.exists(out):
            raise ProbeError(f"child failed ({p.returncode}):\n"
                             f"{p.stdout.decode(errors='replace')[-2500:]}")
        with open(out, "rb") as f:
            return pickle.load(f)


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        main(json.load(f), sys.argv[2])
