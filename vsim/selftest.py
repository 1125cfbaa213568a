"""One seed is one execution: the same plans in other processes, orders, hash seeds."""
import os
import tempfile
from concurrent.futures import ThreadPoolExecutor

from vsim import main as mn
from vsim import worker as wk


def one(prop, n, seed):
    mod = wk.get_prop(prop)
    plans = [wk.make_plan(mod, prop, "quick", seed, i) for i in range(n)]
    with tempfile.TemporaryDirectory(prefix="vsim-self-") as scratch:
        a, ea = mn.run_plans(prop, mod, plans, scratch)
        b, eb = mn.run_plans(prop, mod, plans[::-1], scratch,
                             mn.env_for(mod, PYTHONHASHSEED="4242"))
    if ea or eb:
        return f"{prop}: {ea or eb}"
    b = b[::-1]
    bad = [i for i, (x, y) in enumerate(zip(a, b)) if x["digest"] != y["digest"]]
    if bad or len(a) != n:
        return f"{prop}: runs {bad} differ between two executions"
    return None


def main(argv):
    n = int(argv[0]) if argv else 4
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = argv[1:] or sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(mn.ROOT, "vsim", "props"))
        if f.startswith("c") and f.endswith(".py"))
    with ThreadPoolExecutor(6) as pool:
        res = list(pool.map(lambda p: one(p, n, seed), props))
    for p, r in zip(props, res):
        mn.log(f"{p}: {'same digests' if r is None else r}")
    return int(any(res))
