"""Model specifications as plain JSON ("spec") and their swarm generator.

A spec is
{"factors": [{"name", "meas": [[...] per period], "trans", "norm": None | {...}}],
 "observed": [...], "controls": [...], "anchoring": None | {...}, "stagemap": None | [...],
 "options": {...}}
"trans" is the name of a built-in function or ["custom", kind, own, other].
"""
import keyword

from vsim.rng import stream

BUILTIN = [
    "linear",
    "translog",
    "robust_translog",
    "linear_and_squares",
    "log_ces",
    "log_ces_general",
    "constant",
]
CUSTOM = ["named", "minus", "states", "tanh"]


def n_periods(spec):
    return max(len(f["meas"]) for f in spec["factors"])


def latent(spec):
    return [f["name"] for f in spec["factors"]]


def all_factors(spec):
    return latent(spec) + list(spec["observed"])


def n_mixtures(spec):
    return spec["options"].get("n_mixtures", 1)


def meas_of(fac, t):
    return fac["meas"][t] if t < len(fac["meas"]) else []


NAME_POOLS = [
    ["cog", "noncog", "health", "invest"],
    ["fac1", "fac2", "fac3", "fac4"],
    ["b", "a", "d", "c"],
    ["skill", "Skill2", "zeta", "alpha"],
    # "Any python string is possible as factor name."
    ["cog skill", "it's", "class", "2nd"],
    ["a-b", "\u00e4", "x.1", "fac \"q\""],
]


def custom(style, own, other):
    """A custom transition; functions take factors as arguments only if they can."""
    if not all(x.isidentifier() and not keyword.iskeyword(x) for x in (own, other)):
        style = "states"
    return ["custom", style, own, other]


def gen_spec(rng, **cfg):
    """Draw a model. cfg restricts the swarm: max_latent, max_periods, max_mixtures,
    trans (allowed list), observed/controls/anchoring (None: random, else forced bool),
    max_meas, trailing (allow trailing empty periods).
    """
    c = {
        "max_latent": 3,
        "min_latent": 1,
        "max_periods": 4,
        "min_periods": 2,
        "max_mixtures": 3,
        "min_mixtures": 1,
        "trans": BUILTIN + ["custom"],
        "observed": None,
        "controls": None,
        "anchoring": None,
        "max_meas": 3,
        "trailing": True,
        "gaps": True,
        "short_lists": True,
        "shared": True,
        "options": True,
        "norm": True,
    }
    c.update(cfg)
    n_lat = rng.randint(c["min_latent"], c["max_latent"])
    T = rng.randint(c["min_periods"], c["max_periods"])
    names = list(rng.choice(NAME_POOLS))
    if rng.random() < 0.5:
        rng.shuffle(names)
    names = names[:n_lat]

    def flag(key, p):
        return rng.random() < p if c[key] is None else c[key]

    observed = []
    if flag("observed", 0.4):
        pool = ["obs_b", "obs_a"] if rng.random() < 0.85 else ["obs b", "it's obs"]
        observed = pool[: rng.randint(1, 2)]
    controls = []
    if flag("controls", 0.5):
        pool = ["x2", "x1"] if rng.random() < 0.85 else ["x 2", "x'1"]
        controls = pool[: rng.randint(1, 2)]
    prefix = rng.choice(["y"] * 8 + ["test ", "y'"])

    # measurement names: panel style (same name in all periods) or one name per period
    panel_style = rng.random() < 0.6
    pool = list(range(40))
    rng.shuffle(pool)
    factors = []
    for name in names:
        n_meas = rng.randint(1, c["max_meas"])
        base = [f"{prefix}{pool.pop()}" for _ in range(n_meas)]
        lists = []
        for t in range(T):
            # every period needs at least one measurement of each factor or none at all
            k = n_meas if rng.random() < 0.7 else rng.randint(1, n_meas)
            chosen = base[:k] if rng.random() < 0.7 else rng.sample(base, k)
            lists.append([m if panel_style else f"{m}_w{t}" for m in chosen])
        # factors measured only in some periods
        if len(names) > 1 and c["short_lists"] and rng.random() < 0.25 and factors:
            if rng.random() < 0.5:
                lists = lists[: rng.randint(1, T)]
            else:
                lists[rng.randrange(T)] = []
        factors.append({"name": name, "meas": lists, "trans": None, "norm": None})

    # a measurement that loads on two factors
    if c["shared"] and n_lat >= 2 and rng.random() < 0.35:
        i, j = rng.sample(range(n_lat), 2)
        for t in range(min(len(factors[i]["meas"]), len(factors[j]["meas"]))):
            if factors[i]["meas"][t] and rng.random() < 0.8:
                m = rng.choice(factors[i]["meas"][t])
                pos = rng.randint(0, len(factors[j]["meas"][t]))
                factors[j]["meas"][t].insert(pos, m)

    if c["trailing"] and T < c["max_periods"] and rng.random() < 0.12:
        for fac in factors:
            if len(fac["meas"]) == T:
                fac["meas"].append([])
        T += 1

    # a period in which nothing is measured; only possible with anchoring (see repair_gaps)
    if c["gaps"] and T >= 3 and rng.random() < 0.15:
        t = rng.randrange(T - 1)
        for fac in factors:
            if t < len(fac["meas"]):
                fac["meas"][t] = []

    # transition functions
    for i, fac in enumerate(factors):
        kind = rng.choice(c["trans"])
        if rng.random() < 0.35:
            kind = rng.choice([k for k in ("linear", "translog") if k in c["trans"]]
                              or c["trans"])
        if kind == "custom":
            everyone = names + observed
            fac["trans"] = custom(rng.choice(CUSTOM), fac["name"], rng.choice(everyone))
        else:
            fac["trans"] = kind

    if c["norm"]:
        for fac in factors:
            if rng.random() < 0.5:
                norm = {}
                loadings = [
                    ({meas[0]: 1} if meas and rng.random() < 0.7 else {})
                    for meas in fac["meas"]
                ]
                norm["loadings"] = loadings
                if rng.random() < 0.6:
                    norm["intercepts"] = [
                        ({meas[-1]: 0} if meas and rng.random() < 0.4 else {})
                        for meas in fac["meas"]
                    ]
                fac["norm"] = norm

    anchoring = None
    if flag("anchoring", 0.4):
        k = rng.randint(1, n_lat)
        anchored = rng.sample(names, k)
        outcomes = [
            [a, "outcome" if rng.random() < 0.6 else f"outcome_{i}"]
            for i, a in enumerate(anchored)
        ]
        anchoring = {"outcomes": outcomes}
        for key in [
            "free_controls",
            "free_constant",
            "free_loadings",
            "ignore_constant_when_anchoring",
        ]:
            if rng.random() < 0.6:
                anchoring[key] = rng.random() < 0.5

    stagemap = None
    if T >= 2 and rng.random() < 0.5:
        stagemap = [0]
        for _ in range(T - 2):
            stagemap.append(stagemap[-1] + rng.randint(0, 1))

    options = {}
    n_mix = rng.randint(c["min_mixtures"], c["max_mixtures"])
    if n_mix > 1 or rng.random() < 0.5:
        options["n_mixtures"] = n_mix
    if c["options"]:
        if rng.random() < 0.4:
            options["sigma_points_scale"] = rng.choice([1, 2, 3, 0.5])
        if rng.random() < 0.3:
            options["robust_bounds"] = rng.random() < 0.5
        if rng.random() < 0.3:
            options["bounds_distance"] = 0.01
        if rng.random() < 0.3:
            options["clipping_lower_bound"] = rng.choice([-2.0, -5.0, -30.0])
            if rng.random() < 0.5:
                options["clipping_lower_hardness"] = rng.choice([1, 5])
        if rng.random() < 0.2:
            options["clipping_upper_bound"] = rng.choice([-0.5, 0.5, 3.0])
            if rng.random() < 0.5:
                options["clipping_upper_hardness"] = rng.choice([1, 4])

    spec = {
        "factors": factors,
        "observed": observed,
        "controls": controls,
        "anchoring": anchoring,
        "stagemap": stagemap,
        "options": options,
    }
    return repair_gaps(spec)


def repair_gaps(spec):
    """Every period up to the last measured one needs a measurement (known finding D6)."""
    if spec["anchoring"]:
        return spec  # an anchoring update in every period
    T = n_periods(spec)
    measured = [
        t for t in range(T) if any(meas_of(f, t) for f in spec["factors"])
    ]
    last = max(measured)
    for t in range(last):
        if t not in measured:
            fac = max(spec["factors"], key=lambda f: len(f["meas"]))
            fac["meas"][t] = [f"gap{t}"]
    return spec


def describe(spec):
    return "{}lat/{}obs/{}ctl/{}T/{}mix/{}{}".format(
        len(spec["factors"]),
        len(spec["observed"]),
        len(spec["controls"]),
        n_periods(spec),
        n_mixtures(spec),
        ",".join(
            f["trans"] if isinstance(f["trans"], str) else "custom:" + f["trans"][1]
            for f in spec["factors"]
        ),
        "/anch" if spec["anchoring"] else "",
    )


if __name__ == "__main__":
    import json

    for s in range(5):
        print(json.dumps(gen_spec(stream(s))))
