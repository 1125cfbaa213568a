"""The system under test: real skillmodels code from /repo's working tree, public API."""
import contextlib
import copy
import functools
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(REPO, "skillmodels")


def load():
    """Import the package from the working tree (never from site-packages)."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import skillmodels

    got = os.path.dirname(os.path.abspath(skillmodels.__file__))
    if got != os.path.abspath(PKG):
        raise RuntimeError(f"imported {got} instead of {PKG}")
    return skillmodels


# -------------------------------------------------------------- model dictionaries
_CUSTOM_CACHE = {}


def custom_function(kind, hook=None):
    """A user supplied transition function. hook is called first (fault injection)."""
    load()
    from skillmodels.decorators import register_params

    import jax.numpy as jnp

    _, style, own, other = kind
    key = tuple(kind)
    if hook is None and key in _CUSTOM_CACHE:
        return _CUSTOM_CACHE[key]
    args = [own] if own == other else [own, other]
    if style == "states":
        src = ("def custom_states(states, params):\n    _hook()\n"
               "    return params['rho'] * states.mean() + params['shift']\n")
        pars = ["rho", "shift"]
    elif style in ("named", "minus"):  # two functions that share name and parameters
        sign = "+" if style == "named" else "-"
        src = (f"def custom_named({', '.join(args)}, params):\n    _hook()\n"
               f"    return params['own'] * {own} {sign} params['other'] * {other}"
               " + params['shift']\n")
        pars = ["own", "other", "shift"]
    else:
        src = (f"def custom_tanh({', '.join(args)}, params):\n    _hook()\n"
               f"    return params['a'] * jnp.tanh({own}) + params['b'] * {other}\n")
        pars = ["a", "b"]
    ns = {"jnp": jnp, "_hook": hook or (lambda: None)}
    exec(src, ns)
    func = register_params(ns["custom_" + style.replace("minus", "named")], params=pars)
    if hook is None:
        _CUSTOM_CACHE[key] = func
    return func


def model_dict(spec, hook=None):
    out = {"factors": {}}
    for fac in spec["factors"]:
        trans = fac["trans"]
        d = {
            "measurements": copy.deepcopy(fac["meas"]),
            "transition_function": trans
            if isinstance(trans, str)
            else custom_function(trans, hook),
        }
        if fac["norm"] is not None:
            d["normalizations"] = copy.deepcopy(fac["norm"])
        out["factors"][fac["name"]] = d
    if spec["observed"]:
        out["observed_factors"] = list(spec["observed"])
    if spec["controls"]:
        out["controls"] = list(spec["controls"])
    if spec["anchoring"]:
        anch = {k: v for k, v in spec["anchoring"].items() if k != "outcomes"}
        anch["outcomes"] = {f: o for f, o in spec["anchoring"]["outcomes"]}
        out["anchoring"] = anch
    if spec["stagemap"] is not None:
        out["stagemap"] = list(spec["stagemap"])
    out["estimation_options"] = copy.deepcopy(spec["options"])
    return out


# ------------------------------------------------------------------- fingerprints
def canon(obj):
    """Canonical, hashable description of a value; callables by identity."""
    import pandas as pd

    if isinstance(obj, dict):
        return ("dict", tuple((canon(k), canon(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(canon(v) for v in obj))
    if isinstance(obj, set):
        return ("set", tuple(sorted(map(repr, obj))))
    if isinstance(obj, pd.DataFrame):
        return (
            "df",
            canon(obj.index),
            canon(list(obj.columns)),
            tuple((str(obj.dtypes.iloc[j]), canon(obj.iloc[:, j].to_numpy()))
                  for j in range(obj.shape[1])),
            tuple(map(str, obj.columns.names)),
            canon(obj.attrs),
        )
    if isinstance(obj, pd.Series):
        return ("sr", canon(obj.index), canon(obj.to_numpy()), str(obj.name))
    if isinstance(obj, pd.Index):
        return ("idx", tuple(map(str, obj.names)), tuple(map(repr, obj.tolist())))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("arr", obj.shape, tuple(map(repr, obj.ravel().tolist())))
        return ("arr", obj.shape, str(obj.dtype),
                hashlib.sha256(np.ascontiguousarray(obj).tobytes()).hexdigest())
    if isinstance(obj, (float, np.floating)):
        return ("f", float(obj).hex())
    if obj is None or isinstance(obj, (str, int, bool, np.integer)):
        return (type(obj).__name__, repr(obj))
    if callable(obj):
        return ("callable", id(obj))
    if hasattr(obj, "to_plotly_json"):
        return ("fig", canon(obj.to_plotly_json()))
    if hasattr(obj, "__array__"):
        return canon(np.asarray(obj))
    return ("obj", type(obj).__name__, repr(obj))


def fp(obj):
    return hashlib.sha256(repr(canon(obj)).encode()).hexdigest()[:16]


@contextlib.contextmanager
def ambient(settings):
    """Process-wide settings of the caller that are not the defaults."""
    import pandas as pd

    options = [x for k, v in settings.get("pd", []) for x in (k, v)]
    with contextlib.ExitStack() as stack:
        stack.enter_context(np.errstate(**settings.get("np", {})))
        if options:
            stack.enter_context(pd.option_context(*options))
        if "print" in settings:
            stack.enter_context(np.printoptions(precision=settings["print"]))
        for action in settings.get("filters", []):
            warnings.filterwarnings(action, message="a message of the caller's program")
        yield


def gen_ambient(rng):
    out = {}
    if rng.random() < 0.5:
        out["np"] = {k: rng.choice(["ignore", "warn"])
                     for k in ("divide", "over", "under", "invalid")}
    if rng.random() < 0.5:
        out["pd"] = rng.sample(
            [["mode.chained_assignment", None], ["display.max_rows", 7],
             ["display.precision", 3], ["mode.sim_interactive", True],
             ["display.width", 50], ["compute.use_numexpr", False]], rng.randint(1, 3))
    if rng.random() < 0.3:
        out["print"] = rng.randint(1, 4)
    if rng.random() < 0.5:
        out["filters"] = rng.choice([["ignore"], ["error"], ["always", "once"]])
    return out


def global_state(rng=True):
    """Process-wide settings that a library call must not change."""
    import jax
    import pandas as pd

    out = {
        "warnings.filters": repr(warnings.filters),
        "np.errstate": repr(np.geterr()),
        "cwd": os.getcwd(),
        "environ": repr(sorted(os.environ.items())),
        "jax_enable_x64": bool(jax.config.jax_enable_x64),
        "jax_disable_jit": bool(jax.config.jax_disable_jit),
        "jax_debug_nans": bool(jax.config.jax_debug_nans),
        "recursionlimit": sys.getrecursionlimit(),
        "printoptions": repr(np.get_printoptions()),
        "pd.mode": repr(
            [
                pd.get_option(o)
                for o in (
                    "mode.chained_assignment",
                    "mode.copy_on_write",
                    "mode.use_inf_as_na",
                    "display.max_rows",
                    "display.precision",
                    "compute.use_numexpr",
                )
            ]
        ),
        "pd.options": repr(_flat(pd._config.config._global_config)),
        "jax.config": repr(sorted((k, repr(v)) for k, v in jax.config.values.items())),
        "showwarning": id(warnings.showwarning),
        "np.seterrcall": repr(np.geterrcall()),
        "excepthook": id(sys.excepthook),
        "settrace": repr(sys.gettrace()),
        "stdout": (id(sys.stdout), id(sys.stderr)),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "sys.path": repr(sys.path),
        "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable,
                    len(logging.root.handlers)),
        "signals": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)]),
        "recursive": threading.stack_size(),
        "libraries": _library_tables(),
    }
    if rng:
        out["np.random"] = rng_state()
        out["random"] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:12]
    return out


def watcher(md, df, params):
    """A cheap function that describes state which calls must restore."""
    import jax
    import pandas as pd

    config = pd._config.config._global_config

    def watch():
        return (jax.config.jax_enable_x64, jax.config.jax_disable_jit, np.geterr(),
                len(warnings.filters), warnings.filters[:1], repr(config["mode"]),
                repr(md), df.shape, tuple(df.columns), tuple(df.index.names),
                params.shape, tuple(params.columns), tuple(params.index.names),
                len(os.environ), id(warnings.showwarning), gc.isenabled())

    return watch


def shared_watch():
    """A cheap function that describes mutable state of the package's modules: globals,
    attributes and default arguments of functions, sizes of caches."""
    import types

    dicts = [vars(m) for n, m in sorted(sys.modules.items())
             if n == "skillmodels" or n.startswith("skillmodels.")]
    fixed = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)
    functions, names = [], []
    for d in dicts:
        for k, v in d.items():
            if isinstance(v, types.FunctionType) and v.__module__ == d["__name__"]:
                functions.append(v)
            if k.startswith("__") or isinstance(v, fixed):
                continue
            if not callable(v) or hasattr(v, "cache_info"):
                names.append((d, k))
    defaults = [x for f in functions
                for x in (*(f.__defaults__ or ()), *(f.__kwdefaults__ or {}).values())
                if isinstance(x, (dict, list, set, np.ndarray))]

    def watch():
        return (tuple([len(d) for d in dicts]),
                tuple([_shape(d.get(k), 0) for d, k in names]),
                tuple([_shape(x, 0) for x in defaults]),
                tuple([len(f.__dict__) and _shape(f.__dict__, 0) for f in functions]))

    return watch


def _shape(v, depth):
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, np.ndarray) and v.dtype != object:
        return v.tobytes()
    if depth < 4:
        if isinstance(v, dict):
            return tuple([(str(k), _shape(x, depth + 1)) for k, x in list(v.items())])
        if isinstance(v, (list, tuple)):
            return tuple([_shape(x, depth + 1) for x in list(v)])
    if isinstance(v, (set, frozenset)):
        return len(v)
    if hasattr(v, "cache_info"):
        return v.cache_info().currsize
    if callable(v):
        return id(v)
    inner = getattr(v, "__dict__", None)
    if inner and depth < 2 and type(v).__module__.startswith("skillmodels"):
        return id(v), _shape(inner, depth + 1)
    return id(v)


def _flat(d, path=""):
    out = []
    for k in sorted(d):
        if isinstance(d[k], dict):
            out += _flat(d[k], f"{path}.{k}")
        else:
            out.append((f"{path}.{k}", repr(d[k])))
    return out


def _library_tables():
    """Mutable tables of plotting libraries that the package reads."""
    if "plotly.express" not in sys.modules:
        return ""
    import plotly.express as px
    import plotly.io as pio

    parts = [pio.templates.default]
    for mod in (px.colors.qualitative, px.colors.sequential):
        for k in ("D3", "Plotly", "Magenta_r", "RdBu_r", "Viridis"):
            parts.append(repr(getattr(mod, k, None)))
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:12]


def rng_state():
    st = np.random.get_state(legacy=True)
    raw = repr((st[0], st[1].tobytes(), st[2], st[3], st[4])).encode()
    return hashlib.sha256(raw).hexdigest()[:16]


def diff_state(a, b):
    return sorted(k for k in a if a[k] != b[k])


# ----------------------------------------------------------------- calling the API
@functools.lru_cache(maxsize=None)
def api():
    load()
    from types import SimpleNamespace

    from skillmodels import correlation_heatmap as ch
    from skillmodels import utilities as ut
    from skillmodels import visualize_factor_distributions as vd
    from skillmodels import visualize_transition_equations as vt
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs
    from skillmodels.simulate_data import simulate_dataset

    return SimpleNamespace(
        get_maximization_inputs=get_maximization_inputs,
        get_filtered_states=get_filtered_states,
        simulate_dataset=simulate_dataset,
        ut=ut,
        ch=ch,
        vd=vd,
        vt=vt,
    )


@functools.lru_cache(maxsize=None)
def preload():
    """Import what dependencies import lazily (some of it edits the warning filters)."""
    api()
    import jax.numpy as jnp
    import jax.scipy.stats  # noqa: F401
    import plotly.express  # noqa: F401
    import plotly.figure_factory  # noqa: F401
    import plotly.graph_objects as go
    import plotly.io as pio
    import plotly.subplots
    import plotly.tools  # noqa: F401
    import scipy.stats  # noqa: F401

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = plotly.subplots.make_subplots(rows=1, cols=2)
        fig.add_trace(go.Heatmap(z=[[1.0]]), row=1, col=1)
        fig.update_layout(template="simple_white")
        fig.to_plotly_json()
        pio.to_json(fig)
        jnp.ones(2) @ jnp.ones(2)


class quiet:
    """Record warnings; used on a single thread only, never inside simulated threads."""

    def __enter__(self):
        self._cm = warnings.catch_warnings(record=True)
        self.log = self._cm.__enter__()
        warnings.simplefilter("always")
        return self.log

    def __exit__(self, *exc):
        return self._cm.__exit__(*exc)
