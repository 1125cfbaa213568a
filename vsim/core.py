"""Runs, violations, event logs."""
import hashlib
import json

import numpy as np


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.detail = cls, msg, detail


class Skip(Exception):
    """The drawn scenario is out of scope (counted, not judged)."""


class Log:
    """Event log of one run: every event is hashed; logging draws nothing."""

    def __init__(self):
        self._h = hashlib.sha256()
        self.n = 0
        self.events = []
        self.stats = {}
        self.marks = set()

    def ev(self, kind, *payload):
        line = json.dumps([kind, *[_js(p) for p in payload]], default=str)
        self._h.update(line.encode())
        self.n += 1
        if len(self.events) < 400:
            self.events.append(line[:200])

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def mark(self, key):
        """A distinct state or rare condition that was reached."""
        self.marks.add(str(key))

    @property
    def digest(self):
        return self._h.hexdigest()[:24]


def _js(p):
    if isinstance(p, (np.floating, float)):
        return float(p).hex()
    if isinstance(p, np.ndarray):
        return hashlib.sha256(np.ascontiguousarray(p).tobytes()).hexdigest()[:16]
    if isinstance(p, np.integer):
        return int(p)
    return p


def close(a, b, rtol=1e-6, atol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    return bool(ok.all())


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)
    if not bad.any():
        return "equal"
    d = np.where(bad, np.where(np.isnan(d), np.inf, d), -1)
    ix = np.unravel_index(int(np.argmax(d)), d.shape)
    return (f"at {tuple(map(int, ix))}: {a[ix]!r} instead of {b[ix]!r} "
            f"({int(bad.sum())} of {bad.size} differ)")


def require_close(cls, what, got, want, rtol=1e-6, atol=1e-6, **detail):
    if not close(got, want, rtol, atol):
        raise Violation(cls, f"{what}: {worst(got, want)}", **detail)


def require(cond, cls, msg, **detail):
    if not cond:
        raise Violation(cls, msg, **detail)
