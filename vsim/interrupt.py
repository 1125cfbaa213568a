"""Cutting a call short at a chosen program point of the package.

Program points are the LINE and CALL events that the interpreter reports
(sys.monitoring) for code objects of the package. An exception raised at the k-th point
propagates exactly as if the operation at that point had failed.
"""
import functools
import gc
import sys
import types

from vsim.target import PKG, api

TOOL = 3
mon = sys.monitoring
_PREFIX = PKG.rstrip("/") + "/"


class Injected(Exception):
    """Stands for an error that a dependency raises."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


KINDS = {
    "interrupt": InjectedInterrupt,
    "memory": InjectedMemoryError,
    "error": Injected,
}
ALL = tuple(KINDS.values())


@functools.lru_cache(maxsize=None)
def package_codes():
    """Every code object of the package's functions, nested ones included."""
    api()
    seen = {}
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)
            and f.__code__.co_filename.startswith(_PREFIX)]
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen[id(c)] = c
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return tuple(seen.values())


class Points:
    """Context manager: count (and record) program points; raise at the chosen one."""

    def __init__(self, at=None, kind="interrupt", record=False, calls=True, where=None,
                 watch=None):
        """at: number of the event. where: ((file, line), occurrence) instead of at.
        watch: cheap description of state that a call must restore; points at which it
        differs from that at the start are collected in exposed."""
        self.at, self.kind, self.record, self.calls = at, kind, record, calls
        self.where = where
        self.n = 0
        self.trace = []
        self.watch, self.exposed = watch, []
        self.fired = None
        self._seen = 0

    def _line(self, code, line):
        self._event(code, line)

    def _call(self, code, offset, func, arg0):
        self._event(code, -offset - 1)

    def _event(self, code, pos):
        if self.fired:
            return
        self.n += 1
        key = (code.co_filename[len(_PREFIX):], code.co_qualname, pos)
        if self.record:
            self.trace.append(key)
            if self.watch is not None and self.watch() != self.initial:
                self.exposed.append(len(self.trace) - 1)
        hit = self.n == self.at
        if self.where is not None and key == self.where[0]:
            self._seen += 1
            hit = self._seen == self.where[1]
        if hit:
            self.fired = key
            raise KINDS[self.kind](f"injected at {key}")

    def __enter__(self):
        self.initial = self.watch() if self.watch is not None else None
        mon.use_tool_id(TOOL, "vsim-interrupt")
        events = mon.events.LINE
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        if self.calls:
            events |= mon.events.CALL
            mon.register_callback(TOOL, mon.events.CALL, self._call)
        for c in package_codes():
            mon.set_local_events(TOOL, c, events)
        return self

    def __exit__(self, *exc):
        for c in package_codes():
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.free_tool_id(TOOL)


def choose(trace, mode, frac, frac2, exposed=()):
    """A point of a recorded trace. mode 'event': any event equally likely;
    'place': any distinct program place equally likely, then any occurrence of it;
    'exposed': any point at which watched state differed, if there was one."""
    if not trace:
        return None
    if mode == "exposed" and exposed:
        k = exposed[min(int(frac * len(exposed)), len(exposed) - 1)]
        return trace[k], trace[: k + 1].count(trace[k])
    if mode == "exposed":
        mode = "place"
    if mode == "event":
        k = min(int(frac * len(trace)), len(trace) - 1)
        return trace[k], trace[: k + 1].count(trace[k])
    places = list(dict.fromkeys(trace))
    place = places[min(int(frac * len(places)), len(places) - 1)]
    total = trace.count(place)
    return place, 1 + min(int(frac2 * total), total - 1)
