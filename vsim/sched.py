"""A deterministic preemptive scheduler for real threads that execute package code.

Exactly one simulated thread holds the baton. It can lose it only at scheduling points:
LINE and CALL events (sys.monitoring) of package code, operations on locks that the
package created, and its end. Which point switches to which thread is decided by a pure
function of (seed, thread, operation, count), so that one plan is one interleaving.
"""
import sys
import threading
import weakref

from vsim import interrupt
from vsim.rng import h, stream, uniform

TOOL = 4
mon = sys.monitoring
_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock
CURRENT = None  # the running scheduler
LOCKS = weakref.WeakSet()


class Abort(BaseException):
    """Unwinds threads that can never run again."""


# ---------------------------------------------------------------- locks of the package
class SimLock:
    """A lock created by package code; its waiting is visible to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.depth = None, 0
        LOCKS.add(self)

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = threading.get_ident()
        t = s.by_ident.get(me) if s else None
        if t is not None:
            s.point(t, ("lock",), 1, force=True)
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if t is None:
                raise RuntimeError("lock is held by a thread that is not running")
            if timeout is not None and timeout > 0:
                return False  # simulated time passes when nothing else can happen
            s.block(t, self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = CURRENT
            if s:
                s.wake(self)
                t = s.by_ident.get(threading.get_ident())
                if t is not None:
                    s.point(t, ("unlock",), 1, force=True)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _factory(real, reentrant):
    def make():
        name = sys._getframe(1).f_globals.get("__name__", "")
        if name == "skillmodels" or name.startswith("skillmodels."):
            return SimLock(reentrant)
        return real()

    return make


def install_locks():
    """Before the package is imported: locks it creates are simulated ones."""
    assert "skillmodels" not in sys.modules or threading.Lock is not _REAL_LOCK
    if threading.Lock is _REAL_LOCK:
        threading.Lock = _factory(_REAL_LOCK, False)
        threading.RLock = _factory(_REAL_RLOCK, True)


# --------------------------------------------------------------------------- scheduler
class Thread:
    def __init__(self, n, body):
        self.n, self.body = n, body
        self.sem = threading.Semaphore(0)
        self.op = 0
        self.count = 0
        self.pending = False
        self.wrote = False
        self.done = False
        self.waiting = None
        self.error = None


class Scheduler:
    def __init__(self, bodies, rule, atomic_jax=True, stall=60.0, watch=None):
        self.threads = [Thread(n, b) for n, b in enumerate(bodies)]
        self.rule = rule
        self.atomic_jax = atomic_jax
        self.stall = stall
        self.by_ident = {}
        self.finished = threading.Event()
        self.steps = 0
        self.switches = []  # chosen by the rule
        self.forced = []  # the running thread ended or had to wait
        self.places = set()
        self.deadlock = None
        self.free = False  # baton passing given up (stalled outside our control)
        self.aborting = False
        self.watch = watch
        self.seen = watch() if watch is not None else None
        self.writes = 0

    # -- events
    def _line(self, code, line):
        t = self.by_ident.get(threading.get_ident())
        if t is not None:
            self.point(t, (code.co_filename, code.co_qualname), line)

    def _call(self, code, offset, func, arg0):
        t = self.by_ident.get(threading.get_ident())
        if t is not None:
            self.point(t, (code.co_filename, code.co_qualname), -offset - 1)

    def point(self, t, place, pos, force=False):
        if self.free:
            return
        self.steps += 1
        t.count += 1
        if self.watch is not None and pos > 0:
            self.look(t)
        if not t.pending:
            target = self.rule(t, place, pos)
            if t.wrote and target is None:
                target = self.rule.after_write(t)
            t.wrote = False
            if target is None:
                if not force or not self.rule.at_locks(t):
                    return
            t.pending = True
            t.want = None if target in (None, -1) else target
        others = [o for o in self.threads if o is not t and not o.done and not o.waiting]
        if not others:
            t.pending = False
            return
        if self.atomic_jax and _inside_jax():
            return  # stays pending until the call into jax is over
        t.pending = False
        to = others[self.pick(t, len(others))] if t.want is None else next(
            (o for o in others if o.n == t.want), others[0])
        self.switches.append([t.n, t.op, t.count, to.n])
        self.places.add((place[-1], pos))
        self.hand_over(t, to)

    def look(self, t):
        """Notes that the thread has just changed state that all threads share."""
        now = self.watch()
        if now != self.seen:
            self.writes += 1
            t.wrote = True
            self.seen = now

    def pick(self, t, k):
        return h("pick", self.rule.seed, t.n, t.op, t.count) % k

    def hand_over(self, t, to):
        to.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise Abort

    def block(self, t, lock):
        if self.free:
            import time

            time.sleep(0.001)
            return
        t.waiting = lock
        others = [o for o in self.threads if o is not t and not o.done and not o.waiting]
        if not others:
            self.give_up()
            raise Abort
        to = others[self.pick(t, len(others))]
        self.forced.append([t.n, t.op, t.count, to.n])
        self.hand_over(t, to)

    def wake(self, lock):
        for o in self.threads:
            if o.waiting is lock:
                o.waiting = None

    def give_up(self):
        self.deadlock = [[o.n, o.op] for o in self.threads if not o.done]
        self.aborting = True
        for o in self.threads:
            if not o.done:
                o.sem.release()
        self.finished.set()

    # -- threads
    def _main(self, t):
        t.sem.acquire()
        try:
            if not self.aborting:
                t.body(t)
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.error = e
        t.done = True
        if self.aborting:
            return
        others = [o for o in self.threads if not o.done and not o.waiting]
        if self.free:
            if all(o.done for o in self.threads):
                self.finished.set()
        elif others:
            to = others[self.pick(t, len(others))]
            self.forced.append([t.n, t.op, t.count, to.n])
            to.sem.release()
        elif all(o.done for o in self.threads):
            self.finished.set()
        else:
            self.give_up()

    def run(self):
        global CURRENT
        codes = interrupt.package_codes()
        ths = [threading.Thread(target=self._main, args=(t,), daemon=True)
               for t in self.threads]
        for th in ths:
            th.start()
        self.by_ident = {th.ident: t for th, t in zip(ths, self.threads)}
        mon.use_tool_id(TOOL, "vsim-sched")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.register_callback(TOOL, mon.events.CALL, self._call)
        for c in codes:
            mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.CALL)
        CURRENT = self
        try:
            self.threads[self.rule.first(len(self.threads))].sem.release()
            seen, quiet_rounds = -1, 0
            while not self.finished.wait(self.stall / 10):
                now = self.steps + len(self.switches) + len(self.forced)
                quiet_rounds = quiet_rounds + 1 if now == seen else 0
                seen = now
                if quiet_rounds >= 10 and not self.free:
                    self.free = True  # the baton holder waits for something real
                    quiet_rounds = 0
                    for t in self.threads:
                        t.sem.release()
                elif quiet_rounds >= 20:
                    self.deadlock = [[o.n, o.op] for o in self.threads if not o.done]
                    break
            for th in ths:
                th.join(30 if self.deadlock is None else 2)
            if self.deadlock is not None:
                for lock in LOCKS:
                    lock.owner, lock.depth = None, 0
        finally:
            CURRENT = None
            for c in codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.register_callback(TOOL, mon.events.CALL, None)
            mon.free_tool_id(TOOL)
        return self


def _inside_jax():
    f = sys._getframe(2)
    while f is not None:
        if "/jax/" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


class Rule:
    """Where to switch. kinds: rate (every point with probability p), place (points at
    randomly marked places), write (mostly right after a thread has changed state that
    threads share), given (an explicit list of [thread, op, count, to])."""

    def __init__(self, spec):
        self.spec = spec
        self.seed = spec.get("seed", 0)
        self.given = None
        self.streams, self.marked = {}, {}
        if spec["kind"] == "given":
            self.given = {(a, b, c): d for a, b, c, d in spec["switches"]}

    def __call__(self, t, place, pos):
        """None: go on. Otherwise the number of the thread to run (-1: any other)."""
        s = self.spec
        if s["kind"] == "given":
            return self.given.get((t.n, t.op, t.count))
        key = (t.n, t.op)
        if key not in self.streams:
            self.streams[key] = stream(self.seed, *key)
        hit = self.streams[key].random() < s["p"]
        if hit and s["kind"] == "place":
            where = (place[-1], pos)
            if where not in self.marked:
                self.marked[where] = uniform(self.seed, "place", *where) < s["q"]
            hit = self.marked[where]
        return -1 if hit else None

    def after_write(self, t):
        if self.spec["kind"] != "write":
            return None
        hit = uniform(self.seed, "write", t.n, t.op, t.count) < self.spec["q"]
        return -1 if hit else None

    def at_locks(self, t):
        return (self.spec["kind"] != "given"
                and uniform(self.seed, "lock", t.n, t.op, t.count) < 0.4)

    def first(self, n):
        return self.spec.get("first", 0) % n
