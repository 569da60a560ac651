"""Deterministic scheduler for caller threads, and asynchronous-exception injection.

Real Python threads run the real code of /repo one at a time: every source line
of /repo/src executed by a simulated caller is a pre-emption point
(`sys.monitoring` LINE events, optionally every bytecode INSTRUCTION), and only
the holder of the baton runs.  Who runs next, and for how many points, is read
from an explicit schedule: a list of [tid, points] slices; when it is exhausted
the remaining callers run to completion in order.  One schedule is therefore one
exactly repeatable execution.

Locks that the code under test creates through `threading` are replaced by
scheduler-aware locks, so a caller that is pre-empted while holding one does not
stall the simulation, and a deadlock is detected.
"""
import os
import sys
import threading
import zlib
import _thread

M = sys.monitoring
TOOL = 4
REPO_SRC = "/repo/src/"


class DeadlockError(BaseException):
    pass


class StepLimit(BaseException):
    pass


class _Stop(BaseException):
    """unwinds simulated threads after the run was declared over"""


_current = None  # the active Sim


def _in_repo(code):
    return code.co_filename.startswith(REPO_SRC) and code.co_name != "<module>"


def _cb(code, where):
    if not _in_repo(code):
        return M.DISABLE
    sim = _current
    if sim is not None:
        sim.point(code, where)
    return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    M.use_tool_id(TOOL, "verif-sim")
    M.register_callback(TOOL, M.events.LINE, _cb)
    M.register_callback(TOOL, M.events.INSTRUCTION, _cb)
    _installed = True


def enable(instr=False):
    install()
    M.set_events(TOOL, M.events.INSTRUCTION if instr else M.events.LINE)
    M.restart_events()


def disable():
    if _installed:
        M.set_events(TOOL, 0)


# ------------------------------------------------------------------ locks
_REAL_LOCK = _thread.allocate_lock


class SimLock:
    """non re-entrant lock known to the scheduler"""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self._owner is None or (self.reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            sim = _current
            if sim is None or not sim.is_sim_thread():
                raise RuntimeError("SimLock would block outside the simulation")
            if timeout is not None and timeout >= 0:
                return False  # simulated time passes: the wait times out
            sim.block_on(self)

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    reentrant = True


def _from_repo():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        if f.f_globals.get("__name__", "").startswith("andromede"):
            return True
        if f.f_globals.get("__name__") != "threading":
            return False
        f = f.f_back
    return False


def patch_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _from_repo() else real_lock()

    def RLock():
        return SimRLock() if _from_repo() else real_rlock()

    threading.Lock, threading.RLock = Lock, RLock


# ------------------------------------------------------------------ scheduler
class Caller:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.baton = _REAL_LOCK()
        self.baton.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.ident = None
        self.blocked_on = None
        self.points = 0


class Sim:
    """run callers under an explicit schedule.

    trace: list of (tid, points) actually run, and `switch_sites` the distinct
    (file, line, tid -> tid) places where the baton changed hands."""

    def __init__(self, fns, schedule, max_points=20_000_000, instr=False, cyclic=False, hot=None):
        self.callers = [Caller(i, f) for i, f in enumerate(fns)]
        self.schedule = list(schedule)
        self.pos = 0
        self.left = 0
        self.cur = None
        self.total = 0
        self.max_points = max_points
        self.instr = instr
        self.cyclic = cyclic and bool(self.schedule)
        self.trace = []
        self.sites = set()
        self.by_ident = {}
        self.main = _REAL_LOCK()
        self.main.acquire()
        self.failure = None
        self.over = False
        self.switches = 0
        self.digest = 0
        self.hot = hot
        self.hot_memo = {}
        self.hot_switches = 0

    def is_hot(self, code, where):
        """hot places, where the caller always gives way: [kind, modulus, salt] selects about one in
        `modulus` functions ("f") or lines ("l") of the code under test by a hash of their names"""
        key = (id(code), None if self.hot[0] == "f" else where)
        r = self.hot_memo.get(key)
        if r is None:
            name = f"{code.co_filename}:{code.co_name}" if code is not _Ext else "<outside>"
            if self.hot[0] != "f":
                name += f":{where}"
            r = self.hot_memo[key] = zlib.crc32(f"{self.hot[2]}:{name}".encode()) % self.hot[1] == 0
        return r

    def is_sim_thread(self):
        return _thread.get_ident() in self.by_ident

    # --- called in simulated threads
    def point(self, code, where):
        me = self.by_ident.get(_thread.get_ident())
        if me is None:
            return
        if self.over:
            raise _Stop()
        if me is not self.cur:
            return
        me.points += 1
        self.total += 1
        self.digest = (self.digest * 1000003 + where * 31 + me.tid) & 0xFFFFFFFFFFFF
        if self.total > self.max_points:
            self.failure = StepLimit(f"more than {self.max_points} steps")
            self._end()
            raise _Stop()
        self.left -= 1
        hot = self.hot is not None and self.is_hot(code, where)
        if self.left <= 0 or hot:
            nxt = self._choose(me, must_leave=hot) or me
            if nxt is not me:
                self.sites.add((code.co_filename[len(REPO_SRC) :], where))
                self._handover(me, nxt)

    def block_on(self, lock):
        me = self.by_ident[_thread.get_ident()]
        if self.over:
            raise _Stop()
        me.blocked_on = lock
        nxt = self._choose(me, must_leave=True)
        if nxt is None:
            self.failure = DeadlockError("all callers are blocked")
            self._end()
            raise _Stop()
        self._handover(me, nxt)
        me.blocked_on = None

    def _runnable(self, c):
        return not c.done and (c.blocked_on is None or not c.blocked_on.locked())

    def _choose(self, me, must_leave=False):
        """next caller, and its number of points"""
        if self.cyclic and self.pos >= len(self.schedule):
            self.pos = 0
        while self.pos < len(self.schedule):
            tid, n = self.schedule[self.pos]
            self.pos += 1
            c = self.callers[tid % len(self.callers)]
            if self._runnable(c) and not (must_leave and c is me):
                self.left = max(1, n)
                return c
        self.left = 1 << 60
        if me is not None and not must_leave and self._runnable(me):
            return me
        for c in self.callers:
            if self._runnable(c) and not (must_leave and c is me):
                return c
        return None

    def _handover(self, me, nxt):
        self.switches += 1
        if len(self.trace) < 200:
            self.trace.append((me.tid, nxt.tid, self.total))
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.over:
            raise _Stop()

    def _end(self):
        self.over = True
        for c in self.callers:
            if not c.done and c is not self.cur:
                try:
                    c.baton.release()
                except RuntimeError:
                    pass

    def _body(self, c):
        c.ident = _thread.get_ident()
        self.by_ident[c.ident] = c
        c.baton.acquire()
        try:
            if not self.over:
                c.result = c.fn()
        except _Stop:
            pass
        except BaseException as e:  # noqa: the caller's own outcome
            c.error = e
        c.done = True
        if self.over:
            self._check_all()
            return
        nxt = self._choose(c, must_leave=True)
        if nxt is None:
            if any(not x.done for x in self.callers):
                self.failure = DeadlockError("all remaining callers are blocked")
                self._end()
                self._check_all()
            else:
                self.main.release()
            return
        self.switches += 1
        self.trace.append((c.tid, nxt.tid, self.total))
        self.cur = nxt
        nxt.baton.release()

    def _check_all(self):
        if all(x.done for x in self.callers):
            try:
                self.main.release()
            except RuntimeError:
                pass

    def run(self):
        global _current
        for c in self.callers:
            _thread.start_new_thread(self._body, (c,))
        while any(c.ident is None for c in self.callers):
            pass_time()
        _current = self
        enable(self.instr)
        try:
            first = self._choose(None)
            self.cur = first
            first.baton.release()
            self.main.acquire()
        finally:
            _current = None
            disable()
        return self


class _Ext:
    co_filename = REPO_SRC + "<outside>"


def external_point(where, leave=False):
    """a pre-emption point outside the code under test (waiting for a process, a file
    operation ...); leave: another caller must run first when one can"""
    sim = _current
    if sim is None:
        return
    if leave and isinstance(sim, Sim):
        me = sim.by_ident.get(_thread.get_ident())
        if me is not None and me is sim.cur:
            nxt = sim._choose(me, must_leave=True)
            if nxt is not None:
                sim._handover(me, nxt)
            return
    sim.point(_Ext, where)


def pass_time():
    import time

    time.sleep(0.0002)


# ------------------------------------------------------------------ aborts
class _Tracer:
    """counts points of one call in the current thread, and raises at one of them"""

    def __init__(self, at=None, exc=None, sites=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None
        self.seen = {} if sites is None else sites
        self.ident = _thread.get_ident()

    def is_sim_thread(self):
        return False

    def point(self, code, where):
        if _thread.get_ident() != self.ident:
            return
        self.n += 1
        if self.at is None:
            key = (code.co_filename, where)
            l = self.seen.get(key)
            if l is None:
                self.seen[key] = [self.n]
            elif len(l) < 64:
                l.append(self.n)
        elif self.n == self.at:
            self.fired = f"{code.co_filename[len(REPO_SRC):]}:{where}"
            raise self.exc


def profile(fn):
    """run fn; returns (number of points, {site: [ordinals]}, result, error)"""
    global _current
    tr = _Tracer()
    _current = tr
    enable()
    res = err = None
    try:
        res = fn()
    except Exception as e:
        err = e
    finally:
        _current = None
        disable()
    return tr.n, tr.seen, res, err


def run_aborting(fn, at, exc):
    """run fn, raising exc at point number `at`.
    returns (fired site or None, result, error)"""
    global _current
    tr = _Tracer(at, exc)
    _current = tr
    enable()
    res = err = None
    try:
        res = fn()
    except BaseException as e:
        err = e
    finally:
        _current = None
        disable()
    return tr.fired, res, err


# ------------------------------------------------------------------ schedules
def gen_hot(rng):
    """hot places of a run (see Sim.is_hot), or None"""
    if rng.random() < 0.5:
        return None
    k = rng.choice("fl")
    return [k, rng.choice([20, 50, 100] if k == "f" else [50, 100, 300]), rng.randrange(1 << 30)]


def gen_schedule(rng, n_callers, est_points, max_slices=400):
    """slices with log-uniform lengths around a per-run scale (swarm style)"""
    style = rng.random()
    out = []
    if style < 0.15:  # one long run, then a few switches
        n = rng.randint(1, 6)
        for _ in range(n):
            out.append([rng.randrange(n_callers), rng.randint(1, max(2, est_points))])
        return out
    hi = 10 ** rng.uniform(0.3, 3.0)
    n = rng.randint(20, max_slices)
    for _ in range(n):
        ln = int(2 ** rng.uniform(0, max(1.0, __import__("math").log2(hi))))
        if rng.random() < 0.05:
            ln = rng.randint(1, max(2, est_points // 2))
        out.append([rng.randrange(n_callers), max(1, ln)])
    return out
