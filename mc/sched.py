"""A controlled scheduler for real Python threads.

Every thread under control stops (i) before every shared-memory opcode executed in a file of the
package under check (sys.settrace, opcode events), (ii) at every operation of a cooperative lock and
(iii) at explicit points of the driver. Only one thread runs at a time; which one runs next is
the explorer's choice, so a schedule is a list of choices and is replayed exactly.
"""

import dis
import sys
import threading as _t

_RealLock, _RealRLock, _Thread, _Sem = _t.Lock, _t.RLock, _t.Thread, _t.Semaphore
ACCESS = {
    "LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_NAME", "STORE_NAME", "LOAD_ATTR", "STORE_ATTR",
    "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "LOAD_DEREF", "STORE_DEREF",
}  # fmt: skip
CURRENT = None  # the running Execution, if any


class Abort(BaseException):
    """Unwinds the controlled threads of an abandoned execution."""


class CoopLock:
    """Lock/RLock whose waiting is visible to the scheduler (a plain lock elsewhere)."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return CURRENT.me() if CURRENT is not None else None

    def available(self, who):
        return self.owner is None or (self.reentrant and self.owner == who)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        who = me if me is not None else ("real", _t.get_ident())
        if me is not None:
            CURRENT.point(None if (not blocking or timeout >= 0) else self)
        if not self.available(who):
            if blocking and timeout < 0:
                raise RuntimeError("lock is busy outside of the scheduler")
            return False
        self.owner, self.count = who, self.count + 1
        return True

    def release(self):
        me = self._me()
        who = me if me is not None else ("real", _t.get_ident())
        if self.owner is None or (self.reentrant and self.owner != who):
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if me is not None:
            CURRENT.point(None)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def patch_locks():
    _t.Lock = lambda: CoopLock(False)
    _t.RLock = lambda *a: CoopLock(True)


def unpatch_locks():
    _t.Lock, _t.RLock = _RealLock, _RealRLock


class Point:
    __slots__ = ("enabled", "running", "choice")

    def __init__(self, enabled, running, choice):
        self.enabled, self.running, self.choice = enabled, running, choice


_codes = {}


def _offsets(code):
    r = _codes.get(code)
    if r is None:
        r = _codes[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in ACCESS)
    return r


class Execution:
    """One complete run of the thread bodies under a list of choices (then choice 0)."""

    MAXPOINTS = 5000

    def __init__(self, bodies, files, prefix=()):
        self.bodies = bodies
        self.files = files
        self.prefix = list(prefix)
        self.points = []
        n = len(bodies)
        self.wait = [None] * n  # lock a thread waits for
        self.done = [False] * n
        self.sems = [_Sem(0) for _ in range(n)]
        self.main = _Sem(0)
        self.ids = {}
        self.errors = [None] * n
        self.deadlock = False
        self.diverged = False
        self.aborting = False
        self.running = None

    def me(self):
        return self.ids.get(_t.get_ident())

    def enabled(self):
        return [
            i for i in range(len(self.bodies))
            if not self.done[i] and (self.wait[i] is None or self.wait[i].available(i))
        ]

    def _choose(self):
        en = self.enabled()
        if not en:
            return None
        cur = self.running
        if cur in en:  # canonical order: the running thread first
            en = [cur] + [i for i in en if i != cur]
        k = len(self.points)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(en) or k > self.MAXPOINTS:
            self.diverged = True
            c = 0
        self.points.append(Point(en, cur in en, c))
        return en[c]

    def _handoff(self, nxt, me):
        self.running = nxt
        if nxt == me:
            return
        self.sems[nxt].release()
        if me is not None and not self.done[me]:
            self.sems[me].acquire()
            if self.aborting:
                raise Abort

    def point(self, lock):
        me = self.me()
        if self.aborting:
            raise Abort
        self.wait[me] = lock
        nxt = self._choose()
        if nxt is None:
            self.deadlock = True
            self._abort()
            raise Abort
        self._handoff(nxt, me)
        self.wait[me] = None

    def _abort(self):
        self.aborting = True
        for s in self.sems:
            s.release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti in _offsets(frame.f_code):
            if not self.aborting:
                self.point(None)
        return self._local

    def _run(self, i):
        self.ids[_t.get_ident()] = i
        self.sems[i].acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                try:
                    self.bodies[i](self)
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        self.done[i] = True
        if self.aborting or all(self.done):
            if all(self.done):
                self.main.release()
            return
        nxt = self._choose()
        if nxt is None:
            self.deadlock = True
            self._abort()
        else:
            self.running = nxt
            self.sems[nxt].release()

    def run(self):
        global CURRENT
        CURRENT = self
        ths = [_Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ths:
            t.start()
        while len(self.ids) < len(ths):  # ids are registered before the first semaphore
            pass
        first = self._choose()
        self.running = first
        self.sems[first].release()
        for t in ths:
            t.join(60)
            if t.is_alive():
                raise RuntimeError("a controlled thread does not reach its next scheduling point")
        CURRENT = None
        return self


def explore(make, files, bound, check, stats, limit=None):
    """Every schedule with at most `bound` preemptions; `make()` gives fresh bodies."""
    stack = [[]]
    while stack:
        prefix = stack.pop()
        x = Execution(make(), files, prefix).run()
        stats["schedules"] = stats.get("schedules", 0) + 1
        stats["points"] = stats.get("points", 0) + len(x.points)
        if x.diverged:
            raise RuntimeError(f"replay of {prefix} diverged")
        if check(x) is False:
            return x
        cost = 0
        for k, p in enumerate(x.points):
            if k >= len(prefix):
                c = cost + (1 if p.running else 0)
                if c <= bound:
                    base = [q.choice for q in x.points[:k]]
                    stack += [base + [a] for a in range(1, len(p.enabled))]
            if p.running and p.choice != 0:
                cost += 1
        if limit and stats["schedules"] >= limit:
            raise RuntimeError("schedule limit reached")
    return None
