"""Threads of the simulated machine, one running at a time.

Real threads execute the code under test; a baton makes sure only one of them runs. It can change
hands at every call, line and return inside /repo and at every simulated system call. Which
thread gets it, and for how long, comes from the run's choices, so a schedule is repeatable.
"""

import sys
import threading
import _thread

import inject
import world
from core import HarnessError

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident
ROOT = inject.ROOT
SCHED = None            # the active scheduler


class _Gone(BaseException):
    """Unwinds a thread of a run that is over."""


class Task(object):
    def __init__(self, k, name, fn):
        self.k, self.name, self.fn = k, name, fn
        self.wake = _alloc()
        self.wake.acquire()
        self.done = False
        self.blocked = None         # the lock it waits for
        self.value = self.error = None
        self.points = 0
        self.strike = None          # (point, exception)
        self.fired = None
        self.raised = None
        self.prio = 0
        self.last_op = None


class Scheduler(object):
    """mode: 'runs' - switch after drawn run lengths; 'priorities' - the highest priority runs, and loses
    it at drawn points; 'alone' - one after the other."""

    def __init__(self, ctx, w, mode="runs", lengths=(1, 4, 20, 100, 1000), changes=3, horizon=4000, max_points=5000000):
        self.ctx, self.w, self.mode = ctx, w, mode
        self.lengths = lengths
        self.horizon = horizon
        self.changes = changes
        self.max_points = max_points
        self.tasks = []
        self.current = None
        self.points = 0
        self.switches = 0
        self.left = 0
        self.change_at = set()
        self.stuck = None
        self.over = False
        self.finished = _alloc()
        self.path = []              # schedule, for the distinct interleavings count

    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    # -- running -------------------------------------------------------------------------

    def run(self):
        global SCHED
        if SCHED is not None:
            raise HarnessError("a scheduler is already active")
        c = self.ctx.c
        order = list(range(len(self.tasks)))
        for i in range(len(order) - 1, 0, -1):
            j = i - c.choose(i + 1)
            order[i], order[j] = order[j], order[i]
        for p, k in enumerate(order):
            self.tasks[k].prio = p + self.changes + 1
        if self.mode == "priorities":
            for i in range(self.changes):
                self.change_at.add(c.choose(self.horizon))
        self.finished.acquire()
        SCHED = self
        hook, self.w.yield_hook = self.w.yield_hook, self.on_event
        try:
            for t in self.tasks:
                _start(self._body, (t,))
            first = self._next()
            self._give(first)
            self.finished.acquire()
        finally:
            SCHED = None
            self.w.yield_hook = hook
        if self.stuck:
            self.w.stopped = self.stuck
            raise world.SimStop()
        return self.tasks

    def _body(self, t):
        t.wake.acquire()
        try:
            if not self.over:
                sys.settrace(self.trace)
                try:
                    t.value = t.fn()
                finally:
                    sys.settrace(None)
        except _Gone:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        try:
            self._pass_on()
        except _Gone:
            pass

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked is None or t.blocked.free())]

    def _next(self):
        """Who runs next; None: nobody can."""
        ready = self._runnable()
        if not ready:
            return None
        if self.mode == "alone":
            return ready[0]
        if self.mode == "priorities":
            return max(ready, key=lambda t: t.prio)
        t = ready[self.ctx.c.choose(len(ready))]
        return t

    def _draw(self):
        c = self.ctx.c
        if self.mode == "runs":
            self.left = 1 + c.choose(c.pick(self.lengths))

    def _give(self, t):
        self._draw()
        self.current = t
        self.path.append((t.k, self.points))
        self.ctx.log("switch", t.name, self.points)
        t.wake.release()

    def _pass_on(self):
        """The running thread has ended."""
        nxt = self._next()
        if nxt is None:
            if any(not t.done for t in self.tasks):
                self.stuck = "deadlock: %s" % ", ".join(t.name for t in self.tasks if not t.done)
                self._release_all()
            self.finished.release()
            return
        self._give(nxt)

    def _release_all(self):
        self.over = True
        for t in self.tasks:
            if not t.done and t is not self.current:
                t.wake.release()

    def me(self):
        t = self.current
        return t

    def switch(self):
        """The running thread offers the baton."""
        t = self.current
        nxt = self._next()
        if nxt is t:
            self._draw()
            return
        if nxt is None:
            self.stuck = "deadlock: every thread waits for a lock"
            self._abort(t)
        self.switches += 1
        self._give(nxt)
        t.wake.acquire()
        if self.over:
            raise _Gone()

    def _abort(self, t):
        self.over = True
        for x in self.tasks:
            if not x.done and x is not t:
                x.wake.release()
        t.done = True
        self.finished.release()
        raise _Gone()

    def point(self):
        self.points += 1
        if self.points > self.max_points:
            self.stuck = "more than %d steps" % self.max_points
            self._abort(self.current)
        if self.mode == "alone":
            return
        if self.mode == "priorities":
            if self.points in self.change_at:
                self.current.prio = -self.points
                self.switch()
            return
        self.left -= 1
        if self.left <= 0:
            self.switch()

    # -- where the baton can change hands ------------------------------------------------

    def on_event(self, kind):
        if self.over:
            raise _Gone()
        self.current.last_op = kind
        self.point()

    def resume(self):
        """Tracing stops with an exception raised by the tracer: a thread starts it again."""
        sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            self.point()
            return self.local
        return None

    def local(self, frame, event, arg):
        t = self.current
        if event == "exception":
            t.raised = frame
            return self.local
        if event == "line":
            self.point()
            if t.raised is frame:
                t.raised = None
            elif t.strike is not None and t.fired is None and self._eligible(frame):
                if t.points == t.strike[0]:
                    t.fired = "%s:%d" % (frame.f_code.co_filename[len(ROOT):], frame.f_lineno)
                    self.ctx.log("strike", t.name, t.fired)
                    raise t.strike[1]("injected")
                t.points += 1
        elif event == "return":
            self.point()
        return self.local

    def _eligible(self, frame):
        lines, bodies = inject.unsafe_lines(frame.f_code.co_filename)
        if frame.f_lineno in lines or frame.f_lineno in bodies:
            return False
        f = frame.f_back
        while f is not None:
            p = f.f_code.co_filename
            if p.startswith(ROOT) and f.f_lineno in inject.unsafe_lines(p)[1]:
                return False
            f = f.f_back
        return self.current.last_op != "open"


# -- locks the code under test may take --------------------------------------------------------

class SimLock(object):
    """threading.Lock / RLock whose waiting is a switch of the simulated scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _who(self):
        return SCHED.current if SCHED is not None else _ident()

    def free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        if self.owner is not None and self.owner is me and self.reentrant:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if SCHED is None:
                raise HarnessError("a lock is waited for outside the simulated threads")
            me.blocked = self
            try:
                SCHED.switch()
            finally:
                me.blocked = None
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner is not self._who()):
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _ours():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(ROOT)


def Lock():
    return SimLock(False) if _ours() else _real_lock()


def RLock():
    return SimLock(True) if _ours() else _real_rlock()


def install():
    threading.Lock = Lock
    threading.RLock = RLock
