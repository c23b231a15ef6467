"""Deterministic scheduler: real threads, exactly one of which runs at any moment.

Which thread runs next is decided here and only here, at yield points: every simulated
lock operation, every simulated input/output step, and - through the trace function -
lines or byte codes of the code under test.  Time is virtual and advances only when no
thread can run.
"""

import sys
import threading as real_threading
import _thread


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is over."""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, index, name, fn):
        self.index, self.name, self.fn = index, name, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = "ready"  # ready, blocked, sleeping, done
        self.wake = None
        self.why = ""
        self.error = None
        self.timed_out = False


class Scheduler:
    MAX_STEPS = 400_000

    def __init__(self, spec, ctx, trace=None):
        """spec: {"seed":..., "gap": mean distance of preemptions} or {"switches": [[step, index], ...]}"""
        import random

        self.ctx, self.tasks, self.current = ctx, [], None
        self.now, self.steps, self.aborting = 0.0, 0, False
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.deadlock = None
        self.overrun = False
        self.late = 0
        self.taken = []  # switches actually taken at a free choice
        self.explicit = None
        self.trace = trace
        self.preemptions, self.waits, self.abort_at = 0, 0, None
        if "switches" in spec:
            self.explicit = {int(k): int(v) for k, v in spec["switches"]}
        else:
            self.random = random.Random(spec["seed"])
            self.gap = max(1, spec.get("gap", 40))
            self.budget = spec.get("budget", 1_000_000)
            self.next_preempt = self._draw()

    def _draw(self):
        return self.steps + 1 + int(self.random.expovariate(1.0 / self.gap))

    # -- tasks -----------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.baton.acquire()
        try:
            if not self.aborting:
                if self.trace:
                    sys.settrace(self.trace(self))
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as ex:  # noqa
            t.error = ex
        t.state = "done"
        self._leave(t)

    def run(self):
        """Runs all tasks to completion.  Returns normally even on deadlock: see .deadlock"""
        if not self.tasks:
            return
        threads = []
        for t in self.tasks:
            th = real_threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread = th
            th.start()
            threads.append(th)
        first = self._choose(None)
        self.current = first
        first.baton.release()
        self.done.acquire()
        for th in threads:
            th.join()
        self.ctx.simtime += self.now
        self.ctx.steps += self.steps
        self.ctx.switches = self.taken
        self.ctx.stat("preemptions", self.preemptions)

    def _ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _choose(self, current, forced=True):
        """Picks who runs next, among the ready; advances time if nobody is."""
        while True:
            ready = self._ready()
            if ready:
                break
            sleeping = [t for t in self.tasks if t.state == "sleeping"]
            if not sleeping:
                return None
            at = min(t.wake for t in sleeping)
            self.now = max(self.now, at)
            for t in sleeping:
                if t.wake <= self.now:
                    t.state, t.timed_out = "ready", True
        if len(ready) == 1:
            return ready[0]
        if self.explicit is not None:
            k = self.explicit.get(self.steps)
            pick = next((t for t in ready if t.index == k), None)
            return pick or ready[0]
        pick = ready[self.random.randrange(len(ready))]
        self.taken.append([self.steps, pick.index])
        return pick

    def _handoff(self, me, nxt, traced=False):
        self.current = nxt
        if nxt is me:
            return
        self.ctx.event("run", nxt.index)
        nxt.baton.release()
        me.baton.acquire()
        if self.aborting and not traced:
            raise SimAbort()

    def _leave(self, me):
        """The current task is finished."""
        if self.aborting:
            self._abort_next()
            return
        if all(t.state == "done" for t in self.tasks):
            self.done.release()
            return
        self.steps += 1
        nxt = self._choose(None)
        if nxt is None:
            self._stop_deadlock()
            self._abort_next()
            return
        self.current = nxt
        self.ctx.event("run", nxt.index)
        nxt.baton.release()

    def _stop_deadlock(self):
        self.deadlock = [(t.name, t.why) for t in self.tasks if t.state != "done"]
        self.aborting = True

    def _abort_next(self):
        for t in self.tasks:
            if t.state != "done":
                self.current = t
                t.baton.release()
                return
        self.done.release()

    # -- called by the running task ---------------------------------------------
    def me(self):
        t = self.current
        if t is not None and getattr(t, "thread", None) is real_threading.current_thread():
            return t
        return None

    def inside(self):
        return self.me() is not None

    def point(self, why=""):
        """A place where the scheduler may run somebody else."""
        me = self.me()
        if me is None:
            return
        # The interpreter does not survive an exception out of a trace function for byte codes:
        # a run that is over unwinds at the next lock, stream or socket operation instead, none of
        # which has an effect from then on.
        traced = why == "op" or why == "line"
        if self.aborting:
            self.late += 1
            if not traced or self.late > self.MAX_STEPS:
                raise SimAbort()
            return
        self.steps += 1
        if self.abort_at is not None and self.steps >= self.abort_at:
            self.aborting = True
        elif self.steps > self.MAX_STEPS:
            self.overrun = True
            self.aborting = True
        if self.aborting:
            if traced:
                return
            raise SimAbort()
        if self.explicit is not None:
            k = self.explicit.get(self.steps)
            if k is None or k == me.index:
                return
            nxt = next((t for t in self._ready() if t.index == k), None)
            if nxt is None:
                return
            self.preemptions += 1
            self._handoff(me, nxt, traced)
            return
        if self.steps >= self.next_preempt and self.budget > 0:
            self.next_preempt = self._draw()
            others = [t for t in self._ready() if t is not me]
            if others:
                nxt = others[self.random.randrange(len(others))]
                self.taken.append([self.steps, nxt.index])
                self.preemptions += 1
                self.budget -= 1
                self._handoff(me, nxt, traced)

    def block(self, why, until=None):
        """Suspends the running task until wake() or until a time; returns True on time out."""
        me = self.me()
        if self.aborting:
            raise SimAbort()
        self.steps += 1
        self.waits += 1
        me.state, me.why, me.wake, me.timed_out = ("sleeping" if until is not None else "blocked"), why, until, False
        nxt = self._choose(me)
        if nxt is None:
            me.state = "ready"
            self._stop_deadlock()
            raise SimAbort()
        self._handoff(me, nxt)
        return me.timed_out

    def wake(self, t):
        if t.state in ("blocked", "sleeping"):
            t.state, t.timed_out = "ready", False

    def sleep(self, seconds, why="sleep"):
        self.block(why, self.now + max(0.0, seconds))


# -- simulated locks --------------------------------------------------------------

_active = None


def activate(s):
    global _active
    _active = s


class SimLock:
    """Lock whose waiting is decided by the scheduler.  Outside a run it never blocks."""

    _re = False

    def __init__(self):
        self._owner, self._count, self._waiters = None, 0, []

    def _id(self):
        s = _active
        t = s.me() if s else None
        return (t if t is not None else real_threading.get_ident()), s if t is not None else None

    def acquire(self, blocking=True, timeout=-1):
        who, s = self._id()
        if s is not None:
            s.point("acquire")
        deadline = None if (s is None or timeout is None or timeout < 0) else s.now + timeout
        while True:
            if self._owner is None or (self._re and self._owner == who):
                self._owner = who
                self._count += 1
                return True
            if not blocking:
                return False
            if s is None:
                raise Deadlock("a lock is held for ever")
            me = s.me()
            self._waiters.append(me)
            try:
                late = s.block("lock", deadline)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
            if late:
                return False

    def release(self):
        who, s = self._id()
        if s is not None and s.aborting:
            self._owner, self._count = None, 0
            return
        if self._owner is None or (self._re and self._owner != who):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if s is not None:
                for t in list(self._waiters):
                    s.wake(t)
                del self._waiters[:]
        if s is not None:
            s.point("release")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _is_owned(self):
        return self._owner == self._id()[0]


class SimRLock(SimLock):
    _re = True

    def _release_save(self):
        n, self._count = self._count, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock or SimRLock()
        self._waiting = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        s = _active
        me = s.me() if s else None
        if me is None:
            raise Deadlock("wait outside a run")
        n, self._lock._count = self._lock._count, 1
        self._waiting.append(me)
        self._lock.release()
        late = False
        if me in self._waiting:
            late = s.block("condition", None if timeout is None else s.now + timeout)
        if me in self._waiting:
            self._waiting.remove(me)
        self._lock.acquire()
        self._lock._count = n
        return not late

    def wait_for(self, predicate, timeout=None):
        v = predicate()
        while not v:
            if not self.wait(timeout):
                return predicate()
            v = predicate()
        return v

    def notify(self, n=1):
        for t in self._waiting[:n]:
            self._waiting.remove(t)
            _active.wake(t)

    def notify_all(self):
        self.notify(len(self._waiting))


class SimSemaphore:
    def __init__(self, value=1):
        self._cond, self._value = SimCondition(SimLock()), value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._value == 0:
                if not blocking or not self._cond.wait(timeout):
                    return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self):
        self._cond, self._flag = SimCondition(SimLock()), False

    def is_set(self):
        return self._flag

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            while not self._flag:
                if not self._cond.wait(timeout):
                    break
            return self._flag


def threading_proxy():
    from sim.runtime import ModuleProxy

    return ModuleProxy(real_threading, Lock=SimLock, RLock=SimRLock, Condition=SimCondition, Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore, Event=SimEvent)


def tracer(opcode_files, line_files, every=1):
    """Trace function factory: byte-code granularity in some files, line granularity in others."""

    def make(s):
        def local_op(frame, event, arg):
            if event == "opcode":
                s.point("op")
            return local_op

        def local_line(frame, event, arg):
            if event == "line":
                s.point("line")
            return local_line

        def top(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(opcode_files):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local_op
            if line_files and name.endswith(line_files):
                return local_line
            return None

        return top

    return make
