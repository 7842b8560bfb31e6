"""Baton scheduler: user threads of the code under test, exactly one running at a time. It may be pre-empted before any
source line of switss and at every child process event; which thread runs next is decided by the scenario.

plan: {"points": [[step, pick], ...]} - at the given step (a global count of pre-emption opportunities) another runnable
thread takes over; or {"rate": p, "seed": s} - at every opportunity with probability p (recorded as points)."""
import sys, threading
import world as W
from rng import stream

REAL_LOCK, REAL_RLOCK, REAL_THREAD = threading.Lock, threading.RLock, threading.Thread
SRC = None


class Abort(W.Harness):
    pass


class SimLock:
    """Locks made by switss: contention hands the baton on instead of blocking the only running thread."""
    def __init__(self, reentrant):
        self._re, self._owner, self._count, self._real = reentrant, None, 0, REAL_RLOCK()

    def _me(self):
        s = W.CUR.sched if W.CUR is not None else None
        return (s, s.cur) if s is not None and s.cur is not None else (None, "main")

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        while self._count and not (self._re and self._owner == me):
            if not blocking:
                return False
            if s is None:
                raise W.Violation("deadlock", "a request waits for a lock that nobody will release (held by %s)" % (self._owner,))
            s.blocked(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install(src):
    global SRC
    SRC = src

    def maker(real, re):
        def make():
            return SimLock(re) if sys._getframe(1).f_code.co_filename.startswith(src) else real()
        return make
    threading.Lock, threading.RLock = maker(REAL_LOCK, False), maker(REAL_RLOCK, True)


class Sched:
    def __init__(self, world, plan, src):
        self.w, self.src = world, src
        self.rate, self.points = plan.get("rate"), {}
        for k, pick in plan.get("points", ()):
            self.points[k] = pick
        self.rng = stream(plan.get("seed", 0), "sched")
        self.step, self.switches, self.cur = 0, 0, None
        self.recorded, self.trace = [], []
        self.threads, self.sems, self.done, self.waiting, self.result = [], [], [], [], []
        self.main = threading.Semaphore(0)
        self.aborting = False
        self.error = None
        self.interrupted, self.armed_steps = 0, 0
        self.fires = []
        self.stops, self.armed = [], []     # per user: remaining interruptions of the running request {step: kind}; steps taken, or None

    def arm(self, stops):
        """Inside of a request from here on: interrupt it at the given steps (counted from here)."""
        if self.cur is not None and stops:
            self.stops[self.cur], self.armed[self.cur] = dict(stops), 0
            sys.settrace(self._trace)       # a raising trace function had switched tracing off

    def disarm(self):
        if self.cur is not None:
            self.armed_steps = self.armed[self.cur] or 0
            self.armed[self.cur] = None
            sys.settrace(self._trace)

    def _stop(self):
        me = self.cur
        if self.armed[me] is None:
            return
        k = self.armed[me]
        self.armed[me] += 1
        kind = self.stops[me].pop(k, None)
        if kind is not None:
            self.w.fire(kind, k)
            self.interrupted += 1
            self.w.cut(kind)

    def run(self, fns):
        """Run the functions as threads to completion; returns their exceptions (None each when fine)."""
        for i, fn in enumerate(fns):
            self.sems.append(threading.Semaphore(0))
            self.done.append(False)
            self.waiting.append(None)
            self.result.append(None)
            self.fires.append(0)
            self.stops.append({})
            self.armed.append(None)
            t = REAL_THREAD(target=self._body, args=(i, fn), daemon=True)
            self.threads.append(t)
        for t in self.threads:
            t.start()
        self.w.sched = self
        try:
            self._hand(self._pick(None))
            self.main.acquire()
        finally:
            self.aborting = True
            self.w.sched = None
            for i, d in enumerate(self.done):
                if not d:
                    self.sems[i].release()
            for t in self.threads:
                t.join(5)
        if self.error is not None:
            raise self.error
        return self.result

    def _body(self, i, fn):
        self.sems[i].acquire()
        if self.aborting:
            self.done[i] = True
            return
        sys.settrace(self._trace)
        try:
            fn()
        except Abort:
            pass
        except BaseException as e:
            self.result[i] = e
            if isinstance(e, (W.Violation, W.Harness)):
                self.error = e
        finally:
            sys.settrace(None)
            self.done[i] = True
        if self.aborting:
            return
        if self.error is not None or all(self.done):
            self.main.release()
        else:
            self._hand(self._pick(i))

    def _runnable(self, but=None):
        return [i for i in range(len(self.done)) if not self.done[i] and i != but and not (self.waiting[i] is not None and self.waiting[i]._count)]

    def _pick(self, but):
        """Next thread when the current one ends or blocks: the lowest runnable one, unless the plan says otherwise."""
        r = self._runnable(but)
        if not r:
            self.error = W.Violation("deadlock", "no user can go on: %s" % self.trace[-5:])
            self.main.release()
            return None
        if self.rate is not None:
            return self.rng.choice(r)
        k = self.points.get(-self.switches - 1)
        return r[k % len(r)] if k is not None else r[0]

    def _hand(self, i):
        if i is None:
            return
        if self.rate is not None:
            r = self._runnable(None)
            if r.index(i):
                self.recorded.append([-self.switches - 1, r.index(i)])
        self.switches += 1
        self.cur = i
        self.trace.append([self.step, i])
        self.sems[i].release()

    def _switch(self, to):
        me = self.cur
        self._hand(to)
        self.sems[me].acquire()
        if self.aborting:
            raise Abort()

    def blocked(self, lock):
        me = self.cur
        self.waiting[me] = lock
        to = self._pick(me)
        if to is None:
            self.sems[me].acquire()
            raise Abort()
        self._switch(to)
        self.waiting[me] = None

    def point(self, name):
        if self.cur is None or self.aborting:
            return
        self._maybe(0.3 if self.rate else 0)
        self._stop()

    def _maybe(self, least=0.0):
        k = self.step
        self.step += 1
        if self.rate is not None:
            if self.rng.random() >= max(self.rate, least):
                return
            r = self._runnable(self.cur)
            if not r:
                return
            x = self.rng.randrange(len(r))
            self.recorded.append([k, x])
            self._switch(r[x])
        elif k in self.points:
            r = self._runnable(self.cur)
            if r:
                self._switch(r[self.points[k] % len(r)])

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.src):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and not self.aborting and self.w.sched is self:
            self._maybe()
            self._stop()
        return self._line
