"""a deterministic scheduler of Python threads

import this module before the code under test.  Locks are replaced by locks that give the scheduler control, everything that
threading and queue build upon locks (conditions, events, queues, futures) follows.  Threads started by Sched.run only run when
they are chosen; they may be preempted before every lock operation and before every line of the files to be traced.
Threads that were not started by a scheduler see ordinary locks."""
import _thread
import random
import sys
import threading
import time

_real_lock = _thread.allocate_lock
_local = threading.local()


class Abort(BaseException):
    """ends the threads of an execution that can not be continued"""


def current():
    return getattr(_local, "task", None)


class Lock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        task = current()
        if task is None:
            return self._l.acquire(blocking, timeout)
        task.switch()
        if self._l.acquire(False):
            return True
        if not blocking or timeout == 0:
            return False
        while True:
            if not task.block(lambda: not self._l.locked(), timeout if timeout >= 0 else None):
                return False
            if self._l.acquire(False):
                return True

    def release(self):
        task = current()
        if task is not None and (task.sched.aborting or task.killed) and not self._l.locked():
            return  # an aborted execution is unwound
        self._l.release()
        if task is not None:
            task.switch()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


threading.Lock = Lock
threading._allocate_lock = Lock
threading.RLock = threading._RLock
_real_sleep, _real_monotonic = time.sleep, time.monotonic


def _sleep(seconds):
    task = current()
    if task is None:
        _real_sleep(seconds)
    else:
        task.block(lambda: False, seconds)


def _monotonic():
    """the clock of an execution only advances by timeouts"""
    task = current()
    return _real_monotonic() if task is None else task.sched.clock


time.sleep = _sleep
time.monotonic = _monotonic
threading._time = _monotonic


class Task:
    def __init__(self, sched, index, thunk):
        self.sched, self.index, self.thunk = sched, index, thunk
        self.go = _real_lock()
        self.go.acquire()
        self.can = None  # what the task waits for
        self.deadline, self.timeout, self.done, self.killed = None, False, False, False
        self.result = ("blocked", None)
        _thread.start_new_thread(self._run, ())

    def _run(self):
        self.go.acquire()
        _local.task = self
        try:
            if self.sched.aborting or self.killed:
                return
            if self.sched.files:
                sys.settrace(self._trace)
            self.result = ("ok", self.thunk())
        except Abort:
            pass
        except BaseException as e:
            self.result = ("raised", e)
        finally:
            sys.settrace(None)
            _local.task = None
            self.done = True
            self.sched.back.release()

    def _trace(self, frame, event, arg):
        return self._line if frame.f_code.co_filename in self.sched.files else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.switch()
        return self._line

    def _yield(self):
        if self.sched.aborting or self.killed:
            raise Abort()
        self.sched.back.release()
        self.go.acquire()
        if self.sched.aborting or self.killed:
            raise Abort()

    def kill(self):
        """ends the task where it is"""
        self.killed = True

    def switch(self):
        if not self.sched.aborting and not self.killed:
            self._yield()

    def block(self, can, timeout):
        """waits until `can`; False if it timed out instead"""
        self.can, self.timeout = can, False
        self.deadline = None if timeout is None else self.sched.clock + timeout
        try:
            self._yield()
        finally:
            self.can = self.deadline = None
        return not self.timeout

    def runnable(self):
        return not self.done and (self.killed or self.can is None or self.can())


_real_thread = threading.Thread


class Thread(_real_thread):
    """threads that a scheduled thread starts are scheduled too"""

    def start(self):
        task = current()
        if task is None:
            return super().start()
        self._task = task.sched.spawn(self.run)
        task.switch()

    def join(self, timeout=None):
        task = current()
        if task is None or getattr(self, "_task", None) is None:
            return super().join(timeout)
        task.block(lambda: self._task.done, timeout)

    def is_alive(self):
        t = getattr(self, "_task", None)
        return not t.done if t else super().is_alive()


threading.Thread = Thread


def until(condition, timeout=None):
    """waits until the condition holds (in a scheduled thread)"""
    task = current()
    task.switch()
    return True if condition() else task.block(condition, timeout)


class Sched:
    """choose(runnable tasks, last task) -> task"""

    def __init__(self, choose, files=(), max_steps=50000, max_tasks=100):
        self.choose, self.files, self.max_steps, self.max_tasks = choose, set(files), max_steps, max_tasks
        self.back = _real_lock()
        self.back.acquire()
        self.aborting = False
        self.steps, self.outcome, self.clock = 0, "done", 1000.0
        self.tasks = []

    def spawn(self, thunk):
        """may also be called by a running task"""
        t = Task(self, len(self.tasks), thunk)
        self.tasks.append(t)
        return t

    def run(self, thunks):
        for t in thunks:
            self.spawn(t)
        last = None
        while not all(t.done for t in self.tasks):
            ready = [t for t in self.tasks if t.runnable()]
            timed = [t for t in self.tasks if not t.done and t.deadline is not None and not t.runnable()]
            if not ready:
                if not timed:
                    self.outcome = "deadlock"
                    break
                t = min(timed, key=lambda x: x.deadline)
                t.timeout = True
                self.clock = max(self.clock, t.deadline)
            else:
                t = ready[0] if len(ready) == 1 else self.choose(ready, last if last in ready else None)
            self.steps += 1
            if self.steps > self.max_steps or len(self.tasks) > self.max_tasks:
                self.outcome = "endless"
                break
            last = t
            t.go.release()
            self.back.acquire()
        if self.outcome != "done":
            self.aborting = True
            while pending := [t for t in self.tasks if not t.done]:  # (ending one may start others)
                for t in pending:
                    t.go.release()
                    self.back.acquire()
        return [t.result for t in self.tasks]


def randomly(r: random.Random):
    """a random scheduler: with few or many preemptions"""
    stay = r.choice([0, .5, .8, .95, .99])

    def choose(ready, last):
        if last is not None and r.random() < stay:
            return last
        return r.choice(ready)
    return choose


def by_priority(r: random.Random, changes=3, length=300):
    """priorities that change at a few random steps (PCT)"""
    prio, at, step = {}, {r.randrange(length) for _ in range(changes)}, [0]

    def choose(ready, last):
        step[0] += 1
        for t in ready:
            prio.setdefault(t.index, r.random() + 1)
        best = max(ready, key=lambda t: prio[t.index])
        if step[0] in at:
            prio[best.index] = r.random() - step[0]
            best = max(ready, key=lambda t: prio[t.index])
        return best
    return choose


def chooser(r: random.Random):
    return randomly(r) if r.random() < .5 else by_priority(r, r.choice([1, 2, 3, 5]), r.choice([50, 150, 400]))
