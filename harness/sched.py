"""Engine B: real threads, one running at a time, switched at backend operations.

Switch points are the hooks of the monitored backend (before and after every
operation) and explicit points of the workload. A thread that does not come
back (blocked on a lock of the code under test) loses the baton after a while.
"""
import os
import sys
import threading

from core import Inconclusive
from env import REPO

LIBRARY = (os.path.realpath(REPO) + os.sep, REPO.rstrip('/') + os.sep)

_tls = threading.local()
PATIENCE = 1.0


class Task(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.gate = threading.Lock()
        self.gate.acquire()
        self.state = 'ready'
        self.error = None
        self.priority = 0
        self.cool = 0


class Sched(object):
    def __init__(self, rng, policy=None, limit=20000):
        self.rng = rng
        self.mutex = threading.Lock()
        self.tasks = []
        self.current = None
        self.policy = policy or rng.choice(['uniform', 'uniform', 'sticky', 'very sticky', 'pct', 'pct', 'park', 'park'])
        self.steps = 0
        self.limit = limit
        self.switches = []
        self.stolen = 0
        self.aborting = False
        self.done = threading.Lock()
        self.done.acquire()
        self.finished = False
        self.change = set()
        self.plan = []
        self.hot = set()         # names of tasks where a long stop is most interesting now
        self.line_rate = 0       # probability of a switch point at a line of the library
        self.lines = 0

    def add(self, name, fn):
        self.tasks.append(Task(name, fn))

    def choose(self, me):
        """The task to run next; with the mutex."""
        ready = [t for t in self.tasks if t.state == 'ready' or (t is me and t.state == 'running')]
        if not ready:
            return None
        if self.policy == 'plan':       # [[name, points, only while hot], ...]
            if me is not None and me.state == 'running' and self.plan and self.plan[0][0] == me.name:
                if not self.plan[0][2] or me.name in self.hot:
                    self.plan[0][1] -= 1
                if self.plan[0][1] > 0:
                    return me
                self.plan.pop(0)
            while self.plan:
                for t in ready:
                    if t.name == self.plan[0][0]:
                        return t
                self.plan.pop(0)
            return me if me in ready else self.rng.choice(ready)
        if self.policy == 'park':       # a thread stops for long, and the others go on
            if me is not None and me.state == 'running' and self.rng.random() < (0.3 if me.name in self.hot else 0.05):
                me.cool = self.steps + self.rng.randint(5, 80)
            awake = [t for t in ready if t.cool <= self.steps] or ready
            if me in awake and me.state == 'running' and self.rng.random() < 0.9:
                return me
            return self.rng.choice(awake)
        if me is not None and me.state == 'running':
            p = {'uniform': None, 'sticky': 0.75, 'very sticky': 0.93, 'pct': None}[self.policy]
            if p is not None and self.rng.random() < p:
                return me
        if self.policy == 'pct':
            if self.steps in self.change and me is not None:
                me.priority = -self.steps
            return max(ready, key=lambda t: t.priority)
        return self.rng.choice(ready)

    def point(self, *label):
        """A switch point, called by the running task."""
        me = getattr(_tls, 'task', None)
        if me is None or getattr(_tls, 'sched', None) is not self:
            return
        with self.mutex:
            if self.aborting:
                raise Inconclusive('aborted')
            if self.current is me:
                self.steps += 1
                if self.steps > self.limit:
                    self.aborting = True
                    raise Inconclusive('too many steps')
                nxt = self.choose(me)
                if nxt is me:
                    return
                me.state = 'ready'
                self.give(nxt)
            else:              # had been given up as blocked
                me.state = 'ready'
                if self.current is None:
                    self.give(self.choose(None))
        self.wait(me)

    def give(self, task):
        self.current = task
        if task is None:
            return
        task.state = 'running'
        self.switches.append(task.name)
        task.gate.release()

    def wait(self, me):
        while not me.gate.acquire(timeout=PATIENCE):
            with self.mutex:
                if self.aborting:
                    raise Inconclusive('aborted')
                holder, steps = self.current, self.steps
            if me.gate.acquire(timeout=PATIENCE / 2):
                return
            with self.mutex:
                if self.current is holder and self.steps == steps and holder is not None and holder is not me \
                        and holder.state == 'running':
                    holder.state = 'blocked'
                    self.stolen += 1
                    self.give(self.choose(None))

    def _trace(self, frame, event, arg):
        if event == 'call':
            if frame.f_code.co_filename.startswith(LIBRARY):
                return self._trace
            return None
        if event == 'line' and self.rng.random() < self.line_rate:
            self.lines += 1
            self.point()
        return self._trace

    def _run(self, task):
        _tls.task = task
        _tls.sched = self
        try:
            self.wait(task)
            if self.line_rate:
                sys.settrace(self._trace)
            try:
                task.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            import traceback
            e._tb = traceback.format_exc()
            task.error = e
        finally:
            with self.mutex:
                task.state = 'done'
                if self.current is task or self.current is None:
                    self.current = None
                    nxt = self.choose(None)
                    if nxt is not None:
                        self.give(nxt)
                if all(t.state == 'done' for t in self.tasks) and not self.finished:
                    self.finished = True
                    self.done.release()
            _tls.task = _tls.sched = None

    def run(self, timeout=60):
        if self.policy == 'pct':
            order = list(range(len(self.tasks)))
            self.rng.shuffle(order)
            for t, p in zip(self.tasks, order):
                t.priority = p + 1
            self.change = set(self.rng.randrange(1, 150) for _ in range(self.rng.randint(1, 5)))
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._run, args=(t,), name='worker')
            th.daemon = True
            th.start()
            threads.append(th)
        with self.mutex:
            self.give(self.choose(None))
        if not self.done.acquire(timeout=timeout):
            with self.mutex:
                self.aborting = True
            raise Inconclusive('threads do not finish: %s' % [(t.name, t.state) for t in self.tasks])
        for th in threads:
            th.join(5)
        for t in self.tasks:
            if t.error is not None:
                raise t.error
