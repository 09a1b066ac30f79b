"""Verdicts, statistics and thread helpers shared by all checks."""
import hashlib
import threading
import traceback
import queue
from collections import Counter


class Violation(Exception):
    """The property under check was observed to be broken."""

    def __init__(self, mechanism, detail, trace=None):
        Exception.__init__(self, '%s: %s' % (mechanism, detail))
        self.mechanism = mechanism
        self.detail = detail
        self.trace = trace


class Inconclusive(Exception):
    """The case could not be judged (harness limit, watchdog)."""


class StopCase(Exception):
    """The case ends early without a verdict on this property."""


class Stats(object):
    def __init__(self):
        self.obs = Counter()
        self.sigs = set()
        self.samples = []
        self.evaluations = 0

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(repr(parts).encode('utf8')).hexdigest()[:16])

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text if isinstance(text, str) else repr(text))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Crew(object):
    """Persistent named threads; call(name, fn) runs fn there and waits."""

    def __init__(self):
        self.members = {}

    def _loop(self, q):
        while True:
            item = q.get()
            if item is None:
                return
            fn, box, done = item
            try:
                box.append((True, fn()))
            except BaseException as e:
                box.append((False, e))
            done.release()
            del item, fn, box, done

    def call(self, name, fn):
        if name is None:
            return fn()
        if name not in self.members:
            q = queue.Queue()
            t = threading.Thread(target=self._loop, args=(q,), name='worker')    # names of threads need not be unique
            t.daemon = True
            t.start()
            self.members[name] = (t, q)
        t, q = self.members[name]
        if threading.current_thread() is t:
            return fn()
        box = []
        done = threading.Lock()
        done.acquire()
        q.put((fn, box, done))
        if not done.acquire(timeout=60):
            raise Inconclusive('thread %s does not answer' % name)
        ok, value = box[0]
        if ok:
            return value
        raise value

    def close(self):
        for t, q in self.members.values():
            q.put(None)
        for t, q in self.members.values():
            t.join(10)
        self.members = {}


def in_thread(fn):
    """Runs fn in a fresh thread (fresh thread-local state) and returns its result."""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except BaseException as e:
            e._tb = traceback.format_exc()
            box.append((False, e))
    t = threading.Thread(target=run)
    t.daemon = True
    t.start()
    t.join(120)
    if not box:
        raise Inconclusive('case thread does not finish')
    ok, value = box[0]
    if ok:
        return value
    raise value


def weighted(rng, pairs):
    total = sum(w for w, _ in pairs)
    x = rng.random() * total
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]
