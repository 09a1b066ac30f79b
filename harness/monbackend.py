"""A monitored Django cache backend.

All threads (and all instances with one LOCATION) share one Store. Every
operation is atomic, bulk operations included, and is announced to the store's
hooks before and after its effect: the scheduler switches threads there, the
fault injector raises there, the counters and the log record there.
"""
import pickle
import socket
import threading
import weakref
from collections import Counter

from django.core.cache.backends.base import DEFAULT_TIMEOUT, BaseCache
from env import CLOCK

STORES = {}
FOREIGN = []       # operations on the connection of another thread: (owner, thread, store, operation, keys)


class InjectedFault(Exception):
    """The backend failed (raised by the harness)."""


class InjectedStop(BaseException):
    """The work of the backend was interrupted (as by a timeout of the worker, or a killed greenlet)."""


FAULTS = (InjectedFault, InjectedStop)
KINDS = [InjectedFault] + [type('Injected' + c.__name__, (InjectedFault, c), {}) for c in (
    IOError, OSError, ConnectionError, socket.timeout, EOFError, pickle.UnpicklingError, KeyError, IndexError, ValueError,
    TypeError, AttributeError, RuntimeError, NotImplementedError, ZeroDivisionError, UnicodeError)]


def injected(rng, text):
    """A failure of any type: backends raise what their clients raise."""
    if rng.random() < 0.1:
        return InjectedStop(text)
    return rng.choice(KINDS)(text)


class Store(object):
    def __init__(self, name):
        self.name = name
        self.lock = threading.RLock()
        self.reset()

    def reset(self, by_ref=False):
        self.data = {}
        self.by_ref = by_ref
        self.counter = Counter()
        self.log = None          # list -> (thread, op, keys)
        self.writes = None       # list -> (raw key, value)
        self.before = None
        self.after = None
        self.step = None         # called inside bulk operations, before each item: may raise

    def expired(self, k):
        e = self.data.get(k)
        return e is None or (e[0] is not None and e[0] <= CLOCK.now)

    def peek(self, k):
        if self.expired(k):
            return None
        p = self.data[k][1]
        return p if self.by_ref else pickle.loads(p)

    def put(self, k, v, expiry):
        if self.writes is not None:
            self.writes.append((k, v))
        self.data[k] = (expiry, v if self.by_ref else pickle.dumps(v, pickle.HIGHEST_PROTOCOL))


def store(name):
    if name not in STORES:
        STORES[name] = Store(name)
    return STORES[name]


class MonBackend(BaseCache):
    def __init__(self, location, params):
        super(MonBackend, self).__init__(params)
        self.st = store(location)
        self.owner = weakref.ref(threading.current_thread())

    def _op(self, name, keys, effect):
        st = self.st
        if self.owner() is not threading.current_thread() and len(FOREIGN) < 1000:
            FOREIGN.append((self.owner(), threading.current_thread(), st.name, name, list(keys)))
        if st.before is not None:
            st.before(name, keys)
        with st.lock:
            st.counter[name] += 1
            if st.log is not None:
                st.log.append((threading.get_ident(), name, tuple(keys)))
            result = effect()
        if st.after is not None:
            st.after(name, keys)
        return result

    def _expiry(self, timeout):
        if timeout is DEFAULT_TIMEOUT:
            timeout = self.default_timeout
        if timeout is None:
            return None
        if timeout <= 0:
            return CLOCK.now - 1
        return CLOCK.now + timeout

    def _k(self, key, version):
        k = self.make_key(key, version=version)
        self.validate_key(k)
        return k

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self._k(key, version)

        def effect():
            if self.st.expired(k):
                self.st.put(k, value, self._expiry(timeout))
                return True
            return False
        return self._op('add', [k], effect)

    def get(self, key, default=None, version=None):
        k = self._k(key, version)

        def effect():
            if self.st.expired(k):
                return default
            return self.st.peek(k)
        return self._op('get', [k], effect)

    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self._k(key, version)
        return self._op('set', [k], lambda: self.st.put(k, value, self._expiry(timeout)))

    def delete(self, key, version=None):
        k = self._k(key, version)

        def effect():
            self.st.data.pop(k, None)
        return self._op('delete', [k], effect)

    def get_many(self, keys, version=None):
        ks = [(key, self._k(key, version)) for key in keys]

        def effect():
            return {key: self.st.peek(k) for key, k in ks if not self.st.expired(k)}
        return self._op('get_many', [k for _, k in ks], effect)

    def set_many(self, data, timeout=DEFAULT_TIMEOUT, version=None):
        ks = [(self._k(key, version), v) for key, v in data.items()]

        def effect():
            e = self._expiry(timeout)
            for k, v in ks:
                if self.st.step is not None:
                    self.st.step('set_many', k)
                self.st.put(k, v, e)
        return self._op('set_many', [k for k, _ in ks], effect)

    def delete_many(self, keys, version=None):
        ks = [self._k(key, version) for key in keys]

        def effect():
            for k in ks:
                if self.st.step is not None:
                    self.st.step('delete_many', k)
                self.st.data.pop(k, None)
        return self._op('delete_many', ks, effect)

    def has_key(self, key, version=None):
        k = self._k(key, version)
        return self._op('has_key', [k], lambda: not self.st.expired(k))

    def incr(self, key, delta=1, version=None):
        k = self._k(key, version)

        def effect():
            if self.st.expired(k):
                raise ValueError("Key '%s' not found" % key)
            new = self.st.peek(k) + delta
            self.st.put(k, new, self.st.data[k][0])
            return new
        return self._op('incr', [k], effect)

    def clear(self):
        return self._op('clear', [], lambda: self.st.data.clear())
