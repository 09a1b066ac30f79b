"""Small helpers for the scenario checks (no reference model attached)."""
import copy

import django.core.cache
import django_cache_dependencies as dcd
from cache_dependencies import dependencies as deps
from cache_dependencies import exceptions, interfaces, defer
from core import Violation, Crew, short
from env import CLOCK
from monbackend import store, STORES

MISS = object()


def norm(version):
    """The version an operation means."""
    return 1 if version is None else version


def fresh(alias, by_ref=False, tick=None, **kw):
    """Resets the store of the alias, the clock and this thread's handle; returns the handle."""
    CLOCK.reset(tick)
    for name in [alias] + list(kw.get('more', ())):
        store(wrapped(name)).reset(by_ref=by_ref)
    h = dcd.caches[alias]
    h.close()
    h.ignore_descendants = False
    return h


def pads(rng, stats, rate=0.05):
    """Tags which are only there to be many: (those of records, those of invalidations); mostly none."""
    if rng.random() >= rate:
        return (), ()
    n = rng.choice([30, 70, 130, 300, 700])
    stats.obs['cases with many tags at once'] += 1
    return tuple('of record %d' % i for i in range(n)), tuple('of invalidation %d' % i for i in range(n))


def wrapped(alias):
    """The name of the cache behind an alias."""
    return alias.rstrip('b') if alias[:2] in ('rc', 'rr', 'ru') else alias


def native(alias):
    alias = wrapped(alias)
    return django.core.cache.caches[alias]


def present(h, key, version=None):
    return h.get(key, MISS, version=version, abort=True) is not MISS


def depth(h):
    n = 0
    t = h.transaction.current()
    while t:
        n += 1
        t = t.parent()
    return n


class Snapshot(object):
    """The contents of a store, to be put back."""

    def __init__(self, alias):
        self.st = store(alias)
        self.data = dict(self.st.data)

    def restore(self):
        self.st.data.clear()
        self.st.data.update(self.data)


def show(a):
    if isinstance(a, (int, float)):
        return a
    return a[:300] if isinstance(a, str) else short(a)


class Tracer(object):
    """Collects a readable trace of a case."""

    def __init__(self):
        self.lines = []

    def __call__(self, fmt, *args):
        self.lines.append(fmt % tuple(map(show, args)))

    def fail(self, mechanism, fmt, *args):
        raise Violation(mechanism, fmt % tuple(map(show, args)), list(self.lines))
