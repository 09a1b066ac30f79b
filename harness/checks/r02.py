import gc
import sys
import threading
import types
import weakref
from collections import Counter, deque

import django_cache_dependencies as dcd
from django_cache_dependencies import decorators, middleware
from checks.base import BaseCheck
from core import in_thread
from env import CLOCK
from kit import Tracer, deps, fresh
from monbackend import MonBackend, Store

PACKAGES = ('cache_dependencies', 'django_cache_dependencies')
ATOMS = (str, bytes, int, float, bool, type(None), complex)
LEAVES = (types.ModuleType, MonBackend, Store, threading.Thread)


def own(module):
    return module is not None and any(module == p or module.startswith(p + '.') for p in PACKAGES)


def survey(handles):
    """Everything the library can reach from its module globals and from the handles of this thread: type -> number."""
    roots = list(handles)
    for name, m in list(sys.modules.items()):
        if own(name) and '.tests' not in name and m is not None:
            roots.extend(vars(m).values())
    seen = set()
    keep = []
    kinds = Counter()
    stack = roots
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, LEAVES):
            continue
        cls = type(x)
        nxt = ()
        if isinstance(x, ATOMS):
            pass
        elif isinstance(x, dict):
            nxt = list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset, deque)):
            nxt = list(x)
        elif isinstance(x, types.FunctionType):
            if not own(x.__module__) and x.__closure__ is None:
                continue
            nxt = [c.cell_contents for c in x.__closure__ or () if has(c)] + list(x.__defaults__ or ()) + [vars(x)]
        elif isinstance(x, types.MethodType):
            nxt = [x.__self__, x.__func__]
        elif isinstance(x, type):
            if not own(getattr(x, '__module__', None)):
                continue
            nxt = [v for k, v in list(vars(x).items())]
        elif isinstance(x, (staticmethod, classmethod)):
            nxt = [x.__func__]
        elif isinstance(x, property):
            nxt = [f for f in (x.fget, x.fset, x.fdel) if f]
        elif own(getattr(cls, '__module__', None)) or cls.__module__ in ('weakref', 'collections', '_thread', 'threading', '_weakrefset', 'functools'):
            nxt = []
            try:
                nxt.append(vars(x))
            except TypeError:
                pass
            for c in cls.__mro__:
                for s in getattr(c, '__slots__', ()):
                    if hasattr(x, s):
                        nxt.append(getattr(x, s))
        else:
            continue
        seen.add(id(x))
        keep.append(x)                 # so ids are not re-used during the survey
        kinds['%s.%s' % (cls.__module__, cls.__name__)] += 1
        stack.extend(nxt)
    return kinds


def has(cell):
    try:
        cell.cell_contents
        return True
    except ValueError:
        return False


class Boom(Exception):
    pass


class Load(object):
    """A workload of a long-lived thread: every iteration uses new keys and tags and leaves nothing open."""

    def __init__(self, rng, alias, name=''):
        self.name = name
        self.rng = rng
        self.alias = alias
        self.n = 0
        names = [m[3:] for m in dir(self) if m.startswith('do_')]
        self.parts = [rng.choice(names) for _ in range(rng.randint(2, 5))]

    @property
    def h(self):
        return dcd.caches[self.alias]

    def key(self):
        self.n += 1
        return 'key-%s%d' % (self.name, self.n)

    def tags(self):
        self.n += 1
        return ['tag-%s%d' % (self.name, self.n), 'tag2-%s%d' % (self.name, self.n)]

    def iteration(self):
        for p in self.parts:
            getattr(self, 'do_' + p)()

    def abandon(self):
        """Leaves builds and transactions open; only the close of the handle ends them."""
        h = self.h
        for _ in range(self.rng.randint(1, 3)):
            h.get(self.key())
            self.rng.choice([lambda: None, lambda: h.get_many([self.key()]), lambda: h.set(self.key(), 1, self.tags()), h.transaction.begin,
                             lambda: h.invalidate_tags(*self.tags())])()
        self.rng.choice([h.close, dcd.close_caches])()

    def do_build(self):
        k, c = self.key(), self.key()
        self.h.get(k)
        self.h.get(c)
        self.h.set(c, 1, self.tags())
        self.h.set(k, 1, self.tags())
        self.h.get(k)

    def do_abort(self):
        k, c = self.key(), self.key()
        self.h.get(k)
        self.h.get(c)
        self.h.set(c, 1, self.tags())
        self.h.abort(k)

    def do_reversed(self):
        a, b = self.key(), self.key()
        self.h.get(a)
        self.h.get(b)
        self.h.set(a, 1, self.tags())
        self.h.set(b, 1, self.tags())

    def do_reversed_abort(self):
        a, b, c = self.key(), self.key(), self.key()
        self.h.get(a)
        self.h.get(b)
        self.h.get(c)
        self.h.abort(b)
        self.h.set(c, 1, self.tags())
        self.h.abort(a)

    def do_compute(self):
        k, c = self.key(), self.key()
        self.h.get_or_set_callback(k, lambda: self.h.get_or_set_callback(c, lambda: 1, self.tags()), self.tags())

    def do_failing(self):
        def inner():
            self.h.set(self.key(), 1, self.tags())
            raise Boom()
        try:
            self.h.get_or_set_callback(self.key(), lambda: self.h.get_or_set_callback(self.key(), inner, self.tags()), self.tags())
        except Boom:
            pass

    def do_native(self):
        self.h.get_or_set_callback(self.key(), lambda: 1, 60)
        self.h.set(self.key(), 1, 60)
        self.h.set(self.key(), 1)

    def do_bulk(self):
        ks = [self.key() for _ in range(4)]
        for k in ks[:2]:
            self.h.set(k, k, self.tags())
        self.h.get_many(ks)
        self.h.get_many(ks, abort=True)
        self.h.get_many(ks, version=2)

    def do_optout(self):
        k = self.key()
        self.h.get(k, abort=True)
        self.h.set(k, 1, self.tags())
        self.h.get(k, abort=True)

    def do_ignoring(self):
        h = self.h
        h.ignore_descendants = True
        try:
            k = self.key()
            h.get(k)
            h.set(k, 1, self.tags())
            h.get(self.key())
            h.get_many([k, self.key()])
        finally:
            h.ignore_descendants = False

    def do_stale(self):
        k, t = self.key(), self.tags()
        self.h.set(k, 1, t)
        self.h.invalidate_tags(*t)
        self.h.get_many([k])
        if self.h.get(k) is None:
            self.h.abort(k)

    def do_invalidate(self):
        self.h.invalidate_tags(*self.tags())
        self.h.invalidate_tags(self.tags(), version=self.rng.choice([1, 2, self.n]))
        self.h.invalidate_tags(deps.CompositeDependency(deps.TagsDependency(*self.tags()), deps.TagsDependency(*self.tags())))

    def do_transaction(self):
        with self.h.transaction:
            self.h.invalidate_tags(*self.tags())
            with self.h.transaction:
                self.h.invalidate_tags(*self.tags(), version=self.n)
                self.h.set(self.key(), 1, self.tags())

    def do_transaction_failing(self):
        try:
            with self.h.transaction:
                self.h.invalidate_tags(*self.tags())
                with self.h.transaction:
                    self.h.invalidate_tags(*self.tags())
                    self.h.get_or_set_callback(self.key(), self.fail, self.tags())
        except Boom:
            pass

    def fail(self):
        self.h.get_many([self.key()])
        raise Boom()

    def do_flush(self):
        self.h.transaction.begin()
        self.h.transaction.begin()
        self.h.invalidate_tags(*self.tags())
        self.h.transaction.flush()
        self.h.transaction.flush()

    def do_decorated(self):
        h = self.h
        decorators.cache_transaction(lambda: h.invalidate_tags(*self.tags()), cache=h)()
        decorators.cache_transaction_all(lambda: h.invalidate_tags(*self.tags()), cache=h)()
        h.transaction(lambda: h.invalidate_tags(*self.tags()))()

    def do_middleware(self):
        m = middleware.TransactionMiddleware(cache_alias=self.alias)
        m.process_request(None)
        self.h.invalidate_tags(*self.tags())
        m.process_response(None, None)

    def do_mixed(self):
        """Builds that are open over the ends of transactions, and the other way round."""
        k = self.key()
        self.h.transaction.begin()
        self.h.get(k)
        self.h.invalidate_tags(*self.tags())
        self.h.transaction.finish()
        self.h.transaction.begin()
        self.h.set(k, 1, self.tags())
        self.h.transaction.finish()

    def do_native_ops(self):
        k = self.key()
        self.h.add(k, 1)
        self.h.incr(k)
        self.h.delete(k)
        k in self.h
        self.h.has_key(k)
        self.h.set_many({self.key(): 1})
        self.h.delete_many([k])

    def do_again(self):
        """A missed read begun again, then stored."""
        k, c = self.key(), self.key()
        self.h.get(k)
        self.h.get(c)
        self.h.get(k)
        self.h.get(c)
        self.h.set(c, 1, self.tags())
        self.h.set(k, 1, self.tags())


def long_lived(rng, stats, scale):
    alias = rng.choice(['default', 'rc0', 'rr0', 'sr0', 'ru0', 'rc3', 'rr3', 'ru3'])
    fresh(alias)
    t = Tracer()
    load = Load(rng, alias)
    closing = rng.choice(['never', 'never', 'never', 'sometimes', 'always'])
    t('cache %s, parts %s, closed: %s', alias, load.parts, closing)
    counts = []

    def repeat(n):
        for i in range(n):
            load.iteration()
            if closing == 'always':
                load.abandon()
                stats.obs['closed with something open'] += 1
            if closing == 'sometimes' and rng.random() < 0.1:
                load.h.close()
            if i % 20 == 19:
                CLOCK.advance(30)            # delayed invalidations are due
        load.h.cache.cache.st.data.clear()
        CLOCK.advance(30)

    def measure():
        kinds = survey(dcd.caches.all())
        stats.obs['surveys'] += 1
        stats.obs['objects surveyed'] += sum(kinds.values())
        counts.append(kinds)
    repeat(scale)
    measure()
    repeat(2 * scale)
    measure()
    stats.obs['iterations'] += 3 * scale
    stats.evaluations += 1
    stats.sig(alias, load.parts, closing)
    stats.sample('%s: %s' % (t.lines[0], [sum(c.values()) for c in counts]))
    grown = sum(counts[1].values()) - sum(counts[0].values())
    if grown > scale // 4:
        more = (counts[1] - counts[0]).most_common(5)
        t.fail('grows', '%d more iterations of %s on cache %s left %d more objects reachable: %s', 2 * scale, load.parts, alias, grown, more)


def short_lived(rng, stats):
    """State of threads that have ended is gone with them."""
    alias = rng.choice(['rc0', 'rr0', 'default'])
    fresh(alias)
    t = Tracer()
    refs = []

    def one():
        load = Load(rng, alias, 'thread%d-' % len(refs))
        for _ in range(3):
            load.iteration()
        h = dcd.caches[alias]
        refs.append((weakref.ref(h), weakref.ref(h.transaction), weakref.ref(h.relation_manager)))
        if rng.random() < 0.3:
            h.transaction.begin()
            h.get('open')
    n = 12
    before = survey(dcd.caches.all())
    for _ in range(n):
        in_thread(one)
    CLOCK.advance(30)
    for _ in range(4):
        gc.collect()
    alive = sum(1 for r in refs if any(x() is not None for x in r))
    after = survey(dcd.caches.all())
    stats.obs['ended threads'] += n
    stats.evaluations += 1
    stats.sig('short', alias, rng.random())
    if alive > n // 2:
        t.fail('ended threads', 'handles of %d of %d ended threads are still alive', alive, n)
    if sum(after.values()) - sum(before.values()) > n // 2:
        t.fail('ended threads', '%d ended threads left more objects reachable: %s', n, (after - before).most_common(5))


class Check(BaseCheck):
    prop = 'R02'
    quick = 256
    thorough = 6000
    technique = ('runtime monitoring: survey of all objects reachable from the library (module globals and the handles of the thread) '
                 'during long workloads with ever new keys and tags; weak references to the state of ended threads')
    rule = ('case = a workload of 2-5 parts out of 21 (builds stored, aborted, failing, interleaved; bulk reads; transactions of all '
            'forms; native operations), repeated with new keys, tags and versions, in some cases with builds and transactions left open until the handle is closed; the number of reachable objects after n and after '
            '3n iterations is compared; every eighth case: 12 short-lived threads; non-trivial = distinct combination')
    level_note = 'growth below a quarter object per iteration is not noticed'

    def required(self, tier):
        return {'surveys': 200, 'iterations': 20000, 'objects surveyed': 100000, 'closed with something open': 2000, 'ended threads': 150}

    def run_case(self, rng, idx, tier, stats):
        if (idx // 8) % 8 == 7:
            short_lived(rng, stats)
        else:
            in_thread(lambda: long_lived(rng, stats, 60 if tier == 'quick' else 200))
