"""Application-defined kinds of dependencies, following the interface of the library."""
import copy

from cache_dependencies import defer, exceptions, interfaces

CELLS = {}       # name -> generation
LOCKED = set()
CALLS = []       # (what, name)


def reset():
    CELLS.clear()
    LOCKED.clear()
    del CALLS[:]


class Base(interfaces.IDependency):
    def __init__(self, name):
        self.name = name
        self.seen = None

    def evaluate(self, cache, transaction, version):
        CALLS.append(('evaluate', self.name))
        if self.name in LOCKED:
            raise exceptions.DependencyLocked(self, [self.name])
        self.seen = self.current(cache, version)

    def current(self, cache, version):
        return CELLS.get((self.name, version), 0)

    def invalidate(self, cache, version):
        CALLS.append(('invalidate', self.name))
        CELLS[(self.name, version)] = CELLS.get((self.name, version), 0) + 1

    def acquire(self, cache, transaction, version):
        CALLS.append(('acquire', self.name))

    def release(self, cache, transaction, delay, version):
        CALLS.append(('release', self.name))

    def extend(self, other):
        return False

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def __copy__(self):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        return c


class Flag(Base):
    """Validity is decided without the cache."""

    def validate(self, cache, version):
        deferred = defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(node, caches):
            if CELLS.get((self.name, version), 0) != self.seen:
                raise exceptions.DependencyInvalid(self, [self.name])
        deferred.add_callback(callback)
        return deferred


class CellInCache(Base):
    """The generation is kept in the cache, and read together with the tags."""

    def key(self):
        return 'cell_' + self.name

    def current(self, cache, version):
        return cache.get(self.key(), 0, version)

    def invalidate(self, cache, version):
        CALLS.append(('invalidate', self.name))
        cache.set(self.key(), (cache.get(self.key(), 0, version) or 0) + 1, 10 ** 6, version)

    def executor(self, cache):
        return cache.get_many

    def validate(self, cache, version):
        deferred = defer.Deferred(self.executor(cache), defer.GetManyDeferredIterator, version)

        def callback(node, caches, keys):
            if caches.get(self.key(), 0) != self.seen:
                raise exceptions.DependencyInvalid(self, [self.name])
        deferred.add_callback(callback, [self.key()])
        return deferred


def other_source(keys, version):
    return {k: CELLS[(k, version)] for k in keys if (k, version) in CELLS}


class CellElsewhere(CellInCache):
    """The generation is read in bulk from another source."""

    def current(self, cache, version):
        return CELLS.get((self.key(), version), 0)

    def invalidate(self, cache, version):
        CALLS.append(('invalidate', self.name))
        CELLS[(self.key(), version)] = CELLS.get((self.key(), version), 0) + 1

    def executor(self, cache):
        return other_source


class FlagSet(interfaces.IDependency):
    """A kind which merges with its own kind."""

    def __init__(self, *names):
        self.names = set(names)
        self.seen = {}

    def evaluate(self, cache, transaction, version):
        locked = self.names & LOCKED
        if locked:
            raise exceptions.DependencyLocked(self, sorted(locked))
        self.seen = {n: CELLS.get((n, version), 0) for n in self.names}

    def validate(self, cache, version):
        deferred = defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(node, caches):
            bad = [n for n, g in self.seen.items() if CELLS.get((n, version), 0) != g]
            if bad:
                raise exceptions.DependencyInvalid(self, bad)
        deferred.add_callback(callback)
        return deferred

    def invalidate(self, cache, version):
        for n in self.names:
            CALLS.append(('invalidate', n))
            CELLS[(n, version)] = CELLS.get((n, version), 0) + 1

    def acquire(self, cache, transaction, version):
        CALLS.extend(('acquire', n) for n in self.names)

    def release(self, cache, transaction, delay, version):
        CALLS.extend(('release', n) for n in self.names)

    def extend(self, other):
        if isinstance(other, FlagSet):
            self.names |= other.names
            self.seen.update(other.seen)
            return True
        return False

    def __copy__(self):
        c = FlagSet(*self.names)
        c.seen = dict(self.seen)
        return c
