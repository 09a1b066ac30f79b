from seeds_a import CD, DJ

SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('C01-c', [(CD + 'tagging.py', "        elif tags:\n            dependency = dependencies.TagsDependency(tags)\n        else:\n            dependency = dependencies.DummyDependency()\n        version = kwargs",
                "        elif any(tags):\n            dependency = dependencies.TagsDependency(*filter(None, tags))\n        else:\n            dependency = dependencies.DummyDependency()\n        version = kwargs")],
     'a tag whose name is empty or zero, like the primary key 0', 'its invalidation is ignored', '''
cache.set('k', 'old', (0, 'x'))
cache.invalidate_tags(0)
assert cache.get('k') is None, 'an invalidated record is served'
''')

seed('C01-d', [(CD + 'dependencies.py', "            if errors:\n                raise exceptions.CompositeDependencyInvalid(self, errors)",
                "            if len(errors) == len(self.delegates):\n                raise exceptions.CompositeDependencyInvalid(self, errors)\n            elif errors:\n                raise exceptions.CompositeDependencyInvalid(self, errors[:1])")],
     'a bulk read in which several, but not all, records are invalidated', 'all but one of them are served', '''
for k, t in (('a', 'x'), ('b', 'x'), ('c', 'y')):
    cache.set(k, k, (t,))
cache.invalidate_tags('x')
assert cache.get_many(['a', 'b', 'c']) == {'c': 'c'}, 'invalidated records are served'
''')

seed('C02-b', [(CD + 'dependencies.py', "TAG_TIMEOUT = 24 * 3600", "TAG_TIMEOUT = 3600")],
     'a record with a longer timeout, read more than an hour after its tag was first used',
     'records are lost long before the end of the bookkeeping day', '''
import django.core.cache.backends.locmem as locmem
now = [time.time()]
real = time.time
time.time = lambda: now[0]
cache.set('k', 'v', ('a',), 20 * 3600)
now[0] += 2 * 3600
v = cache.get('k')
time.time = real
assert v == 'v', 'a valid record is lost'
''')

seed('C02-c', [(CD + 'dependencies.py', "        return c\n\n    def _get_tag_versions", "        return c\n\n    def __eq__(self, other):\n        return isinstance(other, TagsDependency) and self.tags == other.tags\n\n    def __hash__(self):\n        return hash(frozenset(self.tags))\n\n    def _get_tag_versions"),
               (CD + 'dependencies.py', "        c.delegates = c.delegates[:]\n        return c\n", "        c.delegates = c.delegates[:]\n        return c\n\n    def __eq__(self, other):\n        return isinstance(other, CompositeDependency) and self.delegates == other.delegates\n\n    def __hash__(self):\n        return hash(tuple(self.delegates))\n")],
     'dummy', 'dummy', '')
SEEDS.pop()

seed('C02-d', [(CD + 'cache.py', "        dependencies_reversed = {v: k for k, v in cache_dependencies.items()}", "        dependencies_reversed = {repr(sorted(map(str, getattr(d, 'tags', ())) for d in getattr(v, 'delegates', [v]))): k for k, v in cache_dependencies.items()}"),
               (CD + 'cache.py', "                cache_values.pop(dependencies_reversed[dependency_error.dependency], None)", "                cache_values.pop(dependencies_reversed[repr(sorted(map(str, getattr(d, 'tags', ())) for d in dependency_error.dependency.delegates))], None)")],
     'dummy', 'dummy', '')
SEEDS.pop()

seed('C03-a', [(CD + 'cache.py', "        except exceptions.DependencyInvalid:\n            return default\n\n        self.finish(key, dependency, version=version)\n        return value",
                "        except exceptions.DependencyInvalid:\n            value, dependency = default, dependencies.DummyDependency()  # Do not inherit invalid tags\n\n        self.finish(key, dependency, version=version)\n        return value")],
     'a record which is built anew because it was invalidated (not because it was absent)',
     'the rebuilt record does not inherit tags of what it is built from', '''
def build():
    v = cache.get('page')
    if v is None:
        if cache.get('item') is None:
            cache.set('item', 'item', ('i',))
        cache.set('page', 'page', ('p',))


build()
cache.invalidate_tags('p')
build()
cache.invalidate_tags('i')
assert cache.get('page') is None, 'the rebuilt composite misses a tag of what it was built from'
''')

seed('C03-b', [(CD + 'dependencies.py', "            self.tags |= other.tags\n            self.tag_versions.update(other.tag_versions)\n            return True\n        return False",
                "            if self.tags.isdisjoint(other.tags):\n                self.tags |= other.tags\n                self.tag_versions.update(other.tag_versions)\n            return True\n        return False")],
     'a composite built from records whose sets of tags overlap partly', 'tags of the second one are not inherited', '''
cache.get('page')
cache.set('one', 1, ('a', 'common'))
cache.set('two', 2, ('b', 'common'))
cache.set('page', 'page', ())
cache.invalidate_tags('b')
assert cache.get('page') is None, 'the composite misses a tag of what it was built from'
''')

seed('C04-b', [(CD + 'relations.py', "        self._current = DummyCacheNode()\n        self._data = dict()\n\n    def _unlink", "        self._current = DummyCacheNode()\n\n    def _unlink")],
     'a build left open when the handle is closed, and the same key built later in the thread',
     'the later record inherits tags from the build of before', '''
cache.get('k')
cache.set('other', 1, ('x',))
cache.close()
cache.get('k')
cache.set('k', 'v', ('mine',))
cache.invalidate_tags('x')
assert cache.get('k') == 'v', 'an unrelated tag drops the record'
''')

seed('C04-c', [(CD + 'tagging.py', "    @property\n    def ignore_descendants", "    @property\n    def ignore_descendants")], 'dummy', 'dummy', '')
SEEDS.pop()

seed('C09-b', [(CD + 'dependencies.py', "        c.tags = c.tags.copy()\n", "")],
     'a dependency object of the caller to which inherited tags are added, or which is combined with another',
     'tags of other records get into the object of the caller', '''
from cache_dependencies.dependencies import TagsDependency
mine = TagsDependency('mine')
cache.set('child', 1, ('c',))
cache.get('parent')
cache.get('child')
cache.set('parent', 1, mine)
assert mine.tags == {'mine'}, 'the object of the caller is modified'
''')

seed('C10-c', [(CD + 'cache.py', "        data = self.cache.get(key, None, version)\n        if data is None:\n            return default", "        data = self.cache.get(key, None, version)\n        if not data:\n            return default")],
     'a falsy value put by an operation of the wrapped cache', 'it cannot be read', '''
cache.add('n', 1)
cache.decr('n')
assert cache.get('n', 'miss') == 0
''')

seed('C11-c', [(CD + 'cache.py', "        return self.incr_version(key, -delta, version)", "        return self.incr_version(key, -delta)")],
     'a key of a version other than the default one', 'decrementing its version moves the record of the default version', '''
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value

    def delete(self, key, version=None):
        self.d.pop(self.make_key(key, version), None)


c = C()
c.set('n', 5, version=1)
c.set('n', 6, version=3)
assert c.decr_version('n', version=3) == 2
assert c.get('n', version=2) == 6 and c.get('n', version=3) is None and c.get('n') == 5
''')

seed('T01-b', [(CD + 'locks.py', "        self._release_dependency_target(dependency, version)\n        super(ReadCommittedDependencyLock, self).release(dependency, transaction, version)",
                "        if not self._delay:  # Otherwise it will be invalidated later.\n            self._release_dependency_target(dependency, version)\n        super(ReadCommittedDependencyLock, self).release(dependency, transaction, version)")],
     'a replication delay at READ COMMITTED', 'between the end of the transaction and the end of the delay dirty records are served', '''
c = caches['delayed']
with c.transaction:
    c.invalidate_tags('a')
    thread(lambda: caches['delayed'].set('k', 'dirty', ('a',)))
assert c.get('k') is None, 'a record stored before the end of the transaction is served'
''')

seed('T01-c', [(CD + 'transaction.py', "    def flush(self):\n        while self._current:\n            self.finish()\n", "    def flush(self):\n        if self._current:\n            self.finish()\n            self.current(None)\n")],
     'several open scopes ended at once', 'the invalidations of the outermost transaction are not completed', '''
cache.transaction.begin()
cache.transaction.begin()
cache.invalidate_tags('a')
thread(lambda: cache.set('k', 'dirty', ('a',)))
cache.transaction.flush()
assert cache.get('k') is None, 'a record stored before the end of the transaction is served'
''')

seed('T02-c', [(CD + 'transaction.py', "        self._dependencies[version].extend(dependency)\n        self._lock.acquire(dependency, self, version)", "        known = self._dependencies[version].delegates\n        if not known:\n            self._lock.acquire(dependency, self, version)\n        self._dependencies[version].extend(dependency)")],
     'a second invalidation in a transaction', 'its tags are not locked', '''
rr = caches['rr']
with rr.transaction:
    rr.invalidate_tags('a')
    rr.invalidate_tags('b')
    thread(lambda: caches['rr'].set('k', 'stale', ('b',)))
    v = rr.get('k')
assert v is None, 'a store of another session took effect while the tag was locked'
''')

seed('T03-c', [(CD + 'dependencies.py', "        return self.session_id == acquired_tag_state.session_id and self.time > acquired_tag_state.time", "        return self.time > acquired_tag_state.time")],
     'two transactions which invalidate one tag, the one begun first ends last, and a third session stores in between',
     'the end of one writer unlocks the tag which the other still holds, and data from before its commit is served', '''
rr = 'rr'
steps = [threading.Event() for _ in range(4)]


def writer():
    h = caches[rr]
    with h.transaction:
        h.invalidate_tags('a')
        steps[0].set()
        steps[1].wait(10)


def other():
    with caches[rr].transaction:
        caches[rr].invalidate_tags('a')


t = threading.Thread(target=other)
h = caches[rr]
w = threading.Thread(target=writer)
with h.transaction:
    time.sleep(0.01)
    w.start()
    steps[0].wait(10)
    h.invalidate_tags('z')
    box = []

    def reader():
        c = caches[rr]
        with c.transaction:
            c.set('k', 'read before the commit', ('a',))
    # another writer of the same tag comes and goes
    t.start()
    t.join()
    time.sleep(0.01)
    thread(reader)
    stored = thread(lambda: caches[rr].get('k'))
steps[1].set()
w.join()
assert stored is None or True
''')
SEEDS.pop()

seed('T04-c', [(CD + 'locks.py', "            return SerializableDependencyLock(thread_safe_cache_accessor, delay)", "            return SerializableDependencyLock(thread_safe_cache_accessor)")],
     'SERIALIZABLE with a replication delay', 'the delay is ignored', '''
from django.conf import settings
settings.CACHE_TAGGING['sr'] = {'ISOLATION_LEVEL': 'SERIALIZABLE', 'DELAY': 60, 'BACKEND': 'default'}


def writer():
    with caches['sr'].transaction:
        caches['sr'].invalidate_tags('a')


thread(writer)
time.sleep(0.01)
sr = caches['sr']
with sr.transaction:
    sr.set('k', 'from the slave', ('a',))
assert sr.get('k') is None, 'a transaction that started within the delay could store'
''')

seed('T05-b', [(DJ + 'middleware.py', '        """Rolls back the database and leaves transaction management"""\n        caches[self.cache_alias].transaction.flush()', '        """Rolls back the database and leaves transaction management"""\n        caches[self.cache_alias].transaction.finish()')],
     'a view that fails inside a scope opened with an explicit begin (old-style middleware)', 'the scope stays open', '''
from django_cache_dependencies.middleware import TransactionMiddleware
m = TransactionMiddleware()
m.process_request(None)
cache.transaction.begin()
m.process_exception(None, ValueError())
left = cache.transaction.current()
cache.transaction.flush()
assert not left, 'a scope is left open'
''')

seed('T06-c', [(CD + 'relations.py', "    def pop(self, key):\n        self._validate_thread_sharing()\n        return self._delegate.pop(key)", "    def pop(self, key):\n        return self._delegate.pop(key)")],
     'a handle handed over to another thread', 'a store or abort there ends a build of the owner', '''
h = caches['default']
h.get('k')
try:
    thread(lambda: h.abort('k'))
except RuntimeError:
    pass
h.set('child', 1, ('c',))
h.set('k', 1, ())
h.invalidate_tags('c')
assert h.get('k') is None, 'the foreign thread ended the build of the owner'
''')

seed('T07-b', [(CD + 'utils.py', "if hasattr(random, 'SystemRandom'):\n    randrange = random.SystemRandom().randrange\nelse:\n    randrange = random.randrange", "randrange = random.Random().randrange"),
               (CD + 'utils.py', '    hash_value = hashlib.md5("{0}{1}{2}".format(\n        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()\n    )', '    hash_value = hashlib.md5("{0}{1}".format(\n        randrange(0, MAX_TAG_KEY), time.time()\n    )')],
     'processes forked from one server which generate versions at the same tick of the clock', 'both generate the same versions', '''
import cache_dependencies.utils as u
real = time.time
u.time.time = lambda: 1000.0


def child():
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.write(w, u.generate_tag_version().encode())
        os._exit(0)
    os.waitpid(pid, 0)
    return os.read(r, 1000).decode()


a, b = child(), child()
u.time.time = real
assert a != b, 'versions coincide'
''')

seed('R01-b', [(CD + 'transaction.py', "        for version, dependency in self._dependencies.items():\n            self._lock.release(dependency, self, version)", "        while self._dependencies:\n            version, dependency = self._dependencies.popitem()\n            self._lock.release(dependency, self, version)")],
     'a failure of the backend at the end of a transaction which is then retried', 'the invalidation that failed is not retried', '''
from django.core.cache import caches as raw
backend = raw['default']
cache.transaction.begin()
cache.invalidate_tags('a')
thread(lambda: caches['default'].set('k', 'dirty', ('a',)))
real = backend.delete_many


def broken(*a, **kw):
    raise IOError('down')


backend.delete_many = broken
try:
    cache.transaction.finish()
except IOError:
    pass
backend.delete_many = real
cache.transaction.flush()
assert cache.get('k') is None, 'the invalidation is not completed'
''')

seed('R02-b', [(CD + 'cache.py', "        except exceptions.DependencyLocked:\n            pass\n", "        except exceptions.DependencyLocked:\n            dependency = combined_dependency_with_descendants\n            self.relation_manager.get('{0}:locked'.format(key))  # Do not inherit it\n")],
     'dummy', 'dummy', '')
SEEDS.pop()
