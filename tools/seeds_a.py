CD = 'cache_dependencies/'
DJ = 'django_cache_dependencies/'
SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('C01-b', [(CD + 'utils.py', '    hash_value = hashlib.md5("{0}{1}{2}".format(\n        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()\n    )',
                '    hash_value = hashlib.md5("{0}{1}".format(\n        get_thread_id(), time.time()\n    )')],
     'a clock which does not advance between an invalidation and the next store (coarse or stepped back)',
     'the new version of a tag equals the old one, so records invalidated in between are served again', '''
import cache_dependencies.utils as u
real = time.time
u.time.time = lambda: 1000.0
try:
    cache.set('old', 1, ('a',), 10 ** 10)
    cache.invalidate_tags('a')
    cache.set('new', 1, ('a',), 10 ** 10)
    v = cache.get('old')
finally:
    u.time.time = real
assert v is None, 'an invalidated record is served'
''')

seed('C05-a', [(CD + 'cache.py', "            self.finish(key, cache_dependencies[key], version=version)\n        return cache_values",
                "            self.finish(key, cache_dependencies[key])\n        return cache_values")],
     'a bulk read with a version other than the default one, inside a build in that version',
     'the build does not inherit tags of the hits of the bulk read, while single reads pass them', '''
cache.set('child', 1, ('c',), version=2)
cache.get('parent', version=2)
assert cache.get_many(['child'], version=2) == {'child': 1}
cache.set('parent', 1, ('p',), version=2)
cache.invalidate_tags('c', version=2)
assert cache.get('parent', version=2) is None, 'the bulk read did not pass the tags to the build'
''')

seed('C05-b', [(CD + 'cache.py', "        for key, data in caches.items():\n            cache_values[key], cache_dependencies[key] = self._unpack_data(data)",
                "        for key, data in caches.items():\n            if data:\n                cache_values[key], cache_dependencies[key] = self._unpack_data(data)")],
     'a falsy value put by an operation of the wrapped cache (a counter at zero, an empty string)',
     'the bulk read omits it, the single read returns it', '''
cache.add('n', 1)
cache.decr('n')
assert cache.get('n') == 0
assert cache.get_many(['n', 'm']) == {'n': 0}, 'the bulk read misses it'
''')

seed('C06-a', [(CD + 'dependencies.py', "        deferred = defer.Deferred(cache.get_many, defer.GetManyDeferredIterator, version)\n        deferred.add_callback(\n            lambda _, caches",
                "        deferred = defer.Deferred(lambda keys, version: cache.get_many(keys, version), defer.GetManyDeferredIterator, version)\n        deferred.add_callback(\n            lambda _, caches")],
     'a bulk read of several records',
     'reads of tag versions are not aggregated any more: one more round trip per record', '''
from django.core.cache import caches as raw
calls = []
backend = raw['default']
real = backend.get_many
backend.get_many = lambda *a, **kw: (calls.append(a), real(*a, **kw))[1]
for i in range(10):
    cache.set('k%d' % i, i, ('t%d' % i,))
del calls[:]
assert len(cache.get_many(['k%d' % i for i in range(10)])) == 10
assert len(calls) <= 2, '%d round trips' % len(calls)
''')

seed('C07-a', [(CD + 'cache.py', "        deferred = composite_dependency.validate(self.cache, version)", "        deferred = composite_dependency.validate(self.cache, None)")],
     'a bulk read with a version other than the default one, after an invalidation in either version',
     'records read in bulk are checked against tags of the default version', '''
cache.set('k', 1, ('a',))
cache.set('k', 2, ('a',), version=2)
cache.set('l', 2, ('a', 'b'), version=2)
assert cache.get_many(['k', 'l'], version=2) == {'k': 2, 'l': 2}, 'records of a version are lost'
''')

seed('C07-b', [(CD + 'tagging.py', "            if version is None and timeout is not None:\n                version = timeout", "            version = timeout")],
     'a store in the native style, with the version given by keyword', 'the value is stored in the default version', '''
cache.set('k', 'one')
cache.set('k', 'two', 60, version=2)
assert cache.get('k') == 'one', 'the record of another version is overwritten'
assert cache.get('k', version=2) == 'two'
''')
SEEDS[-1]['property'] = 'C08'
SEEDS[-1]['id'] = 'C08-a'

seed('C09-a', [(CD + 'dependencies.py', "                self.delegates.append(copy.copy(other))", "                self.delegates.append(other)")],
     'one dependency object used for several records, at least one of which inherits or combines tags',
     'tags of other records get into the object of the caller, and from it into records stored with it later', '''
from cache_dependencies.dependencies import TagsDependency
mine = TagsDependency('mine')
cache.set('child', 1, ('c',))
cache.get('parent')
cache.get('child')
cache.set('parent', 1, mine)
assert mine.tags == {'mine'}, 'the object of the caller is modified'
cache.set('other', 1, mine)
cache.invalidate_tags('c')
assert cache.get('other') == 1
''')

seed('C10-a', [(CD + 'cache.py', "        return isinstance(data, dict) and '__dependency' in data and '__value' in data", "        return isinstance(data, dict) and '__dependency' in data")],
     'a dictionary put directly into the wrapped cache which looks a little like a record', 'reading it raises KeyError', '''
from django.core.cache import caches as raw
raw['default'].set('k', {'__dependency': 'x'})
assert cache.get('k') == {'__dependency': 'x'}
''')

seed('C10-b', [(CD + 'cache.py', "        data = self.cache.get(key, None, version)\n        if data is None:\n            return default", "        data = self.cache.get(key, default, version)\n        if data is default:\n            return default")],
     'a None put directly (as with cache.add), or a small integer or another shared object, equal to the default, put directly',
     'a hit whose value is the default object itself ends the read without ending the build', '''
from django.core.cache import caches as raw
raw['default'].set('k', None)
assert cache.get('k', 'miss') == 'miss'
''')
SEEDS.pop()

seed('C11-b', [(CD + 'cache.py', "            if val is not None:\n                d[k] = val", "            if val:\n                d[k] = val")],
     'falsy values in an adapter which inherits the bulk read', 'the bulk read omits them', '''
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value


c = C()
c.set('n', 0)
assert c.get_many(['n', 'm']) == {'n': 0}
''')

seed('T02-a', [(CD + 'dependencies.py', "            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT, version", "            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT")],
     'a transaction which invalidates in a version other than the default one', 'its tags are locked in the default version instead', '''
rr = caches['rr']
with rr.transaction:
    rr.invalidate_tags('a', version=2)
    thread(lambda: caches['rr'].set('k', 'stale', ('a',), version=2))
    assert rr.get('k', version=2) is None, 'a store of another session took effect while the tag was locked'
''')

seed('T02-b', [(CD + 'dependencies.py', "        elif transaction.get_start_time() <= (self.time + self.delay):", "        elif transaction.get_start_time() < (self.time + self.delay):")],
     'a transaction that starts at the very time the other one ends (coarse clock)', 'it may store data from before the commit', '''
from cache_dependencies import transaction as tr
tr.time = type('T', (), {'time': staticmethod(lambda: 1000.0)})
rr = caches['rr']


def other():
    with caches['rr'].transaction:
        caches['rr'].invalidate_tags('a')


with rr.transaction:
    thread(other)
    rr.set('k', 'stale', ('a',))
    v = rr.get('k')
assert v is None, 'stored by a transaction that began no later than the end'
''')

seed('T03-a', [(CD + 'cache.py', "        except exceptions.DependencyLocked:\n            pass\n", "        except exceptions.DependencyLocked:\n            dependency = dependencies.DummyDependency()  # Nothing has been stored\n")],
     'a value whose store was skipped because its tag is locked, used to build a composite',
     'the composite is stored without the tag, and serves data from before the commit', '''
rr = caches['rr']
go, done = threading.Event(), threading.Event()


def writer():
    h = caches['rr']
    with h.transaction:
        h.invalidate_tags('a')
        go.set()
        done.wait(10)


with rr.transaction:
    t = threading.Thread(target=writer)
    t.start()
    go.wait(10)
    rr.get('page')
    rr.get('item')
    rr.set('item', 'old', ('a',))
    rr.set('page', 'made of old', ('p',))
    done.set()
    t.join()
assert thread(lambda: caches['rr'].get('page')) is None, 'a composite made of data from before the commit is served'
''')

seed('T04-a', [(CD + 'dependencies.py', "            self.TAG_STATE_TIMEOUT + max(delay, 1),  # Must have ttl greater than ttl of AcquiredTagState", "            self.TAG_STATE_TIMEOUT + 1,  # Must have ttl greater than ttl of AcquiredTagState")],
     'a delay longer than the retention of lock records, and a store late within it', 'the lock of the tag is forgotten before the delay is over', '''
import cache_dependencies.utils
now = [time.time()]
real = time.time
time.time = lambda: now[0]
rr = caches['rrdelayed']


def writer():
    with caches['rrdelayed'].transaction:
        caches['rrdelayed'].invalidate_tags('a')


thread(writer)
now[0] += 30
with rr.transaction:
    rr.set('k', 'old', ('a',))
    v = rr.get('k')
time.time = real
assert v is None, 'a transaction that started within the delay could store'
''')

seed('T05-a', [(CD + 'transaction.py', "    def __exit__(self, *args):\n        self.finish()\n        return False", "    def __exit__(self, *args):\n        if args and args[0] is not None:\n            self.flush()  # Rolled back\n        else:\n            self.finish()\n        return False")],
     'an exception caught between an inner and an outer scope', 'the inner scope ends the outer one too', '''
from cache_dependencies.transaction import Transaction
try:
    with cache.transaction:
        try:
            with cache.transaction:
                raise ValueError()
        except ValueError:
            pass
        assert cache.transaction.current(), 'the outer scope is closed'
finally:
    cache.transaction.flush()
''')

seed('T06-b', [(CD + 'transaction.py', "    def begin(self):\n        self._validate_thread_sharing()\n        return self._delegate.begin()", "    def begin(self):\n        return self._delegate.begin()")],
     'a handle handed over to another thread', 'a transaction begun there becomes the transaction of the owner', '''
h = caches['default']
try:
    thread(lambda: h.transaction.begin())
except RuntimeError:
    pass
left = h.transaction.current()
h.transaction.flush()
assert not left, 'the foreign thread changed the state of the owner'
''')

seed('T07-a', [(CD + 'utils.py', "        _thread_local.thread_id = '{0}.{1}.{2}'.format(", "        _thread_local.thread_id = '{0}.{2}'.format(")],
     'two processes forked from one server', 'their main threads have the same session identity, so each ignores locks of the other', '''
from cache_dependencies.utils import get_thread_id


def child():
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.write(w, get_thread_id().encode())
        os._exit(0)
    os.waitpid(pid, 0)
    return os.read(r, 1000).decode()


ids = [get_thread_id(), child(), child()]
assert len(set(ids)) == 3, ids
''')

seed('R01-a', [(CD + 'transaction.py', "    def finish(self):\n        self.current().finish()\n        self.current(self.current().parent())", "    def finish(self):\n        transaction = self.current()\n        self.current(transaction.parent())\n        transaction.finish()")],
     'a failure of the backend at the end of a transaction', 'the transaction is forgotten, so retrying does not complete its invalidations', '''
from django.core.cache import caches as raw
backend = raw['default']
cache.transaction.begin()
cache.invalidate_tags('a')
thread(lambda: caches['default'].set('k', 'dirty', ('a',)))
real = backend.delete_many
down = [True]


def broken(*a, **kw):
    raise IOError('down')


backend.delete_many = broken
try:
    cache.transaction.finish()
except IOError:
    pass
backend.delete_many = real
cache.transaction.flush()
assert cache.get('k') is None, 'the invalidation is not completed'
''')

seed('R02-a', [(CD + 'utils.py', '''    version = str(__version__).replace('.', '')
    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()
    return 'tag_{0}_{1}'.format(version, name)''', '''    if name not in _tag_keys:
        version = str(__version__).replace('.', '')
        digest = hashlib.md5(str(name).encode('utf-8')).hexdigest()
        _tag_keys[name] = 'tag_{0}_{1}'.format(version, digest)
    return _tag_keys[name]'''), (CD + 'utils.py', "_thread_local = local()", "_thread_local = local()\n_tag_keys = {}")],
     'a long-lived process which uses ever new tags', 'keys of all tags ever used are kept in memory', '''
import gc
import cache_dependencies.utils as u


def size():
    return sum(len(v) for v in vars(u).values() if isinstance(v, dict) and v is not vars(u)['__builtins__'])


before = size()
for i in range(1000):
    cache.set('k', i, ('t%d' % i,))
    cache.invalidate_tags('t%d' % i)
assert size() - before < 100, 'the state grows with tags'
''')
