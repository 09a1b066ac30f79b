from seeds_a import CD, DJ

SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('T04-h', [(DJ + '__init__.py', "            delay = options.get('DELAY', 0) or 0", "            delay = int(options.get('DELAY', 0) or 0)")],
     'a delay with a fraction of a second', 'the second invalidation comes before the end of the delay', '''
settings.CACHE_TAGGING['default'] = {'DELAY': 0.4}
made = []


class Timer(object):
    def __init__(self, interval, function, args=(), kwargs=None):
        made.append(interval)

    def start(self):
        pass

    def setDaemon(self, value):
        pass


threading.Timer = Timer
with cache.transaction:
    cache.invalidate_tags('a')
assert made == [0.4], 'the delayed invalidation is due after %s seconds' % made
''')

seed('T06-h', [(DJ + '__init__.py', "        return setattr(caches[DEFAULT_CACHE_ALIAS], name, value)", "        return object.__setattr__(self, name, value)")],
     'an attribute set on the proxy of the default cache, read by another thread', 'the setting of one thread applies to the reads of all of them by the proxy, and not to the stores of its own', '''
cache.ignore_descendants = True
assert caches['default'].ignore_descendants, 'the handle of the thread does not know the setting'
assert not thread(lambda: cache.ignore_descendants), 'another thread has got the setting'
''')

seed('T01-h', [(CD + 'transaction.py', "        for version, dependency in self._dependencies.items():\n            self._lock.release(dependency, self, version)",
                "        for version, dependency in sorted(self._dependencies.items(), key=lambda item: item[0] or 0)[-4:]:\n            self._lock.release(dependency, self, version)")],
     'one transaction which invalidates in more than four versions', 'the invalidations of the lowest versions are not completed', '''
with cache.transaction:
    for v in range(1, 8):
        cache.invalidate_tags('a', version=v)
    for v in range(1, 8):
        cache.set('k', v, ('a',), version=v)
assert [v for v in range(1, 8) if cache.get('k', version=v) is not None] == [], 'records of some versions survive the end'
''')

seed('C03-h', [(CD + 'tagging.py', "            self.set(key, value, tags, timeout, version)\n        return value",
                "            if value is None:\n                self.abort(key)\n            else:\n                self.set(key, value, tags, timeout, version)\n        return value")],
     'a nested computation whose result is None', 'the outer record does not inherit its tags', '''
def outer():
    return repr(cache.get_or_set_callback('inner', lambda: None, ('in',)))


cache.get_or_set_callback('outer', outer, ('out',))
assert cache.get('outer') == 'None'
cache.invalidate_tags('in')
assert cache.get('outer') is None, 'the outer record is served after the invalidation of the tag of the inner one'
''')

seed('C09-h', [(CD + 'dependencies.py', "        self.tags = set(tags)", "        self.tags = tags if isinstance(tags, set) else set(tags)")],
     'a dependency made of a set, and extended', 'the set of the caller is changed', '''
from cache_dependencies import dependencies
mine = set(['a'])
d = dependencies.TagsDependency(mine)
d.extend(dependencies.TagsDependency('b'))
assert mine == set(['a']), 'the set of the caller has become %s' % mine
''')

seed('T04-i', [(CD + 'dependencies.py', "        self.delay = delay\n", "        self.delay = int(delay)\n")],
     'a lock released with a delay of a fraction of a second, and a transaction begun within it', 'a store of the transaction takes effect', '''
settings.CACHE_TAGGING['rr']['DELAY'] = 0.9


def writer():
    with caches['rr'].transaction:
        caches['rr'].invalidate_tags('a')


thread(writer)
time.sleep(0.1)
with caches['rr'].transaction:
    caches['rr'].set('k', 'from the replica', ('a',))
assert caches['rr'].get('k') is None, 'a store begun within the delay has taken effect'
''')

seed('C07-h', [(CD + 'dependencies.py', "            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT, version\n", "            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT, version or None\n")],
     'a transaction which invalidates in version 0', 'the lock is put in the default version: stores there are refused and stores in version 0 are not', '''
def writer():
    h = caches['rr']
    h.transaction.begin()
    h.invalidate_tags('a', version=0)
    seen.append(1)
    go.wait(20)
    h.transaction.finish()


seen, go = [], threading.Event()
t = threading.Thread(target=writer)
t.start()
while not seen:
    time.sleep(0.01)
h = caches['rr']
with h.transaction:
    h.set('k', 1, ('a',), version=1)
there = h.get('k', version=1, abort=True)
go.set()
t.join()
assert there == 1, 'a lock of version 0 stops a store in version 1'
''')
