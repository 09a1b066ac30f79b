from seeds_a import CD, DJ

SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('C04-e', [(CD + 'cache.py', "        self.relation_manager.pop(key)\n", "        self.relation_manager.current(self.relation_manager.get(key).parent())\n")],
     'a build which is aborted and begun again', 'what was read in the aborted build stays', '''
cache.set('child', 1, ('foreign',))
cache.get('k')
cache.get('child')
cache.abort('k')
cache.get('k')
cache.set('k', 2, ('own',))
cache.invalidate_tags('foreign')
assert cache.get('k') == 2, 'the record depends on what was read in an aborted build'
''')

seed('C08-b', [(CD + 'tagging.py', "        self.cache.set(key, value, dependency, timeout, version)", "        self.cache.set(key, value, dependency, timeout or None, version)")],
     'timeout=0', 'the record is kept for the default time', '''
cache.set('k', 1, ('t',), 0)
assert cache.get('k') is None
cache.set('k', 1, timeout=0)
assert cache.get('k') is None
''')

seed('C11-d', [(CD + 'cache.py', "        if value is None:\n            raise ValueError(\"Key '%s' not found\" % key)\n        new_value = value + delta", "        if not value:\n            raise ValueError(\"Key '%s' not found\" % key)\n        new_value = value + delta")],
     'a counter at zero', 'incr() raises ValueError', '''
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value


c = C()
c.set('n', 1)
assert c.decr('n') == 0
assert c.incr('n') == 1
''')

seed('C11-e', [(CD + 'cache.py', "            val = self.get(k, version=version)\n            if val is not None:", "            val = self.get(k, version=version)\n            if val or val == 0:")],
     'a record with an empty list', 'get_many() leaves it out', '''
from cache_dependencies.cache import AbstractCache


class C(AbstractCache):
    def __init__(self):
        self.d = {}

    def get(self, key, default=None, version=None):
        return self.d.get(self.make_key(key, version), default)

    def set(self, key, value, timeout=None, version=None):
        self.d[self.make_key(key, version)] = value


c = C()
c.set_many({'a': 0, 'b': [], 'c': ''})
assert c.get_many(['a', 'b', 'c', 'd']) == {'a': 0, 'b': [], 'c': ''}
''')

PAGE = '''
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
rf = RequestFactory()
calls = []


'''

seed('D03-d', [(DJ + 'utils.py', "        return _generate_cache_key(request, request.method, [], key_prefix)", "        return _generate_cache_key(request, 'GET', [], key_prefix)")],
     'HEAD before GET, no Vary', 'the response of HEAD is served for GET', PAGE + '''
@cache_page(600)
def view(request):
    return HttpResponse('' if request.method == 'HEAD' else 'body')


view(rf.head('/x/'))
assert view(rf.get('/x/')).content == b'body', 'the response of HEAD is served for GET'
''')

seed('D02-c', [(DJ + 'middleware.py', "        if hasattr(request, 'cache_tagging'):\n            tags.update(request.cache_tagging)", "        if not tags and hasattr(request, 'cache_tagging'):\n            tags.update(request.cache_tagging)")],
     'tags of the decorator and tags of a template fragment, on different cache aliases', 'the page is not invalidated with the fragment', PAGE + '''
from django.template import engines
t = engines['django'].from_string("{% load cache_tagging_tags %}{% cache_tagging 'f' 'frag' %}{{ v }}{% end_cache_tagging %}")


@cache_page(600, cache='ru', tags=lambda r: ('page',))
def view(request):
    calls.append(1)
    return HttpResponse(t.render({'v': len(calls)}, request))


view(rf.get('/x/'))
caches['default'].invalidate_tags('frag')
caches['ru'].invalidate_tags('frag')
assert view(rf.get('/x/')).content == b'2', 'an invalidated page is served'
''')

seed('D06-c', [(DJ + 'backends.py', "        if timeout is None:\n            timeout = self.default_timeout\n\n", "")],
     'a record stored without a timeout', 'it never expires', '''
import shutil, tempfile
from unittest import mock
from django_cache_dependencies.backends import FileBasedCache
d = tempfile.mkdtemp()
try:
    c = FileBasedCache(d, {'TIMEOUT': 10})
    c.set('k', 1)
    assert c.get('k') == 1
    now = time.time()
    with mock.patch('time.time', lambda: now + 100):
        assert c.get('k') is None, 'the record outlived the default timeout'
finally:
    for i in range(50):
        if threading.active_count() == 1:
            break
        time.sleep(0.05)
    shutil.rmtree(d)
''')

seed('R02-c', [(DJ + '__init__.py', "        self.ctx = local()\n", "        self.ctx = {}\n"),
               (DJ + '__init__.py', "        if not hasattr(self.ctx, 'caches'):\n            self.ctx.caches = {}\n        return self.ctx.caches", "        return self.ctx.setdefault(get_ident(), {})"),
               (DJ + '__init__.py', "from threading import local\n", "from threading import get_ident\n")],
     'threads which come and go', 'the handles of ended threads stay, and are given to new threads with the same ident', '''
import gc, weakref
refs = []


def work():
    h = caches['default']
    h.transaction.begin()
    refs.append(weakref.ref(h))


for i in range(5):
    thread(work)
for i in range(5):
    gc.collect()
assert not [r for r in refs if r() is not None], 'the handles of ended threads stay'
''')

seed('T06-d', [(CD + 'mixins.py', "        return _thread.get_ident()", "        return threading.current_thread().name"),
               (CD + 'mixins.py', "class ThreadSafeDecoratorMixIn", "import threading\n\n\nclass ThreadSafeDecoratorMixIn")],
     'two threads with the same name', 'a handle can be used in a foreign thread', '''
box, errors = [], []


def make():
    box.append(caches['default'])
    gate.wait(10)


def use():
    try:
        box[0].transaction.begin()
    except RuntimeError:
        errors.append(1)


gate = threading.Event()
a = threading.Thread(target=make, name='worker')
a.start()
while not box:
    time.sleep(0.01)
b = threading.Thread(target=use, name='worker')
b.start()
b.join()
gate.set()
a.join()
assert errors, 'the handle of another thread was used'
''')

seed('T02-d', [(CD + 'dependencies.py', "for tag in self.tags}, self.TAG_STATE_TIMEOUT, version\n", "for tag in self.tags}, self.TAG_STATE_TIMEOUT\n")],
     'an invalidation in another version than the default one', 'the tag is locked in the default version', '''
h = caches['rr']
h.transaction.begin()
h.invalidate_tags('b', version=7)
assert thread(lambda: (caches['rr'].set('k', 1, ('b',), version=7), caches['rr'].get('k', version=7))[1]) is None, 'stored in spite of the lock'
h.transaction.finish()
''')

seed('T01-f', [(CD + 'transaction.py', "        for version, dependency in self._dependencies.items():\n            self._lock.release(dependency, self, version)", "        for dependency in self._dependencies.values():\n            self._lock.release(dependency, self, version)"),
               (CD + 'transaction.py', "    def finish(self):\n        for version, dependency in self._dependencies.items():\n            self._lock.prepare", "    def finish(self):\n        version = None\n        for version, dependency in self._dependencies.items():\n            self._lock.prepare")],
     'invalidations in several versions in one transaction', 'the end of the transaction invalidates in the last version only', '''
cache.transaction.begin()
cache.invalidate_tags('t', version=1)
cache.invalidate_tags('t', version=7)
thread(lambda: caches['default'].set('k', 'old', ('t',), version=1))
cache.transaction.finish()
assert cache.get('k', version=1) is None, 'not invalidated at the end of the transaction'
''')

seed('C02-e', [(CD + 'dependencies.py', "        cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)", "        cache.set_many(new_tag_key_versions, self.TAG_STATE_TIMEOUT * 720, version)")],
     'a record kept for longer than an hour', 'it is lost together with the version of its tag', '''
from unittest import mock
cache.set('k', 1, ('t',), 20000)
now = time.time()
with mock.patch('time.time', lambda: now + 4000):
    assert cache.get('k') == 1, 'a valid record is lost'
''')

seed('T03-d', [(CD + 'dependencies.py', "        elif transaction.get_start_time() <= (self.time + self.delay):", "        elif transaction.get_start_time() < int(self.time + self.delay):")],
     'a reader which began in the second in which the writer ended', 'it stores what it read before the commit', '''
gate, ready = threading.Event(), threading.Event()


def reader():
    h = caches['rr']
    with h.transaction:
        ready.set()
        gate.wait(10)
        h.set('k', 'old', ('t',))


r = threading.Thread(target=reader)
h = caches['rr']
while time.time() % 1 > 0.5:
    time.sleep(0.01)
h.transaction.begin()
h.invalidate_tags('t')
while time.time() % 1 < 0.1:
    time.sleep(0.01)
r.start()
ready.wait(10)
h.transaction.finish()
gate.set()
r.join()
assert h.get('k') is None, 'old data is served after the commit'
''')

seed('D04-e', [(DJ + '__init__.py', "    try:\n        tags = tags_func(*args, **kwargs)\n    except TypeError:\n        tags = tags_func(obj)\n", "    try:\n        tags = tags_func(obj)\n    except TypeError:\n        tags = tags_func(*args, **kwargs)\n")],
     'a tag function of the form (instance, created=None, **kwargs)', 'it does not get the arguments of the signal', '''
import types
from django.db import models
from django.db.models import signals


class M(object):
    pass


seen = []


def tags(instance=None, **kwargs):
    seen.append(sorted(kwargs))
    return ('created' if kwargs.get('created') else 'changed',)


dcd.registry.register([(M, tags, 'default')])
cache.set('k', 1, ('created',))
signals.post_save.send(sender=M, instance=M(), created=True)
assert cache.get('k') is None, 'tags of the signal are not invalidated'
''')

seed('D05-d', [(CD + 'nocache.py', "            _globals = {}\n            _globals.update(globals())\n", "            _globals = globals()\n")],
     'a block which renders another text with blocks, and goes on', 'the output of a block goes to another one', '''
n = dcd.nocache
inner = n.start() + "echo('inner')" + n.end()
outer = n.start() + "\\necho('a')\\nvalue = n.handle(inner)\\necho(value)\\n" + n.end()
assert n.handle(outer, n=n, inner=inner) == 'ainner'
''')

seed('C09-c', [(CD + 'dependencies.py', "                self.delegates.append(copy.copy(other))", "                self.delegates.append(other if not getattr(other, 'tag_versions', None) else copy.copy(other))")],
     'a dependency which has not been evaluated yet, given to two records', 'the object of the caller is changed', '''
from cache_dependencies.dependencies import TagsDependency
d = TagsDependency('a')
cache.get('parent')
cache.set('child', 1, ('b',))
cache.get('child')
cache.set('parent', 2, d)
assert d.tags == {'a'}, d.tags
''')

seed('R01-c', [(CD + 'transaction.py', "        self.current().finish()\n        self.current(self.current().parent())", "        current = self.current()\n        self.current(current.parent())\n        current.finish()")],
     'a backend which fails at the end of a transaction', 'the transaction cannot be retried', '''
from unittest import mock
raw = caches['default'].cache.cache
cache.transaction.begin()
cache.invalidate_tags('t')
thread(lambda: caches['default'].set('k', 'old', ('t',)))
with mock.patch.object(type(raw), 'delete_many', side_effect=IOError):
    try:
        cache.transaction.finish()
    except IOError:
        pass
cache.transaction.flush()
assert cache.get('k') is None, 'the invalidation is lost'
''')

