from seeds_a import CD, DJ
from seeds_e import PAGE

SEEDS = []
TT = DJ + 'templatetags/cache_tagging_tags.py'


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('D03-e', [(DJ + 'utils.py', "            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:", "            if header.startswith('ACCEPT_LANGUAGE'):")],
     'a page which varies on Accept-Language in a project without I18N and L10N', 'a reader of one language gets the page of another', PAGE + '''
settings.USE_L10N = False


@cache_page(600)
def view(request):
    r = HttpResponse(request.META['HTTP_ACCEPT_LANGUAGE'])
    r['Vary'] = 'Accept-Language'
    return r


assert view(rf.get('/x/', HTTP_ACCEPT_LANGUAGE='ru')).content == b'ru'
assert view(rf.get('/x/', HTTP_ACCEPT_LANGUAGE='en')).content == b'en', 'the page of another language is served'
''')

seed('D03-f', [(DJ + 'utils.py', "            header = header.upper().replace('-', '_')", "            header = header.upper().replace('-', '_', 1)")],
     'a page which varies on a header with two hyphens', 'its variants are mixed up', PAGE + '''
@cache_page(600)
def view(request):
    r = HttpResponse(request.META['HTTP_X_REQUESTED_WITH'])
    r['Vary'] = 'X-Requested-With'
    return r


assert view(rf.get('/x/', HTTP_X_REQUESTED_WITH='XMLHttpRequest')).content == b'XMLHttpRequest'
assert view(rf.get('/x/', HTTP_X_REQUESTED_WITH='browser')).content == b'browser', 'another variant is served'
''')

seed('D05-e', [(CD + 'nocache.py', "                result = self.handle(result, **data)", "                result = self.handle(result, **_locals)")],
     'nested blocks', 'the nested block runs with the captured data of the outer one, not with its own live data', '''
n = dcd.nocache
inner = n.start() + "echo(x)" + n.end()
outer = n.start(x='captured', inner=inner) + "echo(inner)" + n.end()
assert n.handle(outer, x='live') == 'live', 'the nested block sees what the outer one captured'
''')

seed('D05-f', [(CD + 'nocache.py', "            _locals.update(self.unpickle(match.group(1)))", "            if match.group(1) not in self._captured:\n                self._captured[match.group(1)] = self.unpickle(match.group(1))\n            _locals.update(self._captured[match.group(1)])"),
               (CD + 'nocache.py', "        self.tag_name = tag_name\n", "        self.tag_name = tag_name\n        self._captured = {}\n")],
     'a block which changes an object it captured', 'the next rendering of the page sees the changes of the previous one', '''
n = dcd.nocache
page = n.start(items=[1, 2, 3]) + "echo(items.pop())" + n.end()
assert n.handle(page) == '3'
assert n.handle(page) == '3', 'the second rendering sees what the first one changed'
''')

seed('D04-f', [(DJ + '__init__.py', "        tags = tags_func(obj)\n", "        tags = tags_func(obj) or ()\n")],
     'a tag function which returns a single falsy tag (zero)', 'records with that tag survive the save of the model', '''
from django.db.models import signals


def tags(obj):
    return obj.object_id


class Obj(object):
    object_id = 0


dcd.registry.register(((Obj, tags),))
cache.set('k', 1, (0,))
assert cache.get('k') == 1
signals.post_save.send(sender=Obj, instance=Obj())
assert cache.get('k') is None, 'the record survives'
''')

seed('D06-d', [(DJ + 'backends.py', "        if timeout is None:\n            timeout = self.default_timeout", "        if not timeout:\n            timeout = self.default_timeout")],
     'timeout=0', 'the record is kept for the default time', '''
import shutil, tempfile
from django_cache_dependencies.backends import FileBasedCache
d = tempfile.mkdtemp()
try:
    c = FileBasedCache(d, {'TIMEOUT': 100})
    c.set('k', 1)
    assert c.get('k') == 1
    c.set('k', 2, 0)
    assert c.get('k') is None, 'a record with a zero timeout is kept'
finally:
    for i in range(50):
        if threading.active_count() == 1:
            break
        time.sleep(0.05)
    shutil.rmtree(d)
''')

seed('D07-d', [(CD + 'relations.py', "    def clear(self):\n        self._current = DummyCacheNode()\n        self._data = dict()", "    def clear(self):\n        self._current = DummyCacheNode()\n        self._data = {k: v for k, v in self._data.items() if v.parent()}")],
     'a request that leaves nested builds open', 'the build of the same key in the next request inherits from the forgotten one', '''
from django.core.signals import request_finished
from django.db import close_old_connections
request_finished.disconnect(close_old_connections)
cache.get('outer')
cache.get('k')
cache.set('other', 1, ('x',))
request_finished.send(sender=None)
cache.get('k')
cache.set('k', 'v', ())
cache.invalidate_tags('x')
assert cache.get('k') == 'v', 'the record inherits a tag from the previous request'
''')

seed('T07-c', [(CD + 'utils.py', "    ).encode('utf8')).hexdigest()\n    return hash_value", "    ).encode('utf8')).hexdigest()\n    return hash_value[:6]")],
     'many versions generated for the same tag', 'a version repeats', '''
from cache_dependencies.utils import generate_tag_version
seen = set()
for i in range(20000):
    v = generate_tag_version()
    assert v not in seen, 'a version repeats'
    seen.add(v)
''')
