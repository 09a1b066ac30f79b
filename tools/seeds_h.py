from seeds_a import CD, DJ

SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


MW, TT, DI = DJ + 'middleware.py', DJ + 'templatetags/cache_tagging_tags.py', DJ + '__init__.py'

PAGE = '''
from django.http import HttpResponse
from django.template import engines
from django.template.response import TemplateResponse
from django.test import RequestFactory
from django_cache_dependencies import middleware
factory = RequestFactory()
'''

seed('D01-h', [(TT, "        cache_name = self.fragment_name.resolve(context)\n", "        self._name = cache_name = self.fragment_name.resolve(context)\n"),
               (TT, "                cache.set(cache_name, result, tags, timeout)", "                cache.set(self._name, result, tags, timeout)")],
     'two threads that render one compiled template, with different names of the fragment, one in the midst of the other',
     'the fragment of one is cached under the name of the other', '''
from django.template import engines
t = engines['django'].from_string('{% load cache_tagging_tags %}{% cache_tagging name "a" %}{{ body }}{% end_cache_tagging %}')


class Body(object):
    def __str__(self):
        thread(lambda: t.render({'name': 'two', 'body': '2'}))
        return '1'


assert t.render({'name': 'one', 'body': Body()}) == '1'
assert t.render({'name': 'two', 'body': '2'}) == '2', 'the fragment of another name is shown'
assert (cache.get('one'), cache.get('two')) == ('1', '2'), 'fragments cached: %r' % ((cache.get('one'), cache.get('two')),)
''')

seed('D02-i', [(MW, "            tags = self.tags(request)\n        tags = set(tags)\n", "            tags = self.tags(request)\n        self.page_tags = tags = set(tags)\n"),
               (MW, "                    lambda r: self.cache.set(cache_key, r, dependency, timeout)",
                "                    lambda r: self.cache.set(cache_key, r, CompositeDependency(TagsDependency(self.page_tags), dependency), timeout)"),
               (MW, "            dependency = CompositeDependency(TagsDependency(tags))\n", "            dependency = CompositeDependency()\n"),
               (MW, "                self.cache.set(cache_key, response, dependency, timeout)",
                "                self.cache.set(cache_key, response, CompositeDependency(TagsDependency(self.page_tags), dependency), timeout)")],
     'a page answered by a TemplateResponse, rendered after the middleware has seen it, while another thread is served by the same middleware',
     'the page is cached with the tags of the page of the other thread, and survives its own', PAGE + '''
m = middleware.CacheMiddleware(cache_timeout=100, tags=lambda request: [request.path], cache_alias='default')
t = engines['django'].from_string('{{ body }}')


def serve(path, body, x='1'):
    request = factory.get(path, HTTP_X=x)
    found = m.process_request(request)
    if found is not None:
        return found.content.decode()
    response = TemplateResponse(request, t, {'body': body})
    response['Vary'] = 'X'
    response = m.process_response(request, response)
    response.render()
    return response.content.decode()


class Body(object):
    def __str__(self):
        thread(lambda: serve('/two/', '2'))
        return '1'


assert serve('/one/', Body()) == '1'
cache.invalidate_tags('/one/')
serve('/one/', 'other', x='2')
assert serve('/one/', 'new') == 'new', 'the page is served after its tag was invalidated'
''')

seed('D03-h', [(MW, "        if not self._should_update_cache(request, response):", "        if not self._should_update_cache(request, response) or not self.updating:"),
               (MW, "        if request.method not in ('GET', 'HEAD'):\n            request._cache_update_cache = False\n",
                "        self.updating = request.method in ('GET', 'HEAD')\n        if not self.updating:\n            request._cache_update_cache = False\n"),
               (MW, "    tags = None\n", "    tags = None\n    updating = True\n")],
     'a form posted in another thread while the view of a page is running',
     'the page is not cached', PAGE + '''
m = middleware.CacheMiddleware(cache_timeout=100, cache_alias='default')
runs = []


def serve(path, view, method='get'):
    request = getattr(factory, method)(path)
    found = m.process_request(request)
    if found is not None:
        return found
    return m.process_response(request, view())


def view():
    runs.append(1)
    if len(runs) == 1:
        thread(lambda: serve('/two/', lambda: HttpResponse('2'), 'post'))
    return HttpResponse('1')


serve('/one/', view)
serve('/one/', view)
assert len(runs) == 1, 'a cacheable page was not cached'
''')

SIG = '''
from django.db import connections, models


class Row(models.Model):
    name = models.CharField(max_length=9)
    text = models.CharField(max_length=9)

    class Meta:
        app_label = 'django_cache_dependencies'


for alias in connections:
    with connections[alias].schema_editor() as e:
        e.create_model(Row)
dcd.registry.register([(Row, lambda obj: ['row:%s' % obj.pk])])
'''

seed('C01-h', [(CD + 'tagging.py', "        self.cache.set(key, value, dependency, timeout, version)\n\n    def invalidate_tags",
                '''        if timeout is not None or not self.is_current(key, value, version):
            self.cache.set(key, value, dependency, timeout, version)

    def is_current(self, key, value, version=None):
        \"""The very value is there already: there is nothing to write.\"""
        if self.ignore_descendants:
            return False
        old = self.cache.get(key, None, version, True)
        return type(old) is type(value) and old == value

    def invalidate_tags''')],
     'a value equal to the cached one stored again with other tags', 'the record keeps its former tags, and survives the invalidation of the new ones', '''
cache.set('k', 'v', ('a',))
cache.set('k', 'v', ('a', 'b'))
cache.invalidate_tags('b')
assert cache.get('k') is None, 'the record survives the invalidation of a tag it was stored with'
''')

seed('D04-h', [(DI, "    cache.invalidate_tags(*tags)\n\n\nclass CacheRegistry", "    if obj.pk:  # Nothing of it could be cached before it is saved.\n        cache.invalidate_tags(*tags)\n\n\nclass CacheRegistry")],
     'a row whose primary key is 0 (or an empty string)', 'saving and deleting it does not invalidate', SIG + '''
row = Row(pk=0, name='a')
row.save()
cache.set('r', 'a', ('row:0',))
row.name = 'b'
row.save()
assert cache.get('r') is None, 'the record survives the change of its row'
''')

seed('C03-i', [(CD + 'cache.py', "        if not abort and not self.ignore_descendants:\n            self.begin(key)\n        data = ", "        if self.ignore_descendants:\n            self.relation_manager.clear()\n        elif not abort:\n            self.begin(key)\n        data = ")],
     'a read with tracking off in the midst of a build', 'the build is forgotten, and its record does not get the tags of what was read', '''
cache.set('inner', 1, ('in',))
cache.get('outer')
cache.get('inner')
handle = caches['default']
handle.ignore_descendants = True
handle.get('elsewhere')
handle.ignore_descendants = False
cache.set('outer', 1, ('out',))
cache.invalidate_tags('in')
assert cache.get('outer') is None, 'the composite does not depend on what it was built from'
''')

seed('C02-h', [(CD + 'utils.py', "    return 'tag_{0}_{1}'.format(version, name)", "    return 'tag_{0}_{1}'.format(version, name[:8])")],
     'some ten thousands of tags', 'two tags have one version, so that the invalidation of one drops the records of the other', '''
cache.set('k', 1, ('post.pk:22147',))
cache.set('l', 1, ('post.pk:79357',))
cache.invalidate_tags('post.pk:79357')
assert cache.get('k') == 1, 'a record is lost with a tag it does not carry'
''')

seed('C06-h', [(CD + 'dependencies.py', "        cache.delete_many(tag_keys, version=version)", "        for i in range(0, len(tag_keys), 512):\n            cache.delete_many(tag_keys[i:i + 512], version=version)")],
     'an invalidation of more than 512 tags at once', 'its number of backend operations depends on the number of tags', '''
from django.core.cache import caches as raw
calls = []
backend = raw['default']
real = backend.delete_many
backend.delete_many = lambda *a, **kw: (calls.append(a), real(*a, **kw))[1]
cache.invalidate_tags(*['t%d' % i for i in range(10)])
few = len(calls)
del calls[:]
cache.invalidate_tags(*['t%d' % i for i in range(2000)])
assert len(calls) == few, '%s operations instead of %s' % (len(calls), few)
''')

seed('D05-h', [(CD + 'nocache.py', "            lines = match.group(2).split('\\n')", "            lines = match.group(2).splitlines()")],
     'a block whose code has a line separator (U+2028, form feed) in a literal', 'the block fails', '''
from cache_dependencies.nocache import NoCache
n = NoCache('secret')
assert n.handle(n.start() + 'echo("a' + chr(0x2028) + 'b")' + n.end()) == 'a' + chr(0x2028) + 'b'
''')
