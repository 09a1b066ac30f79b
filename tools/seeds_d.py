from seeds_a import CD, DJ

SEEDS = []
T = DJ + 'templatetags/cache_tagging_tags.py'


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


TPL = '''
from django.template import engines


def render(text, request=None, **ctx):
    t = engines['django'].from_string('{% load cache_tagging_tags %}' + text)
    return t.render(ctx, request)


'''

seed('D01-a', [(T, "            tags = [x.resolve(context) for x in self.vary_on]\n            if 'tags' in self.kwargs:\n                tags += self.kwargs['tags'].resolve(context)",
                "            if 'tags' in self.kwargs:\n                tags = list(self.kwargs['tags'].resolve(context))\n            else:\n                tags = [x.resolve(context) for x in self.vary_on]")],
     'a fragment with both tags as arguments and a list of tags', 'the fragment is served after an invalidation of the former', TPL + '''
text = "{% cache_tagging 'f' 'one' tags=more %}{{ v }}{% end_cache_tagging %}"
assert render(text, v=1, more=['two']) == '1'
cache.invalidate_tags('one')
assert render(text, v=2, more=['two']) == '2', 'an invalidated fragment is served'
''')

seed('D01-b', [(T, "            tags = sub_context['cache_tagging']\n", "            tags = sub_context['cache_tagging'] if not context.get('cache_tagging') else sub_context['cache_tagging'] - context['cache_tagging']\n")],
     'a fragment nested in one with the same tag, used also on its own', 'the tag which the outer fragment carries too is not kept for the inner one', TPL + '''
outer = "{% cache_tagging 'o' 'a' %}<{% cache_tagging 'i' 'a' %}{{ v }}{% end_cache_tagging %}>{% end_cache_tagging %}"
inner = "{% cache_tagging 'i' 'a' %}{{ v }}{% end_cache_tagging %}"
assert render(outer, v=1) == '<1>'
cache.invalidate_tags('a')
assert render(inner, v=2) == '2', 'an invalidated fragment is served'
''')

seed('D02-a', [(DJ + 'middleware.py', "            tags = self.tags(request)\n        tags = set(tags)", "            if callable(self.tags):\n                self.tags = self.tags(request)\n            tags = self.tags\n        tags = set(tags)")],
     'a tag function whose result depends on the request, and a second request', 'pages get the tags of the first one', '''
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
calls = []


def view(request):
    calls.append(request.path)
    return HttpResponse(request.path)


view = cache_page(600, tags=lambda request: (request.path,))(view)
rf = RequestFactory()
for p in ('/a/', '/b/'):
    view(rf.get(p))
cache.invalidate_tags('/b/')
view(rf.get('/b/'))
assert calls == ['/a/', '/b/', '/b/'], 'an invalidated page is served'
''')

seed('D02-b', [(DJ + 'middleware.py', "        if hasattr(request, 'cache_tagging'):\n            tags.update(request.cache_tagging)", "        if not tags and hasattr(request, 'cache_tagging'):\n            tags.update(request.cache_tagging)")],
     'a page in a cache other than the default one, with a tag function and fragments', 'the page is served after an invalidation of a tag of a fragment in it', '''
from django.http import HttpResponse
from django.test import RequestFactory
from django.template import engines
from django_cache_dependencies.decorators import cache_page
text = "{% load cache_tagging_tags %}{% cache_tagging 'f' 'frag' %}x{% end_cache_tagging %}"
calls = []


def view(request):
    calls.append(1)
    return HttpResponse(engines['django'].from_string(text).render({}, request))


view = cache_page(600, cache='ru', tags=lambda request: ('page',))(view)
rf = RequestFactory()
view(rf.get('/'))
cache.invalidate_tags('frag')
caches['ru'].invalidate_tags('frag')
view(rf.get('/'))
assert len(calls) == 2, 'an invalidated page is served'
''')

seed('D03-a', [(DJ + 'middleware.py', "if getattr(response, 'streaming', None) or response.status_code != 200:", "if getattr(response, 'streaming', None) or not 200 <= response.status_code < 300:")],
     'a successful response other than 200, like a partial one', 'it is cached and served for the whole', '''
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
codes = [206, 200]
view = cache_page(600)(lambda request: HttpResponse('x', status=codes.pop(0)))
rf = RequestFactory()
view(rf.get('/'))
assert view(rf.get('/')).status_code == 200, 'a partial response is served from cache'
''')

seed('D03-b', [(DJ + 'middleware.py', "        timeout = get_max_age(response)\n        if timeout is None:\n            timeout = self.cache_timeout\n        elif timeout == 0:", "        timeout = get_max_age(response)\n        if timeout is None:\n            timeout = self.cache_timeout\n        elif timeout == 0 and not self.cache_timeout:")],
     'a response with max-age=0', 'it is cached', '''
from django.http import HttpResponse
from django.test import RequestFactory
from django_cache_dependencies.decorators import cache_page
calls = []


def view(request):
    calls.append(1)
    r = HttpResponse('x')
    r['Cache-Control'] = 'max-age=0'
    return r


view = cache_page(600)(view)
rf = RequestFactory()
import cache_dependencies.cache as cc
stored = []
real = cc.CacheWrapper.set
cc.CacheWrapper.set = lambda self, key, *a, **kw: (stored.append(key), real(self, key, *a, **kw))[1]
view(rf.get('/'))
assert not stored, 'it is stored'
view(rf.get('/'))
assert len(calls) == 2
''')

seed('D03-c', [(T, "            sub_context['cache_tagging_prevent'] = False\n", "            sub_context['cache_tagging_prevent'] = False\n            page = getattr(context.get('request'), '_cache_update_cache', None)\n"),
               (T, "                if context['cache_tagging_prevent']:\n                    prevent_cache_page(request)", "                if context['cache_tagging_prevent'] and page is not None:\n                    prevent_cache_page(request)")],
     'dummy', 'dummy', '')
SEEDS.pop()

seed('D03-c', [(T, "            # Allows nested caching\n            sub_context['cache_tagging_prevent'] = False\n", "            # Allows nested caching\n            sub_context['cache_tagging_prevent'] = bool(context['cache_tagging_prevent'])\n"),
               (T, "                if context['cache_tagging_prevent']:\n                    prevent_cache_page(request)", "                if prevent and 'cache_tagging' not in context:\n                    prevent_cache_page(request)")],
     'dummy', 'dummy', '')
SEEDS.pop()

MODELS = '''
from django.db import models


class Thing(models.Model):
    name = models.CharField(max_length=10)

    class Meta:
        app_label = 'demo'


class Part(models.Model):
    thing = models.ForeignKey(Thing, related_name='parts', on_delete=models.CASCADE)

    class Meta:
        app_label = 'demo'


from django.db import connection
with connection.schema_editor() as e:
    e.create_model(Thing)
    e.create_model(Part)
'''

seed('D04-a', [(DJ + '__init__.py', "            model_signals.post_save.connect(\n                curry(_clear_cached, tags_func, apply_cache),\n                sender=Model, weak=False\n            )",
                "            model_signals.post_save.connect(\n                curry(_clear_cached, tags_func, apply_cache),\n                sender=Model, weak=False, dispatch_uid='cache_dependencies.{0}'.format(apply_cache)\n            )")],
     'several registrations of one model for one cache', 'only tags of the first one are invalidated by a save', MODELS + '''
dcd.registry.register([(Thing, lambda obj: 'thing'), (Thing, lambda obj: ('thing.pk:%s' % obj.pk,))])
t = Thing.objects.create(name='x')
cache.set('k', 1, ('thing.pk:%s' % t.pk,))
t.save()
assert cache.get('k') is None, 'a record of the saved object is served'
''')

seed('D04-b', [(DJ + '__init__.py', "            model_signals.pre_delete.connect(", "            model_signals.post_delete.connect(")],
     'a tag function which follows relations of the object that is deleted', 'its tags are not invalidated by a delete', MODELS + '''
dcd.registry.register([(Thing, lambda obj: ['part.pk:%s' % p.pk for p in Part.objects.filter(thing=obj)] + ['thing'])])
t = Thing.objects.create(name='x')
p = Part.objects.create(thing=t)
cache.set('k', 1, ('part.pk:%s' % p.pk,))
t.delete()
assert cache.get('k') is None, 'a record under a tag the function yields is served'
''')

seed('D04-c', [(DJ + '__init__.py', "    if not isinstance(tags, (list, tuple, set, frozenset)):\n        tags = (tags, )", "    if isinstance(tags, string_types):\n        tags = (tags, )")],
     'dummy', 'dummy', '')
SEEDS.pop()

seed('D05-a', [(CD + 'nocache.py', "            _locals.update(data)\n            _locals.update(self.unpickle(match.group(1)))", "            _locals.update(self.unpickle(match.group(1)))\n            _locals.update(data)")],
     'a name captured when the block was produced that the current context has too', 'the block sees the current value', '''
from cache_dependencies.nocache import NoCache
n = NoCache('secret')
text = n.start(v='captured') + 'echo(v)' + n.end()
assert n.handle(text, v='current') == 'captured'
''')

seed('D05-b', [(CD + 'nocache.py', "        self.nocache_pattern = r'{0}([^\"]+)\">(.*?)(?!<{1}){2}'.format(\n            re.escape(self._start),", "        self.nocache_pattern = r'{0}([^\"]+)\">(.*?)(?!<{1}){2}'.format(\n            re.escape(self._start.lower()).lower(),"),
               (CD + 'nocache.py', "re.U|re.S)", "re.U|re.S|re.I)")],
     'a forged block whose secret differs in case only', 'it is executed', '''
from cache_dependencies.nocache import NoCache
n = NoCache('abc')
text = n.start() + 'echo(1)' + n.end()
forged = text.replace('abc', 'ABC')
assert n.handle(text) == '1'
assert n.handle(forged) == forged, 'a block without the secret of the site is executed'
''')

seed('D05-c', [(CD + 'nocache.py', "            lines = match.group(2).split('\\n')\n            lines = [l.rstrip() for l in lines]", "            lines = match.group(2).strip().splitlines()\n            lines = [l.rstrip() for l in lines]")],
     'a block whose first line is indented', 'lines after it lose their first characters', '''
from cache_dependencies.nocache import NoCache
n = NoCache('secret')
text = n.start() + """
    if 1:
        echo('a')
    echo('b')
""" + n.end()
assert n.handle(text) == 'ab'
''')

FILES = '''
import tempfile, shutil
d = tempfile.mkdtemp(prefix='demo')
import atexit
atexit.register(shutil.rmtree, d, True)
import django_cache_dependencies.backends as b
b.random.random = lambda: 0.0
'''

seed('D06-a', [(DJ + 'backends.py', "            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,\n                                       dir=dirname)\n\n            with os.fdopen(fd, 'wb') as f:", "            tmp = fname + self._fs_transaction_suffix\n\n            with open(tmp, 'wb') as f:")],
     'two processes or threads which store one key at the same time', 'they write into one temporary file, and what is renamed may be incomplete', FILES + '''
go, wrote = threading.Event(), threading.Event()


class Slow(object):
    def __reduce__(self):
        if not wrote.is_set():
            wrote.set()
            go.wait(10)
        return (str, ('slow',))


c = b.FileBasedCache(d, {})
t = threading.Thread(target=lambda: c.set('k', Slow()))
t.start()
wrote.wait(10)
b.FileBasedCache(d, {}).set('k', 'fast')
first = b.FileBasedCache(d, {}).get('k')
go.set()
t.join()
second = b.FileBasedCache(d, {}).get('k')
assert first == 'fast' and second == 'slow', (first, second)
''')

seed('D06-b', [(DJ + 'backends.py', "                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))\n            os.rename(tmp, fname)", "                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))\n                os.rename(tmp, fname)")],
     'a reader, or the death of the writer, between the renaming and the closing of the file', 'the file is seen incomplete', FILES + '''
c = b.FileBasedCache(d, {})
c.set('k', 'old')
seen = []
real = os.rename


def rename(src, dst):
    real(src, dst)
    try:
        seen.append(b.FileBasedCache(d, {}).get('k'))
    except Exception as e:
        seen.append(e)


os.rename = rename
c.set('k', 'new')
os.rename = real
assert seen == ['new'], seen
''')

seed('D07-a', [(DJ + '__init__.py', "        return self._caches.values()", "        return [c for k, c in self._caches.items() if k[0] in settings.CACHES]")],
     'a tagged cache configured over the backend of another alias', 'its handle is not closed at the end of a request', '''
settings.CACHE_TAGGING['over'] = {'ISOLATION_LEVEL': 'REPEATABLE READ', 'BACKEND': 'default'}
from django.core.signals import request_finished
h = caches['over']
h.transaction.begin()
from django.db import close_old_connections
request_finished.disconnect(close_old_connections)
request_finished.send(sender=None)
left = h.transaction.current()
h.transaction.flush()
assert not left, 'a transaction survives the request'
''')
