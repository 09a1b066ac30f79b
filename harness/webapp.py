"""Random web sites with cached pages, served by Django's own request handler.

Every view prints unique numbers, so a response tells exactly which run of the view, of a fragment and of
a computation made it. The model mirrors the site: what may, must and must not come from the cache.
"""
import io
import logging
import os
import re
import sys
import threading

from django.conf import settings
from django.core import signals
from django.core.handlers.base import BaseHandler
from django.core.handlers.wsgi import WSGIRequest
from django.http import FileResponse, Http404, HttpResponse, StreamingHttpResponse
from django.template import loader
from django.template.response import TemplateResponse

import pages
from core import Crew, weighted
from django_cache_dependencies import middleware, decorators
from django_cache_dependencies.utils import prevent_cache_page
from env import CLOCK
from kit import Tracer, dcd, fresh, wrapped
from monbackend import store
from verifapp.loader import TEMPLATES

logging.getLogger('django').addHandler(logging.NullHandler())
logging.getLogger('django').propagate = False
logging.getLogger('django.request').addHandler(logging.NullHandler())
logging.getLogger('django.request').propagate = False

PACKAGE = os.sep + 'django_cache_dependencies' + os.sep
HEADERS = ['X-A', 'X-B', 'Cookie', 'Accept-Language', 'X-Forwarded-For-Host', 'User-Agent']
PADS = ['pad%d' % i for i in range(60)]


def meta_name(h):
    return 'HTTP_' + h.upper().replace('-', '_')


class User(object):
    def __init__(self, known):
        self.known = known

    def is_authenticated(self):
        return self.known


class Session(object):
    def __init__(self, accessed):
        self.accessed = accessed


def page_tags(request):
    return request.META['verif.mode']['tags']


# -- middleware classes a site may be made of -----------------------------------

class Single(middleware.CacheMiddleware):
    def __init__(self, get_response=None):
        super(Single, self).__init__(get_response, **SINGLE_KW)
        if SINGLE_TAGS:
            self.tags = page_tags


SINGLE_KW = {}
SINGLE_TAGS = []


def anonymous_only(flag):
    if flag:
        settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = True
    elif hasattr(settings, 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY'):      # may be missing in the settings
        del settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY


class Update(middleware.UpdateCacheMiddleware):
    pass


class UpdateTagged(middleware.UpdateCacheMiddleware):
    def tags(self, request):
        return page_tags(request)


class Fetch(middleware.FetchFromCacheMiddleware):
    pass


class Footer(middleware.MiddlewareMixin):
    """Between the two parts: adds a cached value to the page on its way out; declares the user."""

    def process_request(self, request):
        mode = request.META['verif.mode']
        if mode['session'] is not None:
            request.session = Session(mode['session'])
        request.user = User(mode['user'])

    def process_response(self, request, response):
        mode = request.META['verif.mode']
        if mode['footer'] and 'verif.ran' in request.META and response.status_code == 200 and not response.streaming:
            app = request.META['verif.app']
            response.content = response.content + app.worlds['default'].read(*mode['footer']).encode('utf8')
        return response


class Page(object):
    """The model of a stored page."""

    def __init__(self, body, must, may, expiry, what):
        self.body = body
        self.must = must            # {tag: generation} on the alias of the page
        self.may = may
        self.expiry = expiry
        self.what = what


class Site(object):
    """One configuration: how the pages are cached, and its views."""

    def __init__(self, app, number, alias, prefix, form, rng):
        self.app = app
        self.number = number
        self.alias = alias
        self.prefix = prefix
        self.form = form
        self.timeout = rng.choice([600, 600, 20, 100])
        self.tagged = rng.random() < 0.75
        self.anonymous_only = form != 'decorator' and rng.random() < 0.35
        self.footer = form != 'decorator' and rng.random() < 0.5
        self.transaction = rng.choice([None, None, 'outer', 'inner'])
        self.legacy = rng.random() < 0.3
        self.how = rng.choice(['cache_page(t)(v)', 'cache_page(t)(v)', 'cache_page(v,t)', 'cache_page(t,v)', 'cache_page(v)', 'cache_page()(v)'])
        if form == 'decorator' and self.how in ('cache_page(v)', 'cache_page()(v)'):
            self.timeout = 600
        elif form == 'decorator' and rng.random() < 0.06:
            self.timeout = 0
        self.views = {}

    def __str__(self):
        return 'site%d: %s%s cache=%s prefix=%r timeout=%s tagged=%s anonymous_only=%s footer=%s transaction=%s legacy=%s' % (
            self.number, self.form, ' ' + self.how if self.form == 'decorator' else '', self.alias, self.prefix, self.timeout, self.tagged,
            self.anonymous_only, self.footer, self.transaction, self.legacy)

    def handler(self):
        """A loaded handler, as at the start of a worker."""
        mid = []
        if self.form == 'middleware':
            mid = ['webapp.Single']
        elif self.form == 'two-part':
            mid = ['webapp.' + ('UpdateTagged' if self.tagged else 'Update'), 'webapp.Fetch']
        if self.footer or self.anonymous_only:
            mid.insert(1 if self.form == 'two-part' else len(mid), 'webapp.Footer')
        t = 'django_cache_dependencies.middleware.TransactionMiddleware'
        if self.transaction == 'outer':
            mid.insert(0, t)
        elif self.transaction == 'inner':
            mid.append(t)
        SINGLE_KW.clear()
        SINGLE_KW.update(cache_timeout=self.timeout, cache_anonymous_only=None)
        if self.how in ('cache_page(t)(v)',):        # through the settings
            SINGLE_KW['cache_timeout'] = None
            SINGLE_KW.pop('cache_anonymous_only')
        else:
            SINGLE_KW.update(key_prefix=self.prefix, cache_alias=self.alias)
        if self.number % 2 and self.tagged:
            SINGLE_KW['tags'] = page_tags
        SINGLE_TAGS[:] = [1] if self.tagged else []
        settings.CACHE_MIDDLEWARE_ALIAS = self.alias
        settings.CACHE_MIDDLEWARE_SECONDS = self.timeout
        settings.CACHE_MIDDLEWARE_KEY_PREFIX = self.prefix
        anonymous_only(self.anonymous_only)
        settings.MIDDLEWARE = None if self.legacy else mid
        settings.MIDDLEWARE_CLASSES = mid
        h = BaseHandler()
        h.load_middleware()
        return h

    def decorated(self, view):
        kw = {}
        if self.alias != 'default' or self.number % 2:
            kw['cache'] = self.alias
        if self.prefix or self.number % 2:
            kw['key_prefix'] = self.prefix
        if self.tagged:
            kw['tags'] = page_tags
        c = decorators.cache_page
        t = self.timeout
        return {'cache_page(t)(v)': lambda: c(t, **kw)(view), 'cache_page(v,t)': lambda: c(view, t, **kw),
                'cache_page(t,v)': lambda: c(t, view, **kw), 'cache_page(v)': lambda: c(view, **kw),
                'cache_page()(v)': lambda: c(**kw)(view)}[self.how]()


class Tail(object):
    """What the template of a page renders last."""

    def __init__(self, go):
        self.go = go

    def __str__(self):
        if self.go:
            self.go()
        return ''


class View(object):
    def __init__(self, app, rng, name):
        self.app = app
        self.name = name
        self.tree = app.writer.tree() if rng.random() < 0.8 else []
        app.writer.put(name, '{{ head }}' + app.writer.source(self.tree) + '{{ tail }}')
        keys = sorted(app.specs)
        self.reads = [(rng.choice(['default', 'default', 'pages']), rng.choice(keys), rng.choice(pages.HOWS)) for _ in range(rng.choice([0, 0, 1, 2]))]
        self.vary = rng.choice([[], [], [], ['X-A'], ['X-B'], ['X-A', 'X-B'], ['Cookie', 'X-A'], ['Accept-Language'], ['X-Forwarded-For-Host'],
                                rng.sample(HEADERS, 2), rng.sample(HEADERS, rng.randint(3, 6))])
        self.comma = rng.choice([', ', ', ', ',', ' ,  '])
        self.case = rng.choice([str, str, str.lower, str.upper])
        self.kind = rng.choice(['http', 'http', 'template', 'render'])
        self.max_age = rng.choice([None, None, None, 30, 200])

    def __str__(self):
        return '%s: %s reads=%s vary=%s max_age=%s' % (self.name, self.kind, self.reads, self.vary, self.max_age)


class App(object):
    def __init__(self, rng, stats, wild=0.1, prevent=0.0, boom=0.05, hosts=1):
        self.rng = rng
        self.stats = stats
        fresh('default')
        fresh('pages')
        TEMPLATES.clear()
        self.t = Tracer()
        self.crew = Crew()
        self.wild = wild
        self.box, self.mbox = [0], [0]
        keys = ['k%d' % i for i in range(3)]
        self.specs = {}
        for i, k in enumerate(keys):
            self.specs[k] = pages.Spec(rng.sample(pages.TAGS, rng.randint(0, 2)), rng.choice([None, 7, 60, 900]),
                                       rng.sample(keys[:i], min(i, rng.choice([0, 0, 1]))))
        self.writer = pages.Writer(rng, keys, prevent=prevent, boom=boom, max_depth=2)
        self.models = dict((a, pages.Model(self.mbox)) for a in ('default', 'pages'))
        self.worlds = dict((a, pages.World(self.specs, a, self.box)) for a in ('default', 'pages'))
        self.pages = {}
        self.headers = {}
        self.shared = rng.random() < 0.6        # all threads use one handler, and so the same instances of middleware
        self.meanwhile = rng.choice([0, 0.3])
        self.failure = None         # of a request in the midst of another one
        self.errors = []
        self.sites = []
        used = set()
        for n in range(rng.choice([1, 1, 2])):
            form = rng.choice(['decorator', 'decorator', 'middleware', 'two-part'])
            alias, prefix = rng.choice(['default', 'default', 'default', 'pages']), rng.choice(['', '', 'p', 'q'])
            while (alias, prefix) in used:
                prefix += 'x'
            used.add((alias, prefix))
            site = Site(self, n, alias, prefix, form, rng)
            for i in range(rng.randint(1, 2)):
                v = View(self, rng, 'site%d-view%d' % (n, i))
                site.views['/v%d/' % i] = v
            self.sites.append(site)
            self.t('%s', str(site))
            for path in sorted(site.views):
                self.t('%s %s', path, str(site.views[path]))
        for name in sorted(TEMPLATES):
            self.t('%s: %s', name, TEMPLATES[name])
        self.t('lists: %s', self.writer.lists)
        for k in keys:
            self.t('value %s: tags %s timeout %s reads %s', k, self.specs[k].tags, self.specs[k].timeout, self.specs[k].reads)
        self.where = [None] if rng.random() < 0.6 else [None, 'A', 'B']
        self.hosts = ['h%d.test' % i for i in range(hosts)]
        self.queries = ['', '', 'q=1', 'q=2&r=1'] if hosts > 1 else ['', '', '', 'q=1']
        self.absent = rng.random() < 0.3
        self.localized = rng.random() < 0.25
        self.handlers = {}
        self.views = {}
        self.over = False
        self.past = []

    # -- the real side -------------------------------------------------------

    def view(self, site, v):
        def finish(request, response, mode):
            if mode['vary']:
                response['Vary'] = v.comma.join([v.case(h) for h in mode['vary']])
            if mode['cc']:
                response['Cache-Control'] = mode['cc']
            response['X-View'] = v.name
            if mode['etag']:
                response['ETag'] = '"%s"' % mode['etag']
                response['Last-Modified'] = 'Sun, 09 Sep 2001 01:46:40 GMT'
            if mode['prevent'] == 'after':
                prevent_cache_page(request)
            return response

        def view(request):
            mode = request.META['verif.mode']
            request.META['verif.ran'] = True
            mode['runs'].append(1)
            if mode['meanwhile']:
                mode['meanwhile']()
                self.configure(site, mode)
            out = ['{%d}' % self.worlds['default'].next()]
            for alias, key, how in v.reads:
                out.append(self.worlds[alias].read(key, how))
            if mode['prevent'] == 'before':
                prevent_cache_page(request)
            text = ''.join(out)
            if mode['raise'] == '404':
                raise Http404('gone')
            if mode['raise'] == 'error':
                raise pages.Boom()
            ctx = self.writer.context(self.worlds['default'], mode['env'])
            ctx['head'] = text
            ctx['tail'] = Tail(mode['late'])
            if mode['kind'] == 'template':
                return finish(request, TemplateResponse(request, v.name, ctx, status=mode['status']), mode)
            text = loader.get_template(v.name).render(ctx, request if mode['kind'] != 'render' else None)
            if mode['kind'] == 'streaming':
                content = FileResponse(io.BytesIO(text.encode('utf8')), status=mode['status']) if mode['file'] else StreamingHttpResponse(
                    iter([text.encode('utf8')]), status=mode['status'])
                return finish(request, content, mode)
            return finish(request, HttpResponse(text, status=mode['status']), mode)
        return site.decorated(view) if site.form == 'decorator' else view

    def configure(self, site, mode):
        settings.CACHE_MIDDLEWARE_SECONDS = site.timeout
        settings.CACHE_MIDDLEWARE_ALIAS = site.alias
        settings.CACHE_MIDDLEWARE_KEY_PREFIX = site.prefix
        settings.USE_L10N = self.localized
        anonymous_only(site.anonymous_only)
        self.worlds['default'].flags = self.worlds['pages'].flags = mode['env']['flags']

    def late(self, site, v, mode, cacheable, again):
        """Another request just as the template of the page has been rendered, maybe after the view."""
        m = self.models['default']
        mode['model'] = self.run_model(site, v, mode, cacheable)
        saved = m.page_prevented, m.maybe_prevented, m.page_tags

        def go(again, what):
            self.stats.obs['requests in the midst of ' + what] += 1
            self.other_request(again, what)
            m.page_prevented, m.maybe_prevented, m.page_tags = saved
            self.configure(site, mode)
        if self.rng.random() < 0.4:
            return go(again, 'a rendering')
        # or while the page is being stored: another URL, because the model stores a page at once
        st, thread, left = store(wrapped(site.alias)), threading.current_thread(), [self.rng.randint(1, 8)]
        site, path, method, host, query, scheme, headers = again
        again = (site, path, 'GET', host, self.rng.choice(['other=%d' % n for n in range(1, 4) if 'other=%d' % n != query]), scheme, headers)

        def before(name, keys):
            # (not between reading that a tag has no version yet and giving it one: the page of the other thread may be lost then)
            if threading.current_thread() is thread and name != 'set_many':
                left[0] -= 1
                if not left[0]:
                    st.before = None
                    go(again, 'a storing')

        def trace(frame, event, arg):
            if PACKAGE not in frame.f_code.co_filename:
                return None
            if event == 'line':
                lines[0] -= 1
                if not lines[0]:
                    sys.settrace(None)
                    go(again, 'a storing, at a line')
            return trace
        if self.rng.random() < 0.5:
            st.before = before
        else:
            lines = [self.rng.randint(1, 60)]
            sys.settrace(trace)

    def other_request(self, again, what=''):
        """Another thread serves a request, from its beginning to its end, just as a view begins to run."""
        if what.startswith('a storing'):
            self.past.append(again)
        elif self.rng.random() < 0.6:
            site, path, method, host, query, scheme, headers = again
            if self.rng.random() < 0.4:
                method = self.rng.choice(['GET', 'HEAD', 'POST'])
            if self.rng.random() < 0.3:
                headers = self.headers_of_request()
            if self.rng.random() < 0.3:
                query = self.rng.choice(self.queries)
            again = (site, path, method, host, query, scheme, headers)
            self.past.append(again)
        else:
            again = None
        self.t('  meanwhile:')
        self.stats.obs['requests in the midst of another'] += 1
        try:
            self.request(again, where='C')
        except BaseException as e:      # the handler would make a response of it
            self.failure = self.failure or e
        self.t('  end of meanwhile')

    def serve(self, site, v, request, mode):
        key = (site.number, None if self.shared else mode['where'])
        if key not in self.handlers:
            self.handlers[key] = site.handler()
        handler = self.handlers[key]
        self.configure(site, mode)
        if v not in self.views:
            self.views[v] = self.view(site, v)      # decorated once, used by all threads
        request['verif.view'] = self.views[v]
        errors = []

        def caught(sender, request=None, **kw):
            errors.append(repr(sys.exc_info()[1]))
        signals.got_request_exception.connect(caught)
        try:
            wsgi = WSGIRequest(request)
            if self.localized:                  # as LocaleMiddleware would do
                wsgi.LANGUAGE_CODE = request.get(meta_name('Accept-Language'), 'en')
            response = handler.get_response(wsgi)
            text = b''.join(response.streaming_content if response.streaming else [response.content]).decode('utf8')
            headers = dict((k.lower(), val) for k, val in response.items())
            status = response.status_code
            if mode['close']:
                response.close()
            else:
                signals.request_finished.send(sender=self)
        finally:
            if mode['late']:
                sys.settrace(None)
                store(wrapped(site.alias)).before = None
            signals.got_request_exception.disconnect(caught)
            settings.USE_L10N = False
        return status, headers, text, errors

    # -- the model ------------------------------------------------------------

    def now(self, tags, alias):
        gen = self.models[alias].gen
        return dict((t, gen.get(t, 0)) for t in tags)

    def fresh(self, tags, alias):
        gen = self.models[alias].gen
        return all(gen.get(t, 0) == g for t, g in tags.items())

    def run_model(self, site, v, mode, building):
        """What a run of the view gives, with the tags of what it is made of."""
        frames = []
        if building:
            for a in self.models:
                f = pages.Frame()
                self.models[a].frames = [f]
                frames.append(f)
        m = self.models['default']
        m.page_prevented = m.maybe_prevented = False
        m.page_tags = set()
        status, text = mode['status'], None
        try:
            out = ['{%d}' % m.next()]
            for alias, key, how in v.reads:
                out.append(self.models[alias].read(key, how, mode['env']))
            if mode['raise'] == '404':
                status = 404
            elif mode['raise'] == 'error':
                status = 500
            else:
                top = list(m.frames)
                try:
                    out.append(m.render(v.tree, mode['env']))
                except pages.Boom:
                    status = 500
                m.frames = top
                text = ''.join(out)
                if status == 200 and site.footer and mode['footer'] and mode['kind'] != 'streaming':
                    text += m.read(mode['footer'][0], mode['footer'][1], mode['env'])
        finally:
            inherited = dict((a, set(self.models[a].frames[0].inherited) if building else set()) for a in self.models)
            for a in self.models:
                self.models[a].frames = []
        return status, text, inherited

    def key(self, site, method, url, headers, request):
        return (site.alias, site.prefix, method, url, self.language(request), tuple(request.get(meta_name(h)) for h in sorted(headers)))

    def language(self, request):
        return request.get(meta_name('Accept-Language'), 'en') if self.localized else None

    def headers_of_request(self):
        out = {}
        for h in HEADERS:
            if self.absent and self.rng.random() < 0.4:
                continue
            out[meta_name(h)] = '%s%d' % (h, self.rng.randint(1, 2))
        return out

    def request(self, again=None, where=None):
        rng = self.rng
        if again is None:
            site = rng.choice(self.sites)
            path = rng.choice(sorted(site.views))
            method = weighted(rng, [(8, 'GET'), (2, 'HEAD'), (0.7, 'POST'), (0.3, 'PUT'), (0.3, 'OPTIONS')])
            host, query, scheme = rng.choice(self.hosts), rng.choice(self.queries), 'https' if len(self.hosts) > 1 and rng.random() < 0.2 else 'http'
            request_headers = self.headers_of_request()
            self.past.append((site, path, method, host, query, scheme, request_headers))
        else:
            site, path, method, host, query, scheme, request_headers = again
        v = site.views[path]
        wild = lambda k=1.0: rng.random() < self.wild * k
        mode = dict(
            kind=v.kind if not wild() else rng.choice(['http', 'template', 'streaming', 'streaming', 'render']),
            status=200 if not wild() else rng.choice([201, 204, 206, 301, 302, 304, 400, 403, 410, 500]),
            vary=v.vary if self.absent or not wild() else rng.sample(HEADERS, rng.choice([0, 1, 2, 2, 4])),
            cc='max-age=%d' % v.max_age if v.max_age else None,
            tags=rng.choice([list, tuple, set])((PADS[:rng.choice([20, 40, 60])] if rng.random() < 0.04 else []) + rng.sample(pages.TAGS, rng.randint(0, 2))),
            file=rng.random() < 0.4, etag=rng.choice([None, None, None, 'e']),
            prevent=None if not wild() else rng.choice(['before', 'after']),
            footer=None if rng.random() < 0.4 else (rng.choice(sorted(self.specs)), rng.choice(pages.HOWS)),
            env=dict(flags=dict(f0=rng.random() < 0.5, f1=rng.random() < 0.5, boom=rng.random() < 0.3), values=self.specs,
                     vars=dict(user=rng.choice(['u', 'v']), tv=rng.choice(pages.TAGS))),
            session=rng.choice([True, True, False, None]), user=rng.random() < 0.5, close=rng.random() < 0.7,
            where=where or rng.choice(self.where), runs=[], meanwhile=None, late=None, model=None)
        if where is None and rng.random() < self.meanwhile:
            this = (site, path, method, host, query, scheme, request_headers)
            if rng.random() < 0.5:
                mode['meanwhile'] = lambda: self.other_request(this)
            else:
                mode['footer'] = None
                if site.form == 'decorator' and rng.random() < 0.7:
                    mode['kind'] = 'template'
                mode['late'] = lambda: self.late(site, v, mode, method in ('GET', 'HEAD'), this)
        mode['raise'] = None if not wild() else rng.choice(['404', 'error'])
        if wild():
            mode['cc'] = rng.choice(['max-age=0', 'max-age=15', 'private, max-age=0', 'public', 'no-transform,max-age=9'])
        if site.form == 'decorator':
            mode['footer'] = None
        if not site.footer:
            mode['footer'] = None
        request = {'REQUEST_METHOD': method, 'PATH_INFO': path, 'QUERY_STRING': query, 'SERVER_NAME': host, 'HTTP_HOST': host,
                   'SERVER_PORT': '80', 'wsgi.url_scheme': scheme, 'wsgi.input': io.BytesIO(b''), 'wsgi.errors': io.BytesIO(),
                   'SERVER_PROTOCOL': 'HTTP/1.1', 'SCRIPT_NAME': '', 'wsgi.version': (1, 0), 'verif.mode': mode, 'verif.app': self}
        request.update(request_headers)
        url = '%s://%s%s%s' % (scheme, host, path, '?' + query if query else '')
        self.t('%s %s at site%d in %s: headers %s; %s', method, url, site.number, mode['where'], sorted(request_headers.values()),
               ', '.join('%s=%s' % (k, mode[k]) for k in sorted(mode) if k not in ('where', 'close', 'file', 'runs', 'meanwhile', 'late', 'model') and mode[k] not in (None, 200, [], ())))
        # what may come from the cache
        cacheable = method in ('GET', 'HEAD')
        candidates = []
        head = self.headers.get((site.alias, site.prefix, url, self.language(request)))
        head_ok = bool(head) and head[1] > CLOCK.now and self.fresh(head[2], site.alias)
        must = None
        if cacheable and head:
            for m in (('GET',) if method == 'GET' else ('GET', 'HEAD')):
                p = self.pages.get(self.key(site, m, url, head[0], request))
                if p is not None:
                    candidates.append(p)
                    if must is None and head_ok and p.expiry > CLOCK.now and self.fresh(p.must, site.alias) and self.fresh(p.may, site.alias):
                        must = p
        why = [(p.body, p.what, 'expired' if p.expiry <= CLOCK.now else 'valid' if self.fresh(p.must, site.alias) else
                'invalidated by %s' % sorted(t for t, g in p.must.items() if self.models[site.alias].gen.get(t, 0) != g)) for p in candidates]
        status, headers, text, errors = self.crew.call(mode['where'], lambda: self.serve(site, v, request, mode))
        if self.failure is not None:
            raise self.failure
        ran = len(mode['runs'])
        self.t('  -> %s %s%s%s', status, repr(text), '' if ran else ' (cached)', ' ' + str(errors) if errors else '')
        self.stats.evaluations += 1
        self.stats.obs['requests'] += 1
        if ran > 1:
            self.t.fail('ran twice', 'the view ran %s times in one request', ran)
        if not ran:
            self.stats.obs['pages from cache'] += 1
            if not cacheable:
                self.t.fail('method', '%s was answered from cache', method)
            # the page is in the model, valid, and of this very request
            good = [p for p in candidates if p.body == text]
            if not good:
                other = [p.what for p in self.pages.values() if p.body and text.startswith(p.body)]
                self.t.fail('foreign page', '%s %s was given the page %s from the cache, stored for %s; its own are: %s', method, url, text, other, why)
            p = good[0]
            if p.expiry <= CLOCK.now:
                self.t.fail('expired page', '%s %s was given the page %s after its lifetime', method, url, text)
            if not self.fresh(p.must, site.alias):
                self.t.fail('stale page', '%s %s was given the page %s, though its tags were invalidated: %s', method, url, text, why)
            if status != 200:
                self.t.fail('status', 'cached page has status %s', status)
            self.check_headers(headers, p.what[1])
            return
        self.stats.obs['pages built'] += 1
        if must is not None:
            self.t.fail('not served', 'the view ran for %s %s, though the page %s is cached and valid', method, url, must.body)
        building = cacheable
        mstatus, mtext, inherited = mode['model'] or self.run_model(site, v, mode, building)
        if status != mstatus or (mtext is not None and mstatus not in (500,) and text != mtext) or self.box != self.mbox:
            self.t.fail('output', '%s %s: expected %s %s, %s computations in all; there are %s', method, url, mstatus, repr(mtext), self.mbox[0], self.box[0])
        if mstatus == 500:
            return
        if mode['raise'] is None:
            self.check_headers(headers, mode['cc'])
        # is it to be stored?
        m = self.models['default']
        timeout = site.timeout
        if mode['cc']:
            got = re.search(r'max-age=(\d+)', mode['cc'])
            if got:
                timeout = int(got.group(1))
        with_request = mode['kind'] in ('http', 'streaming', 'template')
        store = (cacheable and mstatus == 200 and mode['raise'] is None and mode['kind'] != 'streaming' and timeout > 0 and not mode['prevent']
                 and not (site.anonymous_only and mode['session'] and mode['user'])
                 and not (m.page_prevented and with_request))
        if not store:
            self.stats.obs['pages not to be stored'] += 1
            return
        unsure = m.maybe_prevented and with_request
        must_tags = set(mode['tags']) if site.tagged else set()
        may_tags = set()
        must_tags |= inherited[site.alias]
        if with_request:            # on another alias, those which were given through the request
            must_tags |= m.page_tags
        else:
            may_tags |= m.page_tags
        hl = sorted(mode['vary'])
        k = (site.alias, site.prefix, url, self.language(request))
        body = mtext
        all_may = self.now(may_tags, site.alias)
        now = self.now(must_tags, site.alias)
        self.stats.obs['pages stored'] += 1
        if must_tags:
            self.stats.obs['pages stored with tags'] += 1
        if unsure:                  # a body prevented caching, and then failed
            self.over = True
            return
        self.headers[k] = (hl, CLOCK.now + timeout, dict(now, **all_may))
        self.pages[self.key(site, method, url, hl, request)] = Page(
            body, now, all_may, CLOCK.now + timeout, ('%s %s site%d %s' % (method, url, site.number, sorted(request_headers.values())), mode['cc']))

    def check_headers(self, headers, cc):
        if 'expires' in headers:
            self.t.fail('headers', 'Expires was added: %s', headers)
        if headers.get('cache-control') != cc:
            self.t.fail('headers', 'Cache-Control is %s instead of %s', headers.get('cache-control'), cc)

    def event(self):
        rng = self.rng
        what = rng.choice(['invalidate', 'invalidate', 'invalidate', 'clock', 'read'])
        alias = rng.choice(['default', 'default', 'default', 'pages']) if any(s.alias == 'pages' for s in self.sites) or rng.random() < 0.1 else 'default'
        where = rng.choice(self.where)
        if what == 'invalidate':
            tags = rng.sample(pages.TAGS, rng.choice([1, 1, 2]))
            self.t('invalidate %s on %s in %s', tags, alias, where)
            self.crew.call(where, lambda: dcd.caches[alias].invalidate_tags(*tags))
            self.models[alias].invalidate(tags)
            self.stats.obs['invalidations'] += 1
        elif what == 'clock':
            dt = rng.choice([3, 8, 16, 31, 101, 301])
            self.t('clock +%s', dt)
            CLOCK.advance(dt)
        else:
            key, how = rng.choice(sorted(self.specs)), rng.choice(pages.HOWS)
            expected = self.models[alias].read(key, how, dict(values=self.specs))

            def go():
                try:
                    return self.worlds[alias].read(key, how)
                finally:
                    dcd.caches[alias].close()
            got = self.crew.call(where, go)
            self.t('%s %s on %s -> %s', how, key, alias, got)
            if got != expected:
                self.t.fail('value', 'read of %s gave %s instead of %s', key, got, expected)

    def run(self, steps):
        rng = self.rng
        try:
            for _ in range(steps):
                if self.over:
                    break
                x = rng.random()
                if x < 0.3:
                    self.event()
                elif x < 0.7 and self.past:
                    self.request(rng.choice(self.past[-4:]))
                else:
                    self.request()
        finally:
            self.crew.close()
            for a in ('default', 'pages'):
                dcd.caches[a].close()
        self.stats.sig(self.t.lines)
        self.stats.sample('\n'.join(self.t.lines[:30]), limit=1)
