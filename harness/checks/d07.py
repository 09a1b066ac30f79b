import io
import logging
import sys

from django.conf import settings
from django.core import signals
from django.core.handlers.wsgi import WSGIHandler
from django.http import Http404, HttpResponse, StreamingHttpResponse

from checks.base import BaseCheck
from core import Crew, Violation, weighted
from django_cache_dependencies import middleware
from env import CLOCK
from monbackend import FAULTS, injected
from kit import MISS, Tracer, dcd, depth, fresh, native, present

logging.getLogger('django').addHandler(logging.NullHandler())
logging.getLogger('django').propagate = False
logging.getLogger('django.request').addHandler(logging.NullHandler())
logging.getLogger('django.request').propagate = False


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


def tx(alias):
    class Tx(middleware.TransactionMiddleware):
        def __init__(self, get_response=None):
            super(Tx, self).__init__(get_response, cache_alias=alias)
    return Tx


Tx_default, Tx_rc0, Tx_rr0, Tx_sr0 = map(tx, ['default', 'rc0', 'rr0', 'sr0'])


class Worker(object):
    """The model of a worker thread in a request."""

    def __init__(self, name, aliases):
        self.name = name
        self.depth = dict((a, 0) for a in aliases)
        self.inside = dict((a, {}) for a in aliases)    # key -> tag: stored in the open transaction, under a tag it invalidated
        self.open = dict((a, []) for a in aliases)      # keys of builds left open in this request
        self.pair = None                                # (alias, parent, tag): a build which is being made properly
        self.left = dict((a, []) for a in aliases)      # what the previous request left: keys
        self.served = 0
        self.ctags = dict((a, set()) for a in aliases)  # tags of the records it has read


class Server(object):
    ALIASES = ['default', 'rc0', 'rr0', 'sr0', 'ru0', 'rc3', 'rr3', 'pages', 'rc0b', 'rr0b', 'ru0b']

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.aliases = rng.sample(self.ALIASES, rng.randint(1, 4))
        for a in self.aliases:
            fresh(a)
        CLOCK.reset()
        self.t = Tracer()
        self.crew = Crew()
        names = rng.choice([[None], ['A'], ['A', 'B'], [None, 'A', 'B']])
        self.workers = [Worker(n, self.aliases) for n in names]
        self.n = 0
        self.errors = []
        self.handlers = {}
        self.t('aliases %s workers %s', self.aliases, names)

    def unique(self, prefix):
        self.n += 1
        return '%s%d' % (prefix, self.n)

    def observer(self, fn):
        """Runs in a thread which has nothing to do with the requests."""
        return self.crew.call('observer', fn)

    # -- steps of a request, run in the worker -------------------------------------

    def observe(self, w, what):
        for a in self.aliases:
            if a not in [k[0] for k in dcd.caches._caches]:
                continue
            d = depth(dcd.caches[a])
            self.stats.obs['depth observed'] += 1
            if d != w.depth[a]:
                self.t.fail('depth', '%s: cache %s is %s transactions deep in worker %s instead of %s', what, a, d, str(w.name), w.depth[a])

    def child(self, w, a):
        """Stores a record to be read by a build; returns its key and tag."""
        key, tag = self.unique('child'), self.unique('c')
        self.observer(lambda: dcd.caches[a].set(key, key, (tag,)))
        w.ctags[a].add(tag)
        return key, tag

    def step(self, w):
        a = self.rng.choice(self.aliases)
        name = weighted(self.rng, [(3, 'leave'), (2, 'read'), (2.5, 'begin'), (0.7, 'finish'), (3, 'invalidate'), (1, 'store'), (1, 'scope'), (0.7, 'compute'),
                                   (0.7, 'unstorable'), (0.7, 'fault'), (2, 'pair'), (0.4, 'clock'), (0.3, 'flush'), (0.3, 'close')])
        if w.pair and w.pair[0] == a and name in ('leave', 'flush', 'close'):
            name = 'pair'
        self.t('%s %s: %s', str(w.name), a, name)
        self.stats.obs['step ' + name] += 1
        getattr(self, 'do_' + name)(w, a, dcd.caches[a])
        self.observe(w, name)

    def do_leave(self, w, a, h):
        key = self.rng.choice(['b0', 'b1', 'b2'])
        if h.get(key, MISS) is MISS:
            w.open[a].append(key)
            self.stats.obs['builds left open'] += 1

    def do_read(self, w, a, h):
        key, tag = self.child(w, a)
        how = self.rng.random()
        if how < 0.6:
            got = h.get(key)
        elif how < 0.8:
            got = h.get_many([key, 'absent']).get(key)
        else:
            got = h.get_or_set_callback(key, lambda: 'computed', (tag,))
        if got != key and got != 'computed':
            self.t.fail('lost', 'the child %s is read as %s', key, got)

    def do_begin(self, w, a, h):
        how = self.rng.random()
        if how < 0.6:
            h.transaction.begin()
        elif how < 0.8:
            h.transaction_begin()
        else:
            h.transaction.__enter__()
        w.depth[a] += 1

    def do_finish(self, w, a, h):
        if w.depth[a] > 1:      # the outermost one is left to the end of the request
            h.transaction.finish()
            w.depth[a] -= 1

    def do_invalidate(self, w, a, h):
        tag = self.unique('t')
        h.invalidate_tags(tag)
        if w.depth[a]:
            key = self.unique('in')
            h.set(key, key, (tag,))
            w.inside[a][key] = tag
            self.stats.obs['invalidated in open transactions'] += 1

    def do_store(self, w, a, h):
        h.set(self.unique('s'), 1, (self.unique('t'),))

    def do_scope(self, w, a, h):
        try:
            with h.transaction:
                w.depth[a] += 1
                self.do_invalidate(w, a, h)
                raise Boom()
        except Boom:
            w.depth[a] -= 1
            if not w.depth[a]:
                self.completed(w, a)

    def do_compute(self, w, a, h):
        def fail():
            raise Boom()
        try:
            h.get_or_set_callback(self.unique('g'), fail, (self.unique('t'),))
        except Boom:
            pass

    def do_unstorable(self, w, a, h):
        key = self.unique('u')
        h.get(key)
        try:
            h.set(key, lambda: None, (self.unique('t'),))
        except Exception:
            pass

    def do_fault(self, w, a, h):
        raise Boom()

    def do_pair(self, w, a, h):
        """A record made in three steps, with whatever happens in other workers between them."""
        if not w.pair:
            key = self.unique('parent')
            h.get(key)
            child, tag = self.child(w, a)
            w.pair = [a, key, child, tag, False]
            return
        a, key, child, tag, done = w.pair
        h = dcd.caches[a]
        if not done:
            if h.get(child) != child:
                self.t.fail('lost', 'the child %s is not there', child)
            w.pair[4] = True
            return
        w.pair = None
        h.set(key, key, (self.unique('t'),))
        if not self.observer(lambda: present(dcd.caches[a], key)):
            self.t.fail('lost', 'the record %s is not there right after it was stored', key)
        self.observer(lambda: dcd.caches[a].invalidate_tags(tag))
        if self.observer(lambda: present(dcd.caches[a], key)):
            self.t.fail('foreign build', 'the record %s did not get the tag %s it was built from', key, tag)
        self.stats.obs['builds made across steps'] += 1

    def do_clock(self, w, a, h):
        CLOCK.advance(self.rng.choice([0.1, 1]))

    def do_flush(self, w, a, h):
        h.transaction.flush()
        w.depth[a] = 0
        self.completed(w, a)

    def do_close(self, w, a, h):
        h.close()
        w.depth[a] = 0
        w.open[a] = []
        self.completed(w, a)

    def completed(self, w, a):
        """The transaction of the worker has ended."""
        CLOCK.advance(0.001 if a[-1] != '3' else 3.5)
        inside = w.inside[a]
        w.inside[a] = {}
        h = dcd.caches[a]
        for key in sorted(inside):
            self.stats.obs['invalidations completed'] += 1
            if a[:2] != 'ru' and self.observer(lambda: present(dcd.caches[a], key)):
                self.t.fail('not completed', 'cache %s: the invalidation of %s, begun in worker %s, is not completed (record %s)', a, inside[key], str(w.name), key)
            tag, other = inside[key], self.unique('o')
            self.observer(lambda: dcd.caches[a].set(other, other, (tag,)))
            if not self.observer(lambda: present(dcd.caches[a], other)):
                self.t.fail('still locked', 'cache %s: the tag %s is still locked after the end of the request in worker %s', a, tag, str(w.name))

    # -- the next request ------------------------------------------------------------

    def probe(self, w):
        """Is the worker as good as new?"""
        for a in self.aliases:
            if self.rng.random() < 0.4:
                continue
            h = dcd.caches[a]
            self.stats.evaluations += 1
            key = self.rng.choice((w.left[a] or ['b0']) + [self.unique('new')])
            reused = key in w.left[a]
            native(a).delete(key)
            own, tag = self.unique('own'), None
            outer = self.unique('outer') if self.rng.random() < 0.3 else None
            if outer:
                h.get(outer)
            how = self.rng.random()
            if how < 0.6:
                if h.get(key, MISS) is not MISS:
                    self.t.fail('wrong value', 'a deleted key is read')
                if self.rng.random() < 0.5:
                    child, tag = self.child(w, a)
                    h.get(child)
                h.set(key, key, (own,))
            elif how < 0.8:
                h.get_or_set_callback(key, lambda: key, (own,))
            else:
                h.set(key, key, (own,))
            if outer:
                h.set(outer, outer, ())
            records = [key] + [outer] * bool(outer)
            self.t('%s %s: probe %s (left open: %s) child tag %s outer %s', str(w.name), a, key, reused, str(tag), str(outer))
            if tag:
                w.ctags[a].discard(tag)
            foreign = sorted(w.ctags[a])
            if foreign:
                self.observer(lambda: dcd.caches[a].invalidate_tags(*foreign))
            for r in records:
                if not self.observer(lambda: present(dcd.caches[a], r)):
                    self.t.fail('inherited', 'cache %s: the record %s, stored in a new request in worker %s, depends on something of previous requests', a, r, str(w.name))
            w.ctags[a].clear()
            if reused:
                self.stats.obs['keys of forgotten builds stored again'] += 1
            self.stats.obs['records of next requests'] += 1
            if tag:
                self.observer(lambda: dcd.caches[a].invalidate_tags(tag))
                if self.observer(lambda: present(dcd.caches[a], key)):
                    self.t.fail('lost tag', 'cache %s: the record %s did not get the tag of its descendant', a, key)
            if self.rng.random() < 0.6:
                k, tag = self.unique('in'), self.unique('t')
                with h.transaction:
                    w.depth[a] += 1
                    self.observe(w, 'transaction of the next request')
                    h.invalidate_tags(tag)
                    h.set(k, k, (tag,))
                    w.inside[a][k] = tag
                w.depth[a] -= 1
                self.observe(w, 'end of the transaction of the next request')
                self.completed(w, a)
                self.stats.obs['transactions of next requests'] += 1
        w.left = dict((a, []) for a in self.aliases)

    # -- requests -----------------------------------------------------------------

    def finished(self, w, what):
        """Right after the end of a request, in its worker."""
        self.t('%s: request finished (%s)', str(w.name), what)
        self.stats.obs['requests ended: ' + what] += 1
        for a in self.aliases:
            if w.depth[a] or w.open[a]:
                self.stats.obs['requests which left something open'] += 1
                break
        if sum(1 for a in self.aliases if w.depth[a] or w.open[a]) > 1:
            self.stats.obs['requests which left it on several caches'] += 1
        for a in self.aliases:
            w.depth[a] = 0
            w.left[a] = sorted(set(w.open[a]))
            w.open[a] = []
        w.pair = None
        w.served += 1
        self.observe(w, 'after the request')
        for a in self.aliases:
            self.completed(w, a)
            try:
                left = dcd.caches[a].relation_manager.current()
            except AttributeError:
                continue
            if left:
                self.t.fail('open build', 'cache %s: a build is open in worker %s after the end of the request', a, str(w.name))

    def direct(self, w):
        """A view called by the server itself; other workers go on between its steps."""
        how = self.rng.choice(['return', 'exception'])
        if self.rng.random() < 0.5:
            self.crew.call(w.name, lambda: signals.request_started.send(sender=self, environ={}))
        if w.served:
            self.crew.call(w.name, lambda: self.probe(w))
        for _ in range(self.rng.randint(1, 9)):
            try:
                self.crew.call(w.name, lambda: self.step(w))
            except Boom:
                if how == 'exception':
                    break
            yield

        fails = self.rng.random() < 0.2

        ignoring = self.rng.random() < 0.15     # the last thing the request does is to switch inheritance off

        def end():
            if ignoring:
                self.stats.obs['ends with inheritance switched off'] += 1
                self.t('%s: inheritance is switched off', str(w.name))
                for a in self.aliases:
                    dcd.caches[a].ignore_descendants = True
            try:
                if fails:
                    self.failing_end(w)
                else:
                    signals.request_finished.send(sender=self)
            finally:
                for a in self.aliases:
                    dcd.caches[a].ignore_descendants = False
            self.finished(w, 'signal with a failing backend' if fails else 'signal')
        self.crew.call(w.name, end)
        yield

    def failing_end(self, w):
        """The backend of one cache fails when the request ends; then it works again and the end is repeated."""
        for a in self.aliases:
            if self.rng.random() < 0.6:
                self.do_begin(w, a, dcd.caches[a])
                self.do_invalidate(w, a, dcd.caches[a])
        victim = native(self.rng.choice([a for a in self.aliases if w.inside[a] and a[:2] != 'ru'] or self.aliases)).st
        failing = [a for a in self.aliases if native(a).st is victim]

        def fail(name, keys):
            raise injected(self.rng, name)
        victim.before = fail
        failed = False
        try:
            signals.request_finished.send(sender=self)
        except FAULTS:
            failed = True
        finally:
            victim.before = None
        self.t('%s: end of the request, the backend of %s fails: %s', str(w.name), failing, failed)
        if failed:
            self.stats.obs['ends of requests which failed'] += 1
        for a in self.aliases:
            if a not in [k[0] for k in dcd.caches._caches]:
                continue
            h = dcd.caches[a]
            if h.relation_manager.current():
                self.t.fail('open build', 'cache %s: a build is open in worker %s after the end of the request, when the backend of %s failed', a, str(w.name), failing)
            if a not in failing:
                if w.depth[a] and failed:
                    self.stats.obs['transactions completed beside a failing backend'] += 1
                w.depth[a] = 0
                self.completed(w, a)
            if a not in failing and depth(h):
                self.t.fail('depth', 'cache %s is %s transactions deep in worker %s after the end of the request, when the backend of %s failed', a, depth(h), str(w.name), failing)
        for a in failing:       # what failed is completed by whatever ends it next
            how = self.rng.choice(['signal', 'close', 'flush'])
            if how == 'signal':
                signals.request_finished.send(sender=self)
            elif how == 'close':
                dcd.caches[a].close()
            else:
                dcd.caches[a].transaction.flush()

    def steps(self, w, errors, least=1):
        try:
            for _ in range(self.rng.randint(least, 7)):
                self.step(w)
        except Boom:
            raise
        except Violation as e:
            errors.append(e)
            raise

    def handled(self, w):
        """A request served by Django's WSGI handler."""
        rng = self.rng
        aliases = [a for a in self.aliases if a in ('default', 'rc0', 'rr0', 'sr0')]
        inner = tuple(a for a in aliases if rng.random() < 0.35)
        legacy = rng.random() < 0.3
        how = rng.choice(['response', 'response', 'error', '404', 'quit', 'stream', 'stream cut', 'signal'])
        errors, started = [], []

        def view(request):
            for a in inner:
                w.depth[a] += 1
            self.observe(w, 'view')
            if w.served:
                try:
                    self.probe(w) if not inner else None
                except Violation as e:
                    errors.append(e)
                    raise
            try:
                self.steps(w, errors)
            except Boom:
                if how == 'error':
                    ended()
                    raise
            if how == 'error':
                ended()
                raise Boom()
            if how == '404':
                ended()
                raise Http404()
            if how == 'quit':
                ended()
                raise self.rng.choice([Quit, SystemExit, KeyboardInterrupt, GeneratorExit])()
            if how in ('stream', 'stream cut'):
                return StreamingHttpResponse(body())
            return HttpResponse('x')

        def ended():
            """TransactionMiddleware ends what it began, and what the view left open inside."""
            for a in inner:
                w.depth[a] = 0

        def body():
            for a in inner:
                w.depth[a] = 0
            for i in range(4):
                try:
                    self.steps(w, errors, 0)
                except Boom:
                    pass
                yield b'x'

        environ = {'REQUEST_METHOD': rng.choice(['GET', 'POST']), 'PATH_INFO': '/x/', 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'wsgi.input': io.BytesIO(b''),
                   'wsgi.url_scheme': 'http', 'wsgi.errors': sys.stderr, 'QUERY_STRING': '', 'verif.view': view}
        key = (inner, legacy)
        self.t('%s: request through the handler, transactions of the middleware: %s legacy=%s, ends by %s', str(w.name), inner, legacy, how)

        def serve():
            if key not in self.handlers:
                mid = [('django_cache_dependencies.middleware.TransactionMiddleware' if a == 'default' and rng.random() < 0.5 else 'checks.d07.Tx_' + a) for a in inner]
                settings.MIDDLEWARE = None if legacy else mid
                settings.MIDDLEWARE_CLASSES = mid
                self.handlers[key] = WSGIHandler()
            sent = False
            response = None
            try:
                response = self.handlers[key](environ, lambda status, headers, exc_info=None: started.append(status))
            except (Quit, SystemExit, KeyboardInterrupt, GeneratorExit):
                pass
            if errors:
                raise errors[0]
            for a in inner:
                w.depth[a] = 0
            if response is not None and how in ('stream', 'stream cut'):
                for i, part in enumerate(response):
                    if how == 'stream cut' and i == 1:
                        break
            if errors:
                raise errors[0]
            if response is None or how == 'signal':
                signals.request_finished.send(sender=self)
            else:
                response.close()
            self.finished(w, how)
        self.crew.call(w.name, serve)
        yield

    def run(self):
        rng = self.rng
        try:
            active = {}
            todo = rng.randint(3, 8)
            while todo or active:
                w = rng.choice(self.workers)
                if w not in active:
                    if not todo:
                        if not active:
                            break
                        continue
                    todo -= 1
                    active[w] = self.direct(w) if rng.random() < 0.6 else self.handled(w)
                try:
                    next(active[w])
                except StopIteration:
                    del active[w]
            self.stats.sig(self.aliases, self.t.lines)
            self.stats.sample('\n'.join(self.t.lines[:40]), limit=1)
        finally:
            for n in list(self.crew.members) + [None]:
                self.crew.call(n, lambda: [dcd.caches[a].close() for a in self.aliases])
            self.crew.close()


class Check(BaseCheck):
    prop = 'D07'
    quick = 1600
    thorough = 60000
    technique = ('runtime monitoring: random series of requests in re-used worker threads, ended in every way; depth of sessions, completion of '
                 'invalidations and inheritance of the next requests observed')
    rule = ('case = 3 to 8 requests in 1 to 3 worker threads over 1 to 4 caches of every isolation level, leaving builds and nested '
            'transactions open, ended by a response, a signal, an exception (also one that passes through the handler), or a stream read '
            'or cut, with and without transaction middleware of both styles, or at an end when the backend of one cache fails; requests in different workers interleave; '
            'non-trivial = distinct trace')
    level_note = 'thousands of random series of requests'
    assumptions = ['the cache backend answers during the request (its failures are the subject of R01); at its end it may fail, once', 'depth is read through transaction.current() and parent(), open builds through relation_manager.current()']

    def required(self, tier):
        return {'depth observed': 20000, 'invalidations completed': 3000, 'records of next requests': 3000, 'keys of forgotten builds stored again': 300,
                'requests which left something open': 1500, 'requests which left it on several caches': 500, 'builds made across steps': 100,
                'ends of requests which failed': 150, 'transactions completed beside a failing backend': 100}

    def run_case(self, rng, idx, tier, stats):
        Server(rng, stats).run()
