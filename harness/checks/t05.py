import functools

from checks.base import BaseCheck
from core import Crew
from cache_dependencies.locks import DependencyLock
from cache_dependencies.relations import RelationManager
from cache_dependencies.tagging import CacheTagging
from cache_dependencies.transaction import TransactionManager
from env import LEVELS
from kit import MISS, Tracer, dcd, depth, fresh, native, present
from django_cache_dependencies import decorators, middleware


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


class Request(object):
    pass


def plain(alias):
    cache = native(alias)
    lock = DependencyLock.make(LEVELS.get(alias[:2], LEVELS['rc']), lambda: cache, 0)
    return CacheTagging(cache, RelationManager(), TransactionManager(lock))


class Scopes(object):
    def handle(self, alias):
        return self.plain.get(alias) or dcd.caches[alias]

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.aliases = rng.choice([['rc0'], ['rr0'], ['sr0'], ['default'], ['rc0', 'default'], ['rr0', 'rc0'], ['ru0']])
        for a in self.aliases:
            fresh(a, by_ref=rng.random() < 0.3)
        self.plain = {}
        if rng.random() < 0.15:         # handles made by the application, used in one thread
            for a in self.aliases:
                self.plain[a] = plain(a)
        self.t = Tracer()
        self.crew = Crew()
        self.where = rng.choice([None, None, 'W'])         # the thread that works
        self.depth = dict((a, 0) for a in self.aliases)
        self.inside = dict((a, {}) for a in self.aliases)  # key -> tag: to be completed by the outermost end
        self.after = dict((a, {}) for a in self.aliases)   # stored outside: must survive
        self.n = 0
        self.used = {}                                     # functions decorated earlier
        self.shape = []

    # -- observations --------------------------------------------------------

    def observe(self, what):
        for a in self.aliases:
            h = self.handle(a)
            d = depth(h)
            self.stats.obs['depth observed'] += 1
            if d != self.depth[a]:
                self.t.fail('depth', '%s: cache %s is %s transactions deep instead of %s', what, a, d, self.depth[a])
            for key in sorted(self.inside[a]):
                if not present(h, key):
                    self.t.fail('completed early', '%s: invalidations of the open transaction of %s have been completed (%s)', what, a, key)
            for key in sorted(self.after[a]):
                if not present(h, key):
                    self.t.fail('completed again', '%s: a record of %s stored after the end was dropped (%s)', what, a, key)

    def closed(self, alias, all, what):
        """The model of one end."""
        was = self.depth[alias]
        self.depth[alias] = 0 if all else max(0, was - 1)
        if was and not self.depth[alias]:
            self.stats.obs['outermost ends'] += 1
            h = self.handle(alias)
            for key in sorted(self.inside[alias]):
                if alias[:2] != 'ru' and present(h, key):
                    self.t.fail('not completed', '%s: the outermost end did not complete the invalidations (%s)', what, key)
            self.inside[alias].clear()
        self.observe(what)

    def opened(self, alias, what):
        self.depth[alias] += 1
        self.observe(what)

    def touch(self, alias):
        h = self.handle(alias)
        self.n += 1
        tag, key = self.rng.choice(['a', 'b', 'c']), 'k%d' % self.n
        if self.depth[alias] and self.rng.random() < 0.7:
            h.invalidate_tags(tag)
            for part in (self.inside[alias], self.after[alias]):
                for k in [k for k, t in part.items() if t == tag]:
                    del part[k]
            h.set(key, key, (tag,))
            self.inside[alias][key] = tag
            self.t('%s: invalidate %s, store %s under it', alias, tag, key)
        elif not self.depth[alias]:
            h.set(key, key, (tag,))
            self.after[alias][key] = tag
            self.t('%s: store %s under %s', alias, key, tag)
        else:                        # stored inside under a tag nobody invalidates there
            h.set(key, key, ('other' + key,))
            self.after[alias][key] = 'other' + key
        self.observe('touch')

    # -- bodies and forms -------------------------------------------------------

    def body(self, level):
        rng = self.rng
        for _ in range(rng.randint(0, 3)):
            if level < 4 and rng.random() < 0.5:
                self.scope(level + 1)
            else:
                self.touch(rng.choice(self.aliases))
        end = rng.random()
        if end < 0.2:
            raise Boom(level)
        if end < 0.25:
            raise Quit(level)
        if end < 0.28:
            raise GeneratorExit()

    def function(self, alias, level, what):
        """The function to decorate: checks its arguments, is one deeper, returns something unique."""
        token = object()
        box = {'args': None}

        @functools.wraps(self.function)
        def view(*args, **kwargs):
            """docstring"""
            if (args, kwargs) != box['args']:
                self.t.fail('arguments', '%s: called with %s instead of %s', what, (args, kwargs), box['args'])
            self.opened(alias, what + ' called')
            box['body'](level)
            return token
        view.__name__ = 'view'
        return view, token, box

    def decorate(self, alias, form, f):
        h = self.handle(alias)
        proxy = dcd.cache if alias == 'default' and not self.plain and self.rng.random() < 0.5 else h
        if form == 'decorator':
            return proxy.transaction(f)
        if form == 'decorator()':
            return proxy.transaction()(f)
        if form == 'cache_transaction':
            if alias == 'default' and not self.plain and self.rng.random() < 0.5:
                return decorators.cache_transaction(f)
            return decorators.cache_transaction(f, cache=h)
        if form == 'cache_transaction(cache)':
            return self.rng.choice([lambda: decorators.cache_transaction(h), lambda: decorators.cache_transaction(cache=h)])()(f)
        if form == 'cache_transaction_all':
            if alias == 'default' and not self.plain and self.rng.random() < 0.5:
                return decorators.cache_transaction_all(f)
            return decorators.cache_transaction_all(f, cache=h)
        if form == 'cache_transaction_all(cache)':
            return self.rng.choice([lambda: decorators.cache_transaction_all(h), lambda: decorators.cache_transaction_all(cache=h)])()(f)

    FORMS = ['with', 'with()', 'begin', 'old api', 'decorator', 'decorator()', 'cache_transaction', 'cache_transaction(cache)',
             'cache_transaction_all', 'cache_transaction_all(cache)', 'middleware', 'middleware call', 'flush', 'stray finish']

    def scope(self, level):
        rng = self.rng
        alias = rng.choice(self.aliases)
        form = rng.choice(self.FORMS)
        if self.plain and form.startswith('middleware'):
            form = 'with()'
        h = self.handle(alias)
        what = '%s %s #%d' % (form, alias, level)
        self.shape.append((level, form, alias))
        self.stats.obs['form ' + form] += 1
        self.t('open %s', what)
        boom = []

        def body(level):
            try:
                self.body(level)
            except BaseException as e:
                boom.append(e)
                raise
        try:
            if form in ('with', 'with()'):
                all = False
                with (h.transaction if form == 'with' else h.transaction()):
                    self.opened(alias, what)
                    body(level)
            elif form in ('begin', 'old api'):
                all = False
                if form == 'begin':
                    h.transaction.begin()
                else:
                    if h.transaction_begin() is not h:
                        self.t.fail('chain', 'transaction_begin() does not return the cache')
                self.opened(alias, what)
                try:
                    body(level)
                finally:
                    if form == 'begin':
                        h.transaction.finish()
                    elif rng.random() < 0.5:
                        h.transaction_finish()
                    else:
                        all = True
                        h.transaction_finish_all()
            elif form == 'flush':
                all = True
                h.transaction.flush()
            elif form == 'stray finish':
                all = False
                if self.depth[alias]:
                    return
                h.transaction.finish()
            elif form.startswith('middleware'):
                all = True
                self.middleware(alias, level, form, what, body)
            else:
                all = 'all' in form
                reuse = self.used.get((alias, form))
                if reuse is None or rng.random() < 0.4:
                    f, token, box = self.function(alias, level, what)
                    if rng.random() < 0.3 and not all:       # decorated in another thread, for example at import
                        d = self.crew.call('D', lambda: self.decorate(alias, form, f))
                        self.stats.obs['decorated elsewhere'] += 1
                    else:
                        d = self.decorate(alias, form, f)
                    if d.__name__ != 'view' or d.__doc__ != self.function.__doc__:
                        self.t.fail('wraps', '%s: name or docstring of the function is lost', form)
                    reuse = (d, token, box)
                    self.used[(alias, form)] = reuse
                d, token, box = reuse
                saved = dict(box)
                args = tuple(rng.choice([1, 'a', None, [1]]) for _ in range(rng.randint(0, 3)))
                kwargs = dict((k, rng.randint(0, 9)) for k in rng.sample(['f', 'cache', 'func', 'self', 'x'], rng.randint(0, 3)))
                box.update(args=(args, kwargs), body=lambda _: body(level))
                try:
                    rv = d(*args, **kwargs)
                finally:
                    box.update(saved)
                if rv is not token:
                    self.t.fail('result', '%s: returned %s', what, rv)
                if boom:
                    self.t.fail('swallowed', '%s: %s did not come out', what, boom[0])
        except (Boom, Quit, GeneratorExit) as e:
            self.stats.obs['closed by ' + type(e).__name__] += 1
            if not boom or boom[-1] is not e:
                self.t.fail('exception', '%s: raised %s instead of %s', what, e, boom)
            self.t('closed by %s: %s', type(e).__name__, what)
            self.closed(alias, all, what + ' closed by an exception')
            if level > 1 and rng.random() < 0.6:
                raise
            return
        self.t('closed %s', what)
        self.stats.obs['closed normally'] += 1
        self.closed(alias, all, what + ' closed')

    def middleware(self, alias, level, form, what, body):
        rng = self.rng
        request, response = Request(), object()
        kw = {} if alias == 'default' and rng.random() < 0.5 else {'cache_alias': alias}
        m_box = []
        raised = []

        def get_response(r):
            self.opened(alias, what)
            if r is not request:
                self.t.fail('arguments', 'middleware passed another request')
            try:
                body(level)
            except Boom as e:
                if rng.random() < 0.6:        # as Django does with exceptions of views
                    m_box[0].process_exception(r, e)
                    raised.append(e)
                    return response
                raise
            return response
        if alias == 'default' and rng.random() < 0.3:
            kw = {'cache_alias': None}
        m = middleware.TransactionMiddleware(get_response, **kw)
        m_box.append(m)
        if form == 'middleware call':
            rv = m(request)
            if rv is not response:
                self.t.fail('result', 'middleware returned %s', rv)
        else:
            if m.process_request(request) is not None:
                self.t.fail('result', 'process_request returned something')
            self.opened(alias, what)
            try:
                body(level)
            except BaseException as e:
                if m.process_exception(request, e) is not None:
                    self.t.fail('result', 'process_exception returned something')
                raise
            if m.process_response(request, response) is not response:
                self.t.fail('result', 'process_response returned another response')
        if raised:
            self.stats.obs['exception passed to the middleware'] += 1

    def run(self):
        def go():
            try:
                for _ in range(self.rng.randint(1, 4)):
                    self.touch(self.rng.choice(self.aliases))
                    try:
                        self.scope(1)
                    except (Boom, Quit, GeneratorExit):
                        pass
                    for a in self.aliases:
                        if self.depth[a] and self.rng.random() < 0.7:
                            self.handle(a).transaction.flush()
                            self.closed(a, True, 'flush')
            finally:
                for a in self.aliases:
                    self.handle(a).close()
        try:
            self.crew.call(self.where, go)
        finally:
            self.crew.close()
        self.stats.evaluations += 1
        self.stats.sig(self.aliases, self.t.lines)
        self.stats.sample('\n'.join(self.t.lines[:40]), limit=1)


class Shared(object):
    """A few functions decorated once and called by several threads, in turn and inside of each other."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['default', 'default', 'rc0', 'rr0', 'sr0', 'ru0'])
        fresh(self.alias, by_ref=rng.random() < 0.3)
        self.t = Tracer()
        self.crew = Crew()
        self.threads = ['A', 'B', 'C'][:rng.choice([2, 2, 3])]
        self.depth = dict.fromkeys(self.threads, 0)
        self.inside = dict((w, []) for w in self.threads)
        self.n = 0
        self.functions = []

    def h(self):
        return dcd.caches[self.alias]

    def make(self):
        h, rng = self.h(), self.rng
        forms = ['decorator', 'decorator()', 'cache_transaction', 'cache_transaction(cache)']
        if self.alias == 'default':
            forms += ['proxy', 'cache_transaction default', 'cache_transaction_all default']
        form = rng.choice(forms)

        def f(todo):
            return todo()
        made = {'decorator': lambda: h.transaction(f), 'decorator()': lambda: h.transaction()(f),
                'cache_transaction': lambda: decorators.cache_transaction(f, cache=h),
                'cache_transaction(cache)': lambda: decorators.cache_transaction(h)(f),
                'proxy': lambda: dcd.cache.transaction(f),
                'cache_transaction default': lambda: decorators.cache_transaction(f),
                'cache_transaction_all default': lambda: decorators.cache_transaction_all(f)}[form]()
        self.functions.append((form, made))

    def observe(self, who, what):
        """In the thread itself."""
        self.stats.obs['depth observed'] += 1
        h = self.h()
        d = depth(h)
        if d != self.depth[who]:
            self.t.fail('depth', '%s: the session of %s is %s transactions deep instead of %s', what, who, d, self.depth[who])
        for key in self.inside[who]:
            if not present(h, key):
                self.t.fail('completed early', '%s: the invalidations of the open transaction of %s have been completed (%s)', what, who, key)

    def node(self, who, path):
        """One call of a decorated function by the thread, in the thread."""
        rng = self.rng
        form, f = rng.choice(self.functions)
        all = 'all' in form
        what = '%s calls %s' % (who, form)
        token = object()
        boom = []

        def todo():
            self.depth[who] += 1
            self.t('%s (depth %s)', what, self.depth[who])
            self.observe(who, what)
            h = self.h()
            for _ in range(rng.randint(0, 2)):
                self.n += 1
                tag, key = 't%d' % self.n, 'k%d' % self.n
                h.invalidate_tags(tag)
                h.set(key, key, (tag,))
                self.inside[who].append(key)
            for _ in range(rng.choice([0, 1, 1, 2])):
                other = rng.choice([w for w in self.threads if w == who or w not in path])
                if len(path) < 5:
                    if other != who:
                        self.stats.obs['calls inside of a transaction of another thread'] += 1
                    self.crew.call(other, lambda: self.node(other, path + [other]))
                    self.observe(who, 'after a call by ' + other)
            if rng.random() < 0.2:
                boom.append(Boom())
                raise boom[0]
            return token
        try:
            rv = f(todo)
            if rv is not token or boom:
                self.t.fail('result', '%s: returned %s', what, rv)
        except Boom as e:
            if not boom or boom[0] is not e:
                raise
        self.depth[who] = 0 if all else max(0, self.depth[who] - 1)
        self.t('%s: is over (depth %s)', what, self.depth[who])
        if not self.depth[who]:
            self.stats.obs['outermost ends'] += 1
            for key in self.inside[who]:
                if self.alias[:2] != 'ru' and present(self.h(), key):
                    self.t.fail('not completed', '%s: the outermost end did not complete the invalidations (%s)', what, key)
            self.inside[who] = []
        self.observe(who, what + ': is over')

    def run(self):
        rng = self.rng
        try:
            for i in range(rng.randint(1, 3)):
                self.crew.call(rng.choice([None, 'D', 'A', 'B']), self.make)
            if 'D' in self.crew.members and rng.random() < 0.5:      # the thread which decorated is over
                th, q = self.crew.members.pop('D')
                q.put(None)
                th.join(10)
            for _ in range(rng.randint(2, 5)):
                who = rng.choice(self.threads)
                self.crew.call(who, lambda: self.node(who, [who]))
                if rng.random() < 0.3:
                    for w in self.threads:
                        self.crew.call(w, lambda: self.observe(w, 'in between'))
        finally:
            for w in self.threads:
                self.crew.call(w, lambda: self.h().close())
            self.crew.close()
            self.h().close()
        self.stats.evaluations += 1
        self.stats.sig('shared', self.alias, self.t.lines)


class Check(BaseCheck):
    prop = 'T05'
    quick = 3600
    thorough = 100000
    technique = ('runtime monitoring: random trees of scopes of every form; depth of the session and completion of the '
                 'invalidations observed at every opening and closing')
    rule = ('case = a random tree of scopes (14 forms, of handles of the library or made by the application, incl. deprecated ones, middleware, flush and stray finish, re-used and recursive '
            'decorated functions, functions decorated in another thread or called by several threads in turn and inside of each other; up to 4 levels, one or two caches), with bodies that '
            'return or raise (Exception, BaseException, GeneratorExit); after every opening and closing the depth, the records of the '
            'open transaction and the records outside are observed; non-trivial = distinct tree and trace')
    level_note = 'thousands of random trees up to depth 4'
    assumptions = ['depth is read through transaction.current() and parent()']

    def required(self, tier):
        return {'depth observed': 20000, 'outermost ends': 1500, 'closed by Boom': 300, 'closed by Quit': 50, 'decorated elsewhere': 300,
                'exception passed to the middleware': 20,
                'calls inside of a transaction of another thread': 1500}

    def run_case(self, rng, idx, tier, stats):
        (Shared if idx % 5 == 4 else Scopes)(rng, stats).run()
