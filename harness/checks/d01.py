import gc

from django.core import signals
from django.http import HttpRequest
from django.template import TemplateSyntaxError, loader

import pages
from checks.base import BaseCheck
from core import Crew
from env import CLOCK
from kit import Tracer, dcd, fresh
from verifapp.loader import TEMPLATES


class Fragments(object):
    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        fresh('default', by_ref=rng.random() < 0.3)
        self.t = Tracer()
        self.crew = Crew()
        keys = ['k%d' % i for i in range(4)]
        self.specs = {}
        for i, k in enumerate(keys):
            self.specs[k] = pages.Spec(rng.sample(pages.TAGS, rng.randint(0, 2)), rng.choice([None, 7, 60]),
                                       rng.sample(keys[:i], min(i, rng.choice([0, 0, 1, 2]))))
        TEMPLATES.clear()
        self.w = pages.Writer(rng, keys, prevent=rng.choice([0, 0.6, 1.5]), boom=rng.choice([0, 0.25]), frail=rng.choice([0, 0, 1]),
                              meanwhile=rng.choice([0, 0, 1]))
        self.model = pages.Model()
        self.world = pages.World(self.specs)
        self.pages = []
        for i in range(rng.randint(1, 3)):
            tree = self.w.tree()
            text = self.w.source(tree)
            self.w.put('page%d' % i, text)
            self.pages.append(tree)
        self.model.pages = self.pages
        self.w.go = self.meanwhile
        self.elsewhere = False
        self.compiled = {} if rng.random() < 0.5 else None     # templates are compiled once, and shared by all threads
        for name in sorted(TEMPLATES):
            self.t('%s: %s', name, TEMPLATES[name])
        self.t('lists: %s', self.w.lists)
        for k in keys:
            self.t('value %s: tags %s timeout %s reads %s', k, self.specs[k].tags, self.specs[k].timeout, self.specs[k].reads)
        self.where = [None] if rng.random() < 0.6 else [None, 'A', 'B']
        self.in_txn = None
        self.lasting = rng.random() < 0.4           # one long request

    def template(self, i):
        if self.compiled is None:
            return loader.get_template('page%d' % i)
        if i not in self.compiled:
            self.compiled[i] = loader.get_template('page%d' % i)
        return self.compiled[i]

    def meanwhile(self, other):
        if self.elsewhere:
            return ''
        i = other.page % len(self.pages)
        flags, self.world.flags, self.elsewhere = self.world.flags, other.flags, True

        def render():
            try:
                return self.template(i).render(self.w.context(self.world, dict(flags=other.flags, vars=other.vars)), None)
            except pages.Boom:
                return 'Boom'
        try:
            self.stats.obs['renderings in another thread in the midst of one'] += 1
            return '(%s)' % self.crew.call('C', render)
        finally:
            self.world.flags, self.elsewhere = flags, False

    def page(self):
        rng, m = self.rng, self.model
        i = rng.randrange(len(self.pages))
        flags = dict(f0=rng.random() < 0.5, f1=rng.random() < 0.5, boom=rng.random() < 0.5)
        env = dict(flags=flags, values=self.specs, vars=dict(user=rng.choice(['u', 'v']), tv=rng.choice(pages.TAGS), bad=bool(self.w.frail) and rng.random() < 0.1))
        m.rendered, m.hits = [], 0
        where = self.in_txn[0] if self.in_txn else rng.choice(self.where)
        self.world.flags = flags
        request = HttpRequest() if rng.random() < 0.5 else None
        finish = None if self.in_txn or self.lasting else rng.choice(['signal', 'close', None])
        self.t('render page%s in %s: %s, %s', i, where, flags, env['vars'])
        why = dict((k, m.why(k)) for k in m.data)
        before = m.serial
        try:
            expected = m.render(self.pages[i], env)
        except pages.Boom:
            expected = 'Boom'
        m.frames = []

        def render():
            try:
                try:
                    return self.template(i).render(self.w.context(self.world, env), request)
                except (pages.Boom, TemplateSyntaxError, TypeError):
                    return 'Boom'
                except AttributeError as e:
                    return 'unexpected %s' % e
            finally:
                if finish == 'signal':
                    signals.request_finished.send(sender=self)
                elif finish == 'close':
                    dcd.cache.close()
        got = self.crew.call(where, render)
        self.t('  -> %s (expected %s; bodies rendered: %s)', got, expected, m.rendered)
        self.stats.evaluations += 1
        self.stats.obs['renderings'] += 1
        self.stats.obs['fragments rendered'] += len(m.rendered)
        self.stats.obs['hits'] += m.hits
        self.stats.obs['fragments with bad arguments'] += m.refused
        m.refused = 0
        if expected == 'Boom':
            self.stats.obs['failed renderings'] += 1
        elif m.hits and m.rendered:
            self.stats.obs['partly cached renderings'] += 1
        if got != expected or self.world.serial != m.serial:
            ran, should = self.world.serial - before, m.serial - before
            self.t.fail('stale' if ran < should else 'not served' if ran > should else 'output',
                        'page%s gave %s instead of %s (%s computations instead of %s); records before: %s',
                        i, got, expected, ran, should, why)

    def event(self):
        rng, m = self.rng, self.model
        what = rng.choice(['invalidate', 'invalidate', 'invalidate', 'clock', 'delete', 'put', 'transaction', 'read', 'read'])
        where = self.in_txn[0] if self.in_txn else rng.choice(self.where)
        if what == 'invalidate':
            tags = rng.sample(pages.TAGS, rng.choice([1, 1, 2]))
            self.t('invalidate %s in %s', tags, where)
            self.crew.call(where, lambda: dcd.cache.invalidate_tags(*tags))
            m.invalidate(tags)
            self.stats.obs['invalidations'] += 1
        elif what == 'clock':
            dt = rng.choice([3, 6, 41, 61, 301])
            self.t('clock +%s', dt)
            CLOCK.advance(dt)
        elif what == 'delete' and self.w.fragments:
            f = rng.choice(self.w.fragments)
            key = f.key(dict(vars=dict(user=rng.choice(['u', 'v']))))
            self.t('delete %s', key)
            self.crew.call(where, lambda: dcd.cache.delete(key))
            m.data.pop(key, None)
        elif what == 'put':
            key = rng.choice(sorted(self.specs))
            tags = rng.sample(pages.TAGS, rng.randint(0, 2))
            value = '[%s*%d]' % (key, rng.randrange(1000))
            self.t('set %s = %s under %s', key, value, tags)
            self.crew.call(where, lambda: dcd.cache.set(key, value, tags, 100))
            m.store(key, value, tags, 100)
        elif what == 'read':
            key, how = rng.choice(sorted(self.specs)), rng.choice(pages.HOWS)
            expected = m.read(key, how, dict(values=self.specs))
            got = self.crew.call(where, lambda: self.world.read(key, how))
            self.t('%s %s -> %s', how, key, got)
            if got != expected:
                self.t.fail('value', 'read of %s gave %s instead of %s', key, got, expected)
        elif what == 'transaction':
            if self.in_txn is None:
                self.t('begin in %s', where)
                self.crew.call(where, lambda: dcd.cache.transaction.begin())
                self.in_txn = (where,)
                m.pending = set()
            else:
                self.t('finish in %s', where)
                self.crew.call(where, lambda: dcd.cache.transaction.finish())
                tags, m.pending = m.pending, None
                m.invalidate(tags)
                self.in_txn = None
                self.stats.obs['transactions'] += 1

    def run(self):
        try:
            for _ in range(self.rng.randint(4, 14)):
                if self.rng.random() < 0.55:
                    self.page()
                else:
                    self.event()
        finally:
            self.crew.close()
            dcd.cache.close()
        self.stats.sig(self.t.lines)
        self.stats.sample('\n'.join(self.t.lines[:30]), limit=1)


class Check(BaseCheck):
    prop = 'D01'
    quick = 5000
    thorough = 120000
    technique = ('runtime monitoring: random templates of nested fragments rendered by Django on the real cache; every rendering is '
                 'compared with a reference model by unique numbers which bodies print')
    rule = ('case = 1 to 3 random pages (fragments nested up to 4 deep, inside if/for/with/include, re-used on several pages, keyed by '
            'variables; tags as literals, variables, lists, added in bodies; timeouts; cached values with tags read in bodies; '
            'prevention; failing bodies; arguments which cannot be used in some scopes; other threads rendering the same compiled templates in the midst of a body) and 4 to 14 renderings, invalidations, expiries, deletes, overwrites, in one or '
            'several threads and transactions; judged on every rendering; non-trivial = distinct trace')
    level_note = 'thousands of random template trees and histories; fragments are rendered on the default cache only'
    assumptions = ['a tag is not invalidated while a body carrying it is being rendered (D01 says nothing about it; see T03)']

    def required(self, tier):
        return {'renderings': 8000, 'hits': 4000, 'partly cached renderings': 1000, 'failed renderings': 100, 'fragments with bad arguments': 100,
                'renderings in another thread in the midst of one': 300, 'invalidations': 2000}

    def run_case(self, rng, idx, tier, stats):
        Fragments(rng, stats).run()
