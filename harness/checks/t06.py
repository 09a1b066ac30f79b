import threading

import django_cache_dependencies as dcd
from checks.base import BaseCheck
from conc import run_random, OPS
from core import Crew, in_thread
from env import CLOCK
from monbackend import FOREIGN
from kit import MISS, Tracer, depth, fresh, present


def connections(t, what, stats):
    """Nobody has used the connection to the cache of another thread."""
    stats.obs['connections judged'] += 1
    if FOREIGN:
        owner, thread, name, op, keys = FOREIGN[0]
        t.fail('connection', '%s: thread %s does %s%s on the connection to %s of the thread %s', what, thread, op, keys, name, owner)


class Boundary(object):
    """An owner in a random state; foreign threads try every operation of its handle."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['rc0', 'rr0', 'default', 'ru0', 'sr0', 'rc3', 'ru3', 'rr3'])
        fresh(self.alias)
        del FOREIGN[:]
        self.crew = Crew()
        self.t = Tracer()

    def on(self, who, fn):
        return self.crew.call(who, fn)

    ATTEMPTS = {
        'transaction.begin': lambda h, r: h.transaction.begin(),
        'transaction.finish': lambda h, r: h.transaction.finish(),
        'transaction.flush': lambda h, r: h.transaction.flush(),
        'transaction.current': lambda h, r: h.transaction.current(),
        'transaction.current(None)': lambda h, r: h.transaction.current(None),
        'with transaction': lambda h, r: h.transaction.__enter__(),
        'end of with': lambda h, r: h.transaction.__exit__(None, None, None),
        'transaction_begin': lambda h, r: h.transaction_begin(),
        'transaction_finish': lambda h, r: h.transaction_finish(),
        'transaction_finish_all': lambda h, r: h.transaction_finish_all(),
        'relation_manager.get': lambda h, r: h.relation_manager.get(r),
        'relation_manager.current': lambda h, r: h.relation_manager.current(),
        'relation_manager.current(key)': lambda h, r: h.relation_manager.current(r),
        'relation_manager.pop': lambda h, r: h.relation_manager.pop(r),
        'relation_manager.clear': lambda h, r: h.relation_manager.clear(),
        'get': lambda h, r: h.get(r),
        'set': lambda h, r: h.set(r, 'foreign', ('foreign',)),
        'get_or_set_callback': lambda h, r: h.get_or_set_callback(r, lambda: 'foreign', ('foreign',)),
        'invalidate_tags': lambda h, r: h.invalidate_tags('foreign'),
        'abort': lambda h, r: h.abort(r),
        'close': lambda h, r: h.close(),
    }

    def run(self):
        rng = self.rng
        try:
            h = self.on('O', lambda: dcd.caches[self.alias])
            d = rng.randint(0, 3)
            builds = ['b%d' % i for i in range(rng.randint(0, 3))]

            def prepare():
                for _ in range(d):
                    h.transaction.begin()
                if d:
                    h.invalidate_tags('mine')
                    h.set('inside', 1, ('mine',))
                for b in builds:
                    h.get(b)
                h.set('part', 1, ('part tag',))
            self.on('O', prepare)
            self.t('owner: %s transactions deep, builds %s', d, builds)
            connections(self.t, 'the owner prepares', self.stats)
            current = self.on('O', h.transaction.current)
            done = []
            for _ in range(rng.randint(1, 5)):
                name = rng.choice(sorted(self.ATTEMPTS))
                who = rng.choice(['F', 'G'])
                key = rng.choice(builds + ['b0', 'other'])

                def attempt():
                    if rng.random() < 0.5:
                        dcd.caches[self.alias].transaction.begin()      # has transactions of its own
                    try:
                        return self.ATTEMPTS[name](h, key)
                    finally:
                        dcd.caches[self.alias].close()
                try:
                    rv = self.on(who, attempt)
                except Exception as e:
                    self.t('%s tries %s(%s): %s', who, name, key, type(e).__name__)
                    self.stats.obs['refused'] += 1
                else:
                    self.t.fail('not refused', 'a foreign thread may use %s of the handle (it returned %s)', name, rv)
                done.append(name)

            def check():
                if depth(h) != d:
                    self.t.fail('owner', 'after %s the owner is %s transactions deep instead of %s', done, depth(h), d)
                if d and h.transaction.current() is not current:
                    self.t.fail('owner', 'after %s the owner has another transaction', done)
                if d and not present(h, 'inside'):
                    self.t.fail('owner', 'after %s the transaction of the owner has been completed', done)
                for b in reversed(builds):
                    h.set(b, b, ('tag ' + b,))
                for _ in range(d):
                    h.transaction.finish()
                if depth(h):
                    self.t.fail('owner', 'the transactions do not end')
                if d and self.alias[:2] != 'ru' and present(h, 'inside'):
                    self.t.fail('owner', 'after %s the end of the transaction does not complete its invalidations', done)
                if d and self.alias[:2] in ('rr', 'sr'):
                    return
                # the outermost build has the tags of everything, and only of that
                for b in builds:
                    if not present(h, b):
                        self.t.fail('owner', 'after %s the build %s was not stored', done, b)
                h.invalidate_tags('foreign')
                for b in builds:
                    if not present(h, b):
                        self.t.fail('owner', 'after %s the build %s got a foreign tag', done, b)
                h.invalidate_tags('part tag')
                for b in builds:
                    if present(h, b):
                        self.t.fail('owner', 'after %s the build %s has lost a tag', done, b)
            del FOREIGN[:]          # what is refused may have read before
            self.on('O', check)
            if rng.random() < 0.5:
                self.on('O', lambda: dcd.caches[self.alias].close())
            fired = CLOCK.fired
            CLOCK.advance(10)
            self.stats.obs['delayed invalidations'] += CLOCK.fired - fired
            connections(self.t, 'until the end of the delay', self.stats)
        finally:
            for who in 'OFG':
                self.on(who, lambda: dcd.caches[self.alias].close())
            self.crew.close()
        self.stats.evaluations += 1
        self.stats.sig('boundary', self.alias, self.t.lines)


def identity(rng, stats):
    """Threads started together, each using several aliases repeatedly."""
    aliases = ['default', 'rc0', 'rr0', 'sr0', 'ru0', 'rc0b', 'rr3']
    n = rng.randint(2, 6)
    gate = threading.Barrier(n)
    del FOREIGN[:]
    seen = [None] * n
    t = Tracer()

    def one(i, seed):
        import random
        r = random.Random(seed)
        first = {}
        order = [r.choice(aliases) for _ in range(20)]
        gate.wait()
        problems = []
        for a in order:
            how = r.choice(['item', 'call', 'get_cache', 'proxy'])
            if how == 'proxy':
                parts = (dcd.cache.transaction, dcd.cache.relation_manager)
                h = dcd.caches['default']
                if parts != (h.transaction, h.relation_manager) or not dcd.cache == h:
                    problems.append('proxy of the default cache is not the handle')
                a = 'default'
                flag = r.random() < 0.5
                old = h.ignore_descendants
                dcd.cache.ignore_descendants = flag
                if h.ignore_descendants is not flag or h.cache.ignore_descendants is not flag or dcd.cache.ignore_descendants is not flag:
                    problems.append('an attribute set by the proxy of the default cache is not set on the handle of the thread')
                dcd.cache.note = i
                if not hasattr(h, 'note') or h.note != i or dcd.cache.note != i:
                    problems.append('an attribute set by the proxy of the default cache is not on the handle of the thread')
                del dcd.cache.note
                if 'note' in vars(h):
                    problems.append('an attribute deleted by the proxy of the default cache is still on the handle')
                h.ignore_descendants = old
            elif how == 'item':
                h = dcd.caches[a]
            elif how == 'call':
                h = dcd.caches(a) if a != 'default' or r.random() < 0.5 else dcd.caches()
            else:
                h = dcd.get_cache(a)
            if first.setdefault(a, h) is not h:
                problems.append('%s: another handle the second time (%s)' % (a, how))
            act = r.random()
            if act < 0.1:
                h.close()
            elif act < 0.15:
                dcd.close_caches()
            elif act < 0.3:
                h.get('k')
                h.abort('k')
            elif act < 0.4:
                with h.transaction:
                    pass
        seen[i] = first, problems
    threads = [threading.Thread(target=one, name=rng.choice([None, 'worker']), args=(i, rng.random())) for i in range(n)]
    for th in threads:
        th.daemon = True
        th.start()
    for th in threads:
        th.join(60)
    for i, s in enumerate(seen):
        if s is None:
            t.fail('identity', 'a thread failed')
        if s[1]:
            t.fail('identity', 'thread %s: %s', i, s[1][0])
    for i in range(n):
        for j in range(i):
            for a in set(seen[i][0]) & set(seen[j][0]):
                x, y = seen[i][0][a], seen[j][0][a]
                stats.obs['pairs of handles compared'] += 1
                if x is y or x.transaction is y.transaction or x.relation_manager is y.relation_manager:
                    t.fail('shared', 'two threads share the handle of %s, its transactions or its builds', a)
    connections(t, 'threads obtaining handles', stats)
    stats.evaluations += 1
    stats.sig('identity', n, sorted(seen[0][0]))


class Check(BaseCheck):
    prop = 'T06'
    quick = 1600
    thorough = 40000
    technique = ('runtime monitoring: scheduled real threads switched at backend operations and inside library lines, event logs '
                 'checked offline; handles observed by identity; every operation of a handle tried from foreign threads')
    rule = ('case = (a) a concurrent program of 2-4 threads over common keys or keys of their own and common tags, switched under a random schedule '
            'at backend operations and (a twelfth of them) at random lines of the library; (b) an owner in a random state and up to five '
            'attempts of foreign threads on its handle, out of 21 operations; (c) 2-6 threads obtaining handles in all ways at '
            'once; non-trivial = distinct history')
    level_note = 'thousands of random schedules and states, not exhaustive'

    def required(self, tier):
        return {'refused': 800, 'pairs of handles compared': 500, 'switches': 5000, 'switch points inside library lines': 1500,
                'reads judged hit': 1500, 'connections judged': 1500, 'delayed invalidations': 60}

    def run_case(self, rng, idx, tier, stats):
        m = idx % 8
        if m == 0:
            in_thread(lambda: identity(rng, stats))
        elif m < 4:
            Boundary(rng, stats).run()
        else:
            ops = dict(OPS, txn=3)
            del FOREIGN[:]
            run_random(rng, stats, ('lost', 'wrong-value', 'overwritten', 'deleted', 'stale-own', 'stale-inherited', 'stale-end'),
                       ['default', 'rc0', 'rc0', 'ru0'], private=rng.random() < 0.6, ops=ops, lines=rng.choice([0.02, 0.1]) if idx % 24 == 4 else 0)
            connections(Tracer(), 'threads with a common cache', stats)
