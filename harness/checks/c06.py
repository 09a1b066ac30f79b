from collections import Counter

from checks.base import BaseCheck
from env import ALIASES
from kit import MISS, CLOCK, Tracer, deps, fresh, native, present, store


class Check(BaseCheck):
    prop = 'C06'
    quick = 420
    thorough = 9000
    technique = 'runtime monitoring: operation counters on the wrapped backend, compared with the bound and between sizes'
    rule = ('case = one scenario (read, bulk read, store, invalidation, end of transactions; any isolation level, style of '
            'passing tags, nesting and inheritance) executed with one key and tag and again with up to 60 keys and 200 tags (or with up to 1300 keys, or 2500 tags); '
            'the backend operations of every step are counted; non-trivial = distinct scenario and sizes')
    level_note = ('exact counts of backend operations in random scenarios; reads against the absolute bound of two, the rest '
                  'against the same scenario of size one')
    assumptions = ['a bulk operation of the backend counts as one round trip']

    def required(self, tier):
        return {'counted read': 1000, 'counted bulk': 1000, 'counted store': 1000, 'counted end': 500}

    def run_case(self, rng, idx, tier, stats):
        self.stats = stats
        alias = rng.choice(ALIASES + ['default', 'rc0b'])
        loc = alias.rstrip('b')
        sizes = (1, rng.choice([2, 3, 5, 17, 60]))
        ntags = (1, rng.choice([2, 3, 10, 30, 50, 200]))
        if rng.random() < 0.05:
            if rng.random() < 0.5:
                ntags = (1, rng.choice([600, 1300, 2500]))
                sizes = (1, rng.choice([2, 3]))
            else:
                sizes = (1, rng.choice([300, 600, 1300]))
                ntags = (1, rng.choice([2, 3]))
            stats.obs['cases with hundreds of keys or tags'] += 1
        form = rng.choice(['list', 'set', 'dep', 'comp', 'nested', 'dup'])
        opts = dict(
            form=form, inherit=rng.choice(['none', 'single', 'bulk', 'deep', 'mixed']),
            state=rng.choice(['new', 'existing', 'partly']), version=rng.choice([None, None, 2]),
            txn=rng.choice([0, 0, 1, 2, 4]), spread=rng.random() < 0.5, end=rng.choice(['finish', 'flush', 'close']),
            stale=rng.random() < 0.3, timeout=rng.choice([None, 100]), opt=rng.random() < 0.2)
        t = Tracer()
        t('alias %s, keys %s, tags %s, %s', alias, sizes, ntags, sorted(opts.items()))
        small = self.scenario(t, alias, loc, sizes[0], ntags[0], opts)
        large = self.scenario(t, alias, loc, sizes[1], ntags[1], opts)
        stats.evaluations += 2
        stats.sig(alias, sizes, ntags, sorted(map(str, opts.items())))
        stats.sample('%s\n%s' % (t.lines[0], large))
        for name in small:
            a, b = small[name], large[name]
            kind = name.split()[0]
            stats.obs['counted ' + kind] += 2
            if kind in ('read', 'bulk'):
                for c, s in ((a, 0), (b, 1)):
                    if sum(c.values()) > 2:
                        t.fail('read', '%s of %d keys with %d tags each took %s', name, sizes[s], ntags[s], dict(c))
            elif kind == 'end' and not opts['txn']:
                pass
            elif sum(a.values()) != sum(b.values()):
                t.fail(kind, '%s took %s with %d key and %d tag but %s with %d keys and %d tags', name,
                       dict(a), sizes[0], ntags[0], dict(b), sizes[1], ntags[1])

    def scenario(self, t, alias, loc, nkeys, ntags, o):
        fresh(loc)
        h = fresh(alias)
        st = store(loc)
        out = {}
        kw = {} if o['version'] is None else {'version': o['version']}

        def count(name, fn):
            st.counter.clear()
            r = fn()
            out[name] = Counter(st.counter)
            return r

        def dep(tags):
            f = o['form']
            if f == 'set':
                return set(tags)
            if f == 'dep':
                return deps.TagsDependency(tags)
            if f == 'comp':
                return deps.CompositeDependency(deps.TagsDependency(*tags[:1]), deps.TagsDependency(tags[1:] or tags))
            if f == 'nested':
                return deps.CompositeDependency(deps.DummyDependency(), deps.CompositeDependency(deps.TagsDependency(tags)))
            if f == 'dup':
                return list(tags) + list(tags)
            return list(tags)

        def tags(prefix):
            return ['%s-%d' % (prefix, i) for i in range(ntags)]
        keys = ['k%d' % i for i in range(nkeys)]
        for i, k in enumerate(keys):
            # records have common and different tags
            h.set(k, i, dep((tags('common') if i % 2 else tags('tag%d' % i))), o['timeout'], **kw)
        if o['stale']:
            h.invalidate_tags('common-0', **kw)
        # store of a composite
        h.get('composite', **kw)
        if o['inherit'] == 'single':
            for k in keys:
                h.get(k, **kw)
        elif o['inherit'] == 'bulk':
            h.get_many(keys, **kw)
        elif o['inherit'] == 'deep':
            h.get('inner', **kw)
            h.get('innermost', **kw)
            h.get_many(keys, **kw)
            h.set('innermost', 1, dep(tags('common')), **kw)
            h.set('inner', 1, dep(tags('common')), **kw)
        elif o['inherit'] == 'mixed':
            h.get_many(keys + ['nokey'], **kw)
            h.set('part', 1, dep(tags('common')), **kw)
        own = {'new': tags('own'), 'existing': tags('common'), 'partly': tags('common') + tags('own')}[o['state']]
        h.set('warm', 1, dep(tags('common')), **kw)
        if o['opt']:
            h.abort('composite')
        if o['inherit'] == 'none' or o['opt'] or o['state'] != 'partly':
            count('store of a composite', lambda: h.set('composite', 1, dep(own), o['timeout'], **kw))
        else:
            h.set('composite', 1, dep(own), o['timeout'], **kw)
        count('store again', lambda: h.set('composite2', 1, dep(own), o['timeout'], **kw))
        count('store untagged', lambda: h.set('plain', 1, **kw))
        count('read hit', lambda: h.get('composite', **kw))
        count('read of a record', lambda: h.get(keys[0], **kw))
        h.close()
        count('read miss', lambda: h.get('nothing', **kw))
        count('read inside', lambda: h.get('composite', **kw))
        h.abort('nothing')
        count('bulk read', lambda: h.get_many(keys + ['composite', 'plain', 'nothing'], **kw))
        count('bulk missing', lambda: h.get_many(['no%d' % i for i in range(nkeys)], **kw))
        count('bulk abort', lambda: h.get_many(iter(keys), abort=True, **kw))
        native(loc).set('raw', 1, **kw)
        count('read raw', lambda: h.get('raw', **kw))
        count('read callback', lambda: h.get_or_set_callback('composite', lambda: 1, dep(own), **kw))
        # transactions
        for _ in range(o['txn']):
            h.transaction.begin()
        alltags = tags('common') + tags('own')
        if o['spread']:
            for tag in alltags:
                st.counter.clear()
                h.invalidate_tags(tag, **kw)
            if o['txn']:
                h.invalidate_tags(dep(tags('own')), **kw)
        else:
            count('invalidation', lambda: h.invalidate_tags(dep(alltags), **kw) if o['form'] != 'comp' else h.invalidate_tags(alltags, **kw))
        count('store in transaction', lambda: h.set('intxn', 1, dep(tags('common')), **kw))
        if o['end'] == 'finish':
            def end():
                for _ in range(o['txn']):
                    h.transaction.finish()
        else:
            end = h.transaction.flush if o['end'] == 'flush' else h.close
        count('end of transaction', end)
        if CLOCK.timers:
            count('end delayed', lambda: CLOCK.advance(4))
        count('read after', lambda: h.get('composite', **kw))
        h.close()
        return out
