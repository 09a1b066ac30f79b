from collections import OrderedDict, deque

from checks.base import BaseCheck
from kit import MISS, CLOCK, Crew, Snapshot, Tracer, deps, fresh, native, present, store
from seq import same

FORMS = OrderedDict([
    ('list', list), ('tuple', tuple), ('set', set), ('frozenset', frozenset), ('iter', iter),
    ('generator', lambda ks: (k for k in ks)), ('map', lambda ks: map(str, ks)), ('dict', dict.fromkeys),
    ('dict keys', lambda ks: dict.fromkeys(ks).keys()), ('dict values', lambda ks: {i: k for i, k in enumerate(ks)}.values()),
    ('deque', deque), ('reversed', lambda ks: reversed(list(ks))), ('string', lambda ks: ''.join(ks)),
    ('filter', lambda ks: filter(None, ks)), ('zip', lambda ks: (a for a, _ in zip(ks, range(10 ** 6)))),
])


class Check(BaseCheck):
    prop = 'C05'
    quick = 1600
    thorough = 40000
    technique = 'runtime monitoring: differential oracle, a bulk read against single reads of the same keys in the same state'
    rule = ('case = a random cache state of valid, expired, invalidated, partly invalidated, evicted, missing, untagged and '
            'raw records in one of two versions; a bulk read of a random collection, given as one of 15 kinds of iterables, '
            'is compared with single reads (one case of 800: thousands of keys); then twin composites are built from a bulk read and from single reads, and every '
            'tag in use is invalidated in turn; non-trivial = distinct mixture with a hit and a miss')
    level_note = ('exact comparison of results in thousands of random states, and of the effect on two enclosing builds for every '
                  'tag in use; single reads are the reference, themselves judged by C01-C03')

    def required(self, tier):
        return {'twin comparisons': 3000, 'bulk hits': 2000, 'bulk misses': 2000, 'bulk reads of thousands': 2}

    def huge(self, rng, stats):
        """Thousands of keys at once."""
        h = fresh('default')
        t = Tracer()
        n, mixture = rng.choice([9000, 12000]), rng.choice([1, 1, 2, 3])
        for i in range(n):
            h.set('k%d' % i, i, ['t%d' % i, 'common%d' % (i % 50)] if i % mixture == 0 else (), 1000)
        gone = set(rng.sample(range(0, n, mixture), 20))
        h.invalidate_tags(*['t%d' % i for i in gone])
        t('%d records, every %d. one tagged, of which %s were invalidated', n, mixture, sorted(gone))
        wanted = ['k%d' % i for i in range(n + 10)]
        rng.shuffle(wanted)
        got = h.get_many(wanted, abort=rng.random() < 0.5)
        expected = dict(('k%d' % i, i) for i in range(n) if i not in gone)
        stats.evaluations += 1
        stats.obs['bulk reads of thousands'] += 1
        stats.sig('huge', n, mixture, sorted(gone))
        if got != expected:
            t.fail('keys', 'a bulk read of %d keys returned %d records instead of %d', len(wanted), len(got), len(expected))
        h.close()

    def run_case(self, rng, idx, tier, stats):
        if idx % 800 == 400:
            self.huge(rng, stats)
            return
        alias = rng.choice(['default', 'rc0', 'rr0', 'sr0', 'ru0'])
        t = Tracer()
        h = fresh(alias, by_ref=rng.random() < 0.3)
        st = store(alias)
        ver = rng.choice([None, None, None, 1, 2])
        n = rng.choice([1, 2, 3, 6, 12, 30])
        keys = rng.sample('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN', n)
        tags = ['t%d' % i for i in range(rng.randint(1, 6))]
        wide = rng.random() < 0.03
        if wide:
            n = rng.choice([70, 140, 280])
            keys = ['key %d' % i for i in range(n)]
            tags = ['t%d' % i for i in range(rng.choice([4, 100, 300]))]
            stats.obs['cases with hundreds of keys'] += 1
        values = [None, 0, '', [], {}, False]
        rels = []

        def vers(v):
            return {} if v is None else {'version': v}

        def some(lo=0):
            return rng.sample(tags, rng.randint(min(lo, len(tags)), min(4, len(tags))))
        kinds = {}
        for i, k in enumerate(keys):
            kind = rng.choice(['valid', 'valid', 'valid', 'composite', 'expiring', 'missing', 'raw', 'untagged',
                               'other version', 'dependency'])
            kinds[k] = kind
            value = rng.choice(values) if rng.random() < 0.15 else 'v%d' % i
            ts = some(1)
            if kind == 'valid':
                h.set(k, value, ts, **vers(ver))
            elif kind == 'composite':
                h.get(k, **vers(ver))
                h.set('child' + k, 1, some(1), **vers(ver))
                h.get('child' + k, **vers(ver))
                if rng.random() < 0.4:
                    h.get_many(['child' + k, 'nochild'], **vers(ver))
                h.set(k, value, ts, **vers(ver))
            elif kind == 'expiring':
                h.set(k, value, ts, 50, **vers(ver))
            elif kind == 'raw':
                value = value if value is not None else 1
                native(alias).set(k, value, **vers(ver))
            elif kind == 'untagged':
                h.set(k, value, **vers(ver))
            elif kind == 'other version':
                h.set(k, value, ts, version=3)
            elif kind == 'dependency':
                dep = deps.CompositeDependency(deps.TagsDependency(*ts[:1]), deps.TagsDependency(*ts[1:]), deps.DummyDependency())
                h.set(k, value, dep, **vers(ver))
            t('%s: %s %s %s', k, kind, value, ts)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            x = some(1)
            v = rng.choice([ver, ver, ver, 2])
            t('invalidate %s version=%s', x, v)
            h.invalidate_tags(*x, **vers(v))
        if rng.random() < 0.3:
            CLOCK.advance(60)
            t('clock + 60')
        if rng.random() < 0.15:
            raw = sorted(k for k in st.data if 'tag_' in k)
            if raw:
                st.data.pop(rng.choice(raw))
                t('evicted one tag')
        if rng.random() < 0.3:   # one of the records is renewed
            k = rng.choice(keys)
            h.set(k, 'new', some(1), **vers(ver))
            t('renewed %s', k)

        pool = keys + ['1', '2']
        for _ in range(3):
            wanted = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5, 10, 40] if not wide else [10, 100, 300]))]
            name = rng.choice(sorted(f for f in FORMS if not wide or f != 'string'))
            expected = {}
            for k in wanted:
                v = h.get(k, MISS, abort=True, **vers(ver))
                if v is not MISS:
                    expected[k] = v
            abort = rng.random() < 0.5
            kw = dict(vers(ver))
            if abort:
                kw['abort'] = True
            t('get_many(%s as %s, %s)', wanted, name, kw)
            arg = FORMS[name](wanted)
            kept = list(arg) if name in ('list', 'tuple', 'set', 'frozenset', 'dict', 'deque') else None
            got = h.get_many(arg, **kw) if ver is None or rng.random() < 0.7 else h.get_many(arg, ver, abort)
            stats.evaluations += 1
            if type(got) is not dict and not isinstance(got, dict):
                t.fail('shape', 'get_many returned %r', got)
            if set(got) != set(expected):
                t.fail('keys', 'bulk read returned keys %s, single reads found %s', sorted(got), sorted(expected))
            for k in expected:
                if not same(got[k], expected[k]):
                    t.fail('values', 'bulk read of %s gave %s, single read %s', k, got[k], expected[k])
            if kept is not None and list(arg) != kept:
                t.fail('argument', 'the collection of keys was changed to %s', arg)
            stats.obs['bulk hits'] += len(expected)
            stats.obs['bulk misses'] += len(set(wanted)) - len(expected)
            if expected and len(set(wanted)) > len(expected):
                stats.sig(sorted(kinds.items()), sorted(wanted), name, sorted(expected))
                stats.sample('\n'.join(t.lines[-12:]))

        # twins: outer > inner > reads, after which the inner is stored, something more is built, the outer is stored
        wanted = rng.sample(pool, rng.randint(1, min(8, len(pool))))
        name = rng.choice(['list', 'generator', 'set'])
        stray = rng.random() < 0.5
        hits = [k for k in wanted if present(h, k, ver)]
        rng.shuffle(hits)

        def twin(outer, inner, bulk):
            h.close()
            h.get(outer, **vers(ver))
            h.get(inner, **vers(ver))
            if bulk:
                h.get_many(FORMS[name](wanted), **vers(ver))
            else:
                for k in hits:
                    h.get(k, **vers(ver))
            h.set(inner, 1, ['own-' + inner[-1]], **vers(ver))
            if stray:       # after the inner build is over
                h.set('stray-' + outer, 1, ['stray'], **vers(ver))
            h.set(outer, 1, ['own'], **vers(ver))
        twin('OUTER-A', 'INNER-A', True)
        twin('OUTER-B', 'INNER-B', False)
        # a sibling built afterwards from nothing
        h.set('SIBLING', 1, ['sibling'], **vers(ver))
        snap = Snapshot(alias)
        for k in ('OUTER-A', 'INNER-A', 'OUTER-B', 'INNER-B', 'SIBLING'):
            if not present(h, k, ver):
                t.fail('lost', '%s built from %s is not there', k, wanted)
        for tag in tags + ['stray', 'own', 'own-A', 'own-B', 'sibling']:
            h.invalidate_tags(tag, **vers(ver))
            stats.obs['twin comparisons'] += 1
            for a, b in (('OUTER-A', 'OUTER-B'), ('INNER-A', 'INNER-B')):
                pa, pb = present(h, a, ver), present(h, b, ver)
                if tag in ('own-A', 'own-B'):
                    continue
                if pa != pb:
                    t.fail('twins', 'after invalidation of %s the composite built from get_many(%s) is %s, '
                           'the one built from single reads of %s is %s', tag, wanted, pa, hits, pb)
            if tag != 'sibling' and not present(h, 'SIBLING', ver):
                t.fail('sibling', 'a record stored after the bulk read was finished was dropped by tag %s', tag)
            snap.restore()
        h.close()
