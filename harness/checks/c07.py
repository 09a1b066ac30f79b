from checks.base import BaseCheck
from core import short
from kit import MISS, CLOCK, Crew, Tracer, deps, fresh, native, present, store, dcd
from seq import same

ALIASES = ['default', 'rc0', 'rc0', 'ru0', 'rr0', 'rr0', 'sr0', 'rc3', 'rr3', 'v7', 'v7']


class Machine(object):
    """Executes operations; the result of every operation is recorded."""

    def __init__(self, alias, by_ref, remap=None):
        self.alias = alias
        fresh(alias, by_ref=by_ref)
        self.crew = Crew()
        self.remap = remap

    def close(self):
        self.crew.close()

    def run(self, op):
        thread, name, args, version = op
        h = lambda: dcd.caches[self.alias]
        kw = {}
        if self.remap is not None:
            version = self.remap(version)
        if version is not None:
            kw['version'] = version

        def go():
            c = h()
            if name == 'get':
                v = c.get(args[0], MISS, abort=args[1], **kw)
                return 'MISS' if v is MISS else v
            if name == 'get_many':
                return c.get_many(list(args[0]), abort=args[1], **kw)
            if name == 'set':
                key, value, tags, timeout, style = args
                if style == 'pos':
                    return c.set(key, value, list(tags), timeout, version)
                if style == 'dep':
                    return c.set(key, value, deps.TagsDependency(*tags), timeout, **kw)
                if style == 'native' and not tags:
                    if timeout is None and version is None:
                        return c.set(key, value)
                    return c.set(key, value, timeout, version)
                return c.set(key, value, tags=tuple(tags), timeout=timeout, **kw)
            if name == 'compute':
                key, value, tags = args
                return c.get_or_set_callback(key, lambda: value, tags, **kw)
            if name == 'invalidate':
                tags, style = args
                if style == 'dep':
                    return c.invalidate_tags(deps.TagsDependency(*tags), **kw)
                if style == 'list':
                    return c.invalidate_tags(list(tags), **kw)
                if style == 'wrapper':
                    return c.cache.invalidate_dependency(deps.TagsDependency(*tags), version)
                return c.invalidate_tags(*tags, **kw)
            if name == 'abort':
                return c.abort(args[0])
            if name == 'delete':
                c.delete(args[0], **kw)
                return None
            if name == 'delete_many':
                c.delete_many(list(args[0]), **kw)
                return None
            if name == 'begin':
                c.transaction.begin()
            elif name == 'finish':
                c.transaction.finish()
            elif name == 'flush':
                c.transaction.flush()
            elif name == 'close':
                c.close()
            elif name == 'advance':
                CLOCK.advance(args[0])
            elif name == 'incr':
                if version is None:
                    return c.incr(args[0])
                return c.incr(args[0], 1, version)
            elif name == 'raw':
                native(self.alias).set(args[0], args[1], **kw)
            return None
        return self.crew.call(thread, go)


class Check(BaseCheck):
    prop = 'C07'
    quick = 1000
    thorough = 30000
    technique = 'runtime monitoring: metamorphic oracle, a run over several versions against its projection on each version'
    rule = ('case = a random program over up to four versions (omitted, the default, and others) that share keys and tags, '
            'with builds, transactions and two threads; re-executed for every version with the operations of that version '
            'only, once with omitted and explicit default version exchanged, and once with the versions permuted; all results of reads must agree; '
            'non-trivial = distinct program with hits in two versions')
    level_note = ('result-by-result comparison of each version with its projection, so any influence of another version shows; '
                  'programs do not nest a key in a build of the same key in another version (known finding)')

    def required(self, tier):
        return {'compared results': 10000, 'cross-version hits': 500}

    def run_case(self, rng, idx, tier, stats):
        if idx == 0:
            self.probe(rng, stats)
            return
        alias = rng.choice(ALIASES)
        default = native(alias).version
        by_ref = rng.random() < 0.3
        versions = [None, None, default] + rng.sample([v for v in (1, 2, 3, 7, 0) if v != default], rng.randint(1, 2))
        actual = lambda v: default if v is None else v
        keys = ['k%d' % i for i in range(rng.randint(2, 5))]
        tags = ['t%d' % i for i in range(rng.randint(1, 4))]
        threads = ['A', 'A', 'A', 'B']
        m = Machine(alias, by_ref)
        ops, results = [], []
        open_ = {'A': [], 'B': []}       # [(key, version)]
        depth = {'A': 0, 'B': 0}
        locks_until = [None]
        n = [0]
        try:
            def do(thread, name, args=(), version=None, shared=False):
                op = (thread, name, args, version)
                ops.append((op, shared))
                r = m.run(op)
                results.append(r)
                return r

            def key_for(thread, ver):
                busy = set(k for k, v in open_[thread])
                ks = [k for k in keys if k not in busy]
                return rng.choice(ks) if ks else None
            for _ in range(rng.randint(12, 40)):
                th = rng.choice(threads)
                ver = rng.choice(versions)
                n[0] += 1
                what = rng.choices(
                    ['build', 'end', 'set', 'read', 'bulk', 'compute', 'invalidate', 'delete', 'begin', 'finish', 'advance',
                     'incr', 'raw', 'delete_many', 'close'],
                    [5, 6, 5, 4, 2, 3, 4, 0.7, 1, 1.5, 0.7, 0.5, 0.5, 0.3, 0.3])[0]
                some = lambda lo=0: tuple(rng.sample(tags, rng.randint(min(lo, len(tags)), min(3, len(tags)))))
                if what == 'build' and len(open_[th]) < 4:
                    k = key_for(th, ver)
                    if k and do(th, 'get', (k, False), ver) == 'MISS':
                        open_[th].append((k, ver))
                elif what == 'end' and open_[th]:
                    k, v = open_[th].pop()
                    if rng.random() < 0.85:
                        if actual(v) == default and rng.random() < 0.5:
                            v = rng.choice([None, default])
                        do(th, 'set', (k, 'v%d' % n[0], some(), rng.choice([None, None, 100]),
                                       rng.choice(['pos', 'kw', 'dep', 'native'])), v)
                    else:
                        do(th, 'abort', (k,), v)
                elif what == 'set':
                    k = key_for(th, ver)
                    if k:
                        do(th, 'set', (k, 'v%d' % n[0], some(), rng.choice([None, None, 100]),
                                       rng.choice(['pos', 'kw', 'dep', 'native'])), ver)
                elif what == 'read':
                    k = key_for(th, ver)
                    if k:
                        do(th, 'get', (k, True), ver)
                elif what == 'bulk':
                    busy = set(k for k, v in open_[th])
                    do(th, 'get_many', (tuple(k for k in keys if k not in busy), rng.random() < 0.2), ver)
                elif what == 'compute':
                    k = key_for(th, ver)
                    if k:
                        do(th, 'compute', (k, 'v%d' % n[0], some()), ver)
                elif what == 'invalidate':
                    do(th, 'invalidate', (some(1), rng.choice(['args', 'list', 'dep', 'wrapper'])), ver)
                elif what == 'delete':
                    k = key_for(th, ver)
                    if k:
                        do(th, 'delete', (k,), ver)
                elif what == 'delete_many':
                    do(th, 'delete_many', (tuple(rng.sample(keys, 1)),), ver)
                elif what == 'begin' and depth[th] < 3:
                    depth[th] += 1
                    do(th, 'begin', shared=True)
                elif what == 'finish' and depth[th]:
                    if rng.random() < 0.8:
                        depth[th] -= 1
                        do(th, 'finish', shared=True)
                    else:
                        depth[th] = 0
                        do(th, 'flush', shared=True)
                elif what == 'advance':
                    do(th, 'advance', (rng.choice([1.25, 2.25, 5.25, 60, 400]),), shared=True)
                elif what == 'incr':
                    do(th, 'raw', ('n', n[0]), ver)
                    do(th, 'incr', ('n',), ver)
                elif what == 'raw':
                    do(th, 'raw', ('r', n[0]), ver)
                    do(th, 'get', ('r', True), rng.choice(versions))
                elif what == 'close':
                    open_[th], depth[th] = [], 0
                    do(th, 'close', shared=True)
            for th in ('A', 'B'):
                do(th, 'close', shared=True)
            do('A', 'advance', (20,), shared=True)
            for v in sorted(set(map(actual, versions))):
                do('A', 'get_many', (tuple(keys), True), v)
            for v in sorted(set(map(actual, versions))):
                for tag in tags:
                    do('A', 'invalidate', ((tag,), 'args'), v)
                    for w in sorted(set(map(actual, versions))):
                        do('A', 'get_many', (tuple(keys) + ('r', 'n'), True), w)
        finally:
            m.close()

        t = Tracer()
        t('alias %s, default version %s', alias, default)
        for (op, _), r in zip(ops, results):
            t('%s -> %s', op, r)
        hits = set()
        for (op, _), r in zip(ops, results):
            if op[1] == 'get' and r != 'MISS' or op[1] == 'get_many' and r:
                hits.add(actual(op[3]))
        if len(hits) > 1:
            stats.sig(alias, ops)
            stats.obs['cross-version hits'] += 1
            stats.sample('\n'.join(t.lines[:30]))

        # exchange of omitted and explicit default version
        self.compare(t, stats, ops, results, 'with omitted and explicit default version exchanged', alias, by_ref,
                     keep=lambda op, shared: True,
                     remap=lambda v: default if v is None else (None if v == default else v))
        # the versions change places
        places = sorted(set(map(actual, versions)) | {9})
        other = list(places)
        rng.shuffle(other)
        places = dict(zip(places, other))
        self.compare(t, stats, ops, results, 'with the versions renamed by %s' % places, alias, by_ref,
                     keep=lambda op, shared: True, remap=lambda v: None if places[actual(v)] == default and v is None else places[actual(v)])
        for v in sorted(set(map(actual, versions))):
            self.compare(t, stats, ops, results, 'with the operations of version %s only' % v, alias, by_ref,
                         keep=lambda op, shared: shared or actual(op[3]) == v, remap=None)
        stats.evaluations += 1

    def compare(self, t, stats, ops, results, how, alias, by_ref, keep, remap):
        m = Machine(alias, by_ref, remap)
        try:
            for i, ((op, shared), r) in enumerate(zip(ops, results)):
                if not keep(op, shared):
                    continue
                r2 = m.run(op)
                stats.obs['compared results'] += 1
                if not same(r, r2):
                    t.lines = t.lines[:i + 2]
                    t.fail('projection', '%s (operation %d) gave %s, but %s %s', op, i, r, r2, how)
        finally:
            m.close()

    def probe(self, rng, stats):
        """The known finding: a key nested in a build of the same key in another version."""
        t = Tracer()
        h = fresh('default')
        h.set('child', 1, ['t'])
        h.set('k', 'other', version=2)
        h.get('k')
        h.get('k', version=2)
        h.get('child')
        h.set('k', 'composite')
        h.invalidate_tags('t')
        t('set child tags=[t]; set k version=2; get k -> MISS; get k version=2 -> hit; get child -> hit; set k; invalidate t; get k')
        found = present(h, 'k')
        h.close()
        if found:
            t.fail('same-key-in-another-version', 'the composite k survives the invalidation of the tag of child')
