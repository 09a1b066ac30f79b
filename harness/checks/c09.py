import appdeps
from appdeps import CELLS, LOCKED, CALLS
from checks.base import BaseCheck
from kit import MISS, CLOCK, Crew, Snapshot, Tracer, deps, fresh, present, store, dcd

KINDS = {'flag': appdeps.Flag, 'cell': appdeps.CellInCache, 'elsewhere': appdeps.CellElsewhere}


def describe(x):
    """The complete structure of a dependency or a collection given by the caller."""
    if isinstance(x, deps.CompositeDependency):
        return ('composite', id(x), [describe(d) for d in x.delegates], sorted(x.__dict__))
    if isinstance(x, deps.TagsDependency):
        return ('tags', id(x), sorted(map(repr, x.tags)), sorted(x.tag_versions.items()), sorted(x.__dict__))
    if isinstance(x, appdeps.FlagSet):
        return ('flags', id(x), sorted(x.names), sorted(x.seen.items()))
    if isinstance(x, appdeps.Base):
        return (type(x).__name__, id(x), x.name, x.seen)
    if isinstance(x, deps.DummyDependency):
        return ('dummy', id(x), sorted(x.__dict__))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, id(x), sorted(map(repr, x)))
    return (type(x).__name__, id(x), list(x))


def leaves(x):
    """{(kind, name)} of all the parts."""
    if isinstance(x, deps.CompositeDependency):
        return set().union(*[leaves(d) for d in x.delegates]) if x.delegates else set()
    if isinstance(x, deps.TagsDependency):
        return set(('tag', t) for t in x.tags)
    if isinstance(x, appdeps.FlagSet):
        return set(('flagset', n) for n in x.names)
    if isinstance(x, appdeps.Base):
        return set([([k for k, c in KINDS.items() if c is type(x)][0], x.name)])
    if isinstance(x, deps.DummyDependency):
        return set()
    return set(('tag', t) for t in x)


class Check(BaseCheck):
    prop = 'C09'
    quick = 1560
    thorough = 30000
    technique = 'runtime monitoring: generated dependency trees against an oracle over their leaves, structural snapshots of the caller\'s objects'
    rule = ('case = a few random dependency trees of composites, tag sets, dummies and four application-defined kinds (some '
            'merging, some validated from the cache or another source), stored under many records, directly and by inheritance, '
            'every leaf is invalidated or locked in turn; or a dependency whose collection, or a sibling made of it, is changed; non-trivial = distinct trees with at least two kinds of leaves')
    level_note = ('every leaf of every generated tree is exercised for validity, locking, invalidation, acquire and release; the '
                  'application-defined kinds are ours and follow the documented interface')

    def required(self, tier):
        return {'leaf invalidations': 2000, 'leaf locks': 1500, 'combination invalidations': 800, 'transactions': 300, 'independent dependencies': 200}

    def tree(self, rng, depth, names):
        r = rng.random()
        if depth > 0 and r < 0.45:
            return deps.CompositeDependency(*[self.tree(rng, depth - 1, names) for _ in range(rng.randint(0, 4))])
        kind = rng.choice(['tags', 'tags', 'tags', 'flag', 'cell', 'elsewhere', 'flagset', 'dummy'])
        if kind == 'tags':
            return deps.TagsDependency(*rng.sample(names, rng.randint(0, 3)))
        if kind == 'flagset':
            return appdeps.FlagSet(*rng.sample(names, rng.randint(1, 2)))
        if kind == 'dummy':
            return deps.DummyDependency()
        return KINDS[kind](kind[0] + rng.choice(names))

    def independent(self, rng, stats):
        """A dependency and the collection it was made of, or another dependency made of it, live on their own."""
        t = Tracer()
        h = fresh(rng.choice(['default', 'rc0', 'ru0']), by_ref=rng.random() < 0.5)
        names = ['n%d' % i for i in range(rng.randint(1, 4))]
        col = rng.choice([list, set])(names)
        first = deps.TagsDependency(col)
        how = rng.choice(['mutated', 'extended', 'both'])
        stored = rng.choice(['before', 'after', 'both'])
        if stored != 'after':
            h.set('before', 1, rng.choice([first, col]))
        if how != 'mutated':
            other = rng.choice([lambda: deps.TagsDependency(col), lambda: deps.CompositeDependency(first),
                                lambda: deps.CompositeDependency(deps.TagsDependency(col))])()
            if isinstance(other, deps.CompositeDependency) and other.delegates[0] is first:
                other = deps.CompositeDependency()
                other.extend(first)
            other.extend(deps.TagsDependency('later'))
            if set(col) != set(names):
                t.fail('modified', 'extend() changed the collection of the caller: %s became %s', names, sorted(col))
        if how != 'extended':
            if rng.random() < 0.5:
                getattr(col, 'add' if isinstance(col, set) else 'append')('later')
            else:
                col.clear()
        if stored != 'before':
            h.set('after', 1, first)
        t('%s of %s, %s; stored %s', type(col).__name__, names, how, stored)
        keys = [k for k in ('before', 'after') if stored in (k, 'both')]
        stats.obs['independent dependencies'] += 1

        def check(there, what):
            for k in keys:
                if present(h, k) != there:
                    t.fail('served' if not there else 'lost', '%s: the record stored %s the change is %s', what, k, 'gone' if there else 'served')
        check(True, 'after the change')
        h.invalidate_tags('later')
        check(True, 'after the invalidation of a tag that was added to something else')
        h.invalidate_tags(rng.choice(names))
        check(False, 'after the invalidation of a tag')
        h.close()
        stats.evaluations += 1

    def run_case(self, rng, idx, tier, stats):
        if idx % 6 == 5:
            self.independent(rng, stats)
            return
        alias = rng.choice(['default', 'rc0', 'rr0', 'sr0', 'rr3'])
        by_ref = rng.random() < 0.4
        appdeps.reset()
        t = Tracer()
        h = fresh(alias, by_ref=by_ref)
        ver = rng.choice([None, None, 2])
        kw = {} if ver is None else {'version': ver}
        names = ['n%d' % i for i in range(6)]
        trees = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.2:
                ts = rng.sample(names, rng.randint(1, 3))
                trees.append(rng.choice([list, tuple, set, frozenset])(ts))
            else:
                trees.append(self.tree(rng, 3, names))
        shape = [describe(x) for x in trees]
        strip = lambda d: repr(d).replace('id', '')
        for i, x in enumerate(trees):
            t('tree %d: %s', i, sorted(leaves(x)))

        def untouched(what):
            for i, x in enumerate(trees):
                if describe(x) != shape[i]:
                    t.fail('modified', '%s changed the object of the caller: %s became %s', what, shape[i], describe(x))
        records = {}      # key -> leaves
        snaps = {}

        # stores, directly and with inheritance; every tree used several times
        for i in range(rng.randint(len(trees), 7)):
            j = i if i < len(trees) else rng.randrange(len(trees))
            key = 'r%d' % i
            got = set()
            built = rng.random() < 0.5
            if built:
                h.get(key, **kw)
                for k in rng.sample(sorted(records), min(len(records), rng.randint(0, 3))):
                    if rng.random() < 0.5:
                        h.get(k, **kw)
                    else:
                        h.get_many([k, 'none'], **kw)
                    got |= records[k]
                if rng.random() < 0.5:
                    c = rng.randrange(len(trees))
                    h.set('c%d' % i, 1, trees[c], **kw)
                    records['c%d' % i] = leaves(trees[c])
                    got |= leaves(trees[c])
            t('store %s with tree %d (%s)', key, j, sorted(got))
            if rng.random() < 0.3 and isinstance(trees[j], deps.interfaces.IDependency):
                h.cache.set(key, 1, trees[j], None, ver)
            elif rng.random() < 0.2 and not built:
                h.get_or_set_callback(key, lambda: 1, trees[j], **kw)
            else:
                h.set(key, 1, trees[j], **kw)
            records[key] = got | leaves(trees[j])
            untouched('a store')
        kinds = set(k for ls in records.values() for k, _ in ls)
        if len(kinds) >= 2:
            stats.sig([strip(s) for s in map(lambda x: sorted(leaves(x)), trees)], sorted((k, sorted(v)) for k, v in records.items()))
            stats.sample('\n'.join(t.lines))
        stats.evaluations += 1

        def check(dead, what):
            keys = sorted(records)
            bulk = h.get_many(keys, abort=True, **kw)
            for key in keys:
                alive = present(h, key, ver)
                if alive != (key in bulk):
                    t.fail('bulk', '%s: single read of %s found it: %s, bulk read: %s', what, key, alive, key in bulk)
                if alive and records[key] & dead:
                    t.fail('served', '%s: %s is served although its parts %s are invalid', what, key, sorted(records[key] & dead))
                if not alive and not records[key] & dead:
                    t.fail('lost', '%s: %s is not served although all its parts %s are valid', what, key, sorted(records[key]))
        check(set(), 'after the stores')
        untouched('a read')
        every = sorted(set().union(*records.values()))
        snap, cells = Snapshot(alias), dict(CELLS)

        def restore():
            snap.restore()
            CELLS.clear()
            CELLS.update(cells)
        for kind, name in every:
            if kind == 'tag':
                h.invalidate_tags(name, **kw)
            elif kind == 'flagset':
                h.invalidate_tags(appdeps.FlagSet(name), **kw)
            else:
                h.cache.invalidate_dependency(KINDS[kind](name), ver)
            # kinds with a common name share the cell
            check(self.alike(kind, name), 'after invalidation of %s %s' % (kind, name))
            stats.obs['leaf invalidations'] += 1
            restore()

        # the combination invalidates every part: one probe record for each part
        for i, x in enumerate(trees):
            h.close()
            probes = {}
            for kind, name in every:
                k = 'probe-%s-%s' % (kind, name)
                d = [name] if kind == 'tag' else appdeps.FlagSet(name) if kind == 'flagset' else KINDS[kind](name)
                h.set(k, 1, d, **kw)
                probes[k] = self.alike(kind, name)
            dead = set().union(*[self.alike(k, n) for k, n in leaves(x)]) if leaves(x) else set()
            inside = rng.random() < 0.5 and isinstance(x, deps.interfaces.IDependency)
            del CALLS[:]
            if inside:
                h.transaction.begin()
            if rng.random() < 0.5 or not isinstance(x, deps.interfaces.IDependency):
                h.invalidate_tags(x, **kw)
            else:
                h.cache.invalidate_dependency(x, ver)
            untouched('an invalidation')
            for k, parts in probes.items():
                alive = present(h, k, ver)
                if alive == bool(parts & dead):
                    t.fail('part', 'after invalidation of the combination %s the record of the part %s is %s',
                           sorted(leaves(x)), sorted(parts), 'still served' if alive else 'gone')
            stats.obs['combination invalidations'] += 1
            if inside:
                self.in_transaction(t, stats, h, alias, x, ver, rng)
                untouched('the end of a transaction')
            restore()
            if alias[:2] in ('rr', 'sr'):
                CLOCK.advance(15)

        # a locked part prevents the store
        for i, x in enumerate(trees):
            for kind, name in sorted(leaves(x)):
                h.close()
                if kind == 'tag':
                    continue
                LOCKED.add(name)
                inherit = rng.random() < 0.4
                if inherit:      # the locked part is inherited
                    LOCKED.clear()
                    h.set('inh', 1, x, **kw)
                    h.get('locked', **kw)
                    h.get('inh', **kw)
                    LOCKED.add(name)
                    h.set('locked', 1, ['zz'], **kw)
                else:
                    h.set('locked', 1, x, **kw)
                LOCKED.clear()
                if present(h, 'locked', ver):
                    t.fail('stored', 'a record was stored although its part %s %s was locked (inherited: %s)', kind, name, inherit)
                stats.obs['leaf locks'] += 1
                restore()
            h.close()
            LOCKED.add('unrelated')
            h.set('free', 1, x, **kw)
            if not present(h, 'free', ver):
                t.fail('not stored', 'a record of %s was not stored although no part is locked', sorted(leaves(x)))
            LOCKED.clear()
            restore()
        untouched('a refused store')
        h.close()
        appdeps.reset()

    @staticmethod
    def alike(kind, name):
        """The leaves sharing the state of this leaf."""
        if kind in ('flag', 'flagset'):
            return set([('flag', name), ('flagset', name)])
        return set([(kind, name)])

    def in_transaction(self, t, stats, h, alias, x, ver, rng):
        """Every part is acquired and released; the tags are locked for other sessions meanwhile."""
        stats.obs['transactions'] += 1
        strict = alias[:2] in ('rr', 'sr')
        kw = {} if ver is None else {'version': ver}
        app = sorted(n for k, n in leaves(x) if k != 'tag')
        tags = sorted(n for k, n in leaves(x) if k == 'tag')
        acquired = set(n for what, n in CALLS if what == 'acquire')
        if strict and set(app) - acquired:
            t.fail('acquire', 'the parts %s were not acquired', sorted(set(app) - acquired))
        crew = Crew()
        try:
            def other(tag):
                c = dcd.caches[alias]
                c.set('foreign', 1, deps.CompositeDependency(deps.TagsDependency('fine'), deps.TagsDependency(tag)), **kw)
                return present(c, 'foreign', ver)
            for tag in tags:
                stats.obs['leaf locks'] += 1
                if strict and crew.call('O', lambda: other(tag)):
                    t.fail('stored', 'another session stored under %s which is locked as a part of a combination', tag)
            del CALLS[:]
            h.set('own', 1, x, **kw)
            h.transaction.finish()
            done = set(n for what, n in CALLS if what == ('release' if strict else 'invalidate'))
            if alias[:2] != 'ru' and set(app) - done:
                t.fail('release', 'the parts %s were not released at the end', sorted(set(app) - done))
            if alias[:2] != 'ru' and leaves(x) and present(h, 'own', ver):
                t.fail('served', 'a record stored in the transaction survives its end')
        finally:
            crew.close()
