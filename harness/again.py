"""The same value stored again and again: with other tags, other inherited tags, another timeout.

The programs of seq.py store a new value every time, so that a read tells which store it comes from. Here
all stores of a key are of one value (an equal, or the very same object); what is observed is for how long
and until which invalidation it is served.
"""
from env import CLOCK
from kit import MISS, Tracer, dcd, deps, fresh

VALUES = [lambda: 'same', lambda: 7, lambda: ['x', {'y': 1}], lambda: {}, lambda: None, lambda: (1, 2), lambda: True, lambda: b'z' * 50]
OWN, INHERITED = ['a', 'b', 'c'], ['p', 'q']


class Rec(object):
    dead = None


def equal_values(rng, stats, kinds):
    for _ in range(6):
        history(rng, stats, kinds)


def history(rng, stats, kinds):
    alias = rng.choice(['default', 'rc0', 'ru0', 'rr0', 'sr0', 'v7'])
    h = fresh(alias, by_ref=rng.random() < 0.2)
    t = Tracer()
    t('cache %s', alias)
    make = rng.choice(VALUES)
    first = make()
    value = (lambda: first) if rng.random() < 0.3 else make
    keys, versions = ['k', 'l'], rng.choice([[None], [None], [None, 2]])
    fixed = rng.choice([None, None, ['a'], []])      # the same tags every time; only the timeout differs
    recs = {}
    in_txn = False

    def kw(version):
        return {} if version is None else {'version': version}

    def fail(kind, fmt, *args):
        t(fmt, *args)
        if kind in kinds:
            t.fail(kind, fmt, *args)

    def judge(key, version, got, how):
        rec = recs.get((key, version))
        stats.evaluations += 1
        now = CLOCK.peek()
        if rec is None:
            if got is not MISS:
                fail('stale-own', '%s of %s: %s is served, but nothing was stored', how, key, got)
            return
        if rec.dead:
            stats.obs['equal values gone'] += 1
            if got is not MISS:
                fail(rec.dead, '%s of %s: the value stored with %s is served after that was invalidated', how, key, rec.what)
        elif abs(now - rec.deadline) < 0.3:
            pass
        elif now > rec.deadline:
            stats.obs['equal values expired'] += 1
            if got is not MISS:
                fail('served too long', '%s of %s: served %s seconds after the end of its time', how, key, now - rec.deadline)
        else:
            stats.obs['equal values served'] += 1
            if got is MISS:
                fail('lost', '%s of %s: the value stored with %s is lost', how, key, rec.what)
            elif got != first or type(got) is not type(first):
                fail('lost', '%s of %s: %s instead of %s', how, key, got, first)

    def child(tag, version):
        """A record under an inheritable tag, to be read while a build is open."""
        if h.get('child ' + tag, MISS, abort=True, **kw(version)) is MISS:
            h.set('child ' + tag, tag, [tag], 100000, **kw(version))

    for _ in range(rng.randint(6, 16)):
        op = rng.choice(['store', 'store', 'store', 'invalidate', 'invalidate', 'advance', 'read', 'read', 'delete', 'txn'])
        key, version = rng.choice(keys), rng.choice(versions)
        if op == 'store':
            own = rng.sample(OWN, rng.randint(0, 2)) if fixed is None else fixed
            inherited = rng.sample(INHERITED, rng.choice([0, 0, 1, 2])) if fixed is None else []
            timeout = rng.choice([None, None, 5, 50, 1000])
            for tag in inherited:
                child(tag, version)
            tags = rng.choice([list, tuple, set, frozenset, lambda x: deps.TagsDependency(*x) if x else ()])(own)
            style = rng.choice(['set', 'set', 'compute'])
            if style == 'compute' and h.get(key, MISS, abort=True, **kw(version)) is not MISS:
                style = 'set'
            if style == 'set':
                if inherited or rng.random() < 0.3:
                    h.get(key, **kw(version))
                    if h.get(key, MISS, abort=True, **kw(version)) is not MISS:
                        h.relation_manager.current(key)     # builds it again, though it is there
                for tag in inherited:
                    h.get('child ' + tag, **kw(version))
                h.set(key, value(), tags, timeout, **kw(version))
            else:
                def callback():
                    for tag in inherited:
                        h.get('child ' + tag, **kw(version))
                    return value()
                h.get_or_set_callback(key, callback, tags, timeout, **kw(version))
            rec = recs[key, version] = Rec()
            rec.own, rec.inherited = set(own), set(inherited)
            rec.deadline = CLOCK.peek() + (300 if timeout is None else timeout)
            rec.what = 'tags %s, inherited %s, timeout %s' % (sorted(own), sorted(inherited), timeout)
            t('%s %s version %s: %s', style, key, version, rec.what)
            stats.obs['equal values stored'] += 1
        elif op == 'invalidate':
            tag = rng.choice(OWN + INHERITED)
            t('invalidate %s version %s', tag, version)
            h.invalidate_tags(tag, **kw(version))
            ended.setdefault(version, set()).add(tag) if in_txn else None
            for (k, v), rec in recs.items():
                if v == version and not rec.dead:
                    rec.dead = 'stale-own' if tag in rec.own else 'stale-inherited' if tag in rec.inherited else None
        elif op == 'advance':
            dt = rng.choice([1, 3, 7, 60, 400])
            if in_txn and dt > 3:
                continue
            t('%s seconds pass', dt)
            CLOCK.advance(dt)
        elif op == 'delete':
            t('delete %s', key)
            h.delete(key, **kw(version))
            recs.pop((key, version), None)
        elif op == 'txn':
            if in_txn:
                t('end of the transaction')
                h.transaction.finish()
                for (k, v), rec in recs.items():
                    tags = ended.get(v, set())
                    if alias != 'ru0' and not rec.dead:
                        rec.dead = 'stale-own' if tags & rec.own else 'stale-inherited' if tags & rec.inherited else None
                if alias in ('rr0', 'sr0'):
                    CLOCK.advance(7)
            else:
                t('begin')
                h.transaction.begin()
                ended = {}
            in_txn = not in_txn
        else:
            how = rng.choice(['get', 'bulk'])
            if how == 'get':
                got = h.get(key, MISS, abort=True, **kw(version))
            else:
                got = h.get_many(keys, abort=True, **kw(version)).get(key, MISS)
            judge(key, version, got, how)
    if in_txn:
        h.transaction.finish()
        h.close()
    else:
        for key in keys:
            for version in versions:
                judge(key, version, h.get(key, MISS, abort=True, **kw(version)), 'get')
    h.close()
    stats.sig('equal', t.lines)


def toggled(rng, stats, kinds):
    """Tracking is turned off and on again while builds are open; only what is read with it on is inherited."""
    alias = rng.choice(['default', 'rc0', 'ru0', 'rr0', 'v7'])
    h = fresh(alias)
    t = Tracer()
    t('cache %s', alias)
    proxy = alias == 'default' and rng.random() < 0.4
    children = ['c%d' % i for i in range(6)]
    for c in children:
        h.set(c, c, ['tag ' + c], 100000)
    depth = rng.randint(1, 3)
    outers = ['outer%d' % i for i in range(depth)]
    inherited = {}
    open_, todo = [], list(outers)

    def turn(flag):
        t('ignore_descendants = %s', flag)
        setattr(dcd.cache if proxy else h, 'ignore_descendants', flag)

    def read():
        some = rng.sample(children, rng.choice([1, 1, 2, 3]))
        on = not h.ignore_descendants
        how = rng.choice(['get', 'bulk', 'compute'])
        t('%s of %s', how, some)
        if how == 'get':
            for c in some:
                h.get(c)
        elif how == 'bulk':
            h.get_many(some)
        else:
            for c in some:
                h.get_or_set_callback(c, lambda: 'not called', ['tag ' + c])
        if on:
            for o in open_:
                inherited[o].update('tag ' + c for c in some)
        else:
            stats.obs['reads with tracking off in an open build'] += 1

    while todo or open_:
        op = rng.choice(['open', 'read', 'read', 'toggle', 'toggle', 'store'])
        if op == 'open' and todo:
            if not h.ignore_descendants:
                o = todo.pop(0)
                t('build %s', o)
                h.get(o)
                open_.append(o)
                inherited[o] = set()
        elif op == 'read' and open_:
            read()
        elif op == 'toggle' and open_:
            turn(not h.ignore_descendants)
        elif op == 'store' and open_ and not h.ignore_descendants:
            o = open_.pop()
            t('store %s', o)
            h.set(o, o, ['own ' + o])
            for p in open_:
                inherited[p].add('own ' + o)
                inherited[p] |= inherited[o]
    turn(False)
    alive = set(outers)
    for tag in rng.sample(['tag ' + c for c in children], len(children)):
        h.invalidate_tags(tag)
        for o in sorted(alive):
            served = h.get(o, MISS, abort=True) is not MISS
            stats.evaluations += 1
            if tag in inherited[o]:
                alive.discard(o)
                stats.obs['toggled inherited'] += 1
                if served and 'stale-inherited' in kinds:
                    t.fail('stale-inherited', '%s was built from a record of %s, read with tracking on, but survives it', o, tag)
            elif not served:
                if 'lost-foreign' in kinds:
                    t.fail('lost-foreign', '%s has gone with %s, which it was not built from (with tracking on)', o, tag)
                alive.discard(o)
    h.close()
    stats.sig('toggled', t.lines)
