"""Concurrent programs on the scheduler, an event log, and its offline checker."""
from core import Violation, short
from env import CLOCK
from kit import MISS, dcd, deps, fresh, pads, store
from sched import Sched


DEFAULT = 1


def norm(ver):
    return DEFAULT if ver is None else ver


class Ev(object):
    __slots__ = ('thread', 'kind', 'key', 'ver', 'tags', 'value', 'start', 'end', 'hits', 'in_txn', 'until')

    def __init__(self, thread, kind, key=None, ver=None, tags=(), value=None):
        self.thread = thread
        self.kind = kind
        self.key = key
        self.ver = norm(ver)
        self.tags = frozenset(tags)
        self.value = value
        self.start = self.end = None
        self.hits = ()
        self.in_txn = False     # invalidation inside of a transaction
        self.until = None       # and the end of that transaction

    def __repr__(self):
        return '%s..%s [%s] %s %s%s%s%s' % (
            self.start, self.end if self.end is not None else '-', self.thread, self.kind, self.key if self.key is not None else '',
            '' if self.ver == DEFAULT else ' version=%s' % self.ver,
            ' tags=%s' % sorted(self.tags) if self.tags else '',
            ' -> %s' % (self.value,) if self.value is not None else '')


class History(object):
    def __init__(self):
        self.n = 0
        self.events = []

    def tick(self):
        self.n += 1
        return self.n

    def do(self, ev, fn):
        ev.start = self.tick()
        self.events.append(ev)
        r = fn()
        ev.end = self.tick()
        return r


class Abort(Exception):
    """Raised by the application code of a program."""


class Actor(object):
    """One thread's program; all calls are logged with the moments of call and return."""

    def __init__(self, world, name, rng):
        self.w = world
        self.h = world.hist
        self.name = name
        self.rng = rng
        self.frames = []        # (key, ver, set of values hit)
        self.txns = []          # sets of (ver, tag)
        self.invs = []          # invalidations of the open outermost transaction
        self.n = 0

    @property
    def c(self):
        return dcd.caches[self.w.alias]

    def point(self):
        if self.w.sched is not None:
            self.w.sched.point()

    def kw(self, ver):
        return {} if ver is None else {'version': ver}

    def hit(self, ver, value):
        for f in self.frames:
            f[2].add((norm(ver), value))

    def get(self, key, ver=None, abort=False):
        ev = Ev(self.name, 'get', key, ver)
        v = self.h.do(ev, lambda: self.c.get(key, MISS, abort=abort, **self.kw(ver)))
        if v is not MISS:
            ev.value = v
            if not abort:
                self.hit(ver, v)
            return v
        if not abort:
            self.frames.append((key, ver, set()))
        return None

    def get_many(self, keys, ver=None):
        start = self.h.tick()
        got = self.c.get_many(list(keys), **self.kw(ver))
        end = self.h.tick()
        for k in keys:
            ev = Ev(self.name, 'get', k, ver, value=got.get(k))
            ev.start, ev.end = start, end
            self.h.events.append(ev)
            if k in got:
                self.hit(ver, got[k])
        return got

    def abort(self, key):
        self.c.abort(key)
        if self.frames and self.frames[-1][0] == key:
            self.frames.pop()

    def set(self, key, tags, ver=None, opened=False, value=None):
        self.n += 1
        if value is None:
            value = '%s%d' % (self.name, self.n)
        ev = Ev(self.name, 'set', key, ver, tags, value)
        if opened:
            f = self.frames.pop()
            assert f[0] == key
            ev.hits = frozenset(f[2])
        self.w.stores[(norm(ver), value)] = ev
        self.h.do(ev, lambda: self.c.set(key, value, self.w.pads[0] + tuple(tags), **self.kw(ver)))
        self.hit(ver, value)
        return value

    def compute(self, key, tags, body, ver=None):
        """get_or_set_callback: logged as a read and, if the callback was called, a store."""
        called = []
        rd = Ev(self.name, 'get', key, ver)
        st = Ev(self.name, 'set', key, ver, tags)
        rd.start = self.h.tick()
        self.h.events.append(rd)

        def callback():
            rd.end = self.h.tick()
            called.append(1)
            self.frames.append((key, ver, set()))
            body()
            self.n += 1
            st.value = '%s%d' % (self.name, self.n)
            st.hits = frozenset(self.frames.pop()[2])
            self.w.stores[(norm(ver), st.value)] = st
            st.start = self.h.tick()
            self.h.events.append(st)
            return st.value
        try:
            v = self.c.get_or_set_callback(key, callback, self.w.pads[0] + tuple(tags), **self.kw(ver))
        except Abort:
            if self.frames and self.frames[-1][0] == key:
                self.frames.pop()
            raise
        if called:
            st.end = self.h.tick()
        else:
            rd.end = self.h.tick()
            rd.value = v
        self.hit(ver, v)
        return v

    def delete(self, key, ver=None):
        self.h.do(Ev(self.name, 'delete', key, ver), lambda: self.c.delete(key, **self.kw(ver)))

    def invalidate(self, tags, ver=None):
        ev = Ev(self.name, 'invalidate', None, ver, [(norm(ver), t) for t in tags])
        for t in self.txns:
            t |= ev.tags
        if self.txns:
            ev.in_txn = True
            self.invs.append(ev)
        self.h.do(ev, lambda: self.c.invalidate_tags(*(list(self.w.pads[1]) + list(tags)), **self.kw(ver)))

    def begin(self):
        self.c.transaction.begin()
        self.txns.append(set())

    def finish(self, how='finish'):
        """Ends the innermost (or by flush and close all) transactions."""
        outer = len(self.txns) == 1 or how != 'finish'
        ev = Ev(self.name, 'end' if outer else 'inner end', tags=self.txns[0] if outer else ())
        ev.key = how
        if outer:
            for i in self.invs:
                i.until = ev
            self.invs = []
            if self.w.sched is not None:
                self.w.sched.hot.add(self.name)
        if how == 'finish':
            self.txns.pop()
            self.h.do(ev, lambda: self.c.transaction.finish())
        else:
            del self.txns[:]
            if how == 'close':
                del self.frames[:]
                self.h.do(ev, lambda: self.c.close())
            else:
                self.h.do(ev, lambda: self.c.transaction.flush())
        if self.w.sched is not None:
            self.w.sched.hot.discard(self.name)

    # -- random programs ---------------------------------------------------

    def some(self, lo=0, hi=2):
        return self.rng.sample(self.w.tags, min(len(self.w.tags), self.rng.randint(lo, hi)))

    def run(self, steps):
        try:
            for _ in range(steps):
                self.point()
                try:
                    self.step(0)
                except Abort:
                    pass
            while self.txns:
                self.finish(self.rng.choice(['finish', 'flush']))
        finally:
            pass

    def free_keys(self):
        busy = set(f[0] for f in self.frames)
        return [k for k in self.w.keys_of(self.name) if k not in busy]

    def step(self, depth):
        rng = self.rng
        keys = self.free_keys()
        if not keys:
            return
        key = rng.choice(keys)
        ver = rng.choice(self.w.versions)
        op = rng.choices(self.w.ops, self.w.op_weights)[0]
        if op == 'build' and depth < 3:
            if self.get(key, ver) is None:
                try:
                    for _ in range(rng.randint(0, 3)):
                        self.step(depth + 1)
                except Abort:
                    self.abort(key)
                    raise
                if rng.random() < 0.1:
                    self.abort(key)
                else:
                    self.set(key, self.some(), ver, opened=True)
        elif op == 'compute' and depth < 3:
            def body():
                for _ in range(rng.randint(0, 3)):
                    self.step(depth + 1)
                if rng.random() < 0.1:
                    raise Abort()
            self.compute(key, self.some(), body, ver)
        elif op == 'read':
            if self.get(key, ver) is None:
                self.abort(key)
        elif op == 'bulk':
            self.get_many(rng.sample(keys, rng.randint(1, len(keys))), ver)
        elif op == 'set':
            self.set(key, self.some(), ver)
        elif op == 'invalidate':
            self.invalidate(self.some(1, 2), ver)
        elif op == 'delete':
            self.delete(key, ver)
        elif op == 'txn':
            self.begin()
            level = len(self.txns)
            try:
                for _ in range(rng.randint(1, 3)):
                    self.step(depth + 1)
            finally:
                if len(self.txns) >= level:
                    if level == 1 and depth == 0 and rng.random() < 0.3:
                        self.finish(rng.choice(['flush', 'close']))
                    else:
                        self.finish()
        elif op == 'point':
            self.point()


OPS = dict(build=6, compute=3, read=4, bulk=2, set=3, invalidate=3, delete=0.5, txn=1.5, point=1)


class ConcWorld(object):
    def __init__(self, rng, alias, keys=4, tags=3, threads=3, ops=OPS, versions=(None,), private=False, by_ref=False, lines=0, tick=None):
        self.rng = rng
        self.alias = alias
        self.location = alias.rstrip('b')
        fresh(self.location, by_ref=by_ref)
        fresh(alias, by_ref=by_ref, tick=tick)
        self.hist = History()
        self.stores = {}
        self.keys = ['k%d' % i for i in range(keys)]
        self.private = private
        self.tags = ['t%d' % i for i in range(tags)]
        self.pads = (), ()
        self.versions = list(versions)
        self.ops = sorted(ops)
        self.op_weights = [ops[o] for o in self.ops]
        self.sched = Sched(rng)
        self.sched.line_rate = lines
        st = store(self.location)
        st.before = lambda name, ks: self.sched.point(name)
        st.after = lambda name, ks: self.sched.point(name) if rng.random() < 0.5 else None
        self.actors = [Actor(self, 'ABCDEFG'[i], rng) for i in range(threads)]

    def keys_of(self, name):
        return [name + k for k in self.keys] if self.private else self.keys

    def go(self, steps):
        for a in self.actors:
            self.sched.add(a.name, lambda a=a: a.run(self.rng.randint(*steps)))
        try:
            self.sched.run()
        finally:
            st = store(self.location)
            st.before = st.after = None

    def final(self):
        """Everything is quiet: reads all, then invalidates every tag in turn."""
        a = Actor(self, 'Z', self.rng)
        self.sched = None
        places = sorted(set((s.ver, s.key) for s in self.stores.values()), key=repr)

        def reads():
            for ver, key in places:
                a.get(key, ver, abort=True)
        reads()
        tags = [(v, t) for v in sorted(set(map(norm, self.versions))) for t in self.tags]
        self.rng.shuffle(tags)
        for v, t in tags:
            a.invalidate([t], v)
            reads()
        a.c.close()
        return self


class Checker(object):
    """Judges a finished history."""

    def __init__(self, world, strict_levels=('rr', 'sr')):
        self.w = world
        self.events = world.hist.events
        self.stores = world.stores
        self.skipping = world.alias[:2] in strict_levels
        self.full = {}

    def fulltags(self, sk):
        """{(ver, tag)} own and inherited of a stored value, same version only."""
        if sk not in self.full:
            self.full[sk] = set()
            s = self.stores[sk]
            out = set((s.ver, t) for t in s.tags)
            for h in s.hits:
                if h in self.stores and h[0] == s.ver:
                    out |= self.fulltags(h)
            self.full[sk] = out
        return self.full[sk]

    def check(self, report, stats):
        INF = float('inf')
        invs, ends, stores, deletes = [], [], {}, {}
        for e in self.events:
            if e.end is None:
                e.end = INF
            if e.kind == 'invalidate':
                invs.append(e)
            elif e.kind == 'end':
                ends.append(e)
            elif e.kind == 'set':
                stores.setdefault((e.ver, e.key), []).append(e)
            elif e.kind == 'delete':
                deletes.setdefault((e.ver, e.key), []).append(e)
        allstores = [s for ss in stores.values() for s in ss]

        def fail(kind, text, *evs):
            stats.obs['mismatch:' + kind] += 1
            if kind in report:
                raise Violation(kind, text, ['cache %s, schedule %s' % (self.w.alias, ''.join(self.w.schedule))] +
                                [repr(e) for e in sorted(self.events, key=lambda e: e.start)][:150] +
                                ['concerned: %r' % (e,) for e in evs])
        for r in self.events:
            if r.kind != 'get':
                continue
            mine = stores.get((r.ver, r.key), [])
            if r.value is not None:
                stats.obs['reads judged hit'] += 1
                s = self.stores.get((r.ver, r.value))
                if s is None or s.key != r.key or s.start > r.end:
                    fail('wrong-value', 'read of %s returned %s which was never stored there' % (r.key, r.value), r)
                    continue
                full = self.fulltags((r.ver, r.value))
                own = set((s.ver, t) for t in s.tags)
                for i in invs:
                    if s.end < i.start and i.end < r.start and i.tags & full:
                        fail('stale-own' if i.tags & own else 'stale-inherited',
                             'read of %s returned %s after the invalidation of its tags %s' % (r.key, r.value, sorted(i.tags & full)),
                             s, i, r)
                for i in ends:
                    if self.w.alias[:2] != 'ru' and s.end < i.start and i.end < r.start and i.tags & full:
                        fail('stale-end', 'read of %s returned %s stored before the end of a transaction that invalidated '
                             'its tags %s' % (r.key, r.value, sorted(i.tags & full)), s, i, r)
                if not self.skipping:
                    for s2 in mine:
                        if s2 is not s and s.end < s2.start and s2.end < r.start:
                            fail('overwritten', 'read of %s returned %s, overwritten by %s' % (r.key, r.value, s2.value), s, s2, r)
                for d in deletes.get((r.ver, r.key), ()):
                    if s.end < d.start and d.end < r.start:
                        fail('deleted', 'read of %s returned %s, deleted' % (r.key, r.value), s, d, r)
                if self.skipping:
                    for i in invs:
                        if i.in_txn and i.thread != s.thread and i.tags & full and i.end < s.start and \
                                (i.until is None or i.until.start > s.end):
                            if any(j is not i and j.thread != i.thread and j.in_txn and j.tags & i.tags & full and
                                   j.start < s.end for j in invs):
                                continue
                            fail('stored-locked', '%s was stored by %s under %s while locked by %s' % (
                                s.value, s.thread, sorted(i.tags & full), i.thread), s, i, r)
            else:
                # a miss: is there a store that must be visible?
                for s in mine:
                    if not s.end < r.start:
                        continue
                    if any(s2 is not s and s2.end > s.start for s2 in mine):
                        continue
                    if any(d.end > s.start and d.start < r.end for d in deletes.get((r.ver, r.key), ())):
                        continue
                    full = self.fulltags((s.ver, s.value))
                    if any(i.end > s.start and i.start < r.end and i.tags & full for i in invs):
                        continue
                    if any(i.end > s.start and i.start < r.end and i.tags & full for i in ends):
                        continue
                    if any(s2 is not s and s2.start < s.end and s2.end > s.start and
                           (self.w.pads[0] or self.fulltags((s2.ver, s2.value)) & full) for s2 in allstores):
                        continue
                    if self.skipping and any(i.in_txn and i.thread != s.thread and i.tags & full and i.start < r.end for i in invs):
                        continue
                    stats.obs['judged lost'] += 1
                    fail('lost', 'read of %s missed %s although none of its tags %s was invalidated' % (r.key, s.value, sorted(full)), s, r)
                stats.obs['reads judged miss'] += 1


def run_random(rng, stats, report, aliases, **opts):
    """One case: a random concurrent program, the final sweep, and the checker."""
    alias = rng.choice(aliases)
    w = ConcWorld(rng, alias, keys=rng.randint(2, 4), tags=rng.randint(1, 4), threads=rng.choice([2, 2, 3, 3, 4]),
                  by_ref=rng.random() < 0.2, **opts)
    w.pads = pads(rng, stats, 0.04)
    w.go((3, 8))
    w.schedule = w.sched.switches
    stats.obs['steps'] += w.sched.steps
    stats.obs['switches'] += len(w.schedule)
    if w.sched.lines:
        stats.obs['switch points inside library lines'] += w.sched.lines
    if w.sched.stolen:
        stats.obs['stolen baton'] += w.sched.stolen
    policy = w.sched.policy
    stats.obs['policy ' + policy] += 1
    w.final()
    stats.evaluations += 1
    stats.sig('conc', alias, ''.join(w.schedule), [repr(e) for e in w.hist.events])
    stats.sample('\n'.join([alias + ' ' + ''.join(w.schedule)] + [repr(e) for e in w.hist.events[:25]]), limit=2)
    Checker(w).check(report, stats)
