import random

import django_cache_dependencies as dcd
from checks.base import BaseCheck
from conc import Actor, Checker, ConcWorld, OPS, Abort
from core import Crew
from env import CLOCK
from kit import MISS, Tracer, deps, depth, fresh, present, norm
from monbackend import FAULTS, injected, store


class Plan(object):
    """Decides at every backend operation whether it fails, half fails, or loses data."""

    def __init__(self, rng, mode, st, stats, at=None, kind=None):
        self.rng = rng
        self.mode = mode
        self.st = st
        self.stats = stats
        self.at = at
        self.kind = kind
        self.n = 0
        self.left = rng.choice([1, 1, 2, 3, 5]) if mode in ('end', 'invalidation', 'store') else 40
        self.on = mode != 'none'
        self.target = None           # what the program is doing
        self.pending = None          # fault to be raised by the after or step hook
        self.log = []
        self.until = rng.randint(1, 12)
        st.before, st.after, st.step = self.before, self.after, self.step

    KINDS = ['before', 'after', 'partial', 'evict all', 'evict bookkeeping', 'evict locks', 'evict records', 'evict some']

    def choose(self):
        if not self.on or self.left <= 0:
            return None
        if self.mode == 'point':
            return self.kind if self.n == self.at else None
        if self.mode == 'outage':
            return 'before' if self.at <= self.n < self.at + self.until else None
        if self.mode == 'flaky':
            return self.rng.choice(self.KINDS) if self.rng.random() < 0.12 else None
        if self.mode == 'evictions':
            return self.rng.choice(self.KINDS[3:]) if self.rng.random() < 0.3 else None
        if self.mode == self.target:
            return self.rng.choice(self.KINDS[:3]) if self.rng.random() < 0.5 else None

    def fault(self, where, name):
        self.stats.obs['fault %s %s' % (where, name)] += 1
        self.log.append('%s %s' % (where, name))
        raise injected(self.rng, '%s %s' % (where, name))

    def before(self, name, keys):
        self.n += 1
        kind = self.choose()
        self.pending = None
        if kind is None:
            return
        self.left -= 1
        if kind.startswith('evict'):
            self.evict(kind[6:])
        elif kind == 'before' or (kind == 'partial' and name not in ('set_many', 'delete_many')):
            self.fault('before', name)
        else:
            self.pending = kind

    def step(self, name, key):
        if self.pending == 'partial' and self.rng.random() < 0.5:
            self.pending = None
            self.fault('inside', name)

    def after(self, name, keys):
        if self.pending is not None:
            self.pending = None
            self.fault('after', name)

    def evict(self, what):
        raw = sorted(self.st.data)
        pick = {'all': lambda k: True, 'bookkeeping': lambda k: 'tag_' in k, 'locks': lambda k: 'acquired' in k or 'released' in k,
                'records': lambda k: 'tag_' not in k, 'some': lambda k: self.rng.random() < 0.3}[what]
        gone = [k for k in raw if pick(k)]
        for k in gone:
            del self.st.data[k]
        self.stats.obs['evicted'] += len(gone)
        if gone:
            self.log.append('evicted ' + what)


class Rec(object):
    __slots__ = ('key', 'ver', 'must', 'seq')


class Unhandled(Exception):
    """The application lets the failure of the backend through."""


class Faulty(object):
    """A sequential program of several sessions; the reference knows what has been acknowledged."""
    TAGS = ['a', 'b', 'c', 'd']

    def __init__(self, seed, alias, stats, make_plan):
        self.rng = random.Random(seed)
        self.stats = stats
        self.alias = alias
        fresh(alias, by_ref=self.rng.random() < 0.2)
        self.st = store(alias)
        self.crew = Crew()
        self.threads = ['M', 'T1', 'T2'][:self.rng.randint(1, 3)]
        self.t = Tracer()
        self.recs = {}          # value -> Rec
        self.inv = {}           # (ver, tag) -> moment of the last acknowledged invalidation
        self.seq = 0
        self.n = 0
        self.frames = dict((x, []) for x in self.threads)
        self.txn = dict((x, None) for x in self.threads)       # {'depth', 'tags'}
        self.keys = ['k%d' % i for i in range(5)]
        self.budget = self.rng.randint(8, 22)
        self.who = 'M'
        self.make_plan = make_plan
        self.plan = None
        self.faults = 0

    # -- plumbing ----------------------------------------------------------

    @property
    def h(self):
        return dcd.caches[self.alias]

    def bump(self):
        self.seq += 1
        return self.seq

    def attempt(self, target, what, fn):
        """(True, result) or (False, None) if the backend failed."""
        self.plan.target = target
        before = len(self.plan.log)
        try:
            r = self.crew.call(self.who, fn)
            ok = True
        except FAULTS:
            r, ok = None, False
            self.faults += 1
        finally:
            self.plan.target = None
        self.t('[%s] %s%s%s', self.who, what, '' if ok else ' FAILED', ' (%s)' % ', '.join(self.plan.log[before:]) if self.plan.log[before:] else '')
        return ok, r

    def kw(self, ver):
        return {} if ver is None else {'version': ver}

    def contribute(self, ver, tags):
        for f in self.frames[self.who]:
            f[1].setdefault(ver, set()).update(tags)

    def pop(self, key):
        fs = self.frames[self.who]
        for i in range(len(fs) - 1, -1, -1):
            if fs[i][0] == key:
                return fs.pop(i)[1]
        return {}

    def judge(self, key, ver, value, how):
        r = self.recs.get(value)
        self.stats.obs['reads judged'] += 1
        if r is None or r.key != key or r.ver != ver:
            self.t.fail('wrong value', '%s of %s (version %s) returned %s', how, key, ver, value)
        for tag in sorted(r.must):
            if self.inv.get((ver, tag), -1) > r.seq:
                self.t.fail('stale', '%s of %s (version %s) returned %s after the invalidation of %s', how, key, ver, value, tag)
        return r

    # -- operations -----------------------------------------------------------

    def ver(self):
        return self.rng.choice([None, None, None, 2])

    def some(self, lo=0, hi=2):
        return self.rng.sample(self.TAGS, self.rng.randint(lo, hi))

    def read(self, key, ver, abort=False):
        ok, v = self.attempt('read', 'get(%s, %s)' % (key, ver), lambda: self.h.get(key, MISS, abort=abort, **self.kw(ver)))
        if not ok:
            if self.rng.random() < 0.5:
                self.attempt('abort', 'abort(%s)' % key, lambda: self.h.abort(key))
                self.pop(key)
            self.maybe_raise()
            return None
        if v is MISS:
            return False
        r = self.judge(key, norm(ver), v, 'get')
        self.pop(key)
        if not abort:
            self.contribute(norm(ver), r.must)
        return True

    def store(self, key, ver, tags):
        self.n += 1
        value = 'v%d' % self.n
        f = self.pop(key)
        form = self.rng.choice([tuple, set, lambda x: deps.TagsDependency(*x)])
        timeout = self.rng.choice([None, 600])
        arg = form(tags)
        ok, _ = self.attempt('store', 'set(%s, %s, %s, version=%s) inheriting %s' % (key, value, sorted(tags), ver, sorted(f.get(norm(ver), ()))),
                             lambda: self.h.set(key, value, arg, timeout, **self.kw(ver)))
        self.register(value, key, ver, tags, f)
        if ok:
            self.contribute(norm(ver), tags)
        else:
            self.maybe_raise()

    def register(self, value, key, ver, tags, f):
        r = Rec()
        r.key, r.ver, r.must, r.seq = key, norm(ver), set(tags) | f.get(norm(ver), set()), self.bump()
        self.recs[value] = r

    def maybe_raise(self):
        if self.rng.random() < 0.25:
            raise Unhandled()

    def free(self):
        busy = set(f[0] for f in self.frames[self.who])
        ks = [k for k in self.keys if k not in busy]
        return self.rng.choice(ks) if ks else None

    def steps(self, level):
        for _ in range(self.rng.randint(0, 3)):
            if self.budget <= 0:
                return
            self.budget -= 1
            self.step(level)

    def step(self, level):
        rng = self.rng
        op = rng.choice(['store', 'store', 'read', 'bulk', 'build', 'build', 'compute', 'invalidate', 'invalidate', 'txn', 'txn', 'delete', 'hop'])
        key, ver = self.free(), self.ver()
        if op == 'hop' and level == 0:
            self.who = rng.choice(self.threads)
            return
        if key is None:
            return
        if op == 'store':
            self.store(key, ver, self.some())
        elif op == 'read':
            if self.read(key, ver) is False and rng.random() < 0.6:         # or forgotten
                self.attempt('abort', 'abort(%s)' % key, lambda: self.h.abort(key))
        elif op == 'bulk':
            keys = rng.sample(self.keys, 3)
            keys = [k for k in keys if k not in set(f[0] for f in self.frames[self.who])]
            ok, got = self.attempt('read', 'get_many(%s, %s)' % (keys, ver), lambda: self.h.get_many(keys, **self.kw(ver)))
            for k in sorted(got or ()):
                r = self.judge(k, norm(ver), got[k], 'get_many')
                self.contribute(norm(ver), r.must)
        elif op == 'build' and level < 3:
            if self.read(key, ver) is False:
                self.frames[self.who].append((key, {}))
                try:
                    self.steps(level + 1)
                except Unhandled:
                    if rng.random() < 0.7:
                        self.attempt('abort', 'abort(%s)' % key, lambda: self.h.abort(key))
                        self.pop(key)
                    raise
                self.store(key, ver, self.some())
        elif op == 'compute' and level < 3:
            self.compute(key, ver, self.some(), level)
        elif op == 'invalidate':
            self.invalidate(self.some(1, 2), ver)
        elif op == 'txn' and level < 3:
            self.transaction(level)
        elif op == 'delete':
            self.attempt('delete', 'delete(%s)' % key, lambda: self.h.delete(key, **self.kw(ver)))

    def compute(self, key, ver, tags, level):
        box = []
        who = self.who

        def callback():
            self.frames[who].append((key, {}))
            self.steps(level + 1)
            self.n += 1
            box.append('v%d' % self.n)
            box.append(self.pop(key))
            return box[0]
        self.plan.target = 'store'
        before = len(self.plan.log)
        try:
            v = self.crew.call(self.who, lambda: self.h.get_or_set_callback(key, callback, tuple(tags), **self.kw(ver)))
            ok = True
        except FAULTS:
            ok = False
            self.faults += 1
        except Unhandled:
            self.pop(key)
            raise
        finally:
            self.who = who
            self.plan.target = None
        self.t('[%s] get_or_set_callback(%s, %s, version=%s)%s%s %s', self.who, key, sorted(tags), ver, ' -> %s' % v if ok else ' FAILED',
               ' stored' if box else '', ', '.join(self.plan.log[before:]))
        if box:
            self.register(box[0], key, ver, tags, box[1])
            if ok:
                self.contribute(norm(ver), tags)
        elif ok:
            r = self.judge(key, norm(ver), v, 'get_or_set_callback')
            self.contribute(norm(ver), r.must)
        if not ok:
            self.maybe_raise()

    def invalidate(self, tags, ver):
        at = self.bump()
        ok, _ = self.attempt('invalidation', 'invalidate_tags(%s, version=%s)' % (sorted(tags), ver),
                             lambda: self.h.invalidate_tags(*tags, **self.kw(ver)))
        if ok:
            at = self.bump()
            for x in tags:
                self.inv[(norm(ver), x)] = at
            if self.txn[self.who]:
                self.txn[self.who]['tags'].update((norm(ver), x) for x in tags)
        else:
            self.maybe_raise()

    def transaction(self, level):
        rng = self.rng
        how = rng.choice(['finish', 'finish', 'with', 'flush'])
        who = self.who
        self.crew.call(who, lambda: self.h.transaction.begin())
        t = self.txn[who]
        if t is None:
            t = self.txn[who] = dict(depth=0, tags=set())
        t['depth'] += 1
        mine = t['depth']
        self.t('[%s] begin (%s)', who, mine)
        try:
            self.steps(level + 1)
        except Unhandled:
            self.who = who
            self.end(how, mine)
            raise
        self.who = who
        self.end(how, mine)

    def end(self, how, mine):
        """Ends this transaction; a failed end is tried again now, later, or by the recovery."""
        who = self.who
        t = self.txn[who]
        if t is None or t['depth'] != mine:
            return                        # already ended by a flush
        tries = self.rng.choice([0, 1, 2, 5])
        while True:
            outer = t['depth'] == 1 or how in ('flush', 'close')
            fn = {'finish': lambda: self.h.transaction.finish(), 'with': lambda: self.h.transaction.__exit__(None, None, None),
                  'flush': lambda: self.h.transaction.flush(), 'close': lambda: self.h.close()}[how]
            ok, _ = self.attempt('end', '%s %s (%s)' % ('outer' if outer else 'inner', how, t['depth']), fn)
            if how == 'close':                # discards builds even if it fails to end the transactions
                self.frames[who] = []
            if ok:
                self.ended(how, outer)
                return
            self.stats.obs['failed ends'] += 1
            t['depth'] = max(1, self.crew.call(who, lambda: depth(self.h)))
            if tries <= 0:
                return
            tries -= 1
            how = self.rng.choice(['finish', 'flush', 'close'])

    def ended(self, how, outer):
        t = self.txn[self.who]
        if how == 'close':
            self.frames[self.who] = []
        if not outer:
            t['depth'] -= 1
            return
        self.txn[self.who] = None
        at = self.bump()
        if self.alias[:2] != 'ru':
            for x in t['tags']:
                self.inv[x] = at
        self.stats.obs['ends completed'] += 1

    # -- the whole ---------------------------------------------------------------

    def run(self):
        try:
            self.plan = self.make_plan(self.st)
            while self.budget > 0:
                self.budget -= 1
                self.who = self.rng.choice(self.threads)
                try:
                    self.step(0)
                except Unhandled:
                    pass
            self.plan.on = False                      # the backend works again
            self.t('the backend works again')
            self.recover()
            self.st.before = self.st.after = self.st.step = None
            self.clean()
        finally:
            self.st.before = self.st.after = self.st.step = None
            for who in self.threads:
                self.crew.call(who, lambda: self.h.close())
            self.crew.close()
        return self.plan.n

    def recover(self):
        for who in self.threads:
            self.who = who
            how = self.rng.choice(['flush', 'close', 'close'])
            if self.txn[who]:
                self.stats.obs['recovered with open transaction'] += 1
                self.attempt('recovery', how, {'flush': lambda: self.h.transaction.flush(), 'close': lambda: self.h.close()}[how])
                self.ended(how, True)
            d = self.crew.call(who, lambda: depth(self.h))
            if d:
                self.t.fail('recovery', 'after %s the session is still %s transactions deep', how, d)
            if how != 'close':
                self.attempt('recovery', 'close', lambda: self.h.close())
            else:
                self.attempt('recovery', 'close', lambda: self.h.close())
            self.frames[who] = []
        self.read_all()

    def read_all(self):
        for who in self.threads:
            self.who = who
            for key in self.keys:
                for ver in (None, 2):
                    v = self.crew.call(who, lambda: self.h.get(key, MISS, abort=True, **self.kw(ver)))
                    if v is not MISS:
                        self.judge(key, norm(ver), v, 'final get')

    def clean(self):
        """The next builds and transactions of every session start clean."""
        t = self.t
        CLOCK.advance(30)
        for who in self.threads:
            def go():
                h = self.h
                for ver in (None, 2):
                    p = self.rng.choice(self.keys)
                    kw = self.kw(ver)
                    h.delete(p, **kw)
                    if h.get(p, MISS, **kw) is not MISS:
                        return
                    h.set('child' + who, 1, ('child tag',), **kw)
                    h.set(p, 1, ('probe tag',), **kw)
                    if not present(h, p, ver):
                        t.fail('not clean', 'after the recovery a record of session %s is not stored', who)
                    h.invalidate_tags(*self.TAGS, **kw)
                    if not present(h, p, ver):
                        t.fail('not clean', 'after the recovery a build of session %s inherits tags of earlier ones', who)
                    for x in self.TAGS:
                        h.set('fresh' + x, 1, (x,), **kw)
                    h.invalidate_tags('child tag', **kw)
                    if present(h, p, ver):
                        t.fail('not clean', 'after the recovery a build of session %s does not inherit', who)
                h.transaction.begin()
                h.transaction.finish()
                for ver in (None, 2):
                    for x in self.TAGS:
                        if not present(h, 'fresh' + x, ver):
                            t.fail('not clean', 'the next transaction of session %s completed an invalidation of %s of an earlier one', who, x)
                self.stats.obs['sessions found clean'] += 1
            self.crew.call(who, go)
            CLOCK.advance(30)


def faults(rng, stats):
    alias = rng.choice(['rc0', 'rc0', 'rr0', 'rr0', 'sr0', 'ru0', 'default'])
    seed = rng.random()

    def once(mode, **kw):
        p = Faulty(seed, alias, stats, lambda st: Plan(random.Random(rng.random()), mode, st, stats, **kw))
        p.t('cache %s, faults: %s %s', alias, mode, sorted(kw.items()))
        n = p.run()
        stats.evaluations += 1
        if p.plan.log:
            stats.sig(alias, p.t.lines)
            stats.sample('\n'.join(p.t.lines[:40]), limit=1)
        return n
    n = once('none')
    for _ in range(4):
        once('point', at=rng.randint(1, max(1, n)), kind=rng.choice(Plan.KINDS))
    for mode in rng.sample(['outage', 'flaky', 'evictions', 'end', 'end', 'end', 'invalidation', 'store'], 3):
        once(mode, at=rng.randint(1, max(1, n)))


class FaultActor(Actor):
    """Whatever fails, the session closes its handle, as often as it takes, and goes on."""

    def run(self, steps):
        for _ in range(steps):
            self.point()
            try:
                self.step(0)
            except Abort:
                pass
            except FAULTS:
                self.w.failures += 1
                self.recover()
        self.recover()

    def recover(self):
        del self.frames[:]
        ev = None
        pending = set().union(*self.txns)
        del self.txns[:]
        while True:
            try:
                if pending:
                    from conc import Ev
                    ev = Ev(self.name, 'end', tags=pending)
                    ev.key = 'recovery'
                    self.h.do(ev, lambda: self.c.close())
                else:
                    self.c.close()
                return
            except FAULTS:
                self.w.failures += 1

    def invalidate(self, tags, ver=None):
        from conc import Ev, norm
        ev = Ev(self.name, 'invalidate', None, ver, [(norm(ver), t) for t in tags])
        ev.in_txn = bool(self.txns)
        self.h.do(ev, lambda: self.c.invalidate_tags(*tags, **self.kw(ver)))
        for t in self.txns:                  # acknowledged
            t |= ev.tags

    def finish(self, how='finish'):
        """A failed end leaves the transactions open: recover() ends them."""
        from conc import Ev
        outer = len(self.txns) == 1 or how != 'finish'
        ev = Ev(self.name, 'end' if outer else 'inner end', tags=self.txns[0] if outer else ())
        ev.key = how
        c = self.c
        self.h.do(ev, {'finish': lambda: c.transaction.finish(), 'flush': lambda: c.transaction.flush(), 'close': lambda: c.close()}[how])
        if how == 'finish':
            self.txns.pop()
        else:
            del self.txns[:]
            if how == 'close':
                del self.frames[:]


def concurrent(rng, stats):
    alias = rng.choice(['rc0', 'rc0', 'rr0', 'sr0', 'ru0'])
    w = ConcWorld(rng, alias, keys=rng.randint(2, 4), tags=rng.randint(1, 3), threads=rng.choice([2, 2, 3]), ops=dict(OPS, txn=4, invalidate=5))
    w.failures = 0
    w.actors = [FaultActor(w, a.name, rng) for a in w.actors]
    st = store(alias)
    sched, rate = w.sched, rng.choice([0.02, 0.06, 0.15])

    def before(name, ks):
        sched.point(name)
        if rng.random() < rate:
            stats.obs['fault before ' + name] += 1
            raise injected(rng, name)

    def after(name, ks):
        if rng.random() < rate:
            stats.obs['fault after ' + name] += 1
            raise injected(rng, name)
        sched.point(name)

    def step(name, key):
        if rng.random() < rate:
            stats.obs['fault inside ' + name] += 1
            raise injected(rng, name)
    st.before, st.after, st.step = before, after, step
    try:
        w.go((3, 8))
    finally:
        st.before = st.after = st.step = None
    w.schedule = w.sched.switches
    w.final()
    stats.evaluations += 1
    stats.obs['concurrent failures'] += w.failures
    stats.sig('conc', alias, ''.join(w.schedule), [repr(e) for e in w.hist.events])
    Checker(w).check(('stale-own', 'stale-inherited', 'stale-end', 'wrong-value'), stats)


class Check(BaseCheck):
    prop = 'R01'
    quick = 720
    thorough = 16000
    technique = ('runtime monitoring with fault injection: backend failures before, inside and after every kind of operation, outages and '
                 'evictions enumerated over the operations of random programs, judged by a reference of what was acknowledged; and '
                 'concurrent programs with failures, event logs checked offline')
    rule = ('case = a random program of 1-3 sessions (stores, builds, bulk reads, invalidations, nested transactions) run once without '
            'faults, to count its backend operations, then with four single faults at random operations and three fault patterns; or a '
            'concurrent program with failing operations; afterwards the backend works, everything is flushed or closed, all records are '
            'read, and fresh builds and transactions are probed; non-trivial = distinct trace with at least one fault')
    level_note = 'faults at random operations, of three kinds, and five kinds of eviction; not exhaustive'

    def required(self, tier):
        return {'failed ends': 100, 'recovered with open transaction': 20, 'evicted': 2000, 'reads judged': 10000,
                'sessions found clean': 3000, 'concurrent failures': 100, 'fault inside set_many': 50, 'fault inside delete_many': 50,
                'fault before delete_many': 100, 'fault after set': 50, 'ends completed': 500}

    def run_case(self, rng, idx, tier, stats):
        if idx % 4 == 3:
            concurrent(rng, stats)
        else:
            faults(rng, stats)
