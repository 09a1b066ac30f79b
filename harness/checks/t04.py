import env
from checks.base import BaseCheck
from checks.t02 import Scenario, probe
from core import Crew, StopCase
from env import CLOCK, TIMER_ERRORS
from kit import MISS, Tracer, dcd, deps, fresh, pads, norm


class Delayed(object):
    """READ UNCOMMITTED and READ COMMITTED: everything stored is followed until the end."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['ru3', 'ru3', 'rc3', 'rc3', 'rc3', 'ru0', 'rc0', 'rc40', 'ru40', 'rc1.5005', 'ru1.5005', 'rc0.5005', 'ru0.5005'])
        self.rc = self.alias[:2] == 'rc'
        self.delay = float(self.alias[2:])
        fresh(self.alias, by_ref=rng.random() < 0.3)
        self.crew = Crew()
        self.t = Tracer()
        self.tags = ['t%d' % i for i in range(4)]
        self.versions = rng.choice([[None, None, 1, 2], [None, 0, 1], [None] + list(range(7))])
        self.sessions = ['M', 'A', 'B']
        self.pads = pads(rng, stats)
        self.txn = {}            # session -> [depth, set of (ver, tag)]
        self.recs = {}           # key -> [ver, full, alive]
        self.pending = []        # (moment, set of (ver, tag))
        self.n = 0
        del TIMER_ERRORS[:]

    def on(self, who, fn):
        return self.crew.call(None if who == 'M' else who, fn)

    def h(self):
        return dcd.caches[self.alias]

    def kill(self, full, why):
        for key, r in self.recs.items():
            if r[1] & full and r[2] == 'alive':
                r[2] = why

    def check(self):
        reader = self.rng.choice(self.sessions)
        by = {}
        for key, r in sorted(self.recs.items()):
            by.setdefault(r[0], []).append(key)
        for ver, keys in by.items():
            if self.rng.random() < 0.5:
                got = self.on(reader, lambda: self.h().get_many(keys, version=ver, abort=True))
            else:
                got = {}
                for k in keys:
                    v = self.on(reader, lambda: self.h().get(k, MISS, version=ver, abort=True))
                    if v is not MISS:
                        got[k] = v
            for k in keys:
                state = self.recs[k][2]
                self.stats.obs['judged ' + state] += 1
                if state == 'alive' and k not in got:
                    self.t.fail('gone', '%s (version %s, tags %s) is gone without a reason', k, ver, sorted(self.recs[k][1]))
                if state != 'alive' and k in got:
                    self.t.fail('served', '%s (version %s, tags %s) is served, but: %s', k, ver, sorted(self.recs[k][1]), state)

    def advance(self, dt):
        self.t('%s s pass', dt)
        CLOCK.advance(dt)
        if TIMER_ERRORS:
            self.t.fail('timer', 'the delayed invalidation raised %s', TIMER_ERRORS[0])
        for when, full in list(self.pending):
            if when <= CLOCK.now:
                self.pending.remove((when, full))
                self.kill(full, 'stored before the end of the delay')

    def store(self, who):
        rng = self.rng
        self.n += 1
        key, ver = 'k%d' % self.n, rng.choice(self.versions)
        tags = rng.sample(self.tags, rng.choice([0, 1, 1, 2]))
        kw = {} if ver is None else {'version': ver}
        named, tags = tags, list(self.pads[0]) + tags

        def go():
            h = self.h()
            if rng.random() < 0.3:
                h.get(key, **kw)
                h.set('c' + key, 'x', tags, **kw)
                h.set(key, 'v', (), **kw)
            else:
                h.set(key, 'v', rng.choice([tuple, list, set, lambda x: deps.TagsDependency(list(x))])(tags), **kw)
        self.on(who, go)
        self.recs[key] = [norm(ver), set((norm(ver), x) for x in named), 'alive']
        self.t('%s stores %s under %s, version %s', who, key, sorted(named), ver)

    def invalidate(self, who):
        rng = self.rng
        named, ver = rng.sample(self.tags, rng.choice([1, 1, 2])), rng.choice(self.versions)
        kw = {} if ver is None else {'version': ver}
        tags = list(self.pads[1]) + named
        arg = rng.choice([lambda: tags, lambda: [deps.TagsDependency(*tags)], lambda: [tuple(tags)],
                          lambda: [deps.CompositeDependency(*[deps.TagsDependency(x) for x in tags])]])()
        self.on(who, lambda: self.h().invalidate_tags(*arg, **kw))
        full = set((norm(ver), x) for x in named)
        self.kill(full, 'invalidated')
        self.txn[who][1] |= full
        self.t('%s invalidates %s, version %s', who, sorted(named), ver)

    def end(self, who):
        rng = self.rng
        tx = self.txn[who]
        how = rng.choice(['finish', 'finish', 'finish', 'flush', 'close'])

        def go():
            h = self.h()
            if how == 'close':
                h.close()
            else:
                getattr(h.transaction, how)()
        self.on(who, go)
        tx[0] = tx[0] - 1 if how == 'finish' else 0
        self.t('%s: %s (depth %s)', who, how, tx[0])
        if tx[0]:
            return
        del self.txn[who]
        if self.rc:
            self.kill(tx[1], 'stored before the end of the transaction')
        if self.delay and tx[1]:
            self.pending.append((CLOCK.now + self.delay, tx[1]))
            self.stats.obs['delayed'] += 1

    def run(self):
        rng = self.rng
        try:
            for _ in range(rng.randint(15, 40)):
                who = rng.choice(self.sessions)
                op = rng.choices(['begin', 'end', 'inv', 'store', 'advance', 'check', 'die'], 
                                 [1, 4, 6, 7, 2, 2, 0.2] if who in self.txn else [5, 0, 0, 7, 2, 2, 0.5])[0]
                if op == 'begin' and self.txn.get(who, [0])[0] < 3:
                    self.on(who, lambda: self.h().transaction.begin())
                    self.txn.setdefault(who, [0, set()])[0] += 1
                    self.t('%s begins', who)
                elif op == 'end' and who in self.txn:
                    self.end(who)
                elif op == 'inv' and who in self.txn:
                    self.invalidate(who)
                elif op == 'store':
                    self.store(who)
                elif op == 'advance':
                    # sums are never near the delay
                    self.advance(rng.choice([0.013, 0.41, 1.17, 1.61, 3.29, 7.7] + ([17.3, 33.7] if self.delay > 5 else [])))
                    self.check()
                elif op == 'check':
                    self.check()
                elif op == 'die' and who != 'M' and who not in self.txn and who in self.crew.members:
                    th, q = self.crew.members.pop(who)     # its timers outlive the thread
                    q.put(None)
                    th.join(10)
                    self.t('thread of %s is over', who)
                    self.stats.obs['threads ended'] += 1
            self.check()
            self.advance(9.1 + self.delay)
            self.check()
            self.advance(100)
            self.check()
        finally:
            for who in self.sessions:
                self.on(who, lambda: self.h().close())
            CLOCK.advance(100)
            self.crew.close()
        self.stats.evaluations += 1
        self.stats.sig(self.alias, self.t.lines)
        self.stats.sample('\n'.join([self.alias] + self.t.lines[:40]), limit=1)


class Replica(object):
    """One master, a replica that lags up to the delay; readers compute from the replica."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['rr3', 'sr3', 'rc3', 'ru3', 'rr40', 'sr40', 'rc40'])
        self.delay = float(self.alias[2:])
        fresh(self.alias, by_ref=rng.random() < 0.3)
        self.strict = self.alias[:2] in ('rr', 'sr')
        self.crew = Crew()
        self.t = Tracer()
        self.history = [(CLOCK.now - 1000, 0)]      # (moment of commit, version)
        self.need = []                             # (moment from which on, version)

    def replica(self):
        lag = self.rng.choice([0, 0.5, 1.5, 2.9] if self.delay < 5 else [0, 3, 9, 28, 39.9])
        at = CLOCK.now - lag
        return max(v for m, v in self.history if m <= at)

    def h(self):
        return dcd.caches[self.alias]

    def run(self):
        rng = self.rng
        readers = {}       # session -> value computed in its open transaction
        n = 0
        try:
            for _ in range(rng.randint(10, 30)):
                op = rng.choice(['write', 'begin', 'store', 'store', 'begin', 'check', 'check', 'advance', 'advance'])
                who = rng.choice(['A', 'B', 'C'])
                if op == 'write':
                    n += 1
                    h = self.h()
                    h.transaction.begin()
                    h.invalidate_tags('row')
                    CLOCK.advance(rng.choice([0, 0.3, 1.1]))
                    self.history.append((CLOCK.now, n))
                    h.transaction.finish()
                    self.t('at %.2f the writer commits version %s and ends its transaction', CLOCK.now - CLOCK.BASE, n)
                    self.need.append((CLOCK.now + (0 if self.strict else self.delay), n))
                elif op == 'begin' and who not in readers:
                    # at the weaker levels a store at once: a longer computation is not protected there
                    self.crew.call(who, lambda: self.h().transaction.begin())
                    readers[who] = (self.replica(), CLOCK.now)
                    self.t('at %.2f %s begins and reads version %s', CLOCK.now - CLOCK.BASE, who, readers[who][0])
                    if not self.strict:
                        self.put(who, readers)
                elif op == 'store' and who in readers:
                    self.put(who, readers)
                elif op == 'advance':
                    dt = rng.choice([0.2, 0.7, 1.3, 3.31] + ([6.7, 14.9, 31.1] if self.delay > 5 else []))
                    if any(CLOCK.now + dt - since > 4.5 for _, since in readers.values()):
                        for w in sorted(readers):
                            self.put(w, readers)
                    CLOCK.advance(dt)
                else:
                    self.check(who)
            self.check('A')
            CLOCK.advance(10 + self.delay)
            self.check('B')
        finally:
            self.h().close()
            for who in 'ABC':
                self.crew.call(who, lambda: self.h().close())
            CLOCK.advance(100)
            self.crew.close()
        self.stats.evaluations += 1
        self.stats.sig(self.alias, self.t.lines)

    def put(self, who, readers):
        value, _ = readers.pop(who)

        def go():
            h = self.h()
            h.set('page', 'v%d' % value, ('row',))
            h.transaction.finish()
        self.crew.call(who, go)
        self.t('at %.2f %s stores version %s', CLOCK.now - CLOCK.BASE, who, value)

    def check(self, who):
        v = self.crew.call(who, lambda: self.h().get('page', abort=True))
        need = max([n for m, n in self.need if m < CLOCK.now] or [0])
        self.t('at %.2f %s reads %s', CLOCK.now - CLOCK.BASE, who, v)
        if v is not None:
            self.stats.obs['replica hits'] += 1
            if int(v[1:]) < need:
                self.t.fail('replica', 'version %s is required, but %s is served', need, v)


class Check(BaseCheck):
    prop = 'T04'
    quick = 2000
    thorough = 60000
    technique = ('runtime monitoring: sessions in several threads on a virtual clock with virtual timers, every record followed '
                 'through the delay; a lagging replica as end-to-end oracle')
    rule = ('case = (a) a random timeline of transactions, stores, pauses and ended threads at READ UNCOMMITTED / READ COMMITTED with '
            'and without delay, all records judged at random moments; (b) a timeline at stricter levels judged by the lock model; '
            '(c) readers computing from a replica that lags up to the delay; non-trivial = distinct timeline')
    level_note = 'thousands of timelines on a virtual clock; moments within the resolution of the clock around the end of the delay are not judged'
    assumptions = ['threading.Timer fires when its interval has elapsed (virtual timer)', 'at the weaker levels a value is stored at once after it was read from the replica']

    def required(self, tier):
        return {'delayed': 300, 'judged alive': 5000, 'judged stored before the end of the delay': 300, 'threads ended': 20,
                'store locked': 200, 'replica hits': 500}

    def run_case(self, rng, idx, tier, stats):
        m = idx % 4
        if idx == 0:
            probe(stats)
        elif m < 2:
            Delayed(rng, stats).run()
        elif m == 2:
            Scenario(rng, stats, ['rr3', 'rr3', 'sr3', 'rr0', 'sr0', 'rr40', 'rr40', 'sr40', 'rr1.5005', 'rr1.5005', 'sr1.5005', 'rr0.5005']).run()
        else:
            Replica(rng, stats).run()
