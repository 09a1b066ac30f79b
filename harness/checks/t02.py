from checks.base import BaseCheck
from conc import run_random, OPS
from core import Crew, StopCase
from env import CLOCK
from kit import MISS, Tracer, dcd, deps, fresh, pads, norm

RETAIN = 5
KNOWN = 'own-release-over-foreign'


class Lock(object):
    def __init__(self, who, at):
        self.who = who
        self.at = at              # moment of the last acquisition
        self.first = at
        self.end = None
        self.shared = False


class Scenario(object):
    def __init__(self, rng, stats, aliases=('rr0', 'rr0', 'rr0', 'sr0', 'sr0', 'rr3', 'sr3', 'rr40', 'rr1.5005')):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(aliases)
        self.delay = float(self.alias[2:])
        self.coarse = rng.random() < 0.25
        fresh(self.alias, by_ref=rng.random() < 0.3, tick=0 if self.coarse else None)
        self.crew = Crew()
        self.t = Tracer()
        self.sessions = ['M', 'F', 'G'][:rng.choice([2, 2, 3])]
        self.versions = rng.choice([[None, None, None, 1, 2], [None, None, None, 1, 2], [None, None, 0, 1]])
        self.tags = ['t%d' % i for i in range(rng.randint(2, 4))]
        self.pads = pads(rng, stats)
        self.txn = {}            # session -> [depth, start (before, after), set of (ver, tag)]
        self.locks = {}          # (ver, tag) -> [Lock]
        self.n = 0
        # who invalidates in transactions: mostly one
        self.writers = ['M'] if rng.random() < 0.65 else self.sessions

    def on(self, who, fn):
        return self.crew.call(None if who == 'M' else who, fn)

    def h(self):
        return dcd.caches[self.alias]

    # -- the model ---------------------------------------------------------

    def tag_state(self, who, vt):
        """free, locked, or unknown for a store by the session now."""
        now = CLOCK.now
        if who in self.txn:
            start = self.txn[who][1]
        else:
            start = now + 1e-6      # its store will read the clock
            if self.coarse and any(l.end == now for l in self.locks.get(vt, ())):
                return 'unknown'    # not a transaction, and no later
        out = 'free'
        for l in self.locks.get(vt, ()):
            if l.end is None:
                s = self.open_state(who, l, now)
            else:
                s = self.ended_state(who, l, now, start)
            if s == 'locked':
                return s
            if s == 'unknown':
                out = s
        return out

    def open_state(self, who, l, now):
        if l.shared:
            return 'unknown'
        if l.who == who:
            return 'free'
        return 'locked' if now < l.at + RETAIN - 0.1 else 'unknown'

    def ended_state(self, who, l, now, start):
        age = now - l.end
        if age > RETAIN + max(self.delay, 1) + 0.1:
            return 'free'
        if l.shared:
            return 'unknown'
        if l.who == who:
            return 'free' if not self.delay or start > l.end + self.delay + 0.1 else 'unknown'
        if abs(start - l.end - self.delay) < 0.001 and self.delay:
            return 'unknown'
        if start == l.end:
            self.stats.obs['began at the very end'] += 1
        if start > l.end + self.delay:
            return 'free'
        if age < RETAIN + self.delay - 0.1:
            self.stats.obs['locked after the end'] += 1
            return 'locked'
        return 'unknown'

    def hidden(self, who, full):
        """The known finding: every lock which should stop the store had been released by another session within the
        delay before the session itself began and ended a transaction which released the same tag."""
        for vt in full:
            if self.tag_state(who, vt) != 'locked':
                continue
            ls = self.locks[vt]
            for l in ls:
                s = self.open_state(who, l, CLOCK.now) if l.end is None else \
                    self.ended_state(who, l, CLOCK.now, self.txn[who][1] if who in self.txn else CLOCK.now + 1e-6)
                if s == 'locked' and not (self.delay and l.end is not None and any(
                        o.who == who and o.end is not None and l.end <= o.end <= l.end + self.delay for o in ls)):
                    return False
        return True

    def verdict(self, who, full):
        states = set(self.tag_state(who, vt) for vt in full)
        return 'locked' if 'locked' in states else 'unknown' if 'unknown' in states else 'free'

    # -- operations --------------------------------------------------------

    def begin(self, who):
        self.on(who, lambda: self.h().transaction.begin())
        if who in self.txn:
            self.txn[who][0] += 1
        else:
            self.txn[who] = [1, CLOCK.now, set()]
        self.t('%s begins (depth %s)', who, self.txn[who][0])

    def finish(self, who, all=False):
        tx = self.txn[who]
        if self.coarse and (all or tx[0] == 1) and tx[2]:
            CLOCK.advance(0.02)     # a transaction which locks takes time
        how = self.rng.choice(['flush', 'close']) if all else 'finish'

        def go():
            if how == 'close':
                self.h().close()
            else:
                getattr(self.h().transaction, how)()
        self.on(who, go)
        tx[0] = 0 if all else tx[0] - 1
        self.t('%s ends by %s (depth %s)', who, how, tx[0])
        if not tx[0]:
            for vt in tx[2]:
                for l in self.locks.get(vt, ()):
                    if l.who == who and l.end is None:
                        l.end = CLOCK.now
            del self.txn[who]

    def invalidate(self, who, tags, ver):
        kw = {} if ver is None else {'version': ver}
        form = self.rng.choice(['args', 'list', 'dep', 'comp'])
        named = tags

        def go():
            h = self.h()
            tags = list(self.pads[1]) + list(named)
            if form == 'args':
                h.invalidate_tags(*tags, **kw)
            elif form == 'list':
                h.invalidate_tags(list(tags), **kw)
            elif form == 'dep':
                h.invalidate_tags(deps.TagsDependency(*tags), **kw)
            else:
                h.invalidate_tags(deps.CompositeDependency(*[deps.TagsDependency(x) for x in tags]), **kw)
        self.on(who, go)
        self.t('%s invalidates %s (version %s)', who, sorted(tags), ver)
        if who not in self.txn:
            for x in tags:          # exempted by the property: an invalidation meanwhile
                for l in self.locks.get((norm(ver), x), ()):
                    if l.end is None and l.who != who:
                        l.shared = True
            return
        for x in tags:
            vt = (norm(ver), x)
            ls = self.locks.setdefault(vt, [])
            mine = [l for l in ls if l.who == who and l.end is None]
            others = [l for l in ls if l.who != who and l.end is None]
            if mine:
                l = mine[0]
                l.at = CLOCK.now
            else:
                l = Lock(who, CLOCK.now)
                ls.append(l)
            for o in others:
                o.shared = l.shared = True
            self.txn[who][2].add(vt)

    def store(self, who, tags, ver):
        rng = self.rng
        self.n += 1
        key = 'k%d' % self.n
        full = set((norm(ver), x) for x in tags)
        kw = {} if ver is None else {'version': ver}
        tags = list(self.pads[0]) + list(tags)
        kind = rng.choice(['set', 'set', 'dep', 'over', 'compute', 'inherit', 'child'])
        seen = {}
        v = self.verdict(who, full)

        def go():
            h = self.h()
            if kind == 'set':
                h.set(key, 'new', tags, **kw)
            elif kind == 'dep':
                h.set(key, 'new', deps.CompositeDependency(deps.TagsDependency('free%d' % self.n), deps.TagsDependency(tags)), **kw)
            elif kind == 'over':
                h.set(key, 'old', ('safe%d' % self.n,), **kw)
                h.set(key, 'new', frozenset(tags), **kw)
            elif kind == 'compute':
                seen['rv'] = h.get_or_set_callback(key, lambda: 'new', tags, **kw)
            elif kind == 'inherit':
                h.get('p' + key, **kw)
                h.set(key, 'new', tags, **kw)
                h.set('p' + key, 'new', (), **kw)
            elif kind == 'child':
                h.get(key, **kw)
                h.get('c' + key, **kw)
                h.set('c' + key, 'x', tags, **kw)
                h.set(key, 'new', ('safe%d' % self.n,), **kw)
        self.on(who, go)
        if kind == 'compute' and seen.get('rv') != 'new':
            self.t.fail('return', 'get_or_set_callback returned %s', seen.get('rv'))
        reader = rng.choice(self.sessions)
        keys = [key] + (['p' + key] if kind == 'inherit' else [])
        got = [self.on(reader, lambda: self.h().get(k, MISS, abort=True, **kw)) for k in keys]
        self.t('%s stores under %s (version %s, %s): %s, expected %s', who, sorted(full), ver, kind, got, v)
        self.stats.obs['store ' + v] += 1
        for g in got:
            if v == 'locked':
                want = 'old' if kind == 'over' else MISS
                if g != want:
                    kind = KNOWN if self.hidden(who, full) else 'stored-locked'
                    self.t.fail(kind, 'store of %s under locked tags %s: found %s instead of %s afterwards', who, sorted(full),
                                g, 'a miss' if want is MISS else want)
            elif v == 'free' and g != 'new':
                self.t.fail('skipped', 'store of %s under free tags %s had no effect (found %s)', who, sorted(full), g)

    def around_the_end(self, who, locked):
        """Sessions of all kinds store under a tag right after the end of the transaction which locked it."""
        rng = self.rng
        v, x = rng.choice(locked)
        if rng.random() < 0.3:
            CLOCK.advance(rng.choice([0.01, 0.5, 2.7] + [self.delay - 0.2, self.delay + 0.2] * bool(self.delay)))
        for _ in range(rng.randint(1, 3)):
            other = rng.choice(self.sessions)
            if other not in self.txn and rng.random() < 0.4:
                self.begin(other)
            self.stats.obs['stores right after the end of a lock'] += 1
            self.store(other, [x], rng.choice([None, 1]) if v == 1 else v)

    def run(self):
        rng = self.rng
        try:
            for _ in range(rng.randint(15, 45)):
                who = rng.choice(self.sessions + self.writers)
                op = rng.choices(['begin', 'end', 'invalidate', 'store', 'advance', 'plain invalidate', 'flush'],
                                 [3, 1.8, 7, 9, 1, 0.3, 0.4])[0]
                ver = rng.choice(self.versions)
                tags = rng.sample(self.tags, rng.choice([1, 1, 2]))
                if op == 'begin':
                    if self.txn.get(who, [0])[0] < 3:
                        self.begin(who)
                elif op in ('end', 'flush') and who in self.txn:
                    locked = sorted(self.txn[who][2])
                    self.finish(who, all=op == 'flush')
                    if who not in self.txn and locked and rng.random() < 0.7:
                        self.around_the_end(who, locked)
                elif op == 'invalidate' and who in self.txn and who in self.writers:
                    self.invalidate(who, tags, ver)
                elif op == 'plain invalidate' and who not in self.txn:
                    self.invalidate(who, tags, ver)
                elif op == 'store':
                    warm = sorted(vt for vt, ls in self.locks.items() if CLOCK.now - (ls[-1].end or ls[-1].at) < 12 + self.delay)
                    if warm and rng.random() < 0.6:
                        v, x = rng.choice(warm)
                        tags = sorted(set([x] + (tags if rng.random() < 0.3 else [])))
                        ver = rng.choice([None, 1]) if v == 1 else v
                    self.store(who, tags, ver)
                elif op == 'advance':
                    dt = rng.choice([0.01, 0.5, 1.3, 2.7, 4.45, 6.3, 12] + ([8, 15, 29, 36] if self.delay > 5 else []))
                    CLOCK.advance(dt)
                    self.t('%s s pass', dt)
            for who in list(self.txn):
                self.finish(who, all=True)
            CLOCK.advance(30 + self.delay)
            for who in self.sessions:
                for x in self.tags:
                    self.store(who, [x], rng.choice([None, 2]))
        finally:
            for who in self.sessions:
                self.on(who, lambda: self.h().close())
            self.crew.close()
        self.stats.evaluations += 1
        if self.locks:
            self.stats.sig(self.alias, self.t.lines)
            self.stats.sample('\n'.join([self.alias] + self.t.lines[:40]), limit=1)


def probe(stats):
    """The known finding, step by step."""
    stats.evaluations += 1
    crew = Crew()
    t = Tracer()
    h = fresh('rr3')

    def on(name, fn):
        return crew.call(name, lambda: fn(dcd.caches['rr3']))
    try:
        on('F', lambda h: (h.transaction.begin(), h.invalidate_tags('t'), h.transaction.finish()))
        CLOCK.advance(1)
        on('G', lambda h: (h.transaction.begin(), h.invalidate_tags('t'), h.transaction.finish()))
        t('F invalidates t in its transaction and ends; G does the same one second later, within the delay of F (3 s)')
        CLOCK.advance(0.5)
        on('G', lambda h: (h.transaction.begin(), h.set('k', 'maybe from a late replica', ('t',)), h.transaction.finish()))
        t('the next transaction of G begins, still within the delay of F, and stores under t')
        if h.get('k', abort=True) is not None:
            t.fail(KNOWN, 'the store took effect: the release record of G replaced that of F, and G ignores its own')
    finally:
        for n in 'FG':
            on(n, lambda h: h.close())
        h.close()
        crew.close()


class Check(BaseCheck):
    prop = 'T02'
    quick = 2400
    thorough = 60000
    technique = ('runtime monitoring: sessions in several threads on a virtual clock, every store judged by a model of who may '
                 'store what when; event logs of scheduled threads checked offline for stores inside foreign locks')
    rule = ('case = (two of three) a random timeline of begins, invalidations, stores in 6 ways (direct, inherited, overwriting, '
            'read-or-compute), ends and pauses of 2-3 sessions at REPEATABLE READ or SERIALIZABLE with and without delay, each '
            'store followed by a read and judged locked / free / unknown by the model; or (one of three) a concurrent program '
            'under a random schedule; non-trivial = distinct timeline with a lock')
    level_note = ('thousands of timelines; states the property exempts (overlapping writers of one tag, expired lock records) are '
                  'not judged; interleavings are sampled')
    assumptions = ['time within a transaction moves strictly forward', 'sessions share one clock']

    def required(self, tier):
        return {'store locked': 500, 'locked after the end': 60, 'store free': 3000, 'switches': 3000, 'stores right after the end of a lock': 600}

    def run_case(self, rng, idx, tier, stats):
        if idx == 0:
            probe(stats)
        elif idx % 3 < 2:
            Scenario(rng, stats).run()
        else:
            ops = dict(OPS, txn=5, invalidate=4, set=6, read=6)
            run_random(rng, stats, ('stored-locked', 'lost'), ['rr0', 'sr0'], ops=ops,
                       versions=rng.choice([(None,), (None,), (None, 1, 2)]))
