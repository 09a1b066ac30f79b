from checks.base import BaseCheck
from core import Crew, Violation
from env import CLOCK
from kit import MISS, Tracer, dcd, deps, fresh, pads, store
from sched import Sched


class Abort(Exception):
    pass


KNOWN = 'overlapping-ends'


class SimDB(object):
    """Snapshot isolation with row write locks; a conflict aborts the transaction."""

    def __init__(self, rows):
        self.n = 0
        self.rows = {r: [(0, 0)] for r in rows}       # row -> [(commit, value)]
        self.locks = {}
        self.fate = {}                               # transaction -> commit number or None (rolled back)


class DbTxn(object):
    ids = 0

    def __init__(self, db, name):
        DbTxn.ids += 1
        self.id = '%s#%d' % (name, DbTxn.ids)
        self.db = db
        self.snapshot = db.n
        self.writes = set()

    def read(self, row):
        """The version of the row this transaction sees: a commit number or its own id."""
        if row in self.writes:
            return self.id
        return max(c for c, _ in self.db.rows[row] if c <= self.snapshot)

    def write(self, row):
        if self.db.locks.get(row, self.id) != self.id or self.db.rows[row][-1][0] > self.snapshot:
            raise Abort('write conflict')
        self.db.locks[row] = self.id
        self.writes.add(row)

    def end(self, commit):
        for r in self.writes:
            del self.db.locks[r]
        if commit and self.writes:
            self.db.n += 1
            for r in self.writes:
                self.db.rows[r].append((self.db.n, self.id))
            self.db.fate[self.id] = self.db.n
        else:
            self.db.fate[self.id] = None


class World(object):
    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['rr0', 'rr0', 'sr0'])
        fresh(self.alias, by_ref=rng.random() < 0.2)
        self.focus = rng.random() < 0.4         # on what happens while a writer ends
        self.rows = ['r%d' % i for i in range(rng.randint(1, 2 if self.focus else 4))]
        self.db = SimDB(self.rows)
        self.frag = {'f%d' % i: tuple(rng.sample(self.rows, rng.randint(1, min(2, len(self.rows))))) for i in range(rng.randint(1, 2 if self.focus else 3))}
        self.page = {'p%d' % i: tuple(rng.sample(sorted(self.frag), rng.randint(1, len(self.frag)))) for i in range(rng.randint(1, 2))}
        self.vers = rng.choice([[None], [None], [2], [None, 2], [3, 2]])
        self.coarse = rng.random() < 0.4        # one tag for everything
        self.pads = pads(rng, stats)
        self.log = []
        self.tick = 0
        self.ended = []           # (tick of return, DbTxn, start tick, tags)
        self.writer_ends = []     # (call tick, return tick, tags)
        self.sched = Sched(rng, policy=rng.choice(['plan', 'plan', 'plan', 'park']) if self.focus else None)
        st = store(self.alias)
        st.before = lambda name, ks: self.sched.point(name)
        st.after = lambda name, ks: self.sched.point(name) if rng.random() < 0.5 else None
        self.final = False

    def now(self):
        self.tick += 1
        return self.tick

    def say(self, fmt, *args):
        self.log.append('%d ' % self.tick + fmt % args)

    def tag(self, row):
        return 'all' if self.coarse else 'tag ' + row

    @staticmethod
    def kw(ver):
        return {} if ver is None else {'version': ver}

    # -- one session ---------------------------------------------------------

    def session(self, name):
        rng = self.rng
        h = dcd.caches[self.alias]
        if self.focus:
            self.transaction(name, h, name == 'A' or rng.random() < 0.2)
            return
        for _ in range(rng.randint(1, 4)):
            self.sched.point()
            self.transaction(name, h, rng.random() < 0.55)

    def transaction(self, name, h, writer):
        rng = self.rng
        tags = set()
        how = rng.choice(['with', 'begin', 'flush'])
        self.now()
        self.say('[%s] cache transaction begins (%s)', name, 'writer' if writer else 'reader')
        h.transaction.begin()
        db = DbTxn(self.db, name)
        self.say('[%s] database snapshot %d (%s)', name, db.snapshot, db.id)
        commit = rng.random() < (0.4 if self.focus else 0.75)
        inner = 0
        try:
            try:
                if self.focus and writer:
                    self.write(name, h, db, tags)
                    for ver in self.vers:
                        if rng.random() < 0.3:
                            self.whole_page(name, h, db, rng.choice(sorted(self.page)), ver)
                        else:
                            self.fragment(name, h, db, rng.choice(sorted(self.frag)), ver)
                elif self.focus:
                    self.whole_page(name, h, db, rng.choice(sorted(self.page)), rng.choice(self.vers))
                for _ in range(rng.randint(1, 4) if not self.focus else rng.randint(0, 1)):
                    self.sched.point()
                    op = rng.choice(['read', 'read', 'page', 'write', 'nest'] if writer else ['read', 'page', 'page', 'bulk', 'nest'])
                    ver = rng.choice(self.vers)
                    if op == 'read':
                        self.fragment(name, h, db, rng.choice(sorted(self.frag)), ver)
                    elif op == 'page':
                        self.whole_page(name, h, db, rng.choice(sorted(self.page)), ver)
                    elif op == 'bulk':
                        self.bulk(name, h, ver)
                    elif op == 'nest':
                        if inner and rng.random() < 0.5:
                            inner -= 1
                            h.transaction.finish()
                        else:
                            inner += 1
                            h.transaction.begin()
                    else:
                        self.write(name, h, db, tags)
                if writer and rng.random() < 0.7:
                    self.write(name, h, db, tags)
                self.sched.point()
                if not commit:
                    raise Abort('rollback')
            except Abort as e:
                self.now()
                db.end(False)
                self.say('[%s] %s rolled back (%s)', name, db.id, e)
            else:
                self.now()
                db.end(True)
                self.say('[%s] %s committed as %s', name, db.id, self.db.fate[db.id])
            self.sched.point()
        finally:
            start = self.now()
            self.sched.hot.add(name)
            if how == 'flush':
                h.transaction.flush()
            else:
                for _ in range(inner + 1):
                    h.transaction.finish()
            self.sched.hot.discard(name)
            end = self.now()
            self.say('[%s] cache transaction ended (begun to end at %d)', name, start)
            if db.writes:
                self.stats.obs['writers committed' if self.db.fate[db.id] else 'writers rolled back'] += 1
            self.ended.append((end, db))
            if tags:
                self.writer_ends.append((start, end, frozenset(tags), db.id))

    def write(self, name, h, db, tags):
        row = self.rng.choice(self.rows)
        before = self.rng.random() < 0.3
        def invalidate():
            tags.add(self.tag(row))
            for ver in rng.sample(self.vers, len(self.vers)):
                h.invalidate_tags(*(self.pads[1] + (self.tag(row),)), **self.kw(ver))
        rng = self.rng
        if before:
            invalidate()
            db.write(row)
        else:
            db.write(row)
            self.sched.point()
            invalidate()
        self.now()
        self.say('[%s] wrote %s, invalidated %s', name, row, self.tag(row))

    def bulk(self, name, h, ver):
        start = self.now()
        got = h.get_many(sorted(self.frag) + sorted(self.page), **self.kw(ver))
        self.now()
        for key in sorted(got):
            self.say('[%s] read %s%s = %s in bulk', name, key, ver or '', sorted(got[key].items()))
            self.stats.obs['bulk hits'] += 1
            self.judge(name, key, got[key], start)

    def fragment(self, name, h, db, key, ver):
        def compute():
            self.sched.point()
            return {r: db.read(r) for r in self.frag[key]}
        return self.cached(name, h, key, compute, [self.tag(r) for r in self.frag[key]], ver)

    def whole_page(self, name, h, db, key, ver):
        def compute():
            out = {}
            for f in self.page[key]:
                for r, v in self.fragment(name, h, db, f, ver).items():
                    out[f + ' ' + r] = v
            return out
        return self.cached(name, h, key, compute, [], ver)

    def cached(self, name, h, key, compute, tags, ver):
        tags = list(self.pads[0]) + list(tags)
        start = self.now()
        if self.rng.random() < 0.5:
            v = h.get(key, **self.kw(ver))
            if v is None:
                self.stats.obs['misses'] += 1
                try:
                    v = compute()
                    h.set(key, v, tags, **self.kw(ver))
                except Abort:
                    h.abort(key)
                    raise
                self.now()
                self.say('[%s] computed %s%s = %s', name, key, ver or '', sorted(v.items()))
                return v
        else:
            called = []

            def callback():
                called.append(1)
                return compute()
            v = h.get_or_set_callback(key, callback, tags, **self.kw(ver))
            if called:
                self.stats.obs['misses'] += 1
                self.now()
                self.say('[%s] computed %s%s = %s', name, key, ver or '', sorted(v.items()))
                return v
        self.now()
        self.say('[%s] read %s%s = %s', name, key, ver or '', sorted(v.items()))
        self.judge(name, key, v, start)
        return v

    def judge(self, name, key, value, start):
        self.stats.obs['final hits judged' if self.final else 'hits judged'] += 1
        for place, ver in value.items():
            row = place.split()[-1]
            required = [(d.db.fate[d.id], d.id) for end, d in self.ended if end < start and row in d.writes and d.db.fate[d.id]]
            need, writer = max(required) if required else (0, None)
            if isinstance(ver, str):
                over = [1 for end, d in self.ended if end < start and d.id == ver]
                fate = self.db.fate.get(ver, 'open')
                if fate is None and over:
                    self.fail('dirty', '%s read %s with data of %s, which was rolled back and ended' % (name, key, ver), row, ver)
                if fate is None or fate == 'open':
                    continue          # not ended yet
                ver = fate
            if ver < need:
                self.fail('stale', '%s read %s = %s although commit %d of %s has ended before' % (
                    name, key, sorted(value.items()), need, row), row, writer)

    def fail(self, kind, text, row, writer):
        tag = self.tag(row)
        mine = [e for e in self.writer_ends if e[3] == writer]
        others = [e for e in self.writer_ends if e[3] != writer and tag in e[2]]
        # known finding: another session which invalidated the tag ends at the same time as the missed writer
        if kind == 'stale' and any(a[0] < b[1] and b[0] < a[1] for a in mine for b in others):
            kind = KNOWN
        raise Violation(kind, text, ['cache %s, schedule %s' % (self.alias, ''.join(self.sched.switches)),
                                     'fragments %s pages %s' % (self.frag, self.page)] + self.log)

    def run(self):
        names = 'ABCDE'[:self.rng.choice([2, 2, 3, 3, 4] if not self.focus else [2, 2, 3])]
        if self.sched.policy == 'plan':         # B (and C) stop somewhere, A stops somewhere in its end, ...
            r = self.rng
            plan = [[n, r.randint(1, 30), False] for n in names[1:] if r.random() < 0.3]
            plan += [['A', r.randint(1, 1 + 5 * len(self.vers)), True]] + [[n, r.randint(1, 30), False] for n in names[1:]]
            self.sched.plan = plan + [[n, 10 ** 6, False] for n in names]
        for n in names:
            self.sched.add(n, lambda n=n: self.session(n))
        st = store(self.alias)
        try:
            self.sched.run()
        finally:
            st.before = st.after = None
        self.final = True
        h = dcd.caches[self.alias]
        start = self.now()
        for ver in self.vers:
            for key in sorted(self.frag) + sorted(self.page):
                v = h.get(key, abort=True, **self.kw(ver))
                if v is not None:
                    self.say('finally read %s%s = %s', key, ver or '', sorted(v.items()))
                    self.judge('finally', key, v, start)
        h.close()
        self.stats.evaluations += 1
        self.stats.obs['steps'] += self.sched.steps
        self.stats.obs['switches'] += len(self.sched.switches)
        self.stats.obs['policy ' + self.sched.policy] += 1
        if any(d.writes for _, d in self.ended):
            self.stats.sig(self.alias, self.log)
            self.stats.sample('\n'.join(self.log[:40]), limit=1)


def probe(stats):
    """The known finding, step by step."""
    stats.evaluations += 1
    crew = Crew()
    t = Tracer()
    h = fresh('rr0')
    st = store('rr0')

    def on(name, fn):
        return crew.call(name, lambda: fn(dcd.caches['rr0']))
    try:
        on('B', lambda h: (h.transaction.begin(), h.invalidate_tags('t')))
        h.transaction.begin()
        h.invalidate_tags('t')
        t('B and then A invalidate t in their transactions; A ends, and while its release record is being written:')

        def before(name, keys):
            if name == 'set_many' and any('released_' in k for k in keys):
                st.before = None
                on('C', lambda h: h.transaction.begin())
                t('C begins and reads the database, B commits and ends')
                on('B', lambda h: h.transaction.finish())
        st.before = before
        h.transaction.finish()
        st.before = None
        on('C', lambda h: (h.set('k', 'from before the commit of B', ('t',)), h.transaction.finish()))
        t('C stores what it has read under t')
        if h.get('k', abort=True) is not None:
            t.fail(KNOWN, 'data from before the commit of B are served after its end')
    finally:
        st.before = None
        for n in 'BC':
            on(n, lambda h: h.close())
        h.close()
        crew.close()


class Check(BaseCheck):
    prop = 'T03'
    quick = 6000
    thorough = 80000
    technique = ('runtime monitoring: scheduled real threads run cache and (simulated, snapshot-isolated) database transactions; '
                 'every cached value read is judged against the commits that had ended before')
    rule = ('case = 2-4 threads with 1-4 transactions each (readers computing fragments and pages of fragments, writers changing rows, '
            'invalidating, committing or rolling back, nested scopes, one or two cache versions), switched at every backend operation under a random '
            'schedule; every hit during and after is judged; non-trivial = distinct history with a writer')
    level_note = 'thousands of random schedules, not exhaustive; the database is a model of snapshot isolation with write locks'
    assumptions = ['transactions are shorter than the retention of lock records', 'the cache transaction encloses the database transaction',
                   'the database aborts conflicting writers']

    def required(self, tier):
        return {'hits judged': 2000, 'final hits judged': 300, 'writers committed': 1000, 'writers rolled back': 300, 'switches': 10000}

    def run_case(self, rng, idx, tier, stats):
        if idx == 0:
            probe(stats)
            return
        World(rng, stats).run()
