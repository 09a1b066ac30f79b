"""Random structured programs for engine A."""
from core import StopCase, weighted
from env import ALIASES, CLOCK
from seq import World, AppError, AppStop, APP, DAY

FORMS = ['tuple', 'tuple', 'list', 'set', 'frozenset', 'dep', 'depl', 'comp']
INV_FORMS = ['args', 'args', 'list', 'tuple', 'set', 'dep', 'comp']

TAG_POOLS = [
    ['t%d' % i for i in range(8)],
    ['blog.post', 'blog.post.pk:1', 'blog.post.pk:11', 'blog.post.pk:2', 'blog', 'Blog', 'blog.post ', 'b'],
    ['x' * 300 + str(i) for i in range(4)] + ['', ' ', '\n', '\u0442\u044d\u0433'],
    [u'\u0442\u0435\u0433', u'\u0442\u044d\u0433', u'\u0422\u0435\u0433', 'tag', u't\xe4g', u'ta\u0308g', '???', u'\U0001f600', u'\U0001f601'],
    ['y' * 20000 + str(i) for i in range(6)] + ['y' * 20000],
    ['tag:%d' % i for i in range(3)] + [101, 202, 'a b', 'a\tb', 'A B'],
    ['acquired_t', 'released_t', 't', 'tag_t', 'k0', 'k1', 'k2', 'tag_'],
]

KEY_POOLS = [
    [u'\u043a\u043b\u044e\u0447', u'\u043a\u043b\u044e\u0447 ', u'\u041a\u043b\u044e\u0447', 'x', 'X', u'\xe9'],
    ['', ' ', '  ', 'a b', 'a', '\n', '%s', '{0}', 'None', '0'],
    ['t0', 't1', 'blog', 'tag_t', 'tag_', 'acquired_t', 'released_t', 'b', 't'],
    [0, 1, 2, 10, -1, 3.5, (1, 2), b"k"],
    ['y' * 300 + str(i) for i in range(5)] + ['y' * 300],
]


class Profile(object):
    keys = 6
    steps = (8, 22)
    depth = 4
    versions = [None, None, None, 1, 2]
    threads = ['M', 'M', 'T1']
    aliases = ['default', 'rc0', 'rc0', 'ru0', 'rr0', 'sr0', 'ru3', 'rc3', 'rr3']
    by_ref = 0.3
    coarse = 0.0
    wide = 0.03
    deep = 0.02
    odd_keys = 0.1
    timeouts = [None, None, None, None, None, 60, 60, 1000, 1000, 0]
    ignore_case = 0.0
    weights = dict(build=10, compute=5, bulk=3, store=4, read=4, invalidate=5, delete=1,
                   advance=1, leap=0, evict=0, close=0.5, dangle=0.5, optout=1, txn=1, hop=2)
    child = dict(build=10, compute=5, bulk=4, store=3, read=4, invalidate=1.5, delete=0.5,
                 advance=0.3, leap=0, evict=0, close=0, dangle=0.3, optout=1, txn=0.3, hop=1)
    outcome = [(8, 'set'), (1, 'abort'), (1, 'raise')]
    sweep = True


class Program(object):
    def __init__(self, rng, prof, report, stats):
        self.rng = rng
        self.prof = prof
        self.stats = stats
        alias = rng.choice(prof.aliases)
        self.w = World(alias, report, stats, by_ref=rng.random() < prof.by_ref,
                       tick=0 if rng.random() < prof.coarse else None)
        self.keys = ['k%d' % i for i in range(rng.randint(2, prof.keys))]
        self.tags = rng.sample(rng.choice(TAG_POOLS), rng.randint(2, 6))
        if rng.random() < prof.odd_keys:
            pool = rng.choice(KEY_POOLS)
            self.keys = rng.sample(pool, min(len(pool), len(self.keys)))
            self.stats.obs['programs with unusual keys'] += 1
        self.wide = rng.random() < prof.wide
        self.deep = 0 if self.wide or rng.random() >= prof.deep else rng.choice([8, 13, 21, 40, 70])
        if self.wide:       # hundreds of tags and keys
            self.tags = ['n%d' % i for i in range(rng.choice([40, 70, 130, 300, 1100]))]
            self.keys += ['m%d' % i for i in range(rng.choice([30, 70, 130, 300]))]
        self.versions = list(prof.versions)
        if len(self.versions) > 1 and rng.random() < 0.15:
            self.versions = rng.choice([[None, 0, 0, 1], [None, None] + list(range(-1, 6)), [None, None, None, 0, 10 ** 12]])
            self.stats.obs['programs with unusual versions'] += 1
        self.threads = list(prof.threads)
        if alias in ('rc0', 'rr0', 'ru0') and rng.random() < 0.3:
            self.threads.append('M*')
        self.busy = []
        self.n = 0
        self.budget = rng.randint(*prof.steps)
        self.open = {}      # thread -> [keys being built]
        self.dangling = 0
        self.ignoring = rng.random() < prof.ignore_case

    def value(self, none=0.0):
        self.n += 1
        if none and self.rng.random() < none:
            return None
        return 'v%d' % self.n

    def some_tags(self, lo=0, hi=3):
        if self.wide and self.rng.random() < 0.3:
            hi = self.rng.choice([hi, 20, 60, 200, 1100])
        return self.rng.sample(self.tags, min(len(self.tags), self.rng.randint(lo, hi)))

    def version(self):
        return self.rng.choice(self.versions)

    def which(self):
        return self.rng.choice([None, None, 'proxy', 'get_cache', 'wrapper'])

    def opened(self):
        return self.open.setdefault(self.w.thread, [])

    def free_key(self):
        ks = [k for k in self.keys if k not in self.opened()]
        return self.rng.choice(ks) if ks else None

    def run(self):
        w = self.w
        try:
            if self.ignoring:
                for t in sorted(set(self.threads)):
                    w.on(t)
                    w.set_ignore(True)
                w.on('M')
            if self.wide:
                self.stats.obs['programs with hundreds of tags and keys'] += 1
                ver = self.version()
                for k in self.keys:
                    if self.rng.random() < 0.8:
                        w.set(k, self.value(), self.some_tags(), None, ver)
                w.read_many(self.rng.sample(self.keys, len(self.keys)), ver)
            if self.deep:
                self.chain(self.deep)
            while self.budget > 0:
                w.on(self.rng.choice(self.threads))
                try:
                    self.step(0)
                except APP:
                    pass
            for t in sorted(set(self.threads)):
                w.on(t)
                if t in w.txns:
                    w.finish(flush=True)
            w.on('M')
            if self.prof.sweep:
                self.final_sweep()
        finally:
            w.close()
        self.finish_stats()

    def finish_stats(self):
        w = self.w
        self.stats.evaluations += 1
        judged = sum(v for k, v in w.stats.obs.items() if k.startswith('ok-'))
        if len(w.cands) >= 2 and w.inv:
            self.stats.sig(w.alias, [l for l in w.trace])
            self.stats.sample('\n'.join([w.alias] + w.trace[:40]))

    def final_sweep(self):
        w = self.w
        places = sorted(w.cands, key=repr)
        self.rng.shuffle(places)
        self.read_all(places)
        tags = sorted(set(w.inv) | set(w.born), key=repr)
        self.rng.shuffle(tags)
        for ver, tag in tags[:8]:
            w.invalidate([tag], ver, 'args')
            self.stats.obs['sweep invalidations'] += 1
            self.read_all(places)

    def read_all(self, places):
        w = self.w
        if self.rng.random() < 0.3:
            by = {}
            for ver, key in places:
                by.setdefault(ver, []).append(key)
            for ver, keys in by.items():
                w.read_many(keys, ver, abort=True)
        else:
            for ver, key in places:
                w.read(key, ver, abort=True)

    def step(self, depth):
        if self.budget <= 0:
            return
        self.budget -= 1
        table = self.prof.weights if depth == 0 else self.prof.child
        op = weighted(self.rng, [(wt, name) for name, wt in table.items() if wt])
        getattr(self, 'op_' + op)(depth)

    def steps(self, depth):
        for _ in range(weighted(self.rng, [(3, 0), (4, 1), (4, 2), (2, 3), (1, 4)])):
            self.step(depth)

    def chain(self, n):
        """Builds nested many levels deep, by single reads and computations mixed."""
        w, rng = self.w, self.rng
        self.stats.obs['programs with deeply nested builds'] += 1
        ver = self.version()
        names = ['d%d' % i for i in range(n)]
        self.keys += names
        w.set('bottom', self.value(), self.some_tags(1, 2), None, ver)

        def level(i):
            if i == n:
                w.read('bottom', ver)
                return
            if rng.random() < 0.3:
                def body():
                    level(i + 1)
                    return self.value()
                w.compute(names[i], body, self.some_tags(), None, ver, form=rng.choice(FORMS))
            else:
                w.read(names[i], ver)
                level(i + 1)
                w.set(names[i], self.value(), self.some_tags(), None, ver, form=rng.choice(FORMS))
        level(0)
        for _ in range(rng.randint(1, 2)):
            w.invalidate(self.some_tags(1, 1), ver, 'args')
            for k in rng.sample(names, 5):
                w.read(k, ver, abort=True)

    # -- operations -----------------------------------------------------------

    def op_build(self, depth, key=None, version=-1):
        key = key or self.free_key()
        if key is None or depth >= self.prof.depth:
            return
        w, rng = self.w, self.rng
        ver = self.version() if version == -1 else version
        style = rng.choice(['get', 'positional', 'none'])
        present, _ = w.read(key, ver, style=style, which=self.which())
        if present:
            return
        self.finish_build(depth, key, ver)

    def finish_build(self, depth, key, ver):
        w, rng = self.w, self.rng
        tracked = not w.ignoring()
        self.opened().append(key)
        thread = w.thread
        try:
            self.steps(depth + 1)
            outcome = weighted(rng, self.prof.outcome)
            if outcome == 'raise':
                raise rng.choice([AppError, AppError, AppStop])(key)
        except APP:
            w.on(thread)
            self.opened().remove(key)
            w.abort(key, which=self.which())
            if depth and rng.random() < 0.4:
                raise
            return
        w.on(thread)
        self.opened().remove(key)
        if outcome == 'abort':
            w.abort(key, which=self.which())
        else:
            w.set(key, self.value(), self.some_tags(), rng.choice(self.prof.timeouts), ver,
                  form=rng.choice(FORMS), which=self.which(), style=rng.choice(['pos', 'kw', 'mixed']))
            self.stats.obs['builds stored depth %d' % depth] += 1

    def op_compute(self, depth):
        key = self.free_key()
        if key is None or depth >= self.prof.depth:
            return
        w, rng = self.w, self.rng
        thread = w.thread
        outcome = weighted(rng, [(8, 'set'), (1.5, 'raise')])

        def body():
            self.opened().append(key)
            try:
                self.steps(depth + 1)
            finally:
                w.on(thread)
                self.opened().remove(key)
            if outcome == 'raise':
                raise rng.choice([AppError, AppError, AppStop])(key)
            return self.value(none=0.15)
        try:
            w.compute(key, body, self.some_tags(), rng.choice(self.prof.timeouts), self.version(),
                      form=rng.choice(FORMS), which=self.which())
        except APP:
            if depth and rng.random() < 0.4:
                raise

    def op_bulk(self, depth):
        w, rng = self.w, self.rng
        keys = [k for k in self.keys + ['unknown1', 'unknown2'] if k not in self.opened()]
        if not keys:
            return
        keys = [rng.choice(keys) for _ in range(rng.randint(0, 5) if not self.wide or rng.random() < 0.4 else rng.randint(20, 200))]
        ver = self.version()
        form = rng.choice([list, tuple, set, iter, lambda ks: (k for k in ks)])
        got = w.read_many(keys, ver, abort=rng.random() < 0.15, form=form, which=self.which())
        for key in keys:
            if key not in got and key in self.keys and rng.random() < 0.4:
                if rng.random() < 0.5:
                    self.op_build(depth, key, ver)
                else:
                    w.set(key, self.value(), self.some_tags(), None, ver, form=rng.choice(FORMS), which=self.which())

    def op_store(self, depth):
        key = self.free_key()
        if key is None:
            return
        self.w.set(key, self.value(), self.some_tags(), self.rng.choice(self.prof.timeouts), self.version(),
                   form=self.rng.choice(FORMS), which=self.which(), style=self.rng.choice(['pos', 'kw', 'mixed']))

    def op_read(self, depth):
        key = self.free_key()
        if key is None:
            return
        w = self.w
        present, _ = w.read(key, self.version(), which=self.which())
        if not present and not w.ignoring():
            w.abort(key)

    def op_optout(self, depth):
        """An opted-out read, and on a miss children and a store."""
        key = self.free_key()
        if key is None or depth >= self.prof.depth:
            return
        w = self.w
        ver = self.version()
        thread = w.thread
        present, _ = w.read(key, ver, abort=True, which=self.which())
        if not present and self.rng.random() < 0.6:
            self.opened().append(key)
            try:
                self.steps(depth + 1)
            finally:
                w.on(thread)
                self.opened().remove(key)
            w.set(key, self.value(), self.some_tags(), None, ver, form=self.rng.choice(FORMS), which=self.which())

    def op_dangle(self, depth):
        """A plain read of something that is never stored nor aborted."""
        self.dangling += 1
        key = self.free_key() if self.rng.random() < 0.6 else None
        self.w.read(key or 'dangling%d' % self.dangling, self.version())
        # later stores happen inside this never finished build

    def op_leave(self, depth):
        """A build which is forgotten, in some way dropped, and made again; then what was read in it before is invalidated."""
        w, rng = self.w, self.rng
        ks = [k for k in self.keys if k not in self.opened()]
        if len(ks) < 2:
            return
        key, child = rng.sample(ks, 2)
        ver = self.version()
        tags = self.some_tags(1, 2)
        if rng.random() < 0.5:
            w.set(child, self.value(), tags, None, ver)
        w.delete(key, ver)
        w.read(key, ver)
        if not w.read(child, ver)[0]:
            w.set(child, self.value(), tags, None, ver)
        how = rng.choice(['close', 'close', 'abort', 'nothing'])
        if how == 'close' and not self.opened():
            w.close_handle()
            self.w.stats.obs['closed with a forgotten build'] += 1
        elif how == 'abort':
            w.abort(key)
        if rng.random() < 0.5:
            w.read(key, ver)
        w.set(key, self.value(), self.some_tags(), None, ver)
        w.invalidate(tags, ver)
        w.read(key, ver)

    def op_invalidate(self, depth):
        tags = self.some_tags(0, 2) or self.some_tags(1, 1)
        form = self.rng.choice(INV_FORMS)
        ver = self.version()
        if self.wide and self.rng.random() < 0.7:
            tags = self.rng.sample(self.tags, self.rng.choice([len(self.tags), len(self.tags) // 2]))
        self.w.invalidate(tags, ver, form, which=self.which())
        if self.wide:
            self.w.read_many([k for k in self.keys if k not in self.opened()], ver, abort=True)

    def op_delete(self, depth):
        key = self.free_key()
        if key:
            self.w.delete(key, self.version(), which=self.which())

    def op_advance(self, depth):
        self.w.advance(self.rng.choice([1.25, 2.25, 5.25, 20, 70, 400]))  # sums never near the delay

    def op_leap(self, depth):
        self.w.advance(self.rng.choice([3600, 20 * 3600, DAY + 120, 2 * DAY]))

    def op_evict(self, depth):
        w, rng = self.w, self.rng
        if w.level in ('rr', 'sr') and (w.txns or w.locks):
            return

        def pick(raw):
            names = set(str(k) for k in self.keys)
            user = [k for k in raw if k.rsplit(':', 1)[-1] in names]
            book = [k for k in raw if k not in user]
            mode = rng.choice(['book', 'book', 'some', 'user', 'allbook'])
            pool = {'book': book, 'some': raw, 'user': user, 'allbook': book}[mode]
            if mode == 'allbook' or not pool:
                return pool
            return rng.sample(pool, rng.randint(1, min(3, len(pool))))
        w.evict(pick)

    def op_close(self, depth):
        if not self.opened():
            self.w.close_handle()
            if self.ignoring:
                pass

    def op_txn(self, depth):
        """A transaction around some steps, ended in some way."""
        w, rng = self.w, self.rng
        thread = w.thread
        w.begin()
        level = w.txns[thread].depth
        try:
            try:
                self.steps(depth + 1) if depth else [self.step(1) for _ in range(rng.randint(1, 4))]
            finally:
                w.on(thread)
                txn = w.txns.get(thread)
                if txn is not None and txn.depth >= level:
                    if level == 1 and rng.random() < 0.2:
                        w.finish(flush=True)
                    else:
                        w.finish()
        except APP:
            if depth and rng.random() < 0.5:
                raise

    def op_hop(self, depth):
        """Some steps in another thread, while this one is where it is."""
        w = self.w
        thread = w.thread
        bases = set(t.rstrip('*') for t in self.busy)
        others = sorted(t for t in set(self.threads) if t != thread and t not in self.busy and
                        (t.rstrip('*') == w.base or t.rstrip('*') not in bases))
        if not others:
            return
        self.busy.append(thread)
        w.on(self.rng.choice(others))
        try:
            for _ in range(self.rng.randint(1, 3)):
                self.step(max(1, depth))
        except APP:
            pass
        finally:
            self.busy.pop()
            w.on(thread)
