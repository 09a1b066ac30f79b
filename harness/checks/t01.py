from checks.base import BaseCheck
from conc import run_random, OPS
from core import Crew, StopCase
from kit import MISS, Tracer, dcd, deps, fresh, present, norm
from env import CLOCK
from monbackend import store
from progs import Profile, Program


class P(Profile):
    keys = 5
    threads = ['M', 'M', 'T1', 'T2']
    aliases = ['rc0', 'rc0', 'rr0', 'sr0', 'rc3', 'rr3', 'sr3']
    timeouts = [None]
    weights = dict(build=4, compute=2, bulk=2, store=6, read=4, invalidate=5, delete=0.5,
                   advance=0.7, leap=0, evict=0, close=0.7, dangle=0.3, optout=0.5, txn=8, hop=3)
    child = dict(build=4, compute=2, bulk=2, store=5, read=3, invalidate=6, delete=0.3,
                 advance=0.3, leap=0, evict=0, close=0, dangle=0.2, optout=0.5, txn=3, hop=5)


class Boom(Exception):
    pass


class Ways(object):
    """Transactions opened and ended in every way, with stores of other sessions in between."""
    KINDS = ['begin', 'with', 'decorator', 'cache_transaction', 'cache_transaction_all', 'middleware', 'old api']

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.alias = rng.choice(['rc0', 'rc0', 'rc0', 'rr0', 'sr0', 'rc3', 'rr3'])
        self.h = fresh(self.alias, by_ref=rng.random() < 0.3)
        self.strict = self.alias[:2] != 'rc'
        self.t = Tracer()
        self.crew = Crew()
        self.n = 0
        self.tags = ['a', 'b', 'c', 'd']
        # transactions over many versions at once, too
        self.versions = rng.choice([[None, None, 1, 2], [None, 0, 1], [None, None] + list(range(8)), [-1, 0, 10 ** 12]])
        self.stored = []         # (ver, key, tags) stored so far and not certainly invalidated
        self.invalidated = set()  # (ver, tag) inside the open transaction
        self.live = set()

    def other(self, fn):
        return self.crew.call(self.rng.choice(['T1', 'T2']), fn)

    def put(self, foreign, at=None):
        rng = self.rng
        self.n += 1
        key, ver = 'k%d' % self.n, rng.choice(self.versions)
        tags = rng.sample(self.tags, rng.randint(1, 2))
        if at is not None:
            ver, tags = at
        form = rng.choice([tuple, set, lambda x: deps.TagsDependency(*x),
                           lambda x: deps.CompositeDependency(*[deps.TagsDependency(i) for i in x])])

        def go():
            h = dcd.caches[self.alias]
            if rng.random() < 0.3:           # inherited
                h.get(key, version=ver)
                h.set('child' + key, 'x', form(tags), version=ver)
                h.set(key, key, (), version=ver)
            else:
                h.set(key, key, form(tags), version=ver)
        (self.other if foreign else lambda f: f())(go)
        self.t('%s stores %s under %s, version %s', 'another session' if foreign else 'the session', key, sorted(tags), ver)
        v = norm(ver)
        full = set((v, x) for x in tags)
        self.stored.append((v, key, full))
        locked = self.strict and foreign and full & self.invalidated
        if not locked:
            if not present(self.h, key, v):
                if not foreign or not self.maybe_locked(full):
                    raise StopCase('a store was lost, not this property')
            else:
                self.live.add(key)

    def maybe_locked(self, full):
        return self.strict        # stored after an earlier transaction released the tags

    def invalidate(self, tags, ver):
        rng = self.rng
        form = rng.choice(['args', 'list', 'dep', 'comp'])
        kw = {} if ver is None else {'version': ver}
        if form == 'args':
            self.h.invalidate_tags(*tags, **kw)
        elif form == 'list':
            self.h.invalidate_tags(list(tags), **kw)
        elif form == 'dep':
            self.h.invalidate_tags(deps.TagsDependency(*tags), **kw)
        else:
            self.h.invalidate_tags(deps.CompositeDependency(*[deps.TagsDependency(x) for x in tags]), **kw)
        full = set((norm(ver), x) for x in tags)
        self.t('the session invalidates %s, version %s', sorted(tags), ver)
        self.invalidated |= full
        self.judge(full, 'its invalidation')

    def judge(self, full, what):
        """Everything stored so far under these tags must be gone, and nothing else."""
        for v, key, tags in self.stored:
            there = present(self.h, key, v)
            if tags & full:
                self.stats.obs['must be gone'] += 1
                self.live.discard(key)
                if there:
                    self.t.fail('stale', 'after %s %s (version %s) is still served', what, key, v)
            elif key in self.live:
                self.stats.obs['must be there'] += 1
                if not there:
                    raise StopCase('a value was lost, not this property')

    def body(self, level):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            op = rng.choice(['inv', 'inv', 'put', 'foreign', 'foreign', 'nest'])
            if op == 'inv' and len(self.versions) > 6 and rng.random() < 0.6:
                self.stats.obs['transactions over many versions'] += 1
                tag = rng.sample(self.tags, 1)
                many = rng.sample(self.versions, rng.randint(4, len(self.versions)))
                for ver in many:
                    self.invalidate(tag, ver)
                for ver in many:
                    self.put(rng.random() < 0.5, (ver, tag))
            elif op == 'inv':
                self.invalidate(rng.sample(self.tags, rng.randint(1, 2)), rng.choice(self.versions))
            elif op == 'nest' and level < 3:
                self.scope(level + 1)
            else:
                self.put(op == 'foreign')
        if rng.random() < 0.25:
            raise Boom()

    def scope(self, level):
        rng = self.rng
        kind = rng.choice(self.KINDS if level == 1 else ['begin', 'with', 'decorator', 'cache_transaction'])
        self.t('scope %d opens: %s', level, kind)
        self.stats.obs['scope ' + kind] += 1
        h = self.h
        flushing = kind in ('cache_transaction_all', 'middleware')
        failed = False
        try:
            if kind == 'begin':
                h.transaction.begin()
                try:
                    self.body(level)
                finally:
                    self.end_explicitly(level)
            elif kind == 'old api':
                h.transaction_begin()
                try:
                    self.body(level)
                finally:
                    rng.choice([h.transaction_finish, h.transaction_finish_all])()
            elif kind == 'with':
                with h.transaction:
                    self.body(level)
            elif kind == 'decorator':
                (h.transaction if rng.random() < 0.5 else h.transaction())(self.body)(level)
            elif kind == 'cache_transaction':
                from django_cache_dependencies.decorators import cache_transaction
                cache_transaction(self.body, cache=h)(level)
            elif kind == 'cache_transaction_all':
                from django_cache_dependencies.decorators import cache_transaction_all
                cache_transaction_all(self.body, cache=h)(level)
            elif kind == 'middleware':
                from django_cache_dependencies.middleware import TransactionMiddleware
                m = TransactionMiddleware(cache_alias=self.alias)
                m.process_request(None)
                try:
                    self.body(level)
                except Boom as e:
                    m.process_exception(None, e)
                    raise
                else:
                    m.process_response(None, None)
        except Boom:
            failed = True
        self.t('scope %d is closed%s', level, ' by an exception' if failed else '')
        self.stats.obs['closed by exception' if failed else 'closed normally'] += 1
        if level > 1:
            # neither forgets nor completes
            for v, key, tags in self.stored:
                if key in self.live:
                    self.stats.obs['there after nested end'] += 1
                    if not present(h, key, v):
                        self.t.fail('completed by nested', 'the end of a nested transaction dropped %s (tags %s)', key, sorted(tags))
            if failed and rng.random() < 0.5:
                raise Boom()

    def end_explicitly(self, level):
        rng = self.rng
        if level > 1:
            self.h.transaction.finish()
            return
        how = rng.choice(['finish', 'flush', 'close', 'request_finished', 'left open'])
        self.stats.obs['end ' + how] += 1
        self.t('ended by %s', how)
        if how == 'finish':
            self.h.transaction.finish()
        elif how == 'flush':
            self.h.transaction.flush()
        elif how == 'close':
            self.h.close()
        elif how == 'request_finished':
            dcd.close_caches()
        else:                     # nested ones are left open, too
            for _ in range(rng.randint(0, 2)):
                self.h.transaction.begin()
            self.invalidate(rng.sample(self.tags, 1), None)
            self.put(True)
            self.h.transaction.flush()

    def run(self):
        try:
            for _ in range(self.rng.randint(1, 3)):
                for _ in range(self.rng.randint(0, 2)):
                    self.put(self.rng.random() < 0.5)
                self.scope(1)
                self.judge(self.invalidated, 'the end of the transaction')
                self.invalidated = set()
                CLOCK.advance(20)
                self.judge_later()
        finally:
            self.h.close()
            self.crew.close()
        self.stats.evaluations += 1
        self.stats.sig('ways', self.alias, self.t.lines)
        self.stats.sample('\n'.join([self.alias] + self.t.lines[:30]), limit=1)

    def judge_later(self):
        # with a delay the tags are invalidated once more; what was live may be gone only then
        if self.alias[2] == '3':
            self.live = set(k for v, k, _ in self.stored if present(self.h, k, v))


class Check(BaseCheck):
    prop = 'T01'
    quick = 1800
    thorough = 50000
    technique = ('runtime monitoring: scopes of every kind with stores of other sessions in between judged online, random '
                 'programs against a reference model, and event logs of scheduled threads checked offline')
    rule = ('case = (a) one to three transactions opened and ended in a random way (7 forms, nesting up to 3, exceptions, flush, '
            'close, request end), with own and foreign stores around and inside, all judged after every invalidation, nested end '
            'and outermost end; (b) a random program full of transactions against the model; (c) a concurrent program under a '
            'random schedule, reads after an end judged against all stores before it; non-trivial = distinct trace')
    level_note = 'thousands of executions per run, every read judged; schedules are sampled, not enumerated'
    assumptions = ['clock strictly monotonic between events of one case']

    def required(self, tier):
        return {'must be gone': 500, 'there after nested end': 100, 'closed by exception': 100, 'scope middleware': 20,
                'end request_finished': 10, 'reads judged hit': 500, 'switches': 3000}

    def run_case(self, rng, idx, tier, stats):
        m = idx % 3
        if m == 0:
            Ways(rng, stats).run()
        elif m == 1:
            Program(rng, P, ('stale-own', 'stale-inherited', 'exception'), stats).run()
        else:
            ops = dict(OPS, txn=5, invalidate=4, set=5, read=5)
            run_random(rng, stats, ('stale-end', 'stale-own', 'stale-inherited'), ['rc0', 'rc0', 'rr0', 'sr0', 'rc3', 'rr3'],
                       ops=ops, versions=rng.choice([(None,), (None, 1, 2)]))
