from again import equal_values
from checks.base import BaseCheck
from conc import run_random
from kit import Tracer, fresh
from progs import Profile, Program

VALUES = [
    None, 0, '', False, [], {}, (), 0.0, b'', float('nan'), True, 'x', b'\x00\xff', 10 ** 40, -1, 1.5,
    {'a': [1, 2, {'b': None}]}, {'__value': 5}, {'__value': 5, '__dependency': None}, ['__value'],
    frozenset([1, 2]), {1, 2}, (1, (2, (3,))), '\u0442\u0435\u0441\u0442', 'a' * 5000, Ellipsis, type, len,
]


class P2(Profile):
    coarse = 0.15
    keys = 8
    threads = ['M', 'M', 'T1', 'T2']
    timeouts = [None, None, None, 60, 1000, 500000]
    weights = dict(build=6, compute=3, bulk=4, store=8, read=8, invalidate=4, delete=2, advance=1.5,
                   leap=0.7, evict=0.3, close=0.5, dangle=0.5, optout=2, txn=1.5, hop=2)
    child = dict(Profile.child, invalidate=1)


class Values(Program):
    """Keys 'n*' hold values of any type, written and read by the plain calls only."""

    def op_store(self, depth):
        w, rng = self.w, self.rng
        if rng.random() < 0.4:
            self.n += 1
            v = rng.choice(VALUES)
            if rng.random() < 0.3:
                v = [v, self.n]
            self.stats.obs['value ' + type(v).__name__] += 1
            w.set('n%d' % rng.randrange(4), v, self.some_tags(), rng.choice(self.prof.timeouts), self.version(),
                  style=rng.choice(['pos', 'kw', 'mixed']))
        else:
            super(Values, self).op_store(depth)

    def op_read(self, depth):
        w, rng = self.w, self.rng
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                w.read('n%d' % rng.randrange(4), self.version(), style=rng.choice(['get', 'positional']), abort=True)
            else:
                w.read_many(['n%d' % i for i in range(4)], self.version(), abort=rng.random() < 0.5)
        else:
            super(Values, self).op_read(depth)


class Check(BaseCheck):
    prop = 'C02'
    quick = 1800
    thorough = 40000
    rule = ('case = a random program of stores of values of any type, reads, bulk reads, builds, aborts, deletes, '
            'invalidations of other tags and versions, and leaps of the clock; every read is compared with the '
            'reference model; one case of three is a concurrent program under a random schedule, checked offline; one of twelve stores equal values again; one of 1800 has some 300000 tags; non-trivial = distinct trace with at least two records and one invalidation')
    level_note = ('every read in thousands of random sequential multi-thread programs is judged by a reference model of '
                  'which value must still be there; trusts the model and the monitored in-memory backend')
    assumptions = ['in concurrent histories a store is required to be there only if no other store under its tags overlapped it',
                   'the backend keeps what it acknowledged, except where eviction is injected',
                   'values stored while a foreign lock may exist are not required to be there']

    def required(self, tier):
        return {'ok-hit alive': 3000, 'value NoneType': 3, 'equal values served': 200, 'tags in crowds': 280000}

    def crowd(self, rng, stats):
        """So many tags at once that short or weak names of their bookkeeping coincide."""
        h = fresh('default')
        t = Tracer()
        half = rng.randint(140000, 160000)
        names = [lambda i: 'post %d' % i, lambda i: i, lambda i: '%d.comment' % (i * 7919), lambda i: 'blog.post.pk:%d' % i][rng.randrange(4)]
        tags = [names(i) for i in range(2 * half)]
        rng.shuffle(tags)
        kept, gone = tags[:half], tags[half:]
        t('%d records of 1000 tags each like %r; then as many other tags are invalidated, like %r', half // 1000, kept[0], gone[0])
        n = 0
        for i in range(0, half, 1000):
            h.set('k%d' % n, n, kept[i:i + 1000], 80000)
            n += 1
        for i in range(0, half, 1000):
            h.invalidate_tags(*gone[i:i + 1000])
        stats.obs['tags in crowds'] += 2 * half
        for i in range(n):
            stats.evaluations += 1
            if h.get('k%d' % i) != i:
                t.fail('lost', 'k%d is missed, though none of its tags was invalidated', i)
        stats.sig('crowd', half, kept[0])

    def run_case(self, rng, idx, tier, stats):
        if idx % 1800 == 900:
            self.crowd(rng, stats)
            return
        if idx % 12 == 11:
            equal_values(rng, stats, ('lost',))
            return
        if idx % 3 == 0:
            run_random(rng, stats, ('lost', 'overwritten', 'deleted', 'wrong-value'),
                       ['default', 'rc0', 'rc0', 'ru0', 'ru0', 'rr0'], versions=rng.choice([(None,), (None,), (None, 1, 2)]))
            return
        Values(rng, P2, ('lost', 'lost-foreign', 'wrong-value', 'foreign-value', 'overwritten', 'deleted', 'exception'),
               stats).run()
