from again import equal_values, toggled
from checks.base import BaseCheck
from conc import OPS, run_random
from progs import Profile, Program


class P3(Profile):
    coarse = 0.15
    keys = 8
    steps = (10, 26)
    depth = 6
    versions = [None, None, None, None, 1, 2]
    threads = ['M', 'M', 'T1']
    timeouts = [None, None, None, None, 1000, 0]
    weights = dict(build=12, compute=8, bulk=3, store=3, read=2, invalidate=3, delete=0.7, advance=0.4,
                   leap=0, evict=0, close=0.3, dangle=1.5, optout=1, txn=0.7, hop=1)
    child = dict(build=10, compute=8, bulk=6, store=5, read=4, invalidate=0.7, delete=0.5, advance=0.2,
                 leap=0, evict=0, close=0, dangle=1.5, optout=1, txn=0.3, hop=1.5)
    outcome = [(10, 'set'), (1, 'abort'), (1, 'raise')]


class Check(BaseCheck):
    prop = 'C03'
    quick = 2000
    thorough = 40000
    rule = ('case = a random program of nested builds up to depth 6 (single, bulk and read-or-compute reads, stores, '
            'aborted siblings, other threads in between), one of three concurrent under a random schedule, one of twelve storing equal values again; afterwards every tag is invalidated in turn and every record '
            'read back; non-trivial = distinct trace with at least two records and one invalidation')
    level_note = ('random build trees; each composite carries in the model every tag of everything it was built from, and the '
                  'final sweep invalidates every tag one by one; trusts the model')

    def required(self, tier):
        return {'ok-miss dead:stale-inherited': 500, 'builds stored depth 2': 300, 'sweep invalidations': 2000,
                'equal values gone': 100}

    def run_case(self, rng, idx, tier, stats):
        if idx % 12 == 11:
            equal_values(rng, stats, ('stale-inherited',))
            toggled(rng, stats, ('stale-inherited',))
            return
        if idx % 3 == 0:
            run_random(rng, stats, ('stale-inherited',), ['default', 'rc0', 'ru0', 'rr0', 'sr0'],
                       ops=dict(OPS, build=9, compute=6, invalidate=2, txn=0.5))
            return
        Program(rng, P3, ('stale-inherited', 'exception'), stats).run()
