from again import toggled
from checks.base import BaseCheck
from progs import Profile, Program


class P4(Profile):
    coarse = 0.15
    keys = 7
    steps = (10, 26)
    ignore_case = 0.2
    versions = [None, None, None, None, 2]
    weights = dict(build=10, compute=5, bulk=3, store=4, read=4, invalidate=3, delete=1,
                   advance=0.5, leap=0, evict=0, close=2, dangle=1.5, leave=1.5, optout=4, txn=0.7, hop=3)
    child = dict(build=10, compute=5, bulk=4, store=3, read=4, invalidate=1, delete=0.5,
                 advance=0.2, leap=0, evict=0, close=0, dangle=0.7, leave=0.7, optout=4, txn=0.2, hop=2)
    outcome = [(6, 'set'), (2, 'abort'), (2, 'raise')]


class Check(BaseCheck):
    prop = 'C04'
    quick = 1600
    level_note = ('a record which disappears although nothing of its own was invalidated is judged in every read of thousands of '
                  'random programs; random sampling, not exhaustive')
    thorough = 40000
    rule = ('case = a random nested program with many aborted, failing, dangling and opted-out builds, closes and '
            'handles with tracking off (in a tenth of the cases, turned off and on in an open build); afterwards every tag is invalidated in turn and all records are read back; '
            'non-trivial = distinct trace with at least two records and one invalidation')

    def required(self, tier):
        return {'ok-hit alive': 2000, 'sweep invalidations': 1000, 'builds stored depth 1': 100, 'closed with a forgotten build': 200,
                'reads with tracking off in an open build': 100}

    def run_case(self, rng, idx, tier, stats):
        if idx % 10 == 9:
            toggled(rng, stats, ('lost-foreign',))
        Program(rng, P4, ('lost-foreign', 'exception'), stats).run()
