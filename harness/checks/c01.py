from again import equal_values
from checks.base import BaseCheck
from conc import run_random
from progs import Profile, Program


class P1(Profile):
    keys = 5
    coarse = 0.25
    threads = ['M', 'M', 'T1', 'T2']
    timeouts = [None, None, 60, 400000]
    weights = dict(build=6, compute=3, bulk=3, store=8, read=5, invalidate=8, delete=1,
                   advance=1, leap=0.7, evict=2, close=0.5, dangle=0.3, optout=1, txn=1.5, hop=2)
    child = dict(Profile.child, invalidate=2, evict=0.5)


class Check(BaseCheck):
    prop = 'C01'
    quick = 2000
    thorough = 60000
    technique = ('runtime monitoring: random programs against a reference model, and scheduled real threads whose event log '
                 'is checked offline for reads of invalidated values')
    rule = ('case = a random program (builds, stores, bulk reads, invalidations, evictions of bookkeeping, leaps of the clock, '
            'several threads and handles, transactions) executed step by step against the model, or (two cases of five) a '
            'concurrent program of 2-4 threads switched at backend operations under a random schedule; finally every tag is '
            'invalidated in turn and everything read; one case of twelve stores equal values again under other tags; non-trivial = distinct trace with records and invalidations')
    level_note = ('every read of thousands of programs and schedules is judged; no exhaustive enumeration of interleavings; trusts '
                  'the model and the monitored backend')
    assumptions = ['bulk backend operations are atomic',
                   'in concurrent histories only calls that do not overlap are ordered']

    def required(self, tier):
        return {'ok-miss dead:stale-own': 500, 'ok-hit alive': 500, 'evicted': 50, 'reads judged hit': 3000, 'switches': 3000,
                'equal values gone': 100}

    def run_case(self, rng, idx, tier, stats):
        if idx % 12 == 11:
            equal_values(rng, stats, ('stale-own',))
        elif idx % 5 < 2:
            run_random(rng, stats, ('stale-own',), ['default', 'rc0', 'rc0', 'ru0', 'rr0', 'sr0', 'rc3', 'rr3'],
                       versions=rng.choice([(None,), (None,), (None, 1, 2)]), tick=rng.choice([None, None, 0]))
        else:
            Program(rng, P1, ('stale-own', 'revived', 'exception'), stats).run()
