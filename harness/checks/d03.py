import webapp
from checks.base import BaseCheck


class Check(BaseCheck):
    prop = 'D03'
    quick = 2000
    thorough = 90000
    technique = ('runtime monitoring: random sites with many kinds of requests and responses served by Django\'s request handler over '
                 'the real cache; every response is judged by a reference model of what may be stored and for whom')
    rule = ('case = 1 or 2 random sites with requests of several hosts, schemes, queries, methods and header values, responses of '
            'several statuses, streaming, max-age, Vary, prevention by the view or inside of fragments at any depth, '
            'errors, anonymous-only sites, requests served by another thread in the midst of others; every response is judged: pages come from the cache only if stored for the very same '
            'request, cacheable, within their lifetime; non-trivial = distinct trace')
    level_note = 'thousands of random sites and request histories, with a second thread serving requests at chosen points of others'
    assumptions = ['request headers a response varies on have values of their own (Django hashes them without separators)']

    def required(self, tier):
        return {'pages from cache': 3000, 'pages stored': 5000, 'pages not to be stored': 5000, 'requests in the midst of another': 1000,
                'requests in the midst of a rendering': 250}

    def run_case(self, rng, idx, tier, stats):
        app = webapp.App(rng, stats, wild=rng.choice([0.1, 0.25]), prevent=rng.choice([0, 0.5, 1.5]), boom=rng.choice([0, 0.15]), hosts=2)
        app.run(rng.randint(12, 30))
