import webapp
from checks.base import BaseCheck


class Check(BaseCheck):
    prop = 'D02'
    quick = 2000
    thorough = 90000
    technique = ('runtime monitoring: random sites served by Django\'s request handler over the real cache; unique numbers printed by '
                 'views, fragments and computations tell which run made each response, a reference model says which may be served')
    rule = ('case = 1 or 2 random sites (cache_page in its six forms, CacheMiddleware, two-part middleware, new and old style, with tag '
            'functions, Vary, prefixes, aliases, another middleware adding cached values, transactions) with 1 or 2 views each '
            '(HttpResponse or TemplateResponse of fragments and cached values with tags) and 12 to 30 requests, invalidations and '
            'clock steps in one or several threads, some requests served by another thread (often by the same instances of middleware) '
            'in the midst of a view, a rendering or the storing of a page; every response is judged; non-trivial = distinct trace')
    level_note = 'thousands of random sites and request histories, with a second thread serving requests at chosen points of others'
    assumptions = ['tags of a fragment and of a value count on the alias they are cached on',
                   'a tag is not invalidated while a page carrying it is being produced (see T03)']

    def required(self, tier):
        return {'pages from cache': 4000, 'pages stored with tags': 4000, 'invalidations': 3000, 'requests in the midst of another': 1000,
                'requests in the midst of a rendering': 250}

    def run_case(self, rng, idx, tier, stats):
        app = webapp.App(rng, stats, wild=0.04, prevent=rng.choice([0, 0, 0.3]), boom=rng.choice([0, 0.15]))
        app.run(rng.randint(12, 30))
