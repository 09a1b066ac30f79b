from again import equal_values
from checks.base import BaseCheck
from kit import MISS, CLOCK, Tracer, deps, fresh, native, store, dcd

ALIASES = ['default', 'rc0', 'ru0', 'rr0', 'sr0', 'v7', 't50', 'inf', 't50', 'inf']
DEFAULTS = {'t50': 50, 'inf': None}
DAY = 24 * 3600


def styles(key, value, tags, timeout, version, tagged):
    """All the ways to write the same store: (name, args, kwargs)."""
    out = []
    T, V = timeout, version
    if tagged:
        out.append(('tagged kw', (key, value), dict(tags=tags, timeout=T, version=V)))
        out.append(('tagged pos', (key, value, tags, T, V), {}))
        out.append(('tagged pos version kw', (key, value, tags, T), dict(version=V)))
        out.append(('tagged timeout kw', (key, value, tags), dict(timeout=T, version=V)))
        out.append(('tagged all kw', (), dict(key=key, value=value, tags=tags, timeout=T, version=V)))
        if V is None:
            out.append(('tagged pos no version', (key, value, tags, T), {}))
            out.append(('tagged kw no version', (key, value, tags), dict(timeout=T)))
            if T is None:
                out.append(('tagged only', (key, value, tags), {}))
                out.append(('tags kw only', (key, value), dict(tags=tags)))
    else:
        out.append(('kw', (key, value), dict(timeout=T, version=V)))
        if V is None:
            out.append(('timeout kw', (key, value), dict(timeout=T)))
        if T is None:
            out.append(('version kw', (key, value), dict(version=V)))
            if V is None:
                out.append(('plain', (key, value), {}))
        out.append(('empty tags', (key, value, (), T, V), {}))
        out.append(('native pos', (key, value, T, V), {}))
        out.append(('native version kw', (key, value, T), dict(version=V)))
        if V is None:
            out.append(('native timeout', (key, value, T), {}))
    if isinstance(tags, deps.interfaces.IDependency):
        # the dependency level interface below the tagging handle
        out.append(('wrapper pos', (key, value, tags, T, V), {}))
        out.append(('wrapper kw', (key, value), dict(dependency=tags, timeout=T, version=V)))
        if V is None:
            out.append(('wrapper no version', (key, value, tags, T), {}))
            if T is None:
                out.append(('wrapper only', (key, value, tags), {}))
    elif not tagged:
        out.append(('wrapper none', (key, value, None, T, V), {}))
        out.append(('wrapper dummy kw', (key, value), dict(dependency=deps.DummyDependency(), timeout=T, version=V)))
        if V is None:
            out.append(('wrapper none no version', (key, value, None), dict(timeout=T)))
    return out


class Check(BaseCheck):
    prop = 'C08'
    quick = 2400
    thorough = 60000
    technique = 'runtime monitoring: virtual clock, reads just before and just after the deadline of every call style'
    rule = ('case = one store or read-or-compute in each of its up to fourteen equivalent call styles (tagged, native, keywords, dependency objects below the tagging handle), '
            'with random timeout, version, tags, cache default, nesting in a build and transactions; the record is read a '
            'moment before and after its deadline; one case of twelve stores an equal value again with other timeouts; non-trivial = distinct (style, timeout, version, cache, context)')
    level_note = 'exact deadlines on a virtual clock for every call style, cache default and context generated'

    def required(self, tier):
        return {'served before the deadline': 3000, 'gone after the deadline': 3000, 'get_or_set styles': 1500, 'wrapper styles': 1500,
                'equal values expired': 50, 'equal values served': 200}

    def run_case(self, rng, idx, tier, stats):
        if idx % 12 == 11:
            equal_values(rng, stats, ('served too long', 'lost'))
            return
        alias = rng.choice(ALIASES)
        default_timeout = DEFAULTS.get(alias, 300)
        timeout = rng.choice([None, None, 1, 2, 10, 50, 51, 299, 300, 301, 3600, 80000, 0, -1, 0.5, 2.5, 1000, 40 * DAY, 400 * DAY])
        version = rng.choice([None, None, None, 1, 2, 7, 50])
        tagged = rng.random() < 0.6 and not (timeout or 0) > DAY      # bookkeeping of tags lasts for a day
        tags = rng.choice([['a'], ('a', 'b'), {'a'}, frozenset(['a', 'b']), deps.TagsDependency('a'),
                           deps.CompositeDependency(deps.TagsDependency('a'), deps.DummyDependency())]) if tagged else ()
        use_compute = rng.random() < 0.45
        context = rng.choice(['plain', 'plain', 'in build', 'own build', 'in transaction', 'existing', 'after inherit'])
        if (timeout or 0) > DAY and context == 'after inherit':
            context = 'own build'
        value = rng.choice(['value', 'value', 5, [1], '', 0, False])
        effective = default_timeout if timeout is None else timeout
        age = DAY - 3600 if effective is None else effective
        for name, args, kwargs in styles('k', value, tags, timeout, version, tagged):
            for when in ('before', 'after'):
                self.one(rng, stats, alias, name, args, kwargs, use_compute, context, value, version, effective, age, when)

    def one(self, rng, stats, alias, name, args, kwargs, use_compute, context, value, version, effective, age, when):
        t = Tracer()
        h = fresh(alias)
        top = h
        if name.startswith('wrapper'):
            h = h.cache
            stats.obs['wrapper styles'] += 1
        kw = {} if version is None else {'version': version}
        t('cache %s (default timeout %s): %s(%s, %s), %s, style %s', alias, DEFAULTS.get(alias, 300),
          'get_or_set_callback' if use_compute else 'set', args, kwargs, context, name)
        if context == 'existing':
            top.set('k', 'older', ['old'], 1, version)
            CLOCK.advance(2)
        elif context == 'in build':
            h.get('outer', **kw)
        elif context == 'in transaction':
            h.transaction.begin()
        elif context == 'after inherit':
            top.set('child', 1, ['inh'], 100000, **kw)
        if use_compute:
            a, k = list(args), dict(kwargs)
            calls = []

            def callback(x=None, y=None):
                calls.append((x, y))
                if context == 'after inherit':
                    h.get('child', **kw)
                return value
            if 'value' in k:
                k['callback'] = k.pop('value')
                k['callback'] = callback
            else:
                a[1] = callback
            if rng.random() < 0.5:
                k['args'], k['kwargs'] = (1,), {'y': 2}
            if len(a) == 2 and 'tags' not in k and name in ('kw', 'timeout kw', 'version kw', 'plain') and rng.random() < 0.5:
                k['tags'] = ()
            r = h.get_or_set_callback(*a, **k)
            if r != value or len(calls) != 1:
                t.fail('callback', 'the first read-or-compute returned %s after %d calls of the callback', r, len(calls))
            if 'args' in k and calls[0] != (1, 2):
                t.fail('callback', 'callback called with %s', calls)
            stats.obs['get_or_set styles'] += 1
        else:
            if context in ('own build', 'after inherit'):
                h.get('k', **kw)
                if context == 'after inherit':
                    h.get('child', **kw)
            h.set(*args, **kwargs)
        if context == 'in transaction':
            h.transaction.finish()
        elif context == 'in build':
            h.set('outer', 1, **kw)
        elif context == 'after inherit':
            pass
        stored_at = CLOCK.peek()
        stats.evaluations += 1
        stats.sig(alias, name, repr(sorted(map(str, kwargs))), str(effective), version, context, use_compute, repr(value))
        stats.sample(t.lines[0])

        def look(how):
            if how == 'get':
                v = h.get('k', MISS, abort=True, **kw)
            elif how == 'bulk':
                v = h.get_many(['k', 'x'], abort=True, **kw).get('k', MISS)
            else:
                again = []

                def cb():
                    again.append(1)
                    return 'computed again'
                if 'callback' in kwargs or 'value' in kwargs:
                    v = h.get_or_set_callback(key='k', callback=cb, **{x: y for x, y in kwargs.items() if x not in ('key', 'value')})
                else:
                    v = h.get_or_set_callback('k', cb, *args[2:], **kwargs)
                v = MISS if again else v
            return v
        how = rng.choice(['get', 'bulk', 'compute'] if use_compute else ['get', 'bulk'])
        # other versions never get it
        other = 99
        if h.get('k', MISS, version=other, abort=True) is not MISS:
            t.fail('version', 'stored with version %s but found with version %s', version, other)
        base = native(alias).version
        if version is not None and version != base and h.get('k', MISS, abort=True) is not MISS:
            t.fail('version', 'stored with version %s but found without version', version)
        if when == 'before':
            if effective is not None and effective <= 0:
                if look(how) is not MISS:
                    t.fail('served too long', 'timeout %s but %s returned it at once', effective, how)
                stats.obs['gone after the deadline'] += 1
                return
            dt = rng.choice([0.97, 0.97, 0.5, 0.01]) * age
            CLOCK.advance(dt - 0.001 if effective else dt)
            v = look(how)
            if v is MISS or v != value:
                t.fail('not served', '%s seconds after the store (timeout %s) %s gave %s', dt, effective, how,
                       'a miss' if v is MISS else v)
            stats.obs['served before the deadline'] += 1
        else:
            if effective is None:
                return
            CLOCK.advance(max(effective, 0) + rng.choice([0.01, 0.5, 5, 1000]) - (CLOCK.peek() - stored_at))
            v = look(how)
            if v is not MISS:
                t.fail('served too long', '%s seconds after the store (timeout %s) %s returned %s',
                       CLOCK.peek() - stored_at, effective, how, v)
            stats.obs['gone after the deadline'] += 1
        h.close()
