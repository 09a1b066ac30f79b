from checks.base import BaseCheck
from kit import MISS, CLOCK, Tracer, deps, fresh, native, store, dcd
from seq import same

PAIRS = {'default': 'shadow', 'v7': 'shadow7', 't50': 'shadow50'}
VALUES = [None, None, 0, '', False, [], {}, (), 1, 2, 'x', [1, {'a': 2}], b'\x00', 1.5, True, {'__value': 1}, {'__dependency': 1}, {'__dependency': None, 'a': 1}, {'a': 1}, 10 ** 30, -3]


class Check(BaseCheck):
    prop = 'C10'
    quick = 3000
    thorough = 40000
    technique = 'runtime monitoring: differential oracle, every operation on the layer against a shadow of the wrapped cache'
    rule = ('case = a random sequence of native operations through the layer (also inside builds and transactions), reads of '
            'values put there directly, and untagged stores, each repeated on an identical cache without the layer; '
            'results, exceptions, and raw contents and lifetimes of native records must agree; non-trivial = distinct sequence')
    level_note = 'each operation is compared with an identical backend without the layer; a raw None read through the layer may be a miss'

    def required(self, tier):
        return {'compared': 15000, 'raw contents compared': 10000, 'reads of None': 4}

    def run_case(self, rng, idx, tier, stats):
        alias = rng.choice(sorted(PAIRS))
        shadow_alias = PAIRS[alias]
        by_ref = rng.random() < 0.2
        t = Tracer()
        layer = fresh(alias, by_ref=by_ref)
        fresh(shadow_alias, by_ref=by_ref)
        shadow, raw = native(shadow_alias), native(alias)
        use_proxy = alias == 'default' and rng.random() < 0.4
        r = ['r%d' % i for i in range(4)] + ['\u043a\u043b\u044e\u0447', 'key with space']
        l = ['l%d' % i for i in range(3)]
        if rng.random() < 0.15:         # the wrapped cache takes anything for a key
            r[:3] = rng.sample([0, 7, -1, 2.5, (1, 'x'), b'r', True], 3)
            l[:2] = [42, ('l', 1)]
            stats.obs['cases with keys which are not strings'] += 1
        vers = [None, None, None, 1, 2, 7]
        t('cache %s, by reference %s', alias, by_ref)
        inside = 0

        def act(fn, target):
            try:
                return ('ok', fn(target))
            except Exception as e:
                return ('raised', type(e).__name__, str(e))

        def both(name, on_layer, on_shadow=None):
            lay = dcd.cache if use_proxy and rng.random() < 0.5 else layer
            if name.startswith('wrapper ') :
                lay = layer.cache
            a = act(on_layer, lay)
            b = act(on_shadow or on_layer, shadow)
            t('%s -> %s', name, a)
            stats.obs['compared'] += 1
            stats.evaluations += 1
            if not same(a, b) and not (a[0] == b[0] == 'ok' and same(a[1], b[1])):
                t.fail('differs', '%s gave %s, the wrapped cache alone gives %s', name, a, b)

        for _ in range(rng.randint(10, 40)):
            k, v, ver = rng.choice(r), rng.choice(VALUES), rng.choice(vers)
            ks = [rng.choice(r) for _ in range(rng.randint(0, 4))]
            kw = {} if ver is None else {'version': ver}
            to = rng.choice([None, None, 10, 100, 0, 1000])
            tkw = dict(kw) if to is None else dict(kw, timeout=to)
            op = rng.choice(['add', 'add', 'set_many', 'set_many', 'delete', 'delete_many', 'incr', 'incr', 'decr', 'has_key',
                             'in', 'clear', 'incr_version', 'decr_version', 'get_or_set', 'raw set', 'raw set', 'get', 'get',
                             'get_many', 'get_many', 'layer', 'layer', 'layer', 'advance', 'attrs', 'native set', 'tag ops',
                             'build', 'txn', 'make_key', 'notin', 'wrapper'])
            if op == 'add':
                both('add(%r, %r, %s)' % (k, v, tkw), lambda c: c.add(k, v, **tkw))
            elif op == 'set_many':
                data = {x: rng.choice(VALUES) for x in ks}
                both('set_many(%r, %s)' % (data, tkw), lambda c: c.set_many(data, **tkw))
            elif op == 'delete':
                x = rng.choice(r + l)
                both('delete(%r, %s)' % (x, kw), lambda c: c.delete(x, **kw))
            elif op == 'delete_many':
                both('delete_many(%r, %s)' % (ks, kw), lambda c: c.delete_many(ks, **kw))
            elif op in ('incr', 'decr'):
                d = rng.choice([1, 5, -2])
                if rng.random() < 0.7:
                    n = rng.randint(0, 9)
                    both('set_many', lambda c: c.set_many({k: n}, **kw))
                if rng.random() < 0.5:
                    both('%s(%r, %d, %s)' % (op, k, d, kw), lambda c: getattr(c, op)(k, d, **kw))
                else:
                    both('%s(%r, %s)' % (op, k, kw), lambda c: getattr(c, op)(k, **kw))
            elif op == 'has_key':
                x = rng.choice(r + l)
                both('has_key(%r, %s)' % (x, kw), lambda c: c.has_key(x, **kw))
            elif op in ('in', 'notin'):
                x = rng.choice(r + l + ['never'])
                both('%r in cache' % (x,), lambda c: (x in c, x not in c))
                if use_proxy:
                    if (x in dcd.cache) != (x in shadow):
                        t.fail('differs', '%r in the proxy', x)
            elif op == 'clear' and rng.random() < 0.3:
                both('clear()', lambda c: c.clear())
            elif op in ('incr_version', 'decr_version'):
                x = rng.choice(r + l)
                d = rng.choice([1, 2])
                both('%s(%r, %d, %s)' % (op, x, d, kw), lambda c: getattr(c, op)(x, d, **kw))
            elif op == 'get_or_set':
                value = v if rng.random() < 0.5 else (lambda: v)
                both('get_or_set(%r, %r, %s)' % (k, v, tkw), lambda c: c.get_or_set(k, value, **tkw))
            elif op == 'raw set':
                raw.set(k, v, **tkw)
                shadow.set(k, v, **tkw)
                t('put directly: %s = %s, %s', k, v, tkw)
            elif op == 'native set':
                both('set(%r, %r, %s)' % (k, v, tkw), lambda c: c.set(k, v, **tkw))
                # stored by the layer in its own form
                both('delete', lambda c: c.delete(k, **kw))
            elif op == 'get':
                x = rng.choice(r + l)
                d = rng.choice([None, 'dflt'])
                if shadow.get(x, MISS, **kw) is None and x in r:       # None in the wrapped cache is a miss of the layer
                    d = None
                    stats.obs['reads of None'] += 1
                if rng.random() < 0.5:
                    both('get(%r, %r, %s)' % (x, d, kw), lambda c: c.get(x, d, **kw))
                else:
                    both('get(%r, %s)' % (x, kw), lambda c: c.get(x, **kw))
                layer.abort(x)
            elif op == 'get_many':
                xs = ks + [rng.choice(l)]
                both('get_many(%r, %s)' % (xs, kw), lambda c: c.get_many(xs, **kw))
            elif op == 'wrapper':
                xs = ks + [rng.choice(l)]
                both('wrapper get_many(%r, %s)' % (xs, kw), lambda c: c.get_many(xs, **kw))
                both('wrapper %r in cache' % (k,), lambda c: k in c)
                both('wrapper has_key(%r)' % (k,), lambda c: c.has_key(k, **kw))
            elif op == 'layer':
                x = rng.choice(l)
                v = rng.choice(VALUES[2:])
                both('set(%r, %r, %s)' % (x, v, tkw), lambda c: c.set(x, v, **tkw))
                if rng.random() < 0.5:
                    both('add(%r)' % (x,), lambda c: c.add(x, 'added'  , 5, **kw) if x in c else None)
            elif op == 'advance':
                dt = rng.choice([1, 5, 20, 200])
                CLOCK.advance(dt)
                t('clock + %d', dt)
            elif op == 'attrs':
                for a in ('version', 'key_prefix', 'default_timeout', '_max_entries'):
                    both('attribute ' + a, lambda c: getattr(c, a))
                both('missing attribute', lambda c: getattr(c, 'no_such_attribute'),
                     lambda c: getattr(c, 'no_such_attribute'))
            elif op == 'make_key':
                both('make_key', lambda c: c.make_key(k, ver))
                both('validate_key', lambda c: c.validate_key('k'))
            elif op == 'tag ops':
                layer.set('tagged', 1, ['x'])
                layer.invalidate_tags('x', 'y')
                t('tagged operations of other keys')
                for c in (layer, shadow):
                    c.delete('tagged')
            elif op == 'build':
                layer.get('build%d' % inside)
                inside += 1
            elif op == 'txn':
                if layer.transaction.current():
                    layer.transaction.finish()
                else:
                    layer.transaction.begin()
        # raw contents of native records
        layer.close()
        a, b = store(alias), store(shadow_alias)
        for x in r:
            for ver in (1, 2, 3, 7, 8, 9):
                full = raw.make_key(x, version=ver)
                ra, rb = a.data.get(full), b.data.get(full)
                stats.obs['raw contents compared'] += 1
                if (ra is None) != (rb is None):
                    t.fail('contents', 'raw record %s: %s with the layer, %s without', full, ra, rb)
                if ra is not None:
                    va, vb = a.peek(full), b.peek(full)
                    if not same(va, vb):
                        t.fail('contents', 'raw record %s holds %s with the layer, %s without', full, va, vb)
                    ea, eb = ra[0], rb[0]
                    if (ea is None) != (eb is None) or ea is not None and abs(ea - eb) > 0.01:
                        t.fail('contents', 'raw record %s expires at %s with the layer, %s without', full, ea, eb)
        for x in r + l:
            for ver in (None, 1, 2, 7):
                g, s = layer.get(x, MISS, version=ver, abort=True), shadow.get(x, MISS, version=ver)
                if not same(g, s) and not (s is None and g is MISS and x in r):
                    t.fail('differs', 'finally get(%s, version=%s) gives %s, the wrapped cache alone %s', x, ver, g, s)
                if layer.has_key(x, version=ver) != shadow.has_key(x, version=ver):
                    t.fail('differs', 'finally has_key(%s, version=%s)', x, ver)
        stats.sig(t.lines)
        stats.sample('\n'.join(t.lines[:25]))
