import warnings

from cache_dependencies.cache import AbstractCache
from cache_dependencies import interfaces
from checks.base import BaseCheck
from kit import MISS, Tracer
from seq import same


class Adapter(AbstractCache):
    """Supplies the primitive operations only; records what they are called with."""

    def __init__(self, prefix='', version=1, key_func=None):
        self.data = {}
        self.calls = []
        self.key_prefix = prefix
        self.version = version
        if key_func:
            self.key_func = key_func

    def add(self, key, value, timeout=None, version=None):
        k = self.make_key(key, version)
        self.calls.append(('add', k, timeout))
        if k in self.data:
            return False
        self.data[k] = (value, timeout)
        return True

    def get(self, key, default=None, version=None):
        k = self.make_key(key, version)
        self.calls.append(('get', k))
        return self.data[k][0] if k in self.data else default

    def set(self, key, value, timeout=None, version=None):
        k = self.make_key(key, version)
        self.calls.append(('set', k, timeout))
        self.data[k] = (value, timeout)

    def delete(self, key, version=None):
        k = self.make_key(key, version)
        self.calls.append(('delete', k))
        self.data.pop(k, None)

    def clear(self):
        self.data.clear()


class Reference(object):
    """The sequence of primitive operations, on a plain dict keyed by (version, key)."""

    def __init__(self, version):
        self.d = {}
        self.version = version

    def v(self, version):
        return self.version if version is None else version

    def get(self, key, default=None, version=None):
        return self.d.get((self.v(version), key), (default, None))[0]

    def set(self, key, value, timeout=None, version=None):
        self.d[(self.v(version), key)] = (value, timeout)

    def delete(self, key, version=None):
        self.d.pop((self.v(version), key), None)

    def add(self, key, value, timeout=None, version=None):
        if (self.v(version), key) in self.d:
            return False
        self.set(key, value, timeout, version)
        return True

    def get_many(self, keys, version=None):
        return {k: self.get(k, version=version) for k in keys if self.get(k, version=version) is not None}

    def has_key(self, key, version=None):
        return self.get(key, version=version) is not None

    def incr(self, key, delta=1, version=None):
        if self.get(key, version=version) is None:
            raise ValueError(key)
        n = self.get(key, version=version) + delta
        self.set(key, n, version=version)
        return n

    def decr(self, key, delta=1, version=None):
        return self.incr(key, -delta, version)

    def set_many(self, data, timeout=None, version=None):
        for k, x in data.items():
            self.set(k, x, timeout, version)

    def delete_many(self, keys, version=None):
        for k in keys:
            self.delete(k, version)

    def incr_version(self, key, delta=1, version=None):
        v = self.v(version)
        x = self.get(key, version=v)
        if x is None:
            raise ValueError(key)
        self.set(key, x, version=v + delta)
        if delta:
            self.delete(key, v)
        return v + delta

    def decr_version(self, key, delta=1, version=None):
        return self.incr_version(key, -delta, version)


def tuple_key(key, prefix, version):
    return (prefix, version, key)


class Check(BaseCheck):
    prop = 'C11'
    quick = 2500
    thorough = 60000
    technique = 'runtime monitoring: differential oracle, a primitive-only adapter against a reference dictionary; warnings recorded'
    rule = ('case = a random sequence of derived and primitive operations on an adapter that supplies primitives only, with '
            'random prefix, default version and key function, compared with a reference dictionary after every operation; '
            'plus keys of any length and character through key validation; non-trivial = distinct sequence')
    level_note = 'results, exceptions and complete contents are compared after every operation'

    def required(self, tier):
        return {'compared': 20000, 'validated keys bad': 1000, 'validated keys good': 1000}

    def run_case(self, rng, idx, tier, stats):
        t = Tracer()
        default = rng.choice([1, 1, 2, 7, 0])
        kf = rng.choice([None, None, tuple_key])
        prefix = rng.choice(['', 'p', 'a:b'])
        a, ref = Adapter(prefix, default, kf), Reference(default)
        t('default version %s, prefix %s, key function %s', default, prefix, kf)
        keys = ['k%d' % i for i in range(4)] + ['\u043a', '', 'a:b', 'x' * 300]
        values = [None, 0, '', False, 1, 5, -2, 'v', [1], {'a': 1}, 2.5]

        def mk(x, ver):
            return kf(x, prefix, ver) if kf else '%s:%s:%s' % (prefix, ver, x)
        for _ in range(rng.randint(8, 30)):
            k, v, ver = rng.choice(keys), rng.choice(values), rng.choice([None, None, None, 1, 2, 3, 7])
            kw = {} if ver is None else {'version': ver}
            to = rng.choice([None, None, 10, 0])
            tkw = dict(kw) if to is None else dict(kw, timeout=to)
            ks = [rng.choice(keys) for _ in range(rng.randint(0, 5))]
            op = rng.choice(['get', 'set', 'set', 'set', 'add', 'delete', 'get_many', 'get_many', 'set_many', 'set_many',
                             'delete_many', 'has_key', 'in', 'incr', 'incr', 'decr', 'incr_version', 'incr_version', 'decr_version',
                             'make_key', 'close'])
            d = rng.choice([1, 1, 2, 5, -1])
            if op in ('incr', 'decr') and rng.random() < 0.7:
                n = rng.randint(-3, 9)
                a.set(k, n, **kw)
                ref.set(k, n, **kw)
            shape = rng.choice([list, tuple, set, iter])

            def call(c):
                if op in ('get', 'has_key', 'delete'):
                    return getattr(c, op)(k, **kw)
                if op in ('set', 'add'):
                    return getattr(c, op)(k, v, **tkw)
                if op == 'in':
                    return (k in c) if c is a else c.has_key(k)
                if op in ('get_many', 'delete_many'):
                    return getattr(c, op)(shape(ks), **kw)if c is a else getattr(c, op)(ks, **kw)
                if op == 'set_many':
                    return c.set_many(dict(zip(ks, data)), **tkw)
                if op in ('incr', 'decr', 'incr_version', 'decr_version'):
                    if d == 1 and plain:
                        return getattr(c, op)(k, **kw)
                    if positional:
                        return getattr(c, op)(k, d, ver)
                    return getattr(c, op)(k, delta=d, **kw)
                if op == 'make_key':
                    return c.make_key(k, **kw) if c is a else mk(k, default if ver is None else ver)
                if op == 'close':
                    return c.close() if c is a else None
            data = [rng.choice(values) for _ in ks]
            plain, positional = rng.random() < 0.5, rng.random() < 0.5

            def outcome(c):
                try:
                    return ('ok', call(c))
                except Exception as e:
                    return ('raised', type(e).__name__)
            ra, rb = outcome(a), outcome(ref)
            t('%s key=%s value=%s keys=%s delta=%s %s -> %s', op, k, v, ks, d, tkw, ra)
            stats.obs['compared'] += 1
            stats.evaluations += 1
            if not same(ra, rb):
                t.fail('result', '%s gave %s, the sequence of primitives gives %s', op, ra, rb)
            expected = {mk(x, ver_): val for (ver_, x), val in ref.d.items()}
            if a.data != expected or any(not same(a.data[x], expected[x]) for x in expected):
                t.fail('effect', 'after %s the cache holds %s, the sequence of primitives gives %s', op, a.data, expected)
        stats.sig(t.lines)
        stats.sample('\n'.join(t.lines[:15]))

        # key validation
        for _ in range(6):
            n = rng.choice([0, 1, 5, 249, 250, 251, 260, 400])
            chars = [rng.choice('abcXYZ019:_-{}%!~\x80\u00e9\u0442\ud7ff') for _ in range(n)]
            for _ in range(rng.choice([0, 0, 1, 2])):
                if chars:
                    chars[rng.randrange(len(chars))] = rng.choice(['\x00', '\n', '\t', ' ', '\x1f', '\x7f', '!', '\x80', '~', '{}', '{0}', '%s'][:9])
            key = ''.join(chars)
            bad = len(key) > 250 or any(ord(c) < 33 or ord(c) == 127 for c in key)
            stats.obs['validated keys ' + ('bad' if bad else 'good')] += 1
            t.lines.append('validate_key(%r)' % key)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    r = a.validate_key(key)
                except Exception as e:
                    t.fail('rejected', 'validate_key(%s) raised %s: %s', key, type(e).__name__, str(e))
            if bool(w) != bad:
                t.fail('warning', 'validate_key(%s) (length %d) issued %d warnings, portable: %s', key, len(key), len(w), not bad)
