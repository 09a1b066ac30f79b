import errno
import hashlib
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time

from checks.base import BaseCheck
from core import Inconclusive, weighted
from env import CLOCK, REAL_MONO, REAL_TIME
from kit import MISS, Tracer
from django_cache_dependencies.backends import FileBasedCache

LIBRARY = os.path.realpath(sys.modules[FileBasedCache.__module__].__file__)
OTHER = '/dev/shm'


def payload(rng, key, ident, size):
    data = rng.getrandbits(8 * size).to_bytes(size, 'big') if size else b''
    return {'key': key, 'id': ident, 'data': data, 'sum': hashlib.md5(data).hexdigest()}


def whole(v, key):
    return isinstance(v, dict) and v.get('key') == key and hashlib.md5(v['data']).hexdigest() == v['sum']


SIZES = [0, 10, 1000, 5000, 20000, 70000, 200000]


class Stopper(object):
    """Stops the code under test at its n-th line, wherever it is: kill(), or an exception."""

    def __init__(self, n, deep, action):
        self.n = n
        self.deep = deep
        self.action = action
        self.count = 0
        self.at = None

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if event == 'call':
            inside = os.path.realpath(name) == LIBRARY
            if not inside and self.deep:
                f = frame.f_back
                hops = 0
                while f is not None and hops < 40 and not inside:
                    inside = os.path.realpath(f.f_code.co_filename) == LIBRARY
                    f = f.f_back
                    hops += 1
            return self if inside else None
        if event in ('line', 'return'):
            self.count += 1
            if self.count == self.n:
                self.at = '%s:%d %s' % (os.path.basename(name), frame.f_lineno, event)
                self.action(self)
        return self


class Gone(BaseException):
    pass


class Unpicklable(object):
    def __reduce__(self):
        raise RuntimeError('not to be pickled')


class Files(object):
    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.t = Tracer()
        self.threads = threading.active_count()
        CLOCK.reset()

    def make(self, **options):
        params = {'TIMEOUT': self.rng.choice([300, 300, 50])}
        if self.rng.random() < 0.3:
            params['KEY_PREFIX'] = 'p'
        params.update(options)
        self.params = params
        return FileBasedCache(self.dir, params)

    def run(self):
        where = None
        if self.rng.random() < 0.4 and os.access(OTHER, os.W_OK) and os.stat(OTHER).st_dev != os.stat(tempfile.gettempdir()).st_dev:
            where = OTHER
            self.stats.obs['caches on a device of their own'] += 1
        self.dir = tempfile.mkdtemp(prefix='verif-d06-', dir=where)
        self.t('cache in a scratch directory %s', 'on a device of its own' if where else '')
        try:
            kind = weighted(self.rng, [(5, 'sequence'), (4, 'crash'), (2.5, 'concurrent'), (0.5, 'many')])
            self.stats.obs['cases ' + kind] += 1
            getattr(self, kind)()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.stats.sig(kind, self.t.lines)
        self.stats.sample('\n'.join(self.t.lines[:20]), limit=1)

    # -- one user ---------------------------------------------------------------

    def sequence(self):
        rng, t = self.rng, self.t
        sub = os.path.join(self.dir, 'deep', 'er') if rng.random() < 0.3 else self.dir
        params = {'TIMEOUT': rng.choice([300, 50, None])}
        if rng.random() < 0.3:
            params.update(KEY_PREFIX='p', VERSION=3)
        handles = [FileBasedCache(sub, dict(params)) for _ in range(rng.choice([1, 1, 2]))]
        default_version, default_timeout = params.get('VERSION', 1), params['TIMEOUT']
        keys = ['k', 'K', 'a/b', '..', 'x' * 200, u'\u0416 \n', 'k.djcache', '*', 'p:1:k', '']
        values = [0, '', b'', False, None, [], {'a': (1, 2.5)}, 'text', u'\u0416', b'\x00' * 5000, list(range(300)), 'x' * 100000, float('inf')]
        model = {}          # (key, version) -> (value, expiry)

        def live(k):
            r = model.get(k)
            if r is None or (r[1] is not None and r[1] <= CLOCK.now):
                return None
            return r
        for _ in range(rng.randint(10, 40)):
            h = rng.choice(handles)
            key = rng.choice(keys)
            version = rng.choice([None, None, 1, 2, 3])
            k = (key, default_version if version is None else version)
            op = weighted(rng, [(6, 'set'), (6, 'get'), (1.5, 'delete'), (1, 'clock'), (1, 'get_many'), (0.7, 'has_key'), (0.7, 'add'), (0.5, 'incr'), (0.2, 'clear'), (0.4, 'vanish'),
                                (0.5, 'set_many'), (0.5, 'failing set')])
            self.stats.obs['op ' + op] += 1
            kw = {} if version is None else {'version': version}
            if op in ('set', 'add', 'set_many'):
                value = rng.choice(values)
                timeout = rng.choice(["default", "none", 5, 60, 1000, 0.5, 0, -1])
                if timeout == 'none':
                    kw['timeout'] = None
                elif timeout != 'default':
                    kw['timeout'] = timeout
                t('%s %r %s %s', op, key, value, kw)
                if op == 'set':
                    h.set(key, value, **kw)
                elif op == 'set_many':
                    if version is not None:
                        kw['version'] = version
                    h.set_many({key: value}, **kw)
                else:
                    if timeout == 'none':
                        continue
                    r = h.add(key, value, **kw)
                    if bool(r) != (live(k) is None):
                        t.fail('add', 'add of %s returned %s', k, r)
                    if not r:
                        continue
                seconds = kw.get('timeout', default_timeout)
                if seconds is None:             # asked for explicitly: at least the default timeout
                    seconds = default_timeout
                model[k] = (value, None if seconds is None else CLOCK.now + seconds)
                if kw.get('timeout', 1) is None and default_timeout is not None:
                    model[k] = (value, CLOCK.now + default_timeout, 'none')
            elif op == 'failing set':
                t('failing set %r', key)
                try:
                    h.set(key, ['x' * rng.choice([0, 100000]), Unpicklable()], 100, **kw)
                except Exception:
                    pass
                self.leftovers(sub, set(), 'a value which cannot be pickled')
            elif op == 'clock':
                dt = rng.choice([0.2, 1, 10, 61, 301])
                t('clock +%s', dt)
                CLOCK.advance(dt)
            elif op == 'delete':
                t('delete %s', k)
                h.delete(key, **kw)
                model.pop(k, None)
            elif op == 'vanish':
                t('the directory is removed')
                shutil.rmtree(sub, ignore_errors=True)
                model.clear()
                if sub == self.dir and rng.random() < 0.5:
                    os.mkdir(sub)
            elif op == 'clear':
                t('clear')
                h.clear()
                model.clear()
            elif op == 'incr':
                r = live(k)
                t('incr %s', k)
                if r is not None and type(r[0]) is int:
                    if h.incr(key, 2, **kw) != r[0] + 2:
                        t.fail('incr', 'wrong result of incr of %s', k)
                    model[k] = (r[0] + 2, None if default_timeout is None else CLOCK.now + default_timeout)
            else:
                asked = [key] if op != 'get_many' else rng.sample(keys, rng.randint(0, 5))
                if op == 'get_many':
                    got = h.get_many(asked, **kw)
                elif op == 'has_key':
                    got = key in h if version is None and rng.random() < 0.5 else h.has_key(key, **kw)
                    expected = live(k) is not None
                    edge = self.edge(model.get(k))
                    if not edge and bool(got) != expected:
                        t.fail('existence', 'has_key of %s is %s', k, got)
                    continue
                else:
                    v = h.get(key, MISS, **kw)
                    got = {} if v is MISS else {key: v}
                for a in asked:
                    ka = (a, k[1])
                    r = live(ka)
                    v = got.get(a, MISS)
                    self.stats.evaluations += 1
                    t('%s %s -> %s', op, ka, 'MISS' if v is MISS else v)
                    if self.edge(model.get(ka)):
                        continue
                    if r is None:
                        if v is not MISS:
                            t.fail('not stored', '%s of %s returned %s', op, ka, v)
                        self.stats.obs['misses'] += 1
                        continue
                    if op == 'get_many' and r[0] is None:
                        continue            # Django's get_many() cannot tell None from a miss
                    if v is MISS:
                        t.fail('lost', '%s of %s missed the stored value %s', op, ka, r[0])
                    if repr(v) != repr(r[0]):
                        t.fail('wrong value', '%s of %s returned %s instead of %s', op, ka, v, r[0])
                    self.stats.obs['hits'] += 1

    def names(self, where):
        if not os.path.isdir(where):
            return set()
        return set(n for n in os.listdir(where) if not n.endswith('.djcache') and n != 'deep')

    def leftovers(self, where, before, why):
        self.stats.obs['failed stores looked after'] += 1
        left = self.names(where) - before
        if left:
            self.t.fail('left behind', 'a store which failed (%s) left files behind', why)

    def many(self):
        """Ever new keys: the cache is culled."""
        rng, t = self.rng, self.t
        limit = rng.choice([10, 130])
        c = self.make(OPTIONS={'MAX_ENTRIES': limit, 'CULL_FREQUENCY': rng.choice([2, 3])})
        n = limit + 280
        t('%s keys are stored, at most %s shall be kept', n, limit)
        for i in range(n):
            c.set('key%d' % i, i)
            if i % 10 and i < n - 1:
                continue
            deadline = REAL_MONO() + 30
            while threading.active_count() > self.threads and REAL_MONO() < deadline:
                time.sleep(0.0005)
            if REAL_MONO() >= deadline:
                raise Inconclusive('culling does not finish')
            # a store culls with a probability of one fifth: the chance of 100 without it is 2e-10
            files = len(os.listdir(self.dir))
            if files > limit + 100:
                t.fail('unbounded', 'there are %s files after %s stores, although the maximum is %s', files, i + 1, limit)
        kept = sorted(i for i in range(n) if c.get('key%d' % i, MISS) is not MISS)
        t('%s are kept', len(kept))
        self.stats.evaluations += 1
        if len(kept) > limit + 100:
            t.fail('unbounded', '%s records of %s are kept, although the maximum is %s', len(kept), n, limit)
        self.stats.obs['culled caches'] += 1

    def edge(self, r):
        """Too near to the end to tell; or stored with timeout=None, after the default timeout."""
        if r is None or r[1] is None:
            return False
        return abs(CLOCK.now - r[1]) < 0.1 or (len(r) > 2 and CLOCK.now >= r[1])

    # -- failures and kills -----------------------------------------------------

    def crash(self):
        rng, t = self.rng, self.t
        c = self.make()
        keys = ['a', 'b']
        now = {}
        for k in keys:
            if rng.random() < 0.8:
                now[k] = payload(rng, k, 'old', rng.choice(SIZES))
                c.set(k, now[k])
        for i in range(rng.randint(2, 5)):
            key = rng.choice(keys)
            v = payload(rng, key, 'new%d' % i, rng.choice(SIZES))
            how = rng.choice(['kill', 'kill', 'kill', 'raise', 'raise', 'disk full', 'no files', 'unpicklable', 'raise deep'])
            before = self.names(self.dir)
            done, at = getattr(self, 'by_' + how.replace(' ', '_'))(c, key, v)
            if how in ('disk full', 'no files', 'unpicklable'):
                self.leftovers(self.dir, before, how)
            self.stats.obs['writer ended by ' + how] += 1
            t('set %s = %s (%s bytes): %s at %s, done=%s', key, v['id'], len(v['data']), how, at, done)
            if at:
                self.stats.sig('stopped', at)
            reader = c if rng.random() < 0.5 else FileBasedCache(self.dir, dict(self.params))
            for k in keys:
                self.stats.evaluations += 1
                try:
                    got = reader.get(k, MISS)
                except Exception as e:
                    t.fail('torn', 'after the writer of %s ended by %s at %s, reading %s raises %s: %s', key, how, at, k, type(e).__name__, str(e))
                if got is MISS:
                    if k in now:
                        t.fail('lost', 'after the writer of %s ended by %s at %s, the old value of %s is gone', key, how, at, k)
                    if k == key and done:
                        t.fail('lost', 'the value of %s was stored, but is not there', k)
                    continue
                if not whole(got, k):
                    t.fail('torn', 'after the writer of %s ended by %s at %s, %s reads as %s', key, how, at, k, got)
                old = now.get(k, {}).get('id')
                if got['id'] != old and not (k == key and got['id'] == v['id']):
                    t.fail('wrong value', 'after the writer of %s ended by %s at %s, %s reads as %s', key, how, at, k, got['id'])
                if k == key and done and got['id'] != v['id']:
                    t.fail('lost', 'the value of %s was stored, but the old one is there', k)
                if got['id'] == v['id'] and k == key:
                    self.stats.obs['saw new'] += 1
                    now[k] = got
                else:
                    self.stats.obs['saw old'] += 1
            if rng.random() < 0.4:              # the next writer is not disturbed
                v = payload(rng, key, 'next%d' % i, rng.choice(SIZES))
                reader.set(key, v)
                if (c.get(key) or {}).get('id') != v['id']:
                    t.fail('lost', 'the store after a writer ended by %s was lost', how)
                now[key] = v

    def child(self, work):
        """Runs work() in a forked child; returns (killed, what it said)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                work(lambda s: os.write(w, s.encode('utf8')))
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w)
        said = b''
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            said += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        return os.WIFSIGNALED(status), said.decode('utf8')

    def length(self, c, key, v, deep):
        """How many steps there are in one store (measured on another directory)."""
        d = tempfile.mkdtemp(prefix='verif-d06-')
        try:
            other = FileBasedCache(d, dict(self.params))
            s = Stopper(0, deep, None)
            self.traced(s, lambda: other.set(key, v))
            return s.count
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def traced(self, s, fn):
        sys.settrace(s)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def by_kill(self, c, key, v, deep=None):
        deep = self.rng.random() < 0.3 if deep is None else deep
        n = self.rng.randint(1, max(1, self.length(c, key, v, deep)))

        def work(say):
            def action(s):
                say(s.at)
                os.kill(os.getpid(), signal.SIGKILL)
            self.traced(Stopper(n, deep, action), lambda: c.set(key, v))
            say('done')
        killed, said = self.child(work)
        if not killed and said != 'done':
            self.t.fail('failed', 'the store failed in the child')
        return not killed, said

    def by_raise(self, c, key, v, deep=False):
        n = self.rng.randint(1, max(1, self.length(c, key, v, deep)))
        error = self.rng.choice([lambda: Gone(), lambda: OSError(errno.ENOSPC, 'no space'), lambda: IOError(errno.EIO, 'io'), lambda: MemoryError()])
        box = []

        def action(s):
            if not box:
                box.append(s.at)
                raise error()
        s = Stopper(n, deep, action)
        try:
            self.traced(s, lambda: c.set(key, v))
        except (Gone, OSError, MemoryError):
            pass
        except Exception:
            if not box or not deep:     # deep in the standard library it can turn into anything
                raise
        return False, s.at

    def by_raise_deep(self, c, key, v):
        return self.by_raise(c, key, v, True)

    def by_disk_full(self, c, key, v):
        size = self.rng.choice([0, 1, 10, 20, 100, 2000, 10000, 60000, 150000])

        def work(say):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
            c.set(key, v)
        self.child(work)
        return False, 'limit %d' % size

    def by_no_files(self, c, key, v):
        def work(say):
            used = len(os.listdir('/proc/self/fd'))
            resource.setrlimit(resource.RLIMIT_NOFILE, (used - 1 + self.rng.randint(0, 1), resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
            c.set(key, v)
        self.child(work)
        return False, 'no descriptors'

    def by_unpicklable(self, c, key, v):
        bad = dict(v, data=[v['data'], Unpicklable()])
        try:
            c.set(key, bad)
        except Exception:
            pass
        return False, 'unpicklable'

    # -- many processes ----------------------------------------------------------

    def concurrent(self):
        rng, t = self.rng, self.t
        culled = rng.random() < 0.15
        c = self.make(**({'OPTIONS': {'MAX_ENTRIES': 3}} if culled else {}))
        keys = ['k%d' % i for i in range(rng.choice([1, 1, 2, 5]))]
        deletes = rng.random() < 0.3
        logs = []
        initial = {}
        for k in keys:
            if rng.random() < 0.7:
                v = payload(rng, k, 'initial', rng.choice(SIZES))
                c.set(k, v)
                initial[k] = v
        writers, readers = rng.randint(1, 3), rng.randint(1, 2)
        threads = rng.choice([1, 1, 2])
        kill = rng.random() < 0.4
        slow = rng.random() < 0.6
        count = rng.randint(10, 25)
        sizes = rng.sample(SIZES, 3)
        t('%s writers and %s readers of %s threads, keys %s, deletes=%s, sizes %s, some killed: %s, delays in set: %s, culling: %s',
          writers, readers, threads, len(keys), deletes, sizes, kill, slow, culled)
        seeds = [rng.random() for _ in range(writers + readers)]
        pids = []
        go_r, go_w = os.pipe()
        logdir = tempfile.mkdtemp(prefix='verif-d06-log-')
        try:
            for p in range(writers + readers):
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(go_w)
                        os.read(go_r, 1)
                        self.process(p, p < writers, seeds[p], c if rng.random() < 0.5 else FileBasedCache(self.dir, dict(self.params)), keys,
                                     deletes, count, sizes, slow, threads, logdir)
                        os._exit(0)
                    except BaseException:
                        import traceback
                        open(os.path.join(logdir, 'error%d' % p), 'w').write(traceback.format_exc())
                    finally:
                        os._exit(1)
                pids.append(pid)
            os.close(go_r)
            os.close(go_w)
            dead = set()
            if kill:
                victim = rng.randrange(writers)
                time.sleep(rng.random() * 0.06)
                os.kill(pids[victim], signal.SIGKILL)
                dead.add(victim)
            deadline = REAL_MONO() + 60
            for p, pid in enumerate(pids):
                while True:
                    got, status = os.waitpid(pid, os.WNOHANG)
                    if got:
                        break
                    if REAL_MONO() > deadline:
                        for q in pids:
                            try:
                                os.kill(q, signal.SIGKILL)
                            except OSError:
                                pass
                        os.waitpid(pid, 0)
                        raise Inconclusive('process does not end')
                    time.sleep(0.001)
                if status and p not in dead:
                    path = os.path.join(logdir, 'error%d' % p)
                    text = open(path).read() if os.path.exists(path) else 'status %s' % status
                    self.t.fail('failed', 'a process failed: %s', text[-800:])
            events = []
            for name in sorted(os.listdir(logdir)):
                if name.startswith('log'):
                    events.extend(self.load(os.path.join(logdir, name)))
        finally:
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            shutil.rmtree(logdir, ignore_errors=True)
        self.judge(events, initial, keys, culled)
        for k in keys:              # at the end, whatever happened, everything works
            v = payload(rng, k, 'last', 100)
            c.set(k, v)
            got = c.get(k)
            if not culled and (not got or got['id'] != 'last'):
                t.fail('lost', 'a store after the run was lost')

    def process(self, p, writer, seed, c, keys, deletes, count, sizes, slow, threads, logdir):
        def body(n):
            rng = random.Random('%s:%s' % (seed, n))
            fd = os.open(os.path.join(logdir, 'log%d.%d' % (p, n)), os.O_WRONLY | os.O_CREAT | os.O_APPEND)

            def note(*what):
                b = pickle.dumps(what)
                os.write(fd, struct.pack('>I', len(b)) + b)
            if slow and writer:
                def trace(frame, event, arg):
                    if os.path.realpath(frame.f_code.co_filename) != LIBRARY:
                        return None
                    if event == 'line' and rng.random() < 0.2:
                        time.sleep(rng.random() * 0.004)
                    return trace
                sys.settrace(trace)
            for i in range(count if writer else count * 3):
                k = rng.choice(keys)
                t0 = REAL_MONO()
                if writer and deletes and rng.random() < 0.2:
                    note('begin', k, None, t0)
                    c.delete(k)
                    note('end', REAL_MONO())
                elif writer:
                    ident = '%d.%d.%d' % (p, n, i)
                    v = payload(rng, k, ident, rng.choice(sizes))
                    note('begin', k, ident, t0)
                    c.set(k, v)
                    note('end', REAL_MONO())
                else:
                    try:
                        v = c.get(k)
                    except Exception as e:
                        note('read', k, 'ERROR %r' % e, t0, REAL_MONO())
                        continue
                    t1 = REAL_MONO()
                    if v is None:
                        note('read', k, None, t0, t1)
                    elif whole(v, k):
                        note('read', k, v['id'], t0, t1)
                    else:
                        note('read', k, 'TORN %r' % (v,)[:300], t0, t1)
                    if rng.random() < 0.3:
                        time.sleep(rng.random() * 0.003)
            sys.settrace(None)
        if threads == 1:
            body(0)
            return
        errors = []

        def guarded(n):
            try:
                body(n)
            except BaseException:
                import traceback
                errors.append(traceback.format_exc())
        ts = [threading.Thread(target=guarded, args=(n,)) for n in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise RuntimeError(errors[0])

    def load(self, path):
        data = open(path, 'rb').read()
        out, i, pending = [], 0, None
        while i + 4 <= len(data):
            n, = struct.unpack('>I', data[i:i + 4])
            if i + 4 + n > len(data):
                break
            e = pickle.loads(data[i + 4:i + 4 + n])
            i += 4 + n
            if e[0] == 'begin':
                pending = e
            elif e[0] == 'end':
                out.append(('write', pending[1], pending[2], pending[3], e[1]))
                pending = None
            else:
                out.append(e)
        if pending:
            out.append(('write', pending[1], pending[2], pending[3], float('inf')))
        return out

    def judge(self, events, initial, keys, culled):
        t = self.t
        for k in keys:
            writes = [['initial' if k in initial else None, -2.0, -1.0]] + [[e[2], e[3], e[4]] for e in events if e[0] == 'write' and e[1] == k]
            reads = sorted([e for e in events if e[0] == 'read' and e[1] == k], key=lambda e: e[4])
            by_id = {}
            for w in writes:
                by_id.setdefault(w[0], []).append(w)
            self.stats.obs['concurrent writes'] += len(writes) - 1
            overlaps = 0
            for _, _, ident, t0, t1 in reads:
                self.stats.evaluations += 1
                self.stats.obs['concurrent reads'] += 1
                overlaps += any(w[1] < t1 and t0 < w[2] for w in writes[1:])
                if isinstance(ident, str) and ident[:4] in ('TORN', 'ERRO'):
                    t.fail('torn', 'a read concurrent with writers of %s: %s', k, ident)
                if ident is None and culled:
                    continue
                mine = by_id.get(ident)
                if not mine:
                    t.fail('wrong value', 'a read of %s gave %s, which nobody stored under it', k, ident)
                ok = []
                for w in mine:
                    if w[1] > t1:
                        continue
                    if not any(x is not w and x[1] > w[2] and x[2] < t0 for x in writes):
                        ok.append(w)
                if not ok:
                    t.fail('stale', 'a read of %s gave %s, which had been overwritten by a finished store before the read began', k, ident)
                if len(mine) == 1:
                    mine[0][2] = min(mine[0][2], t1)        # a write which was seen has taken effect
            self.stats.obs['reads overlapping a write'] += overlaps


class Check(BaseCheck):
    prop = 'D06'
    quick = 420
    thorough = 20000
    technique = ('runtime monitoring with fault injection: writers killed, failed or starved at any line of a store and at any byte of the file, '
                 'concurrent processes and threads whose logs are checked for atomicity and linearizability; model-based sequences')
    rule = ('case = a sequence of 10 to 40 operations against a model, or 2 to 5 stores ended by SIGKILL at a random line (of the library or of what it '
            'calls), an exception there, a file size limit, no descriptors, an unpicklable value, or 2 to 5 processes of 1 or 2 threads '
            'writing, deleting and reading the same keys, with delays inside of stores and some killed; '
            'or 300 new keys in a small cache; non-trivial = distinct trace or stopping point')
    level_note = 'hundreds of crash points and concurrent runs on a real file system in a scratch directory'
    assumptions = ['no entry expires while processes run concurrently (the reader inherited from Django deletes what it found expired)',
                   'power failures of the file system itself are not simulated']

    def required(self, tier):
        return {'hits': 150, 'writer ended by kill': 50, 'saw old': 120, 'saw new': 20, 'concurrent reads': 1000, 'reads overlapping a write': 100,
                'failed stores looked after': 100, 'culled caches': 5}

    def run_case(self, rng, idx, tier, stats):
        Files(rng, stats).run()
