import json
import os
import random
import select
import signal
import subprocess
import sys
import threading
import time
import traceback

import django_cache_dependencies as dcd
from checks.base import BaseCheck
from core import Inconclusive, in_thread
from env import CLOCK, REPO
from kit import MISS, Tracer, fresh, present
from monbackend import STORES, store

ALIAS = 'rr0'


def ident(rng):
    """The identity of the session, asked in one of the ways a lock asks for it."""
    h = dcd.caches[rng.choice([ALIAS, 'rc0', 'default'])]
    how = rng.randrange(4)
    if how == 0:
        return h.transaction.current().get_session_id()
    if how == 1:
        with h.transaction:
            return h.transaction.current().get_session_id()
    if how == 2:
        with h.transaction:
            with h.transaction:
                return h.transaction.current().get_session_id()
    t = h.transaction.begin()
    try:
        return t.get_session_id()
    finally:
        h.transaction.flush()


class Place(object):
    """A process of the case: some threads, all alive together, and forked children."""

    def __init__(self, seed, level, path):
        self.rng = random.Random(seed)
        self.level = level
        self.path = path
        self.report = dict(ids=[], versions=[], problems=[], forks=0, threads=0)
        self.lock = threading.Lock()
        self.children = []

    def live(self, name, seed, gate, forked, stop):
        """One thread's life."""
        r = random.Random(seed)
        try:
            seen = []
            if r.random() < 0.8:
                seen.append(ident(r))
            gate.wait(30)
            forked.wait(60)              # idle while the process forks
            for _ in range(r.randint(1, 3)):
                seen.append(ident(r))
                act = r.random()
                if act < 0.2:
                    dcd.close_caches()
                elif act < 0.3:
                    dcd.caches['rc0'].get('k', abort=True)
            with self.lock:
                self.report['ids'].append([self.path + name, seen[-1]])
                if len(set(seen)) > 1:
                    self.report['problems'].append('identity of thread %s changed: %s' % (self.path + name, seen))
            self.tags(name, r)
        except BaseException as e:
            with self.lock:
                self.report['problems'].append('exception in thread %s: %r' % (self.path + name, e))
            gate.abort()
        stop.wait(60)

    def tags(self, name, r):
        h = dcd.caches['rc0']
        for i in range(r.randint(0, 4)):
            tags = ['%s-%s-%s' % (self.path, name, j) if r.random() < 0.5 else 'common%s' % j for j in range(r.randint(1, 3))]
            h.set('record', i, tags)
            if r.random() < 0.7:
                h.invalidate_tags(*tags)

    def run(self):
        rng = self.rng
        n = rng.randint(0, 3) if self.level else rng.randint(1, 5)
        st = store('rc0')
        st.writes = []
        key = dcd.caches['rc0'].make_key('record')
        early = ident(rng) if rng.random() < 0.7 else None
        forks = [0, 0] if self.level > 1 else rng.choice([[0, 0], [1, 0], [2, 0], [1, 1], [0, 2]] if self.level else
                                                           [[1, 0], [2, 0], [3, 0], [1, 1], [2, 1], [0, 2]])
        for i in range(forks[0]):
            self.fork('f%d' % i)
        gate = threading.Barrier(n + 1)
        stop, forked = threading.Event(), threading.Event()
        threads = [threading.Thread(target=self.live, name=rng.choice([None, 'worker']), args=('t%d' % i, rng.random(), gate, forked, stop)) for i in range(n)]
        for t in threads:
            t.daemon = True
            t.start()
        gate.wait(30)
        if forks[1]:
            time.sleep(0.003)
        for i in range(forks[1]):
            self.fork('g%d' % i)
        forked.set()
        self.tags('main', rng)
        mine = ident(rng)
        if early is not None and early != mine:
            self.report['problems'].append('identity of %s changed: %s, %s' % (self.path, early, mine))
        self.report['ids'].append([self.path + 'main', mine])
        deadline = time.monotonic() + 30
        while len(self.report['ids']) < n + 1 and not self.report['problems'] and time.monotonic() < deadline:
            time.sleep(0.0005)
        for name, pid, r, w in self.children:
            self.collect(name, pid, r)
        self.report['threads'] += n + 1
        stop.set()
        for t in threads:
            t.join(30)
        self.report['versions'].extend(repr(v) for k, v in st.writes if k != key)
        st.writes = None
        return self.report

    def fork(self, name):
        seed = self.rng.random()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        reseed = self.rng.random() < 0.7
        locked = self.rng.random() < 0.6
        mine = dcd.caches[ALIAS]
        if locked:                            # the parent holds a lock and a record while it forks
            mine.transaction.begin()
            mine.invalidate_tags('locked')
        state = random.getstate()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(50)
                CLOCK.lock = threading.Lock()       # may have been held by another thread
                for s in STORES.values():
                    s.lock = threading.RLock()
                for x in [r1, w2] + [fd for c in self.children for fd in c[2:]]:
                    os.close(x)
                if reseed:                    # as in a worker that reseeds its generator
                    random.seed(1)
                p = Place(seed, self.level + 1, self.path + name + '/')
                if locked:
                    h = dcd.caches[ALIAS]
                    if random.Random(seed).random() < 0.7:
                        h.set('under lock', 1, ('locked',))
                    else:
                        h.get_or_set_callback('under lock', lambda: 1, ('locked',))
                    if h.get('under lock', MISS, abort=True) is not MISS:
                        p.report['problems'].append('forked child %s stored under a tag locked by its parent' % p.path)
                    p.report['locks'] = 1
                    h.transaction.flush()
                p.run()
                data = json.dumps(p.report).encode() + b'\n'
                while data:
                    data = data[os.write(w1, data):]
                os.close(w1)
                os.read(r2, 1)                # stays alive until everybody has been compared
            except BaseException:
                os.write(w1, json.dumps(dict(problems=p.report['problems'] + ['inconclusive: ' + traceback.format_exc()])).encode() + b'\n')
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        if locked:
            mine.transaction.finish()
        self.children.append((name, pid, r1, w2))
        self.report['forks'] += 1

    def collect(self, name, pid, r):
        data = b''
        deadline = time.monotonic() + 40
        while not data.endswith(b'\n'):     # grandchildren keep the pipe open
            ready, _, _ = select.select([r], [], [], max(0.1, deadline - time.monotonic()))
            if not ready:
                os.kill(pid, 9)
                self.report['problems'].append('inconclusive: child %s does not answer' % name)
                return
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        if not data:
            self.report['problems'].append('inconclusive: child %s died' % name)
            return
        d = json.loads(data.decode())
        for k in d:
            if isinstance(d[k], list):
                self.report[k].extend(d[k])
            else:
                self.report[k] = self.report.get(k, 0) + d[k]

    def release(self):
        for name, pid, r, w in self.children:
            os.close(r)
            os.close(w)
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
        self.children = []


HOST = r'''
import sys, os, socket, threading, platform, uuid, time, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
host, pid, thread = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
try:
    import _thread
except ImportError:
    import thread as _thread
import random
from cache_dependencies import utils, transaction, locks, dependencies
socket.gethostname = socket.getfqdn = platform.node = lambda *a: host
real = os.uname()
os.uname = lambda: (real[0], host) + tuple(real)[2:]
uuid.getnode = lambda: hash(host)
os.getpid = lambda: pid
_thread.get_ident = lambda: thread
threading.get_ident = lambda: thread
time.time = lambda: 1e9
random.seed(1)

class Memory(object):
    data = {}
    def get_many(self, keys, version=None):
        return {k: self.data[k] for k in keys if k in self.data}
    def set_many(self, data, timeout=None, version=None):
        self.data.update(data)
    def delete_many(self, keys, version=None):
        for k in keys:
            self.data.pop(k, None)
m = Memory()
t = transaction.TransactionManager(locks.DependencyLock.make('READ COMMITTED', lambda: m, 0))
first = t.current().get_session_id()
versions = []
for i in range(5):
    d = dependencies.TagsDependency('a', 'b')
    t.current().evaluate(d, None)
    versions.extend(repr(v) for v in m.data.values())
    t.current().get_session_id()
    m.data.clear()
host = 'renamed-' + host
same = first == t.begin().get_session_id()
print(json.dumps([first, versions, same]))
sys.stdout.flush()
os._exit(0)
'''


def hosts(rng, stats):
    """Processes of several hosts, equal in everything but the name of the host (or in one other thing)."""
    t = Tracer()
    n = rng.randint(2, 4)
    what = rng.choice(['host', 'host', 'pid', 'thread', 'mixed'])
    combos = []
    for i in range(n):
        if what == 'mixed':          # 1.11 and 11.1: no ambiguous joining of the parts
            combos.append([('h', 1, 11), ('h', 11, 1), ('h1', 1, 1), ('h', 111, 1)][i])
        else:
            combos.append(('host%d' % i if what == 'host' else 'host', 7 + i if what == 'pid' else 7, 9 + i if what == 'thread' else 9))
    procs = [subprocess.Popen([sys.executable, '-c', HOST, REPO] + [str(x) for x in c], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              stdin=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED='0')) for c in combos]
    out = []
    for p in procs:
        o, e = p.communicate()
        if p.returncode:
            raise Inconclusive('host process failed: %s' % e.decode()[-500:])
        out.append(json.loads(o.decode()))
    ids = {}
    seen = {}
    for c, (i, vs, same) in zip(combos, out):
        stats.obs['identities compared'] += 1
        if i in ids:
            t.fail('identity', 'sessions %s and %s (host, process, thread) have the same identity %s', ids[i], c, i)
        ids[i] = c
        if not same:
            t.fail('stable', 'the identity changed when the host was renamed')
        if what == 'mixed':
            continue
        for v in vs:
            stats.obs['versions compared'] += 1
            if v in seen:
                t.fail('version', 'version %s generated by %s and by %s', v, seen[v], c)
            seen[v] = c
    stats.obs['other hosts and processes simulated'] += n
    stats.evaluations += 1
    stats.sig('hosts', what, n)


def case(rng, stats):
    t = Tracer()
    for a in (ALIAS, 'rc0', 'default'):
        fresh(a, tick=rng.choice([None, 0, 0]))
    st = random.getstate()
    if rng.random() < 0.5:
        random.seed(1)
    p = Place(rng.random(), 0, '/')
    try:
        rep = p.run()
    finally:
        p.release()
        random.setstate(st)
    for x in rep['problems']:
        if x.startswith('inconclusive'):        # the interpreter's fork went wrong
            stats.obs['abandoned'] += 1
            if stats.obs['abandoned'] > 5:
                raise Inconclusive(x)
            return
        t.fail('session', '%s', x)
    for name, i in rep['ids']:
        t('%s is %s', name, i)
    ids = {}
    for name, i in rep['ids']:
        stats.obs['identities compared'] += 1
        if i in ids:
            t.fail('identity', 'threads %s and %s, alive together, have the same identity %s', ids[i], name, i)
        ids[i] = name
    seen = set()
    for v in rep['versions']:
        stats.obs['versions compared'] += 1
        if v in seen:
            t.fail('version', 'the version %s has been generated twice', v)
        seen.add(v)
    stats.obs['forks'] += rep['forks']
    stats.obs['threads'] += rep['threads']
    stats.obs['locks checked in a forked child'] += rep.get('locks', 0)
    stats.evaluations += 1
    stats.sig('tree', sorted(name for name, _ in rep['ids']), len(seen))
    stats.sample('\n'.join(t.lines), limit=1)


def many(rng, stats):
    """Hundreds of thousands of versions, created by several threads of one process at one moment."""
    t = Tracer()
    fresh('rc0', tick=0)
    st = store('rc0')
    st.writes = []
    key = dcd.caches['rc0'].make_key('record')

    def life(name):
        h = dcd.caches['rc0']
        for i in range(90):
            h.set('record', i, ['%s-%d-%d' % (name, i, j) for j in range(800)])
            h.delete_many(['record'])
    threads = [threading.Thread(target=life, args=('t%d' % i,)) for i in range(4)]
    for x in threads:
        x.start()
    for x in threads:
        x.join(120)
    versions = [repr(v) for k, v in st.writes if k != key]
    fresh('rc0')
    st.writes = None
    stats.obs['versions created at one moment'] += len(versions)
    stats.evaluations += 1
    seen = set()
    for v in versions:
        if v in seen:
            t.fail('version', 'the version %s has been generated twice among %d', v, len(versions))
        seen.add(v)


class Check(BaseCheck):
    prop = 'T07'
    quick = 320
    thorough = 4000
    technique = ('runtime monitoring: session identities, locks and generated tag versions observed in trees of real threads and forked '
                 'processes alive together, and in processes that pretend to be on other hosts; offline uniqueness check')
    rule = ('case = a tree of up to three generations of processes with up to six threads each, forked before and after threads and '
            'identities exist, with a frozen clock and reset pseudo-random generator; or 2-4 fresh processes which differ only in '
            'host, process or thread; or four threads creating 288,000 versions at one moment; non-trivial = distinct tree and number of versions')
    level_note = 'hundreds of process trees; host names, and equal process and thread numbers on them, are simulated'

    def required(self, tier):
        return {'identities compared': 1500, 'versions compared': 1500, 'forks': 400, 'locks checked in a forked child': 150,
                'other hosts and processes simulated': 30, 'versions created at one moment': 280000}

    def run_case(self, rng, idx, tier, stats):
        if idx == 1:
            many(rng, stats)
        elif idx % 16 == 0:
            hosts(rng, stats)
        else:
            in_thread(lambda: case(rng, stats))
