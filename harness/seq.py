"""Engine A: structured programs against a reference model.

A World executes operations on the real library and on a model at the same
time. The model knows, for every key and version, which stored values may be
there, which tags (own and inherited) each of them must and may carry, and when
every tag was invalidated. Reads are judged by it; a disagreement becomes a
mismatch of one kind, and each property check reports the kinds it is about.
"""
import copy
import threading

from core import Violation, StopCase, Crew, short
from env import CLOCK
from monbackend import STORES, store

import django_cache_dependencies as dcd
from cache_dependencies import dependencies as deps

DAY = 24 * 3600
SENTINEL = object()


class AppError(Exception):
    """Raised by the application code of a generated program."""


class AppStop(BaseException):
    """The same, like a KeyboardInterrupt or GeneratorExit."""


APP = (AppError, AppStop)


class Rec(object):
    __slots__ = ('value', 'must', 'may', 'own', 'deadline', 'seq', 'certain', 'dead', 'tagged', 'book')

    def __init__(self, value, own, must, may, deadline, seq, certain, tagged=True):
        self.value = value
        self.own = frozenset(own)          # {(version, tag)} given by the caller
        self.must = frozenset(must)        # own and inherited
        self.may = frozenset(may)
        self.deadline = deadline
        self.seq = seq
        self.certain = certain
        self.dead = None                   # reason, once observed to be gone
        self.tagged = tagged
        self.book = None                   # tag bookkeeping is certain to last until then


class Frame(object):
    __slots__ = ('key', 'ver', 'tracked', 'must', 'may')

    def __init__(self, key, ver, tracked):
        self.key = key
        self.ver = ver
        self.tracked = tracked
        self.must = {}
        self.may = {}


class Txn(object):
    def __init__(self):
        self.depth = 1
        self.tags = set()


class World(object):
    EPS = 0.5

    def __init__(self, alias, report, stats, by_ref=False, handles=None, tick=None, trace_limit=400):
        CLOCK.reset(tick)
        self.alias = alias
        self.location = alias.rstrip('b') if alias.endswith('b') else alias
        self.report = report
        self.stats = stats
        self.store = store(self.location)
        self.store.reset(by_ref=by_ref)
        self.crew = Crew()
        self.trace = []
        self.kept = {}
        self.trace_limit = trace_limit
        self.seq = 0
        self.cands = {}        # (ver, key) -> [Rec]
        self.gone = {}         # (ver, key) -> [values that were there before]
        self.inv = {}          # (ver, tag) -> seq of the last certain invalidation
        self.maybe = {}        # (ver, tag) -> seq of the last possible invalidation
        self.unsure = set()    # tags whose version may be younger than born
        self.born = {}         # (ver, tag) -> time of the first store since it was last gone
        self.frames = {}       # thread -> [Frame]
        self.ignore = {}       # thread -> bool
        self.txns = {}         # thread -> Txn
        self.locks = []        # (tags, thread, until)   until None: transaction still open
        self.pending = []      # (time, tags) delayed invalidations
        self.thread = 'M'
        self.failed = None
        level = alias[:2] if alias[:2] in ('ru', 'rc', 'rr', 'sr') else 'rc'
        self.level = level
        self.delay = 3 if alias[2:3] == '3' else 0
        import django.core.cache
        b = django.core.cache.caches[self.location]
        self.default_version = b.version
        self.default_timeout = b.default_timeout

    # -- infrastructure ---------------------------------------------------

    def close(self):
        self.crew.close()

    def log(self, fmt, *args):
        line = ('[%s] ' % self.thread if self.thread != 'M' else '') + fmt % tuple(short(a) for a in args)
        if len(self.trace) < self.trace_limit:
            self.trace.append(line)

    def mismatch(self, kind, detail):
        self.stats.obs['mismatch:' + kind] += 1
        self.log('MISMATCH %s %s', kind, detail)
        if kind in self.report:
            self.failed = Violation(kind, detail, list(self.trace))
        else:
            self.failed = StopCase('mismatch of another property (%s)' % kind)
        raise self.failed

    def lib(self, fn, *expected):
        """Calls the library in the current logical thread."""
        box = []

        def call():
            try:
                box.append((0, fn()))
            except expected as e:
                box.append((1, e))
            except (AppError, AppStop, StopCase, Violation):
                raise
            except Exception as e:
                box.append((2, e))
        self.crew.call(self.base, call)
        if self.failed is not None:   # in case the library swallowed it
            raise self.failed
        code, value = box[0]
        if code == 2:
            import traceback
            self.mismatch('exception', 'unexpected %s: %s at %s' % (
                type(value).__name__, value, traceback.format_tb(value.__traceback__)[-1].strip()))
        if code == 1:
            raise value
        return value

    def on(self, thread):
        """Switches the logical thread; 'X*' is thread X using another handle on the same cache."""
        self.thread = thread or 'M'

    @property
    def base(self):
        return self.thread.rstrip('*')

    def handle(self, which=None):
        """The tagging handle of the current thread."""
        if self.thread.endswith('*'):
            h = dcd.caches[self.alias + 'b']
            return h.cache if which == 'wrapper' else h
        if which == 'wrapper':      # the dependency level interface below the tagging handle
            return dcd.caches[self.alias].cache
        if which == 'proxy' and self.alias == 'default':
            return dcd.cache
        if which == 'get_cache':
            return dcd.get_cache(self.alias)
        return dcd.caches[self.alias]

    def v(self, version):
        return self.default_version if version is None else version

    def forget(self, tag):
        self.born.pop(tag, None)
        self.unsure.discard(tag)

    def bump(self):
        self.seq += 1
        return self.seq

    def cur_frames(self):
        return self.frames.setdefault(self.thread, [])

    def ignoring(self):
        return self.ignore.get(self.thread, False)

    # -- model ------------------------------------------------------------

    def contribute(self, ver, must, may):
        if self.ignoring():
            return
        for f in self.cur_frames():
            if f.tracked:
                f.must.setdefault(ver, set()).update(must)
                f.may.setdefault(ver, set()).update(must)
                f.may.setdefault(ver, set()).update(may)

    def locked(self, tags):
        """May some other session hold a lock on one of the tags?"""
        if self.level not in ('rr', 'sr'):
            return False
        for ltags, thread, until in self.locks:
            if thread != self.base and ltags & tags and (until is None or until >= CLOCK.now):
                return True
        return False

    def state(self, rec):
        """'dead:<why>', 'alive' or 'maybe' (before any observation)."""
        now = CLOCK.now
        if rec.dead:
            return 'dead:' + rec.dead
        if rec.deadline is not None and now > rec.deadline + self.EPS:
            return 'dead:expired'
        for t in rec.must:
            if self.inv.get(t, -1) > rec.seq:
                return 'dead:stale-own' if t in rec.own else 'dead:stale-inherited'
        if not rec.certain:
            return 'maybe'
        if rec.deadline is not None and now > rec.deadline - self.EPS:
            return 'maybe'
        for t in rec.must | rec.may:
            if max(self.inv.get(t, -1), self.maybe.get(t, -1)) > rec.seq:
                return 'maybe'
        if rec.book is not None and now > rec.book:
            return 'maybe'
        return 'alive'

    def put_rec(self, ver, key, rec):
        k = (ver, key)
        if rec.certain:
            for old in self.cands.get(k, ()):
                self.gone.setdefault(k, []).append((old.value, 'overwritten'))
            self.cands[k] = [rec]
        else:
            self.cands.setdefault(k, []).append(rec)
        now = CLOCK.now
        for t in rec.must | rec.may:
            b = self.born.get(t)
            if b is None or (now > b + DAY + 60 and t not in self.unsure):
                b = self.born[t] = now
            if not rec.certain:
                self.unsure.add(t)
            until = b + DAY - 60 if now < b + DAY - 60 or t not in self.unsure else now
            rec.book = until if rec.book is None else min(rec.book, until)

    def judge(self, ver, key, present, value, how):
        """Compares one read with the model; returns the record that was read."""
        k = (ver, key)
        cands = self.cands.get(k, [])
        if not present:
            for rec in cands:
                if self.state(rec) == 'alive':
                    self.stats.obs['judged-lost'] += 1
                    foreign = [t for t, s in self.inv.items() if s > rec.seq and t not in rec.must and t not in rec.may]
                    kind = 'lost-foreign' if foreign else 'lost'
                    self.mismatch(kind, '%s of %r (version %s) missed the valid value %s (tags %s)' % (
                        how, key, ver, short(rec.value), short(sorted(map(str, rec.must)))))
            if cands:
                states = [self.state(r) for r in cands]
                for s in set(states):
                    self.stats.obs['ok-miss ' + s] += 1
                for r in cands:
                    if r.dead is None:
                        r.dead = 'missed before'
            else:
                self.stats.obs['ok-miss absent'] += 1
            return None
        best = None
        for rec in cands:
            if same(rec.value, value):
                s = self.state(rec)
                if not s.startswith('dead'):
                    best = rec
                    break
                best = best or rec
        if best is None:
            old = [why for val, why in self.gone.get(k, ()) if same(val, value)]
            other = [c for c, recs in self.cands.items() if c != k and any(same(r.value, value) for r in recs)]
            kind = old[0] if old else ('foreign-value' if other else 'wrong-value')
            self.mismatch(kind, '%s of %r (version %s) returned %s; expected one of %s' % (
                how, key, ver, short(value), short([r.value for r in cands])))
        s = self.state(best)
        if s.startswith('dead'):
            why = s[5:]
            kind = {'missed before': 'revived'}.get(why, why)
            self.mismatch(kind, '%s of %r (version %s) returned %s which is dead (%s); tags %s' % (
                how, key, ver, short(value), why, short(sorted(map(str, best.must)))))
        self.stats.obs['ok-hit ' + s] += 1
        self.cands[k] = [best]
        best.certain = True
        return best

    # -- operations ---------------------------------------------------------

    def advance(self, dt):
        self.log('advance clock by %s', dt)
        self.lib(lambda: CLOCK.advance(dt))
        for item in list(self.pending):
            when, tags = item
            if when <= CLOCK.now:
                self.pending.remove(item)
                s = self.bump()
                for t in tags:
                    self.inv[t] = s
                    self.forget(t)

    def found_none(self, ver, key):
        """A stored None is computed again: it was a hit (or a miss, the caller can not tell), and then a build."""
        left = [r for r in self.cands.get((ver, key), ()) if not self.state(r).startswith('dead')]
        if not any(r.value is None for r in left) or any(r.value is not None and self.state(r) == 'alive' for r in left):
            return False
        self.stats.obs['computed again over a stored None'] += 1
        if self.pop_frame(key) is not None and self.ignoring():
            self.failed = StopCase('whether the forgotten build was ended can not be told')
            raise self.failed
        for r in left:
            self.contribute(ver, (), r.must | r.may)
        return True

    def read(self, key, version=None, style='get', abort=False, which=None):
        """Single read. Returns (present, value); a tracked miss opens a frame."""
        ver = self.v(version)
        h = self.handle
        kw = {}
        if version is not None:
            kw['version'] = version
        if abort:
            kw['abort'] = True
        if style == 'positional' and version is not None and not abort:
            value = self.lib(lambda: h(which).get(key, SENTINEL, version))
        elif style == 'none' and not any(r.value is None for r in self.cands.get((ver, key), ())):
            value = self.lib(lambda: h(which).get(key, **kw))
            if value is None:
                value = SENTINEL
        else:
            value = self.lib(lambda: h(which).get(key, SENTINEL, **kw))
        present = value is not SENTINEL
        self.log('get(%s, version=%s, abort=%s) -> %s', key, version, abort, value if present else 'MISS')
        self.stats.obs['op get'] += 1
        rec = self.judge(ver, key, present, value, 'get')
        tracked = not abort and not self.ignoring()
        if present:
            self.hit(key, ver, rec, tracked)
        elif tracked:
            self.open_frame(key, ver)
        return present, value

    def hit(self, key, ver, rec, tracked):
        forgotten = self.pop_frame(key)         # a hit ends the forgotten build of the key
        if tracked:
            self.contribute(ver, rec.must, rec.may)
        elif forgotten is not None:
            self.contribute(ver, (), rec.must | rec.may)

    def open_frame(self, key, ver):
        f = Frame(key, ver, True)
        old = self.pop_frame(key)               # a build begun earlier and forgotten
        if old is not None:
            self.stats.obs['forgotten builds begun again'] += 1
            for d in (old.must, old.may):
                for v, tags in d.items():
                    f.may.setdefault(v, set()).update(tags)
        self.cur_frames().append(f)

    def read_many(self, keys, version=None, abort=False, form=list, which=None):
        ver = self.v(version)
        kw = {}
        if version is not None:
            kw['version'] = version
        if abort:
            kw['abort'] = True
        got = self.lib(lambda: self.handle(which).get_many(form(keys), **kw))
        self.log('get_many(%s, version=%s, abort=%s) -> %s', keys, version, abort, got)
        self.stats.obs['op get_many'] += 1
        if not isinstance(got, dict):
            self.mismatch('bulk-shape', 'get_many returned %r' % (got,))
        extra = set(got) - set(keys)
        if extra:
            self.mismatch('bulk-shape', 'get_many returned unrequested keys %r' % sorted(extra))
        for key in dict.fromkeys(keys):
            rec = self.judge(ver, key, key in got, got.get(key), 'get_many')
            if rec is not None:
                self.hit(key, ver, rec, not abort and not self.ignoring())
        return got

    def abort(self, key, which=None):
        self.log('abort(%s)', key)
        self.lib(lambda: self.handle(which).abort(key))
        self.pop_frame(key)

    def pop_frame(self, key):
        fs = self.cur_frames()
        for i in range(len(fs) - 1, -1, -1):   # dangling builds may be above it
            if fs[i].key == key:
                return fs.pop(i)
        return None

    def make_tags(self, tags, form):
        tags = list(tags)
        if form == 'dep':
            return deps.TagsDependency(*tags)
        if form == 'depl':      # one object used again and again
            k = frozenset(tags)
            if k not in self.kept:
                self.kept[k] = deps.TagsDependency(tags)
            return self.kept[k]
        if form == 'comp':
            half = len(tags) // 2
            return deps.CompositeDependency(deps.TagsDependency(*tags[:half]), deps.TagsDependency(*tags[half:]))
        return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[form](tags)

    def make_dep(self, tags, form):
        if not tags:
            return {'list': deps.CompositeDependency(), 'set': deps.TagsDependency(),
                    'dep': deps.DummyDependency()}.get(form)
        return self.make_tags(tags, form if form in ('dep', 'depl', 'comp') else 'dep')

    def deadline(self, timeout):
        if timeout is None:
            timeout = self.default_timeout
        if timeout is None:
            return None
        return CLOCK.now + max(timeout, -1)

    def model_store(self, key, value, tags, timeout, ver):
        own = set((ver, t) for t in tags)
        f = self.pop_frame(key)
        must, may = set(own), set(own)
        if f is not None and f.tracked:
            must |= f.must.get(ver, set())
            may |= f.may.get(ver, set())
        certain = not self.locked(must | may)
        if certain:
            self.contribute(ver, own, own)
        else:
            self.contribute(ver, (), own)
        rec = Rec(value, own, must, may - must, self.deadline(timeout), self.bump(), certain)
        self.put_rec(ver, key, rec)
        return rec

    def set(self, key, value, tags=(), timeout=None, version=None, form='tuple', which=None, style='pos'):
        """Stores and closes the build of the key, if it is the current one."""
        ver = self.v(version)
        low = which == 'wrapper'
        arg = self.make_dep(tags, form) if low else self.make_tags(tags, form)
        if low:
            self.stats.obs['op set dependency'] += 1
        self.log('set(%s, %s, tags=%s as %s, timeout=%s, version=%s)', key, value, sorted(map(str, tags)), form, timeout, version)
        h = self.handle
        if style == 'kw':
            kw = {'dependency' if low else 'tags': arg}
            if timeout is not None:
                kw['timeout'] = timeout
            if version is not None:
                kw['version'] = version
            self.lib(lambda: h(which).set(key, value, **kw))
        elif version is None and timeout is None:
            self.lib(lambda: h(which).set(key, value, arg) if (tags or form != 'tuple') else h(which).set(key, value))
        elif version is None:
            self.lib(lambda: h(which).set(key, value, arg, timeout))
        elif style == 'mixed':
            self.lib(lambda: h(which).set(key, value, arg, timeout, version=version))
        else:
            self.lib(lambda: h(which).set(key, value, arg, timeout, version))
        self.stats.obs['op set'] += 1
        return self.model_store(key, value, tags, timeout, ver)

    def compute(self, key, body, tags=(), timeout=None, version=None, form='tuple', which=None):
        """get_or_set_callback; body() runs inside the build and returns the value."""
        ver = self.v(version)
        arg = self.make_dep(tags, form) if which == 'wrapper' else self.make_tags(tags, form)
        if which == 'wrapper':
            self.stats.obs['op get_or_set dependency'] += 1
        called = []
        thread = self.thread

        def callback(*args, **kwargs):
            called.append((args, kwargs))
            if len(called) > 1:
                raise AssertionError('callback called twice')
            self.log('get_or_set_callback(%s): missed, building', key)
            if not self.found_none(ver, key):
                self.judge(ver, key, False, None, 'get_or_set_callback')
            if not self.ignoring():
                self.open_frame(key, ver)
            return body()
        kw = {}
        if version is not None:
            kw['version'] = version
        self.stats.obs['op get_or_set'] += 1
        try:
            value = self.lib(lambda: self.handle(which).get_or_set_callback(
                key, callback, arg, timeout, args=(1, 'a'), kwargs={'z': 2}, **kw), *APP)
        except APP:
            self.log('callback of %s raised', key)
            self.pop_frame(key)
            raise
        if called:
            if called[0] != ((1, 'a'), {'z': 2}):
                self.mismatch('exception', 'callback got %r' % (called[0],))
            self.log('get_or_set_callback(%s, tags=%s, timeout=%s, version=%s) stored %s', key, sorted(map(str, tags)), timeout, version, value)
            self.model_store(key, value, tags, timeout, ver)
        else:
            self.log('get_or_set_callback(%s, version=%s) -> hit %s', key, version, value)
            rec = self.judge(ver, key, True, value, 'get_or_set_callback')
            self.hit(key, ver, rec, not self.ignoring())
        return bool(called), value

    def raw_set(self, key, value, timeout=None, version=None):
        """Puts a value into the wrapped cache directly."""
        import django.core.cache
        self.log('raw set(%s, %s)', key, value)
        kw = {} if timeout is None else {'timeout': timeout}
        self.lib(lambda: django.core.cache.caches[self.location].set(key, value, version=version, **kw))
        ver = self.v(version)
        self.put_rec(ver, key, Rec(value, (), (), (), self.deadline(timeout), self.bump(), True, tagged=False))

    def delete(self, key, version=None, which=None):
        self.log('delete(%s, version=%s)', key, version)
        self.stats.obs['op delete'] += 1
        self.lib(lambda: self.handle(which).delete(key, version=version))
        k = (self.v(version), key)
        for rec in self.cands.pop(k, ()):
            self.gone.setdefault(k, []).append((rec.value, 'deleted'))

    def invalidate(self, tags, version=None, form='args', which=None):
        ver = self.v(version)
        tags = list(tags)
        kw = {} if version is None else {'version': version}
        self.log('invalidate_tags(%s as %s, version=%s)', sorted(map(str, tags)), form, version)
        self.stats.obs['op invalidate'] += 1
        if which == 'wrapper':
            arg = self.make_dep(tags, form) or deps.DummyDependency()
            self.lib(lambda: self.handle(which).invalidate_dependency(arg, **kw))
        elif form == 'args':
            self.lib(lambda: self.handle(which).invalidate_tags(*tags, **kw))
        else:
            arg = self.make_tags(tags, form)
            self.lib(lambda: self.handle(which).invalidate_tags(arg, **kw))
        s = self.bump()
        full = set((ver, t) for t in tags)
        for t in full:
            self.inv[t] = s
            self.forget(t)
        txn = self.txns.get(self.thread)
        if txn is not None:
            txn.tags |= full
            if self.level in ('rr', 'sr'):
                self.locks.append((frozenset(full), self.base, None))
        return full

    def begin(self, how='begin', which=None):
        self.log('transaction.begin()')
        self.lib(lambda: self.handle(which).transaction.begin())
        txn = self.txns.get(self.thread)
        if txn is None:
            self.txns[self.thread] = Txn()
        else:
            txn.depth += 1

    def finish(self, flush=False, which=None):
        txn = self.txns.get(self.thread)
        self.log('transaction.%s()', 'flush' if flush else 'finish')
        if flush:
            self.lib(lambda: self.handle(which).transaction.flush())
        else:
            self.lib(lambda: self.handle(which).transaction.finish())
        if txn is None:
            return
        txn.depth = 0 if flush else txn.depth - 1
        if txn.depth == 0:
            self.end_txn(self.thread)

    def end_txn(self, thread):
        txn = self.txns.pop(thread)
        if self.level != 'ru':
            s = self.bump()
            for t in txn.tags:
                self.inv[t] = s
                self.forget(t)
        if self.level in ('ru', 'rc') and self.delay and txn.tags:
            self.pending.append((CLOCK.now + self.delay, frozenset(txn.tags)))
        if self.level in ('rr', 'sr'):
            self.locks = [(tags, th, CLOCK.now + self.delay + 7 if th == thread.rstrip('*') and until is None else until)
                          for tags, th, until in self.locks]

    def close_handle(self, which=None):
        self.log('close()')
        self.lib(lambda: self.handle(which).close())
        self.frames[self.thread] = []
        if self.thread in self.txns:
            self.end_txn(self.thread)

    def set_ignore(self, flag, which=None):
        self.log('ignore_descendants = %s', flag)

        def go():
            self.handle(which).ignore_descendants = flag
        self.lib(go)
        self.ignore[self.thread] = flag

    def evict(self, pick):
        """The backend drops raw keys chosen by pick(list of raw keys)."""
        raw = sorted(self.store.data)
        chosen = pick(raw)
        if not chosen:
            return
        self.log('backend evicts %s', chosen)
        for k in chosen:
            self.store.data.pop(k, None)
        s = self.bump()
        for (ver, key), recs in self.cands.items():
            for r in recs:
                r.certain = False
        self.stats.obs['evicted'] += len(chosen)
        for t in list(self.born):
            self.maybe[t] = s
            self.unsure.add(t)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        if a != a and b != b:      # NaN
            return True
        return bool(a == b)
    except Exception:
        return False
