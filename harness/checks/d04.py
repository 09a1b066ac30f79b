from django.db import connections
from django.db.models import signals as model_signals

from checks.base import BaseCheck
from core import Crew
from env import CLOCK
from kit import MISS, Tracer, dcd, fresh, store

ALIASES = ['default', 'pages', 'rr0']
CATS, TITLES = [1, 2], ['x', 'y']


def universe():
    """Every tag some function may yield."""
    out = []
    for m in ('Post', 'Article', 'Note', 'Plain', 'Auto', 'all'):
        out.append(m)
        for c in CATS:
            out.append('%s.cat:%s' % (m, c))
        for t in TITLES:
            out.append('%s.title:%s' % (m, t))
    return out + [0, 1, '', 'some']         # a tag may be a number, or empty


UNIVERSE = universe()


class Taken(Exception):
    pass


class Signals(object):
    def __init__(self, rng, stats):
        from verifapp import models
        self.rng = rng
        self.stats = stats
        self.models = models
        for a in ALIASES:
            fresh(a)
        self.t = Tracer()
        self.crew = Crew()
        self.where = [None] if rng.random() < 0.6 else [None, 'A']
        self.regs = {}              # model -> [(alias, yields)]
        self.live = {}
        self.shape = []
        self.serial = 0
        self.open = {}              # (where, alias) -> tags invalidated in the open transaction

    # -- registration --------------------------------------------------------

    def yields(self, model):
        """A pure function of an instance: the tags, and the form in which they are given."""
        rng = self.rng
        name = rng.choice([model.__name__, model.__name__, 'all'])
        what = rng.choice(['one cat', 'one title', 'const', 'two', 'three', 'none', 'by cat', 'pk', 'pk', 'number', 'empty'])
        form = rng.choice([list, tuple, set, frozenset])

        def tags(obj):
            if what == 'one cat':
                return ['%s.cat:%s' % (name, obj.cat)]
            if what == 'one title':
                return ['%s.title:%s' % (name, obj.title)]
            if what == 'const':
                return [name]
            if what == 'two':
                return ['%s.cat:%s' % (name, obj.cat), '%s.title:%s' % (name, obj.title)]
            if what == 'three':
                return [name, 'all'] + ['%s.cat:%s' % (name, obj.cat)]
            if what == 'by cat':
                return ['%s.cat:%s' % (name, c) for c in CATS if c <= obj.cat]
            if what == 'number':
                return [obj.cat - 1]
            if what == 'empty':
                return ['' if obj.title == 'x' else 'some']
            if what == 'pk':
                return ['%s.pk:%s' % (model.__name__, obj.pk)]
            return []
        single = what in ('one cat', 'one title', 'const', 'pk', 'number', 'empty') and rng.random() < 0.6

        def give(obj):
            r = tags(obj)
            return r[0] if single else form(r)
        return tags, give, '%s %s%s' % (what, name, '' if single else ' ' + form.__name__)

    def function(self, give):
        """The same function in one of the accepted signatures."""
        sig = self.rng.choice(['obj', 'instance', '**kw', 'instance **kw', 'obj default', '*a **kw', 'sender instance', 'method', 'callable'])

        class Holder(object):
            def method(self, obj):
                return give(obj)

            def __call__(self, **kwargs):
                return give(kwargs['instance'])
        f = {
            'obj': lambda obj: give(obj),
            'instance': lambda instance: give(instance),
            '**kw': lambda **kw: give(kw['instance']),
            'instance **kw': lambda instance, **kw: give(instance),
            'obj default': lambda obj, extra=None: give(obj),
            '*a **kw': lambda *args, **kwargs: give(kwargs['instance']),
            'sender instance': lambda sender, instance, signal, **kw: give(instance),
            'method': Holder().method,
            'callable': Holder(),
        }[sig]
        return f, sig

    def register(self):
        rng, M = self.rng, self.models
        registry = dcd.registry if rng.random() < 0.7 else dcd.CacheRegistry()
        batch = []
        for _ in range(rng.randint(1, 3)):
            model = rng.choice([M.Post, M.Post, M.Article, M.Note])
            tags, give, what = self.yields(model)
            f, sig = self.function(give)
            alias = rng.choice([None, None, 'default', 'pages', 'rr0'])
            form = 'name'
            if alias is None:
                batch.append((model, f) if rng.random() < 0.7 else (model, f, None))
            elif rng.random() < 0.2 and self.where == [None]:
                form = 'handle'
                batch.append((model, f, dcd.caches[alias]))
            elif rng.random() < 0.2 and alias == 'default':
                form = 'proxy'
                batch.append((model, f, dcd.cache))
            else:
                batch.append((model, f, alias))
            self.regs.setdefault(model.__name__, []).append((alias or 'default', tags))
            self.t('register %s: %s as %s on %s (%s)', model.__name__, what, sig, alias, form)
            self.shape.append((model.__name__, what, sig, alias))
        if rng.random() < 0.5:
            batch = tuple(batch)
        elif rng.random() < 0.3:
            batch = [list(b) for b in batch]
        registry.register(batch)

    # -- observation ----------------------------------------------------------

    def fill(self):
        """Stores what is missing; every tag of every alias has a record."""
        for a in ALIASES:
            have = self.live.setdefault(a, {})
            h = dcd.caches[a]
            for tag in UNIVERSE + self.by_pk():
                if tag not in have and self.rng.random() < 0.9:
                    self.serial += 1
                    h.set('r:%s' % tag, self.serial, (tag,) if self.rng.random() < 0.7 else [tag, 'other:%s' % tag])
                    have[tag] = self.serial

    def by_pk(self):
        """Tags of the instances there are, and of the next one of every model."""
        out = ['%s.pk:0' % m for m in ('Post', 'Note', 'Article')]
        with self.connection.cursor() as c:
            c.execute('select name, seq from sqlite_sequence')
            seq = dict(c.fetchall())
        for m in (self.models.Post, self.models.Note, self.models.Article):
            ids = list(m.objects.exclude(id=0).values_list('id', flat=True)) + [seq.get(m._meta.db_table, 0) + 1]
            out.extend('%s.pk:%s' % (m.__name__, i) for i in ids)
        return out

    def expected(self, obj):
        name = obj.__class__.__name__
        hit = dict((a, set()) for a in ALIASES)
        if name == 'Auto':
            hit['pages'].add('Auto.cat:%s' % obj.cat)
            hit['default'].update(['Auto.title:' + obj.title, 'Auto'])
        for alias, tags in self.regs.get(name, ()):
            hit[alias].update(tags(obj))
        return hit

    def check(self, hit, what):
        for a in ALIASES:
            h = dcd.caches[a]
            have = self.live.get(a, {})
            many = self.rng.random() < 0.9
            got_many = h.get_many(['r:%s' % t for t in have]) if many else None
            for tag in sorted(have, key=str):
                got = got_many.get('r:%s' % tag, MISS) if many else h.get('r:%s' % tag, MISS, abort=True)
                self.stats.evaluations += 1
                if tag in hit[a]:
                    self.stats.obs['records which had to go'] += 1
                    if got is not MISS:
                        self.t.fail('not invalidated', '%s: record under %s on %s is still served', what, tag, a)
                    del have[tag]
                else:
                    self.stats.obs['records which had to stay'] += 1
                    if got != have[tag]:
                        self.t.fail('foreign invalidation', '%s: record under %s on %s is gone', what, tag, a)

    # -- operations -----------------------------------------------------------

    def operation(self):
        rng, M = self.rng, self.models
        where = rng.choice(self.where)
        model = rng.choice([M.Post, M.Post, M.Post, M.Note, M.Note, M.Article, M.Plain, M.Auto])
        kind = rng.choice(['create', 'create', 'create', 'create', 'save', 'save', 'save', 'save', 'save', 'delete', 'delete', 'delete', 'delete', 'qs.delete', 'qs.delete', 'get_or_create', 'raw', 'update_fields', 'deferred', 'zero'])
        db = rng.choice(['default', 'default', 'default', 'other'])
        objects = model.objects.using(db)
        hits = dict((a, set()) for a in ALIASES)
        done = []

        def note(obj):
            for a, tags in self.expected(obj).items():
                hits[a] |= tags
            done.append(repr((obj.__class__.__name__, obj.cat, obj.title)))

        def new():
            o = model(title=rng.choice(TITLES), cat=rng.choice(CATS))
            if model is M.Note and rng.random() < 0.7:
                o.post = rng.choice(list(M.Post.objects.using(db)) or [None])
            return o

        def pick():
            objs = list(objects.order_by('id'))
            if kind == 'delete' and model is M.Post and rng.random() < 0.6:
                objs = [o for o in objs if M.Note.objects.using(db).filter(post=o).exists()] or objs
            return rng.choice(objs) if objs else None

        def go():
            if kind == 'create':
                o = new()
                o.save(**rng.choice([{}, {'force_insert': True}, {'using': db}] if db == 'default' else [{'using': db}, {'using': db, 'force_insert': True}]))
                note(o)
            elif kind == 'get_or_create':
                o, created = objects.get_or_create(title=rng.choice(TITLES), cat=rng.choice(CATS)) \
                    if objects.count() < 2 else (None, False)
                if created:
                    note(o)
            elif kind == 'raw':
                o = new()
                o.save_base(raw=True, using=db)
                note(o)
            elif kind == 'zero':        # an instance with a false primary key
                o = new()
                o.pk = 0
                o.save(using=db)
                note(o)
            else:
                o = pick()
                if o is None:
                    return
                if kind == 'save':
                    o.cat, o.title = rng.choice(CATS), rng.choice(TITLES)
                    o.save()
                    note(o)
                elif kind == 'deferred':
                    o = objects.only('id', 'title').get(pk=o.pk)
                    o.title = rng.choice(TITLES)
                    o.save()
                    note(o)
                elif kind == 'update_fields':
                    o.cat = rng.choice(CATS)
                    o.save(update_fields=['cat'])
                    note(o)
                elif kind == 'delete':
                    note(o)
                    if model is M.Post:
                        for n in M.Note.objects.using(db).filter(post=o):
                            note(n)
                            self.stats.obs['cascades'] += 1
                    if rng.random() < 0.3:
                        o = objects.only('id').get(pk=o.pk)
                    o.delete()
                elif kind == 'qs.delete':
                    c = rng.choice(CATS)
                    for o in objects.filter(cat=c):
                        note(o)
                        if model is M.Post:
                            for n in M.Note.objects.using(db).filter(post=o):
                                note(n)
                    objects.filter(cat=c).delete()
        self.crew.call(where, lambda: (self.share(), go()))
        what = '%s %s %s in %s, database %s' % (kind, model.__name__, done, where, db)
        self.t('%s -> %s', what, dict((a, sorted(t, key=str)) for a, t in hits.items() if t))
        self.stats.obs['operation ' + kind] += bool(done)
        self.stats.obs['database ' + db] += bool(done)
        for a in ALIASES:
            if (where, a) in self.open:
                self.open[where, a] |= hits[a]
        self.check(hits, what)

    def share(self):
        """All threads use one connection to the database in memory."""
        for db, connection in self.connections.items():
            if connections[db] is not connection:
                connections[db] = connection

    def transaction(self):
        a = self.rng.choice(['default', 'rr0', 'pages'])
        where = self.rng.choice(self.where)
        if (where, a) not in self.open:
            if any(k[1] == a for k in self.open):
                return
            self.t('begin on %s in %s', a, where)
            self.crew.call(where, lambda: dcd.caches[a].transaction.begin())
            self.open[where, a] = set()
            return
        self.t('finish on %s in %s', a, where)
        self.crew.call(where, lambda: dcd.caches[a].transaction.finish())
        again = self.open.pop((where, a))
        self.check(dict((b, again if b == a else set()) for b in ALIASES), 'end of the transaction')
        if a == 'rr0':
            CLOCK.advance(6)        # records of locks are gone

    def run(self):
        saved = [(s, list(s.receivers)) for s in (model_signals.post_save, model_signals.pre_delete, model_signals.post_delete, model_signals.pre_save)]
        self.connections = dict((db, connections[db]) for db in ('default', 'other'))
        for connection in self.connections.values():
            connection.allow_thread_sharing = True
        self.connection = self.connections['default']
        M = self.models
        for m in (M.Note, M.Post, M.Article, M.Plain, M.Auto):
            for db in self.connections:
                m.objects.using(db).delete()
        try:
            self.register()
            for i in range(self.rng.randint(10, 22)):
                if self.rng.random() < 0.15:
                    self.register()
                if self.rng.random() < 0.15:
                    self.transaction()
                if not any(a == 'rr0' for _, a in self.open):
                    self.fill()
                self.operation()
        finally:
            self.crew.close()
            for s, receivers in saved:
                s.receivers[:] = receivers
                s.sender_receivers_cache.clear()
            for a in ALIASES:
                dcd.caches[a].close()
        self.stats.sig(self.t.lines)
        self.stats.sample('\n'.join(self.t.lines[:30]), limit=1)


class Check(BaseCheck):
    prop = 'D04'
    quick = 500
    thorough = 30000
    technique = ('runtime monitoring: random registrations and random saves and deletes through the ORM; after each of them a record '
                 'under every tag of every alias is read and must be gone exactly if a registration yields its tag')
    rule = ('case = random registrations (functions of nine signatures yielding one tag, which may be a number or empty, or four kinds of collections, on the default or '
            'a named alias, given by name or handle, several per model, also found by autodiscover) and 10 to 22 saves, creations, deletes, cascades, '
            'queryset deletes, deferred and partial instances, a false primary key, in one of two databases, in one or two threads, inside and outside transactions; judged on every record of three aliases; '
            'non-trivial = distinct trace')
    level_note = 'hundreds of random registrations and histories, every tag observed after every operation'
    assumptions = ['tag functions depend only on the instance', 'instances are saved as their registered class (not as a proxy model)']

    def begin(self, tier, seed, w, workers):
        from django.core.management import call_command
        from django.db import connections
        from verifapp import models
        import sys
        for db in ('default', 'other'):
            with connections[db].schema_editor() as e:
                for m in (models.Post, models.Article, models.Note, models.Plain, models.Auto):
                    e.create_model(m)
        if 'verifapp.caches' in sys.modules:
            raise RuntimeError('verifapp.caches is imported already')
        dcd.autodiscover()
        if 'verifapp.caches' not in sys.modules:
            from core import Violation
            raise Violation('autodiscover', 'autodiscover() did not import caches.py of an application')

    def required(self, tier):
        return {'records which had to go': 2500, 'records which had to stay': 50000, 'cascades': 10, 'operation delete': 150, 'operation save': 300, 'database other': 300,
                'operation deferred': 80, 'operation zero': 80}

    def run_case(self, rng, idx, tier, stats):
        Signals(rng, stats).run()
