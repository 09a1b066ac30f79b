"""Random templates made of tagged fragments, with a reference model of what a rendering must give.

A template is a tree; source() writes it in Django's language, Model.render() gives the text which
the real rendering must return, walking the tree with a model of the cache.
"""
import django_cache_dependencies as dcd
from django.template import loader
from verifapp.loader import TEMPLATES

from core import weighted
from env import CLOCK
from kit import MISS

TAGS = ['a', 'b', 'c', 'd', '\u0451', '']


# arguments of fragments which are good or bad, depending on the scope
FRAIL = {'tmo': 35, 'tgl': ['a'], 'tga': 'b'}
FRAIL_TAGS = {'list': ['a'], 'arg': ['b']}
BAD = {'tmo': 'soon', 'tgl': 5, 'tga': ['x']}


class Boom(Exception):
    pass


class Record(object):
    def __init__(self, value, tags, expiry, keys=()):
        self.value = value
        self.tags = tags            # {tag: generation}
        self.expiry = expiry


class Frame(object):
    """A build: what has been given to it and what it has inherited."""

    def __init__(self):
        self.added = set()
        self.inherited = {}
        self.prevent = False


class Model(object):
    """The cache as it must look from outside."""
    DEFAULT = 300

    def __init__(self, box=None):
        self.gen = {}
        self.data = {}
        self.frames = []
        self.box = box or [0]       # the last unique number
        self.pending = None         # tags invalidated in the open transaction
        self.rendered = []          # names of fragments whose bodies ran
        self.page_prevented = False
        self.maybe_prevented = False
        self.page_tags = set()      # tags of fragments whose bodies ran in this page
        self.hits = 0
        self.refused = 0            # fragments with bad arguments
        self.pages = []             # trees of whole pages
        self.elsewhere = False

    @property
    def serial(self):
        return self.box[0]

    def next(self):
        self.box[0] += 1
        return self.box[0]

    def valid(self, key):
        r = self.data.get(key)
        if r is None or r.expiry <= CLOCK.now:
            return None
        for t, g in r.tags.items():
            if self.gen.get(t, 0) != g:
                return None
        return r

    def why(self, key):
        r = self.data.get(key)
        if r is None:
            return 'never stored'
        if r.expiry <= CLOCK.now:
            return 'expired'
        bad = sorted(t for t, g in r.tags.items() if self.gen.get(t, 0) != g)
        return 'invalidated by %s' % ', '.join(bad) if bad else 'valid'

    def get(self, key):
        r = self.valid(key)
        if r is not None:
            self.hits += 1
            self.inherit(r.tags)
        return r

    def inherit(self, tags):
        for f in self.frames:           # the builds of failed and prevented parts included
            f.inherited.update(tags)

    def store(self, key, value, tags, timeout, frame=None):
        own = dict((t, self.gen.get(t, 0)) for t in tags)
        if frame is not None:
            for t in frame.inherited:
                own[t] = self.gen.get(t, 0)
        self.data[key] = Record(value, own, CLOCK.now + (self.DEFAULT if timeout is None else timeout))
        self.inherit(own)

    def invalidate(self, tags):
        for t in tags:
            self.gen[t] = self.gen.get(t, 0) + 1
        if self.pending is not None:
            self.pending.update(tags)

    # -- rendering -----------------------------------------------------------

    def render(self, nodes, env):
        return ''.join([self.node(n, env) for n in nodes])

    def node(self, n, env):
        kind = n[0]
        if kind == 'text':
            return n[1]
        if kind == 'probe':
            return '<%d>' % self.next()
        if kind == 'fragment':
            return self.fragment(n[1], env)
        if kind == 'add':
            self.frames[-1].added.update(n[1])
            return ''
        if kind == 'read':
            return self.read(n[1], n[2], env)
        if kind == 'prevent':
            self.frames[-1].prevent = True
            self.maybe_prevented = True     # in case its body fails
            return ''
        if kind == 'if':
            return self.render(n[2], env) if env['flags'][n[1]] else ''
        if kind == 'for':
            return ''.join([self.render(n[2], env) for _ in range(n[1])])
        if kind == 'with':
            return self.render(n[1], env)
        if kind in ('include', 'bad'):
            if kind == 'bad':
                env = dict(env, vars=dict(env['vars'], bad=True))
            try:
                return self.render(n[1], env)
            except Boom:                # Django renders nothing in place of it
                return ''
        if kind == 'boom':
            if env['flags'][n[1]]:
                raise Boom()
            return ''
        if kind == 'meanwhile':
            return self.meanwhile(n[1], env)
        raise AssertionError(kind)

    def meanwhile(self, other, env):
        """Another thread renders a page from its beginning to its end."""
        if self.elsewhere:
            return ''
        frames, self.frames, self.elsewhere = self.frames, [], True
        try:
            return '(%s)' % self.render(self.pages[other.page % len(self.pages)], dict(env, flags=other.flags, vars=other.vars))
        except Boom:
            return '(Boom)'
        finally:
            self.frames, self.elsewhere = frames, False

    def fragment(self, f, env):
        r = self.get(f.key(env))
        if r is not None:
            return r.value
        if f.frail and env['vars'].get('bad'):      # its arguments cannot be used
            self.refused += 1
            raise Boom()
        frame = Frame()
        self.frames.append(frame)
        self.rendered.append(f.key(env))
        try:
            out = self.render(f.body, env)
        finally:
            self.frames.pop()
        tags = set(f.args) | set((f.list if f.frail != 'list' else None) or ()) | set(FRAIL_TAGS.get(f.frail, ())) | frame.added | set(env['vars'][v] for v in f.vars)
        self.page_tags.update(tags)
        if frame.prevent:
            self.page_prevented = True
            if self.frames:
                self.frames[-1].prevent = True
        else:
            self.store(f.key(env), out, tags, FRAIL['tmo'] if f.frail == 'timeout' else f.timeout, frame)
        return out

    def read(self, key, how, env):
        spec = env['values'][key]
        r = self.get(key)
        if r is not None:
            return r.value
        if how == 'peek':
            return '[%s?]' % key
        if how == 'compute':
            return '[%s!%d]' % (key, self.next())
        frame = Frame()
        self.frames.append(frame)
        try:
            inner = ''.join([self.read(k, 'get_or_set', env) for k in spec.reads])
        finally:
            self.frames.pop()
        value = '[%s=%d%s]' % (key, self.next(), inner)
        self.store(key, value, spec.tags, spec.timeout, frame)
        return value


class Fragment(object):
    """{% cache_tagging name args tags=list timeout=n %} body"""

    def __init__(self, name, args, vars, list, timeout, body, style, frail=None):
        self.frail = frail          # the argument which is bad in some scopes
        self.name = name
        self.args = args
        self.vars = vars            # names of context variables holding a tag
        self.list = list
        self.timeout = timeout
        self.body = body
        self.style = style

    def key(self, env):
        if self.style == 'keyed':
            return self.name + env['vars']['user']
        return self.name


class Other(object):
    """A rendering in another thread, in the midst of a body."""

    def __init__(self, page, flags, vars):
        self.page = page
        self.flags = flags
        self.vars = vars


class Spec(object):
    def __init__(self, tags, timeout, reads):
        self.tags = tags
        self.timeout = timeout
        self.reads = reads


class World(object):
    """Real side: what the templates get in their contexts. Mirrors Model.read and the serial numbers."""

    def __init__(self, specs, alias=None, box=None):
        self.box = box or [0]
        self.alias = alias
        self.specs = specs
        self.reads = 0
        self.flags = {}

    @property
    def serial(self):
        return self.box[0]

    def next(self):
        self.box[0] += 1
        return self.box[0]

    @property
    def p(self):
        return '<%d>' % self.next()

    def boom(self, name):
        if self.flags[name]:
            raise Boom()
        return ''

    def read(self, key, how):
        cache = dcd.caches[self.alias] if self.alias else dcd.cache
        spec = self.specs[key]
        self.reads += 1
        if how == 'get_or_set':
            def compute(*args, **kw):
                inner = ''.join([self.read(k, 'get_or_set') for k in spec.reads])
                return '[%s=%d%s]' % (key, self.next(), inner)
            return cache.get_or_set_callback(key, compute, spec.tags, spec.timeout)
        value = cache.get(key)
        if value is not None:
            return value
        if how == 'set':
            inner = ''.join([self.read(k, 'get_or_set') for k in spec.reads])
            value = '[%s=%d%s]' % (key, self.next(), inner)
            cache.set(key, value, spec.tags, spec.timeout)
            return value
        cache.abort(key)
        if how == 'peek':
            return '[%s?]' % key
        return '[%s!%d]' % (key, self.next())


class Reads(object):
    """{{ r.get_or_set.key }}"""

    def __init__(self, world, how=None):
        self.world = world
        self.how = how

    def __getitem__(self, name):
        if self.how is None:
            return Reads(self.world, name)
        return self.world.read(name, self.how)


class Meanwhile(object):
    """{{ m.m0 }}"""

    def __init__(self, others, go):
        self.others = others
        self.go = go

    def __getitem__(self, name):
        return self.go(self.others[name])


class Booms(object):
    def __init__(self, world):
        self.world = world

    def __getitem__(self, name):
        return self.world.boom(name)


HOWS = ['get_or_set', 'get_or_set', 'set', 'compute', 'peek']


class Writer(object):
    """Generates trees and writes them as templates."""

    def __init__(self, rng, keys, prevent=0.0, boom=0.05, max_depth=3, timeouts=True, frail=0.0, meanwhile=0.0):
        self.rng = rng
        self.meanwhile = meanwhile
        self.others = {}            # name -> Other
        self.go = lambda other: ''
        self.keys = keys
        self.prevent = prevent
        self.frail = frail
        self.boom = boom
        self.max_depth = max_depth
        self.timeouts = timeouts
        self.fragments = []
        self.lists = {}             # name of a variable -> list of tags
        self.includes = 0
        self.n = 0

    def tags(self, most):
        return self.rng.sample(TAGS, self.rng.randint(0, most))

    def tree(self, depth=0, inside=(), size=None):
        rng = self.rng
        out = []
        for _ in range(size or rng.randint(0 if depth else 1, 4)):
            choices = [(2, 'text'), (3, 'probe'), (2.5, 'read'), (0.7, 'if'), (0.5, 'for'), (0.5, 'with'), (0.5, 'include'), (self.boom, 'boom'), (self.frail, 'bad')]
            if depth < self.max_depth:
                choices.append((4 if not inside else 2.5, 'fragment'))
                choices.append((self.frail, 'again'))
            if inside:
                choices.append((1.5, 'add'))
                choices.append((self.prevent, 'prevent'))
                choices.append((self.meanwhile, 'meanwhile'))
                if depth < self.max_depth and self.boom > 0.1:
                    choices.append((1, 'fragile'))
            kind = weighted(rng, choices)
            if kind == 'text':
                out.append(('text', rng.choice(['x', ' ', '\n', 'text;', '"q"', '<b>'])))
            elif kind == 'probe':
                out.append(('probe',))
            elif kind == 'read':
                out.append(('read', rng.choice(self.keys), rng.choice(HOWS)))
            elif kind == 'add':
                out.append(('add', rng.sample(TAGS, rng.randint(1, 2)), rng.random() < 0.5))
            elif kind == 'prevent':
                if rng.random() < 0.5:
                    out.append(('if', 'f0', [('prevent',)]))
                else:
                    out.append(('prevent',))
            elif kind == 'boom':
                out.append(('boom', 'boom'))
            elif kind == 'meanwhile':
                name = 'm%d' % len(self.others)
                self.others[name] = Other(rng.randrange(6), dict(f0=rng.random() < 0.5, f1=rng.random() < 0.5, boom=rng.random() < 0.2),
                                          dict(user=rng.choice(['u', 'v']), tv=rng.choice(TAGS), bad=False))
                out.append(('meanwhile', self.others[name], name))
            elif kind == 'if':
                out.append(('if', rng.choice(['f0', 'f1']), self.tree(depth + 1, inside, rng.randint(1, 2))))
            elif kind == 'for':
                out.append(('for', rng.randint(0, 2), self.tree(depth + 1, inside, rng.randint(1, 2))))
            elif kind == 'fragile':         # fails inside a nested fragment; the enclosing one survives
                self.n += 1
                f = Fragment('frag%d' % self.n, self.tags(1), [], None, None, None, 'literal')
                f.uses, f.done = set([f.name]), True
                f.body = [('read', rng.choice(self.keys), rng.choice(HOWS)), ('boom', 'boom')]
                out.append(('include', [('fragment', f)]))
            elif kind == 'again':           # refused first, then with good arguments
                usable = [f for f in self.fragments if f.done and f.frail and f.name not in inside and not f.uses & set(inside)]
                f = rng.choice(usable) if usable and rng.random() < 0.6 else self.fragment(depth, inside)
                out.append(('bad', [('fragment', f)]))
                out.extend(self.tree(depth + 1, inside, rng.randint(1, 2)))
                out.append(('fragment', f))
            elif kind in ('with', 'include', 'bad'):
                out.append((kind, self.tree(depth + 1, inside, rng.randint(1, 2))))
            else:
                usable = [f for f in self.fragments if f.done and f.name not in inside and not f.uses & set(inside)]
                if usable and rng.random() < 0.3:
                    out.append(('fragment', rng.choice(usable)))
                else:
                    out.append(('fragment', self.fragment(depth, inside)))
        return out

    def fragment(self, depth, inside):
        rng = self.rng
        self.n += 1
        name = 'frag%d' % self.n
        f = Fragment(name, self.tags(2), ['tv'] if rng.random() < 0.2 else [],
                     self.tags(2) if rng.random() < 0.35 else None,
                     rng.choice([None, None, 5, 40, 1000]) if self.timeouts else None, None,
                     rng.choice(['literal', 'literal', 'variable', 'filter', 'keyed']),
                     rng.choice(['timeout', 'list', 'arg']) if self.frail and rng.random() < 0.4 else None)
        f.uses = set([name])
        f.done = False
        self.fragments.append(f)
        # a body may be empty, or have no output
        f.body = [] if rng.random() < 0.06 else self.tree(depth + 1, tuple(inside) + (name,))
        self.collect(f.body, f.uses)
        f.done = True
        return f

    def collect(self, nodes, names):
        for n in nodes:
            if n[0] == 'fragment':
                names |= n[1].uses
            for part in n[1:]:
                if isinstance(part, list) and part and isinstance(part[0], tuple):
                    self.collect(part, names)

    # -- source --------------------------------------------------------------

    def source(self, nodes):
        return ''.join([self.write(n) for n in nodes])

    def write(self, n):
        kind = n[0]
        if kind == 'text':
            return n[1]
        if kind == 'probe':
            return '{{ w.p }}'
        if kind == 'read':
            return '{{ r.%s.%s }}' % (n[2], n[1])
        if kind == 'add':
            if n[2]:
                return '{%% cache_add_tags %s %%}' % self.listvar(n[1])
            return '{%% cache_add_tags %s %%}' % ' '.join(["'%s'" % t for t in n[1]])
        if kind == 'prevent':
            return '{% cache_tagging_prevent %}'
        if kind == 'boom':
            return '{{ b.%s }}' % n[1]
        if kind == 'meanwhile':
            return '{{ m.%s }}' % n[2]
        if kind == 'if':
            return '{%% if flags.%s %%}%s{%% endif %%}' % (n[1], self.source(n[2]))
        if kind == 'for':
            return "{%% for i in '%s' %%}%s{%% endfor %%}" % ('x' * n[1], self.source(n[2]))
        if kind == 'with':
            return '{%% with user2=user cc="1" %%}%s{%% endwith %%}' % self.source(n[1])
        if kind == 'include':
            self.includes += 1
            name = 'inc%d' % self.includes
            self.put(name, self.source(n[1]))
            return "{%% include '%s' %%}" % name
        if kind == 'bad':
            self.includes += 1
            name = 'inc%d' % self.includes
            self.put(name, self.source(n[1]))
            return "{%% include '%s' with tmo=bad.tmo tgl=bad.tgl tga=bad.tga %%}" % name
        f = n[1]
        name = {'literal': "'%s'" % f.name, 'variable': 'names.%s' % f.name, 'filter': "'%s'|concat:''" % f.name,
                'keyed': "'%s'|concat:user" % f.name}[f.style]
        bits = [name] + ["'%s'" % t for t in f.args] + f.vars
        if f.frail == 'arg':
            bits.append('tga')
        if f.frail == 'list':
            bits.append('tags=tgl')
        elif f.list is not None:
            bits.append('tags=' + self.listvar(f.list))
        if f.frail == 'timeout':
            bits.append('timeout=tmo')
        elif f.timeout is not None:
            bits.append('timeout=%d' % f.timeout)
        return '{%% cache_tagging %s %%}%s{%% end_cache_tagging %%}' % (' '.join(bits), self.source(f.body))

    def listvar(self, tags):
        name = 'l%d' % len(self.lists)
        self.lists[name] = self.rng.choice([list, tuple, set, frozenset])(tags)
        return name

    def put(self, name, text):
        TEMPLATES[name] = '{% load cache_tagging_tags %}{% autoescape off %}' + text + '{% endautoescape %}'

    def context(self, world, env):
        c = dict(w=world, r=Reads(world), b=Booms(world), m=Meanwhile(self.others, self.go), flags=env['flags'],
                 names=dict((f.name, f.name) for f in self.fragments))
        c.update(FRAIL, bad=BAD)
        c.update((k, v) for k, v in env['vars'].items() if k != 'bad')
        if env['vars'].get('bad'):
            c.update(BAD)
        c.update(self.lists)
        return c
