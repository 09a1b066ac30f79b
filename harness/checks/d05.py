# -*- coding: utf-8 -*-
import base64
import datetime
import pickle

from django.core import signals
from django.http import HttpRequest
from django.template import loader

from cache_dependencies.nocache import NoCache
from checks.base import BaseCheck
from core import Crew
from env import CLOCK
from kit import Tracer, dcd, fresh
from verifapp.loader import TEMPLATES

SPRUNG = []


def spring(what):
    SPRUNG.append(what)
    return what


class Trap(object):
    """Unpickling it is noticed."""

    def __reduce__(self):
        return spring, ('unpickled',)


TEXTS = ['plain ', '\n', '\r\n', '<b>x</b>', 'a&amp;b', u'\u0416\u4e2d', '\\1 \\g<0> %s {0} {x}', '$', '"', "'", '   \n\n  ', '\t', '</p>', u'\U0001F600', '<!-- c -->',
         '\x00', '<nocache', '</nocache', 'nocache:py', '<nocache:py>', ' secret="" data="']
VALUES = [0, -7, None, True, 'text', u'\u0416"\'<&', [1, [2]], {'k': (1, 2)}, 2.5, datetime.date(2020, 1, 2), '</nocache:py>', 'x' * 300, b'\xff\x00', ['"', '">']]
LISTS = [[], ['a'], [1, 2, 3]]
RAW = u'\x0b\x0c\x1c\x85\u2028;\u2029'      # line boundaries for text, not for Python
SECRETS = ['s3cret', 'a.b*c+', '{0}{1}', 'x(y', '$^|[a]', '\\d', '%s', 'a' * 40, u'\u0416', '{', ' spaced out ', 'e4d909c290d0fb1ca068ffaddf22cbd0']
NAMES = ['nocache:py', 'nocache:py', 'nc', 'x.y-z', 'a+b']


class Log(object):
    """What the blocks do: every run is noted; its output is unique."""

    def __init__(self):
        self.calls = []
        self.serial = 0

    def __call__(self, ident, **seen):
        self.serial += 1
        self.calls.append((ident, seen))
        return '(%s#%d)' % (ident, self.serial)


class Block(object):
    def __init__(self, rng, number, depth, names):
        self.ident = 'b%d' % number[0]
        number[0] += 1
        self.data = dict((n, rng.choice(VALUES)) for n in rng.sample(['x', 'y', 'z', 'filters'], rng.randint(0, 3)))
        self.live = sorted(rng.sample(names, rng.randint(0, 2)))
        self.indent = rng.choice(['', '', '    ', '\t', '  '])
        self.style = rng.choice(['echo', 'echo', 'loop', 'if', 'two', 'assign', 'def', 'silent', 'multi', 'empty', 'again', 'elsewhere', 'mutate', 'clean', 'raw'])
        if self.style in ('again', 'elsewhere') and depth > 1:
            self.style = 'echo'
        self.nested = []
        self.inside = None
        if self.style == 'mutate':
            self.data['m'] = rng.choice(LISTS)
        self.live = [n for n in self.live if n not in self.data]
        if self.style in ('again', 'elsewhere'):      # a document handled while the block runs
            self.inside = Block(rng, number, depth + 1, ['u', 'v'])
        elif depth < 3 and self.style != 'empty' and rng.random() < 0.3:
            for _ in range(rng.randint(1, 2)):
                self.nested.append(Block(rng, number, depth + 1, names))
        self.tail = rng.choice(['', '', 'tail', u'\u0416;'])
        self.pad = rng.choice([('\n', '\n'), ('\n\n', '\n    '), ('', ''), (' ', ' '), ('\n', '   \n\n')])
        if self.pad[0] in ('', ' ') and self.style in ('loop', 'if', 'def'):
            self.pad = ('\n', '\n')
        self.empty = rng.choice(['', '', ' ', '\n', '  \n\n'])
        self.trailing = rng.choice(['', '', '  '])

    def code(self):
        seen = ', '.join(['%s=%s' % (n, n) for n in sorted(set(self.data) | set(self.live))])
        call = "log('%s'%s)" % (self.ident, ', ' + seen if seen else '')
        lines = {
            'echo': ['echo(%s)' % call],
            'loop': ['for i in range(2):', '    if i:', '        echo(%s)' % call],
            'if': ['if 1 < 2:', '    echo(%s)' % call, 'else:', "    echo('wrong')"],
            'two': ["echo('<', %s, '>')" % call],
            'assign': ['value = %s' % call, '', 'echo(value)'],
            'def': ['def f(value):', '    return value', 'echo(f(%s))' % call],
            'silent': [call],
            'mutate': ["m.append('more')", 'echo(%s)' % call],
            'clean': ["echo('leaked' if 'value' in locals() or 'i' in locals() else '')", 'echo(%s)' % call],
            'raw': ["echo('%s')" % RAW, 'echo(%s)' % call],
            'multi': ["echo('a')", "echo(%s);echo('c')" % call, '# comment'],
        }.get(self.style)
        if self.inside:
            lines = ["echo('a')", "value = %s(%r, nd['%s'], u, v)" % (self.style, self.inside.text(), self.inside.ident), "echo(value, 'b')", 'echo(%s)' % call]
        for b in self.nested:
            lines.append("echo(handler.start(**nd['%s']), %r, handler.end(), %r)" % (b.ident, b.text(), b.tail))
        return lines

    def text(self):
        if self.style == 'empty':
            return self.empty
        start, end = self.pad
        lines = [(self.indent if i or '\n' in start else '') + l + self.trailing if l else l for i, l in enumerate(self.code())]
        if '\n' not in start:
            lines = [l if not i else l[len(self.indent):] for i, l in enumerate(lines)]
            if start:
                lines = [lines[0]] + [start + l if l else l for l in lines[1:]]
        return start + '\n'.join(lines) + end

    def expected(self, log, context, data=None):
        """Mirrors one run: the output, with the runs of nested blocks noted after it."""
        if self.style == 'empty':
            return ''
        seen = dict((n, context[n]) for n in self.live)
        seen.update(self.data if data is None else data)
        if self.style == 'mutate':
            seen['m'] = seen['m'] + ['more']
        before = ''
        if self.inside:
            before = 'a<%s>b' % self.inside.expected(log, context)
        out = before + log(self.ident, **seen)
        out = {'raw': RAW + out, 'two': '<%s>' % out, 'silent': '', 'multi': 'a%sc' % out}.get(self.style, out)
        for b in self.nested:
            out += b.expected(log, context) + b.tail
        return out


class Document(object):
    def __init__(self, rng, handler, t):
        self.parts = []
        self.rng = rng
        self.handler = handler
        number = [0]
        for _ in range(rng.randint(1, 9) if rng.random() > 0.005 else 300):
            x = rng.random()
            if x < 0.4:
                self.parts.append(Block(rng, number, 0, ['u', 'v', 'x']))
            elif x < 0.7:
                self.parts.append(rng.choice(TEXTS))
            else:
                self.parts.append(self.fake())

    def nested_data(self):
        out = {}

        def walk(b):
            out[b.ident] = b.data
            for c in b.nested + [b.inside] * bool(b.inside):
                walk(c)
        for p in self.parts:
            if isinstance(p, Block):
                walk(p)
        return out

    def fake(self):
        rng, h = self.rng, self.handler
        secret, name = h.secret, h.tag_name
        data = rng.choice([h.pickle({'x': 1}), h.pickle({'x': Trap()}), 'zzz'])
        start = rng.choice([
            '<%s data="%s">' % (name, data),
            '<%s secret="%s" data="%s">' % (name, rng.choice(['', 'x', secret + 'x', 'x' + secret, secret[:-1], secret[1:], secret.swapcase() + '_', '.*', secret[::-1] + 'q']), data),
            '<%s secret="%s">' % (name, 'other'),
            '<%s secret="%s%s">' % (name, secret, data),
            '<%s secret="%s" data="%s">' % (name, (secret.swapcase() if secret.swapcase() != secret else 'x'), data),
            '<%sx secret="%s" data="%s">' % (name, secret, data),
            '&lt;%s secret="%s" data="%s">' % (name, secret, data),
        ])
        code = rng.choice(["\nspring('executed')\n", "echo(spring('executed'))", "import sys\nspring('executed')", 'text', ''])
        return rng.choice([start + code + h.end(), start + code, code + h.end(), start, h.end()])

    def source(self):
        h = self.handler
        return ''.join([p if not isinstance(p, Block) else h.start(**p.data) + p.text() + h.end() for p in self.parts])

    def expected(self, log, context):
        return ''.join([p if not isinstance(p, Block) else p.expected(log, context) for p in self.parts])


def same(a, b):
    return repr(a) == repr(b)


def helpers(handler, crew, log, nd, stats):
    """What a block handles another document with: in the middle of its own run, in its thread or in another one."""
    def again(text, data, u, v):
        stats.obs['documents handled inside a block'] += 1
        return handler.handle('<' + handler.start(**data) + text + handler.end() + '>', u=u, v=v, **common)

    def elsewhere(text, data, u, v):
        stats.obs['documents handled in another thread meanwhile'] += 1
        return crew.call('elsewhere', lambda: handler.handle('<' + handler.start(**data) + text + handler.end() + '>', u=u, v=v, **common))
    common = dict(log=log, handler=handler, spring=spring, nd=nd, again=again, elsewhere=elsewhere)
    return common


class Direct(object):
    """NoCache.handle() on documents."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        self.t = Tracer()
        self.crew = Crew()

    def run(self):
        try:
            self.go()
        finally:
            self.crew.close()

    def go(self):
        rng, t = self.rng, self.t
        if rng.random() < 0.4:
            handler = dcd.nocache
        else:
            handler = NoCache(rng.choice(SECRETS), rng.choice(NAMES)) if rng.random() < 0.6 else NoCache(rng.choice(SECRETS))
        t('secret %s tag %s', handler.secret, handler.tag_name)
        doc = Document(rng, handler, t)
        text = doc.source()
        t('document: %s', repr(text))
        del SPRUNG[:]
        for _ in range(rng.randint(1, 2)):
            context = dict(u=rng.choice(VALUES), v=rng.choice(VALUES), x='current', unrelated=3)
            real, model = Log(), Log()
            expected = doc.expected(model, context)
            try:
                context.update(helpers(handler, self.crew, real, doc.nested_data(), self.stats))
                got = handler.handle(text, **context)
            except Exception as e:
                t.fail('failed', 'handle() raised %s: %s', type(e).__name__, str(e))
            judge(t, self.stats, got, expected, real, model)
        self.stats.sig(text)
        self.stats.sample(text[:600], limit=1)
        if not any(isinstance(p, Block) for p in doc.parts):
            self.stats.obs['documents without blocks'] += 1


def judge(t, stats, got, expected, real, model):
    stats.evaluations += 1
    stats.obs['blocks executed'] += len(model.calls)
    if SPRUNG:
        t.fail('fake executed', 'a block without the secret was executed: %s', list(SPRUNG))
    if [c[0] for c in real.calls] != [c[0] for c in model.calls]:
        t.fail('runs', 'blocks ran as %s instead of %s', [c[0] for c in real.calls], [c[0] for c in model.calls])
    for (ident, a), (_, b) in zip(real.calls, model.calls):
        if sorted(a) != sorted(b) or not all(same(a[k], b[k]) for k in a):
            t.fail('data', 'block %s ran with %s instead of %s', ident, a, b)
    if got != expected:
        t.fail('output', 'got %s instead of %s', repr(got), repr(expected))


class InTemplates(object):
    """{% nocache %} inside {% cache_tagging nocache=1 %}."""

    def __init__(self, rng, stats):
        self.rng = rng
        self.stats = stats
        fresh('default')
        TEMPLATES.clear()
        self.t = Tracer()
        self.crew = Crew()

    def write(self, doc, rng, inner):
        """The document as the body of a fragment; a block captures the data given by the context."""
        out = []
        for p in doc.parts:
            if isinstance(p, Block):
                if inner and rng.random() < 0.3:
                    out.append('{% cache_tagging "inner" "ti" %}')
                    out.append(self.block(p))
                    out.append('{% end_cache_tagging %}')
                    inner = False
                else:
                    out.append(self.block(p))
            else:
                self.texts.append(p)
                out.append('{{ texts.%d }}' % (len(self.texts) - 1))
        return ''.join(out)

    def block(self, b):
        args = ''.join([' %s=data.%s.%s' % (n, b.ident, n) for n in sorted(b.data)])
        code = b.text()
        return '{%% nocache%s %%}%s{%% endnocache %%}' % (args, code)

    def run(self):
        try:
            self.go()
        finally:
            self.crew.close()

    def go(self):
        rng, t = self.rng, self.t
        handler = dcd.nocache
        self.texts = []
        doc = Document(rng, handler, t)
        self.texts = []
        inner = rng.random() < 0.4
        body = self.write(doc, rng, inner)
        form = rng.choice(["nocache=1", "nocache=yes", "nocache='on' timeout=50"])
        TEMPLATES['page'] = '{%% load cache_tagging_tags %%}{%% autoescape off %%}[{%% cache_tagging "frag" "t" %s %%}%s{%% end_cache_tagging %%}]{%% endautoescape %%}' % (form, body)
        scoped = rng.random() < 0.4         # the current value of a variable is in an inner scope
        if scoped:
            TEMPLATES['page'] = TEMPLATES['page'].replace('[{%', '[{% with u=scoped %}{%').replace('%}]', '%}{% endwith %}]')
        t('%s', TEMPLATES['page'])
        t('texts %s', self.texts)
        del SPRUNG[:]
        real, model = Log(), Log()
        blocks = [p for p in doc.parts if isinstance(p, Block)]
        produced = {}
        valid = {}
        for n in range(rng.randint(2, 6)):
            x = rng.random()
            if x < 0.25:
                tag = rng.choice(['t', 't', 'ti'])
                dcd.cache.invalidate_tags(tag)
                t('invalidate %s', tag)
                for key in ('frag', 'inner'):
                    if tag == ('t' if key == 'frag' else 'ti') or (key == 'frag' and self.inner_in(body)):
                        if key == 'frag' and tag == 'ti' and not self.inner_in(body):
                            continue
                        valid.pop(key, None)
                continue
            if x < 0.35:
                CLOCK.advance(400)
                valid.clear()
                continue
            data = dict((b.ident, dict((k, rng.choice(VALUES if k != 'm' else LISTS)) for k in b.data)) for b in blocks)
            context = dict(u=rng.choice(VALUES), v=rng.choice(VALUES), x=rng.choice(VALUES), unrelated=3)
            ctx = dict(context, data=data, texts=self.texts, yes=True, **helpers(handler, self.crew, real, doc.nested_data(), self.stats))
            if scoped:
                ctx.update(u='shadowed', scoped=context['u'])
            real.calls, model.calls = [], []
            if 'frag' not in valid:                     # produced now
                ids = self.inner_ids(body, blocks)
                if 'inner' in valid:
                    keep = dict((i, produced[i]) for i in ids)
                    produced = dict(data)
                    produced.update(keep)
                else:
                    produced = dict(data)
                    if ids:
                        valid['inner'] = True
                valid['frag'] = True
                self.stats.obs['fragments produced'] += 1
            else:
                self.stats.obs['fragments from cache'] += 1
            expected = '[%s]' % ''.join([p if not isinstance(p, Block) else p.expected(model, context, produced[p.ident]) for p in doc.parts])
            try:
                got = loader.get_template('page').render(ctx, HttpRequest() if rng.random() < 0.3 else None)
            except Exception as e:
                import traceback
                t.fail('failed', 'rendering raised %s: %s %s', type(e).__name__, str(e), traceback.format_exc()[-600:])
            t('render -> %s', repr(got))
            judge(t, self.stats, got, expected, real, model)
            if rng.random() < 0.5:
                signals.request_finished.send(sender=self)
        dcd.cache.close()
        self.stats.sig(body, t.lines)

    def inner_in(self, body):
        return '"inner"' in body

    def inner_ids(self, body, blocks):
        if not self.inner_in(body):
            return []
        part = body.split('"inner"', 1)[1].split('{% end_cache_tagging %}')[0]
        return [b.ident for b in blocks if "log('%s'" % b.ident in part]


class Check(BaseCheck):
    prop = 'D05'
    quick = 12000
    thorough = 400000
    technique = ('runtime monitoring: random documents and templates with genuine, nested and fake uncached blocks; every run of a '
                 'block is logged with what it sees, and the output is compared with the expected text')
    rule = ('case = a random document (texts with markup, control and non-ASCII characters, genuine blocks of several code shapes and indents, some changing the data they are given, with '
            'captured data, nested up to 3 deep, some handling another document in the midst of their run, in the same or another thread, fakes with a missing, partial or different secret and booby-trapped data) '
            'handled once or twice, or the same written as {% nocache %} blocks of a cached fragment rendered 2 to 6 times with '
            'invalidations; judged on the log of runs, the data seen and the whole output; non-trivial = distinct document')
    level_note = 'thousands of random documents'
    assumptions = ['blocks are complete (a start with its end) and their code is valid Python']

    def required(self, tier):
        return {'blocks executed': 15000, 'fragments from cache': 300, 'documents without blocks': 100,
                'documents handled inside a block': 800, 'documents handled in another thread meanwhile': 800}

    def run_case(self, rng, idx, tier, stats):
        (InTemplates if rng.random() < 0.35 else Direct)(rng, stats).run()
