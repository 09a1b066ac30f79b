"""Systematic mutants: mutants.py list FILE... | run OUT.jsonl [-jN] FILE...

Every mutant of the library is run in a scratch copy which is seen as /repo in a
mount namespace of its own: a share of the cases of the checks which concern the
file, the repository's tests, and the other checks, until one reports something.
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORDER = {
    'cache.py': 'C01 C04 C05 C10 C08 C06 C11 R01 C03',
    'tagging.py': 'C01 C08 C02 C07 C06',
    'dependencies.py': 'C09 C01 T04 T02 C06 C07',
    'locks.py': 'T02 T04 T01 T03 C06',
    'transaction.py': 'T01 T05 T02 T03 T06 D07 R01',
    'relations.py': 'C03 C04 C01 R02 D07',
    'mixins.py': 'T05 D01 D07',
    'utils.py': 'T07 C09 C10 C07 D02',
    'defer.py': 'C05 C06 C03 C01 C07 R01',
    'nocache.py': 'D05 D01 D02',
    'django_cache_dependencies/__init__.py': 'D07 D04 T06 T05 C10 T04',
    'decorators.py': 'D02 D03 T05 D07',
    'middleware.py': 'D02 D03 T05 D07 D05',
    'django_cache_dependencies/utils.py': 'D01 D05 D02 D03 C07',
    'backends.py': 'D06 C11',
    'cache_tagging_tags.py': 'D01 D05 D02',
}
ALL = ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 T01 T02 T03 T04 T05 T06 T07 R01 R02 D01 D02 D03 D04 D05 D06 D07').split()
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
CMP2 = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}


class Source(object):
    def __init__(self, path):
        self.text = open(path, encoding='utf8').read()
        self.lines = self.text.split('\n')
        self.tree = ast.parse(self.text)
        self.start = [0]
        for l in self.lines:
            self.start.append(self.start[-1] + len(l) + 1)

    def pos(self, line, col):
        return self.start[line - 1] + len(self.lines[line - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


def mutants(path):
    s = Source(path)
    out = []

    def put(n, new, what):
        a, b = s.span(n)
        out.append((n.lineno, what, a, b, new))

    def block(body):
        for n in body:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                continue
            put(n, 'pass', 'delete ' + type(n).__name__)
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                put(n, 'return None', 'return None')
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                a, b = s.span(n.orelse[0])[0], s.span(n.orelse[-1])[1]
                out.append((n.orelse[0].lineno, 'empty else', a, b, 'pass'))
        for x, y in zip(body, body[1:]):
            simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)
            if isinstance(x, simple) and isinstance(y, simple) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                (a, b), (c, d) = s.span(x), s.span(y)
                out.append((x.lineno, 'swap statements', a, d, s.text[c:d] + s.text[b:c] + s.text[a:b]))

    for n in ast.walk(s.tree):
        for f in ('body', 'orelse', 'finalbody'):
            body = getattr(n, f, None)
            if isinstance(body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                block(body)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, '(not (%s))' % s.get(n.test), 'negate condition')
            put(n.test, '(%s) or True' % s.get(n.test), 'always')
            put(n.test, '(%s) and False' % s.get(n.test), 'never')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = s.get(n.left), s.get(n.comparators[0])
            for table in (CMP, CMP2):
                new = table.get(type(n.ops[0]))
                if new:
                    put(n, '%s %s %s' % (l, new, r), 'comparison ' + new)
        if isinstance(n, ast.BoolOp):
            vals = [s.get(v) for v in n.values]
            new = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(%s)' % new.join('(%s)' % v for v in vals), 'bool op' + new)
            for i in range(len(vals)):
                keep = vals[:i] + vals[i + 1:]
                put(n, '(%s)' % ((' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % v for v in keep)), 'drop operand %d' % i)
        if isinstance(n, ast.BinOp):
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, s.get(n.left), 'left operand')
                put(n, s.get(n.right), 'right operand')
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    put(n, '%s %s %s' % (s.get(n.left), '-' if isinstance(n.op, ast.Add) else '+', s.get(n.right)), 'sign')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % s.get(n.operand), 'drop not')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'flip')
            elif n.value is None:
                pass
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), 'plus one')
                if n.value:
                    put(n, '0', 'zero')
        if isinstance(n, ast.Call):
            f = s.get(n.func)
            args = [s.get(a) for a in n.args]
            kws = [('%s=%s' % (k.arg, s.get(k.value)) if k.arg else '**' + s.get(k.value)) for k in n.keywords]
            for i in range(len(kws)):
                put(n, '%s(%s)' % (f, ', '.join(args + kws[:i] + kws[i + 1:])), 'drop keyword ' + kws[i])
            if len(args) > 1:
                put(n, '%s(%s)' % (f, ', '.join(args[:-1] + kws)), 'drop last argument')
            for i in range(len(args) - 1):
                put(n, '%s(%s)' % (f, ', '.join(args[:i] + [args[i + 1], args[i]] + args[i + 2:] + kws)), 'swap arguments %d' % i)
            if len(args) == 1 and not kws and isinstance(n.func, ast.Name) and n.func.id in ('list', 'set', 'tuple', 'dict', 'sorted', 'frozenset', 'copy', 'str', 'int'):
                put(n, '(%s)' % args[0], 'unwrap ' + f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'items', 'keys', 'values', 'deepcopy') and not args:
                if n.func.attr == 'copy':
                    put(n, s.get(n.func.value), 'unwrap copy')
        if isinstance(n, (ast.For, ast.comprehension)):
            put(n.iter, 'list(%s)[1:]' % s.get(n.iter), 'skip first')
            put(n.iter, 'list(%s)[:1]' % s.get(n.iter), 'only first')
        if isinstance(n, ast.comprehension) and n.ifs:
            for c in n.ifs:
                put(c, 'True', 'drop filter')
        if isinstance(n, ast.ExceptHandler):
            a, b = s.span(n.body[0])[0], s.span(n.body[-1])[1]
            out.append((n.lineno, 'reraise', a, b, 'raise'))
            if n.type is not None:
                put(n.type, 'ZeroDivisionError', 'catch nothing')
        if isinstance(n, ast.Try) and n.finalbody:
            pass
        if isinstance(n, ast.FunctionDef):
            args = n.args
            for a, dflt in zip(args.args[len(args.args) - len(args.defaults):], args.defaults):
                if isinstance(dflt, ast.Constant) and dflt.value is None and a.arg in ('version', 'timeout', 'tags', 'abort'):
                    continue
            for d in n.decorator_list:
                if s.get(d) in ('property', 'staticmethod', 'classmethod', 'abstractmethod'):
                    continue
                put(d, '(lambda f: f)', 'drop decorator')
    boring = set(l for n in s.tree.body if isinstance(n, ast.Try) for l in range(n.lineno, n.end_lineno + 1))
    seen, res = set(), []
    for line, what, a, b, new in sorted(out, key=lambda m: (m[0], m[1], m[2], m[4])):
        text = s.text[:a] + new + s.text[b:]
        if text in seen or text == s.text or line in boring or what in ('delete Assert', 'delete Raise'):
            continue
        seen.add(text)
        try:
            compile(text, path, 'exec')
        except SyntaxError:
            continue
        res.append(dict(line=line, what=what, old=s.text[a:b], new=new, text=text))
    return res


def run(d, cmd, limit, **env):
    try:
        script = 'mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && cd /repo && ulimit -v 12000000 && %s' % (d, d, cmd)
        p = subprocess.Popen(['unshare', '-Urmpf', '--kill-child', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=dict(os.environ, **env), start_new_session=True)
        out = p.communicate(timeout=limit)[0]
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'timeout', ''


SHARE = int(os.environ.get('MUT_SHARE', '16'))


def part(d, c):
    """A share of the cases of a check, in one process; returns what it reports."""
    out = '%s/part.json' % d
    if os.path.exists(out):
        os.remove(out)
    rc, text = run(d, 'cd %s && PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore VERIF_FIRST=1 /opt/venv/bin/python harness/main.py %s --worker 0 %d %s quick 1 100'
                   % (VERIF, c, SHARE, out), 200)
    if rc == 'timeout':
        return 'timeout'
    if not os.path.exists(out):
        return 'died: ' + text[-200:]
    r = json.load(open(out))
    for k in ('violations', 'errors', 'inconclusive'):
        if r[k]:
            return '%s: %s' % (k, str(r[k][0])[:200])


def judge(pool, f, i, m):
    d = pool.pop()
    p = os.path.join(d, 'repo', f)
    orig = open(p, encoding='utf8').read()
    res = dict(file=f, number=i, line=m['line'], what=m['what'], old=m['old'][:300], new=m['new'][:300])
    try:
        open(p, 'w', encoding='utf8').write(m['text'])
        first = max((len(k), v) for k, v in ORDER.items() if f.endswith(k))[1].split()
        for c in first + ['tests'] + [c for c in ALL if c not in first and '-all' in sys.argv]:
            if c == 'tests':
                rc, out = run(d, 'bash /opt/vp/test.sh %s/out.json' % d, 150)
                if rc == 'timeout' or not os.path.exists(d + '/out.json') or seeds.compare(d + '/out.json'):
                    res['result'] = 'tests'
                    return res
                continue
            said = part(d, c)
            if said:
                res.update(result='caught', check=c, detail=said)
                return res
        res['result'] = 'survived'
        return res
    finally:
        open(p, 'w', encoding='utf8').write(orig)
        if os.path.exists(d + '/out.json'):
            os.remove(d + '/out.json')
        pool.append(d)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = next((int(a[2:]) for a in sys.argv if a.startswith('-j')), 5)
    if args[0] == 'list':
        for f in args[1:]:
            ms = mutants(os.path.join('/repo', f))
            print(f, len(ms))
            if '-v' in sys.argv:
                for i, m in enumerate(ms):
                    print('  %d: line %d %s: %r -> %r' % (i, m['line'], m['what'], m['old'][:70], m['new'][:70]))
    else:
        out = args[1]
        done = set()
        if os.path.exists(out):
            done = set((r['file'], r['line'], r['what'], r['old'], r['new']) for r in map(json.loads, open(out)))
        pool = [seeds.copy() for _ in range(jobs)]
        lock = threading.Lock()

        def work(a):
            f, i, m = a
            if (f, m['line'], m['what'], m['old'][:300], m['new'][:300]) in done:
                return
            r = judge(pool, f, i, m)
            with lock:
                open(out, 'a').write(json.dumps(r) + '\n')
        try:
            jobs_ = [(f, i, m) for f in args[2:] for i, m in enumerate(mutants(os.path.join('/repo', f)))]
            with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
                list(ex.map(work, jobs_))
        finally:
            for d in pool:
                shutil.rmtree(d)
