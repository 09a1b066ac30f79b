"""Planted bugs: seeds.py make [ID...] writes /verif/seeded/<id>; seeds.py verify [ID...] confirms them in scratch copies.

Their definitions are in seeds_*.py beside this file.
"""
import concurrent.futures
import difflib
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = '/verif/seeded'
REPO = '/repo'
PY = '/opt/venv/bin/python'

PREAMBLE = '''"""%s"""
import os, sys, threading, time, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
LOC = 'django.core.cache.backends.locmem.LocMemCache'
from django.conf import settings
settings.configure(
    SECRET_KEY='demo', ALLOWED_HOSTS=['*'], USE_I18N=False, USE_ETAGS=False, LOGGING_CONFIG=None,
    CACHES={'default': {'BACKEND': LOC, 'LOCATION': 'default'}, 'rr': {'BACKEND': LOC, 'LOCATION': 'rr'}, 'ru': {'BACKEND': LOC, 'LOCATION': 'ru'},
            'delayed': {'BACKEND': LOC, 'LOCATION': 'delayed'}, 'rrdelayed': {'BACKEND': LOC, 'LOCATION': 'rrdelayed'}},
    CACHE_TAGGING={'rr': {'ISOLATION_LEVEL': 'REPEATABLE READ'}, 'ru': {'ISOLATION_LEVEL': 'READ UNCOMMITTED'},
                   'delayed': {'ISOLATION_LEVEL': 'READ COMMITTED', 'DELAY': 1},
                   'rrdelayed': {'ISOLATION_LEVEL': 'REPEATABLE READ', 'DELAY': 60}},
    DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
    INSTALLED_APPS=['django_cache_dependencies'], MIDDLEWARE=[], ROOT_URLCONF=__name__,
    TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'APP_DIRS': True,
                'OPTIONS': {'context_processors': ['django.template.context_processors.request']}}])
import django
django.setup()
urlpatterns = []
import django_cache_dependencies as dcd
from django_cache_dependencies import cache, caches


def thread(fn):
    """Runs fn in a thread of its own and returns what it returned."""
    box = []

    def run():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]

'''

SH = '''#!/bin/bash
# exit 0: the property holds in this case
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def definitions():
    out = {}
    for path in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
        m = importlib.import_module(os.path.basename(path)[:-3])
        for s in m.SEEDS:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = sh('git -C %s diff --quiet HEAD && git clone -q --shared %s %s/repo && mkdir %s/reports' % (REPO, REPO, d, d))
    assert not r.returncode, r.stdout
    return d


def inside(d, cmd, **env):
    """Runs a command where the scratch copy is seen as /repo (a mount namespace of its own)."""
    script = 'mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && cd /repo && %s' % (d, d, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **env))


def make(s):
    d = copy()
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, 'repo', f)
            text = open(p).read()
            assert text.count(old) == 1, (s['id'], f, text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        diff = sh('git -C %s/repo diff' % d).stdout.decode()
        original(s, d)
    finally:
        shutil.rmtree(d)
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    body = s.get('preamble', PREAMBLE % s['breaks']) + s['demo'].strip('\n') + '\n'
    open(os.path.join(d, 'demo.py'), 'w').write(body)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def original(s, d):
    """Warns about removed lines which are not of the original repository."""
    for f in sorted(set(f for f, _, _ in s['edits'])):
        now = open(os.path.join(d, 'repo', f)).read().split('\n')
        blame = sh('git -C %s/repo blame -s HEAD -- %s' % (d, f)).stdout.decode().split('\n')
        sm = difflib.SequenceMatcher(None, [l.split(') ', 1)[-1] for l in blame], now, autojunk=False)
        gone = [blame[i] for op, a, b, _, _ in sm.get_opcodes() if op in ('replace', 'delete') for i in range(a, b)]
        if not any('4c0e645' in l[:12] for l in gone):
            print('%s: no original line changed in %s: %s' % (s['id'], f, gone))


def verify(s, checks=None, tests=True, repo=None):
    src = os.path.join(OUT, s['id'])
    d = copy()
    try:
        r0 = inside(d, 'bash %s/demo.sh' % src)
        r = sh('git -C %s/repo apply %s/patch.diff' % (d, src))
        assert not r.returncode, r.stdout
        b = inside(d, 'bash /opt/vp/build.sh')
        missing = None
        if tests:
            inside(d, 'bash /opt/vp/test.sh %s/out.json' % d)
            missing = compare('%s/out.json' % d)
        r1 = inside(d, 'bash %s/demo.sh' % src)
        res = []
        for c in checks or [s['property']]:
            k = inside(d, 'bash /verif/run.sh %s' % c, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            lines = k.stdout.decode(errors='replace').splitlines()
            hit = any(l.startswith('VIOLATION property=%s ' % c) for l in lines)
            detail = next((lines[i + 1].strip() for i, l in enumerate(lines[:-1]) if l.startswith('VIOLATION')), '')
            res.append('%s:%s%s %s' % (c, k.returncode, ' CAUGHT' if hit and k.returncode == 1 else ' MISSED', detail[:110]))
    finally:
        shutil.rmtree(d)
    ok = not r0.returncode and r1.returncode and not b.returncode and not missing
    out = '%-10s %s demo %s/%s build %s tests %s | %s' % (s['id'], 'ok ' if ok else 'BAD', r0.returncode, r1.returncode, b.returncode, missing, '; '.join(res))
    if not ok:
        out += '\n   clean: %s patched: %s %s' % (r0.stdout.decode()[-300:] if r0.returncode else '', r1.stdout.decode()[-200:],
                                               b.stdout.decode()[-300:] if b.returncode else '')
    print(out)
    sys.stdout.flush()


def compare(path):
    b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open(path))

    def passed(d):
        if 'passed' in d:
            return set(d['passed'])
        if 'stable' in d:
            return set(d['stable'])
        return set(k for k, v in d['tests'].items() if v in ('passed', 'pass', True))
    return sorted(passed(b) - passed(o)) or None


def one(i):
    try:
        if cmd in ('make', 'both'):
            make(defs[i])
        if cmd in ('verify', 'both'):
            verify(defs[i], checks=[a[2:] for a in sys.argv if a.startswith('-c')] or None, tests='-notests' not in sys.argv)
    except Exception:
        print(i, traceback.format_exc())


if __name__ == '__main__':
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    defs = definitions()
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        list(pool.map(one, ids or sorted(defs)))
