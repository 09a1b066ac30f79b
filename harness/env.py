"""Execution environment: virtual clock and timers, Django settings, the library.

Import this first: the clock and the timer are replaced before Django and the
library are imported, so every module sees the virtual ones.
"""
import os
import sys
import time as _time
import threading as _threading
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
for _p in (HERE, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
REAL_TIMER = _threading.Timer


class Clock(object):
    """Virtual wall clock.

    tick > 0: every reading is a little later than the previous one;
    tick == 0: coarse clock, readings are equal until the harness advances it.
    """
    FINE = 2.0 ** -20
    BASE = 1.0e9

    def __init__(self):
        self.lock = _threading.Lock()
        self.reset()

    def reset(self, tick=None):
        self.now = self.BASE
        self.tick = self.FINE if tick is None else tick
        self.timers = []
        self.fired = 0
        self.reads = 0

    def time(self):
        with self.lock:
            self.reads += 1
            self.now += self.tick
            return self.now

    def peek(self):
        return self.now

    def advance(self, dt, fire=True):
        """Moves the clock; due timers fire in order, each in its own thread."""
        target = self.now + dt
        while fire:
            due = [t for t in self.timers if t.deadline <= target]
            if not due:
                break
            due.sort(key=lambda t: (t.deadline, t.number))
            t = due[0]
            self.timers.remove(t)
            self.now = max(self.now, t.deadline)
            t.fire()
        self.now = max(self.now, target)

    def take_due(self):
        due = [t for t in self.timers if t.deadline <= self.now]
        due.sort(key=lambda t: (t.deadline, t.number))
        for t in due:
            self.timers.remove(t)
        return due


CLOCK = Clock()


class VirtualTimer(object):
    """Stands in for threading.Timer; fired by Clock.advance in a fresh thread."""
    count = 0

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.daemon = False
        self.name = 'VirtualTimer'
        self.error = None
        self.started = False
        self.done = False

    def setDaemon(self, value):
        self.daemon = value

    def start(self):
        VirtualTimer.count += 1
        self.number = VirtualTimer.count
        self.deadline = CLOCK.peek() + self.interval
        self.started = True
        CLOCK.timers.append(self)

    def cancel(self):
        self.done = True
        if self in CLOCK.timers:
            CLOCK.timers.remove(self)

    def is_alive(self):
        return self.started and not self.done

    def join(self, timeout=None):
        pass

    def run(self):
        if not self.done:
            self.done = True
            CLOCK.fired += 1
            try:
                self.function(*self.args, **self.kwargs)
            except BaseException as e:
                self.error = e
                TIMER_ERRORS.append(e)

    def fire(self):
        t = _threading.Thread(target=self.run)
        t.start()
        t.join()


TIMER_ERRORS = []
_time.time = CLOCK.time
_threading.Timer = VirtualTimer

LEVELS = {
    'ru': 'READ UNCOMMITTED', 'rc': 'READ COMMITTED',
    'rr': 'REPEATABLE READ', 'sr': 'SERIALIZABLE',
}
ALIASES = [lv + str(d) for lv in ('ru', 'rc', 'rr', 'sr') for d in (0, 3)]


def _settings():
    mon = 'monbackend.MonBackend'
    cs = {'default': {'BACKEND': mon, 'LOCATION': 'default'}}
    tagging = {}
    for a in ALIASES:
        cs[a] = {'BACKEND': mon, 'LOCATION': a}
        tagging[a] = {'ISOLATION_LEVEL': LEVELS[a[:2]], 'DELAY': int(a[2:])}
    for a in ('ru40', 'rc40', 'rr40', 'sr40'):     # a delay longer than lock records are retained
        cs[a] = {'BACKEND': mon, 'LOCATION': a}
        tagging[a] = {'ISOLATION_LEVEL': LEVELS[a[:2]], 'DELAY': int(a[2:])}
    for a in ('ru1.5005', 'rc1.5005', 'rr1.5005', 'sr1.5005', 'ru0.5005', 'rc0.5005', 'rr0.5005'):
        cs[a] = {'BACKEND': mon, 'LOCATION': a}
        tagging[a] = {'ISOLATION_LEVEL': LEVELS[a[:2]], 'DELAY': float(a[2:])}
    # other handles on the same cache
    for a in ('rc0', 'rr0', 'ru0'):
        tagging[a + 'b'] = {'ISOLATION_LEVEL': LEVELS[a[:2]], 'BACKEND': a}
    # other default version / timeout / prefix
    cs['v7'] = {'BACKEND': mon, 'LOCATION': 'v7', 'VERSION': 7}
    cs['t50'] = {'BACKEND': mon, 'LOCATION': 't50', 'TIMEOUT': 50, 'KEY_PREFIX': 'pfx'}
    cs['inf'] = {'BACKEND': mon, 'LOCATION': 'inf', 'TIMEOUT': None}
    cs['shadow'] = {'BACKEND': mon, 'LOCATION': 'shadow'}
    cs['shadow7'] = {'BACKEND': mon, 'LOCATION': 'shadow7', 'VERSION': 7}
    cs['shadow50'] = {'BACKEND': mon, 'LOCATION': 'shadow50', 'TIMEOUT': 50, 'KEY_PREFIX': 'pfx'}
    cs['pages'] = {'BACKEND': mon, 'LOCATION': 'pages', 'VERSION': 3}
    cs['unused'] = {'BACKEND': mon, 'LOCATION': 'unused'}  # configured, no CACHE_TAGGING entry
    return dict(
        SECRET_KEY='verif-secret', ALLOWED_HOSTS=['*'], DEBUG=False,
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'},
                   'other': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        CACHES=cs, CACHE_TAGGING=tagging,
        INSTALLED_APPS=['django_cache_dependencies', 'verifapp'],
        TEMPLATES=[{
            'BACKEND': 'django.template.backends.django.DjangoTemplates',
            'OPTIONS': {'loaders': [('verifapp.loader.DictLoader')],
                        'context_processors': ['django.template.context_processors.request']},
        }],
        MIDDLEWARE=[], ROOT_URLCONF='verifapp.urls', USE_ETAGS=False,
        USE_I18N=False, USE_L10N=False, LOGGING_CONFIG=None,
        CACHE_MIDDLEWARE_ALIAS='default', CACHE_MIDDLEWARE_SECONDS=600,
        CACHE_MIDDLEWARE_KEY_PREFIX='',
    )


_ready = False


def setup(**overrides):
    """Configures Django and imports the library (once per process)."""
    global _ready
    if _ready:
        return
    _ready = True
    import django
    from django.conf import settings
    conf = _settings()
    conf.update(overrides)
    settings.configure(**conf)
    django.setup()
    import django_cache_dependencies
    path = os.path.realpath(django_cache_dependencies.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('library imported from %s' % path)
