"""The state of a process that all code in it relies on (used by C17): set
it to something unusual, and describe it."""
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np


def note_warning(*a, **k):
    """The user's own way to show warnings."""


def note_error(*a, **k):
    """The user's own way to handle floating point errors."""


def on_signal(*a):
    """The user's own signal handler."""


def on_hook(*a):
    """The user's own hook."""


SIGNALS = ('SIGINT', 'SIGTERM', 'SIGALRM', 'SIGUSR1', 'SIGUSR2', 'SIGCHLD',
           'SIGHUP', 'SIGPIPE', 'SIGQUIT', 'SIGPROF', 'SIGVTALRM')
RC = ('lines.linewidth', 'font.size', 'axes.grid', 'figure.dpi',
      'savefig.dpi')


def gen(rng):
    """What a user may have set."""
    kinds = rng.sample(['err', 'warnings', 'random', 'print', 'signals',
                        'logging', 'gc', 'pandas', 'rc', 'environ', 'cwd',
                        'decimal', 'limits', 'hooks', 'umask', 'figure',
                        'errcall'], rng.randint(2, 8))
    env = {}
    for k in kinds:
        if k == 'err':
            env[k] = {x: rng.choice(['ignore', 'warn']) for x in (
                'divide', 'over', 'under', 'invalid')}
        elif k == 'warnings':
            env[k] = rng.choice(['always', 'default', 'once', 'module',
                                 'ignore'])
        elif k in ('random', 'print'):
            env[k] = rng.randint(0, 99)
        elif k == 'signals':
            env[k] = rng.sample(SIGNALS[1:5], rng.randint(1, 3))
        elif k == 'logging':
            env[k] = rng.choice([0, 10, 25, 40])
        elif k == 'gc':
            env[k] = [rng.chance(0.5), rng.choice([50, 700, 5000])]
        elif k == 'pandas':
            env[k] = rng.choice([
                ['mode.chained_assignment', None],
                ['display.precision', 3], ['display.max_rows', 7],
                ['mode.copy_on_write', True],
                ['compute.use_bottleneck', False]])
        elif k == 'rc':
            env[k] = [rng.choice(RC), rng.choice([1, 2, 7])]
        elif k == 'environ':
            env[k] = [rng.choice(['OMP_NUM_THREADS', 'TZ', 'USER_THING',
                                  'MPLBACKEND']),
                      rng.choice(['2', 'Agg', 'UTC'])]
        elif k == 'cwd':
            env[k] = rng.choice(['/', '/usr', '/tmp'])
        elif k == 'decimal':
            env[k] = rng.randint(5, 40)
        elif k == 'limits':
            env[k] = rng.randint(1500, 4000)
        elif k == 'umask':
            env[k] = rng.choice([0o77, 0o27, 0])
        else:
            env[k] = True
    return env


def set_up(env):
    """Apply them (for good: the process belongs to the scenario)."""
    if 'err' in env:
        np.seterr(**env['err'])
    if 'errcall' in env:
        np.seterrcall(note_error)
        np.seterr(divide='call', invalid='call')
    warnings.showwarning = note_warning
    if 'warnings' in env:
        warnings.simplefilter(env['warnings'])
    if 'random' in env:
        random.seed(env['random'])
        np.random.seed(env['random'])
        random.random()
        np.random.normal(size=3)
    if 'print' in env:
        np.set_printoptions(precision=1 + env['print'] % 9, suppress=True)
    for s in env.get('signals', ()):
        signal.signal(getattr(signal, s), on_signal)
    if 'logging' in env:
        logging.getLogger().setLevel(env['logging'])
        logging.getLogger('user').addHandler(logging.NullHandler())
    if 'gc' in env:
        (gc.enable if env['gc'][0] else gc.disable)()
        gc.set_threshold(env['gc'][1], 10, 10)
    if 'pandas' in env:
        import pandas as pd
        pd.set_option(*env['pandas'])
    if 'rc' in env:
        import matplotlib
        k, v = env['rc']
        matplotlib.rcParams[k] = bool(v % 2) if k == 'axes.grid' else v
    if 'environ' in env:
        os.environ[env['environ'][0]] = env['environ'][1]
    if 'cwd' in env:
        os.chdir(env['cwd'])
    if 'decimal' in env:
        decimal.getcontext().prec = env['decimal']
    if 'limits' in env:
        sys.setrecursionlimit(env['limits'])
        sys.setswitchinterval(env['limits'] * 1e-6)
    if 'hooks' in env:
        sys.excepthook = on_hook
        threading.excepthook = on_hook
    if 'umask' in env:
        os.umask(env['umask'])
    if 'figure' in env:
        import matplotlib.pyplot as plt
        plt.figure(figsize=(1, 1)).add_subplot(111)
        plt.figure(figsize=(1, 1)).add_subplot(111)


def _options(d, prefix=''):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(_options(v, prefix + k + '.'))
        else:
            out[prefix + k] = repr(v)
    return out


MODULES = ('numpy', 'numpy.linalg', 'numpy.random', 'pandas', 'math', 'os',
           'time', 'random', 'json', 'copy', 'warnings', 'builtins',
           'shapely.geometry', 'shapely.ops', 'pvlib.irradiance',
           'pvlib.tools', 'matplotlib', 'matplotlib.pyplot', 'datetime',
           'multiprocessing', 'sys', 'logging', 'collections')
OWN = {'sys': ('last_type', 'last_value', 'last_traceback', 'last_exc',
               'path_importer_cache', 'modules', 'exc_info'),
       'builtins': ('_',), 'warnings': ('filters', '_filters_version',
                                        'onceregistry')}


def snapshot():
    """Name -> comparable value."""
    s = {}
    s['numpy error handling'] = sorted(np.geterr().items())
    s['numpy error callback'] = id(np.geterrcall())
    s['numpy buffer size'] = np.getbufsize()
    s['numpy print options'] = sorted(
        (k, repr(v)) for k, v in np.get_printoptions().items())
    st = np.random.get_state()
    s['numpy random state'] = hashlib.sha256(
        np.asarray(st[1]).tobytes() + repr(st[2:]).encode()).hexdigest()
    s['random state'] = hashlib.sha256(
        repr(random.getstate()).encode()).hexdigest()
    s['warning filters'] = [repr(f) for f in warnings.filters]
    s['warning hooks'] = id(warnings.showwarning), id(
        warnings.formatwarning)
    s['environment variables'] = sorted(os.environ.items())
    s['working directory'] = os.getcwd()
    m = os.umask(0)
    os.umask(m)
    s['umask'] = m
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['signal handlers'] = [(n, repr(signal.getsignal(getattr(signal, n))))
                            for n in SIGNALS]
    if hasattr(signal, 'pthread_sigmask'):
        s['signal mask'] = sorted(int(x) for x in signal.pthread_sigmask(
            signal.SIG_BLOCK, []))
    s['timers'] = [signal.getitimer(t)[1] for t in (
        signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    root = logging.getLogger()
    s['logging'] = (root.level, [id(h) for h in root.handlers],
                    root.manager.disable, logging.raiseExceptions,
                    id(logging.getLoggerClass()),
                    logging.getLogger('user').level,
                    len(logging.getLogger('user').handlers))
    s['collector'] = (gc.isenabled(), gc.get_threshold(),
                      [id(c) for c in gc.callbacks], gc.get_debug())
    s['recursion limit'] = sys.getrecursionlimit()
    s['switch interval'] = sys.getswitchinterval()
    s['int digits limit'] = sys.get_int_max_str_digits()
    s['import path'] = list(sys.path)
    s['import hooks'] = [id(x) for x in sys.meta_path + sys.path_hooks]
    s['standard streams'] = [id(x) for x in (
        sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)]
    s['hooks'] = [id(x) for x in (
        sys.excepthook, sys.displayhook, sys.unraisablehook,
        threading.excepthook)]
    s['profiler'] = id(sys.getprofile())
    s['arguments'] = list(sys.argv)
    ctx = decimal.getcontext()
    s['decimal context'] = (ctx.prec, ctx.rounding)
    s['resource limits'] = [resource.getrlimit(getattr(resource, r))
                            for r in ('RLIMIT_NOFILE', 'RLIMIT_CORE',
                                      'RLIMIT_STACK', 'RLIMIT_AS',
                                      'RLIMIT_CPU')]
    s['priority'] = os.getpriority(os.PRIO_PROCESS, 0)
    if hasattr(os, 'sched_getaffinity'):
        s['cpu affinity'] = sorted(os.sched_getaffinity(0))
    s['temporary directory'] = tempfile.tempdir
    s['thread name'] = threading.current_thread().name
    pd = sys.modules.get('pandas')
    if pd is not None:
        from pandas._config import config
        s['pandas options'] = sorted(_options(
            config._global_config).items())
    mpl = sys.modules.get('matplotlib')
    if mpl is not None:
        s['matplotlib options'] = sorted(
            (k, repr(mpl.rcParams._get(k) if hasattr(
                mpl.rcParams, '_get') else dict.__getitem__(
                    mpl.rcParams, k))) for k in list(mpl.rcParams))
    plt = sys.modules.get('matplotlib.pyplot')
    if plt is not None:
        s['open figures'] = plt.get_fignums()
        s['current figure and axes'] = None
        s['interactive plots'] = plt.isinteractive()
        if plt.get_fignums():
            f = plt.gcf()
            s['current figure and axes'] = f.number, [
                i for i, ax in enumerate(f.axes) if ax is f.gca()]
    names = {}
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is not None:
            names.update({(m, k): id(v) for k, v in list(vars(mod).items())
                          if (callable(v) or k == 'environ')
                          and k not in OWN.get(m, ())})
    s['library functions'] = names
    return s


def changed(before, after):
    """(kind, detail) of the first difference, or None."""
    for k in before:
        a, b = before[k], after.get(k)
        if k == 'library functions':
            # names that appear are loaded on demand
            for n in a:
                if b.get(n) != a[n]:
                    return k, '%s.%s was replaced' % n
            continue
        if a != b:
            if isinstance(a, list) and isinstance(b, list):
                d = ([x for x in a if x not in b][:3],
                     [x for x in b if x not in a][:3])
            else:
                d = a, b
            return k, '%s became %s' % (d[0], d[1])
    return None


__all__ = ['gen', 'set_up', 'snapshot', 'changed']
