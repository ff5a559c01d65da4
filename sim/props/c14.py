"""Import works or explains itself, whatever the environment breaks."""
import atexit
import ctypes
import ctypes.util
import errno
import glob
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

from sim import boot
from sim.prop import Property

ADVICE = ('shapely', 'install')
HEX = '9f3c2ab7d1e05f6aa4b8c7d6e5f4039281706f5e'
WHOLE = ['pvfactors', 'pvfactors.run', 'pvfactors.engine',
         'pvfactors.report', 'pvfactors.config', 'pvfactors.geometry',
         'pvfactors.irradiance', 'pvfactors.viewfactors']
ENTRIES = WHOLE + ['pvfactors.version', 'pvfactors.viewfactors.aoimethods',
                   'pvfactors.geometry.base']
STEPS = ['git-dir', 'describe', 'head', 'count', 'date']
OS_ERRORS = ['ENOENT', 'EACCES', 'ENOMEM', 'EMFILE', 'EAGAIN', 'ENOEXEC',
             'EIO', 'EPERM', 'ENOTDIR', 'EINTR']


def step_of(args):
    """Which of the questions of the version lookup a command is."""
    a = [str(x) for x in args]
    if 'describe' in a:
        return 'describe'
    if 'rev-list' in a:
        return 'count'
    if 'show' in a or 'log' in a:
        return 'date'
    if '--git-dir' in a:
        return 'git-dir'
    if 'rev-parse' in a:
        return 'head'
    return None


class Git(object):
    """Scripted replacement of processes: git answers as the scenario says,
    nothing else can be started."""

    def __init__(self, script, ctx):
        self.script = script
        self.ctx = ctx

    def popen(self):
        git = self

        class Popen(object):
            def __init__(self, args, *a, **kw):
                if isinstance(args, str):
                    args = args.split()
                prog = os.path.basename(str(args[0]))
                step = step_of(args)
                if not prog.startswith('git') or step is None:
                    raise FileNotFoundError(errno.ENOENT, 'No such file',
                                            str(args[0]))
                r = git.script.get(step, ['out', 0, ''])
                git.ctx.log('git', step, r)
                if r[0] == 'raise':
                    git.ctx.count('fault:git start ' + r[1])
                    raise OSError(getattr(errno, r[1]), os.strerror(
                        getattr(errno, r[1])), str(args[0]))
                if r[3:] and r[3]:
                    git.ctx.count('fault:git ' + r[3])
                self.args = args
                self.pid = 4
                self.returncode = None
                self._rc = r[1]
                self._out = r[2].encode('latin-1')
                self._enc = None
                if kw.get('text') or kw.get('universal_newlines') \
                        or kw.get('encoding') or kw.get('errors'):
                    self._enc = (kw.get('encoding') or 'utf-8',
                                 kw.get('errors') or 'strict')
                self.stdin = None
                pipe = kw.get('stdout') == subprocess.PIPE
                self.stdout = self._stream(self._out) if pipe else None
                self.stderr = self._stream(b'') \
                    if kw.get('stderr') == subprocess.PIPE else None

            def _stream(self, data):
                s = io.BytesIO(data)
                return s if self._enc is None else io.TextIOWrapper(
                    s, self._enc[0], self._enc[1])

            def communicate(self, input=None, timeout=None):
                self.returncode = self._rc
                return (self.stdout.read() if self.stdout else None,
                        self.stderr.read() if self.stderr else None)

            def wait(self, timeout=None):
                self.returncode = self._rc
                return self._rc

            def poll(self):
                self.returncode = self._rc
                return self._rc

            def kill(self):
                pass
            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.returncode = self._rc
        return Popen


def make_error(desc):
    """['OSError', args...] as an exception of the kind the real loader
    raises."""
    cls = {'OSError': OSError, 'FileNotFoundError': FileNotFoundError,
           'PermissionError': PermissionError, 'Custom': LoaderError}[desc[0]]
    return cls(*[getattr(errno, a) if a in OS_ERRORS else a
                 for a in desc[1:]])


class LoaderError(OSError):
    """A subclass of OSError, as some loaders raise."""


class Faults(object):
    """One attempt's faults, applied to the seams of the import."""

    def __init__(self, att, ctx):
        self.att = att
        self.ctx = ctx
        self.raised = []
        self.undo = []

    def patch(self, obj, name, new):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def __enter__(self):
        att = self.att
        self.patch(subprocess, 'Popen', Git(att['git'], self.ctx).popen())
        nat = att.get('native')
        if nat:
            if nat['kind'] == 'cdll':
                self.native_cdll(nat)
            elif nat['kind'] == 'missing':
                self.native_missing()
            else:
                self.finder('shapely', nat['module'], nat['error'], None)
        if att.get('read'):
            self.finder('pvfactors', None, ['OSError', 'EIO', 'I/O error'],
                        att['read'])
        if att.get('interrupt'):
            self.interrupt(att['interrupt'])
        return self

    def native_cdll(self, nat):
        real = ctypes.CDLL
        real_glob = glob.glob
        left = [nat['after']]
        me = self
        wheel = ['/nowhere/libgeos-3.so', '/nowhere/libgeos_c-1.so']

        def fake_glob(pattern, *a, **k):
            if 'geos' in str(pattern):
                return list(wheel)
            return real_glob(pattern, *a, **k)

        class CDLL(real):
            def __init__(self, name, *a, **k):
                if name is not None and 'geos' in str(name):
                    if left[0] <= 0:
                        me.ctx.count('fault:native library not loaded')
                        me.ctx.log('cdll fails')
                        raise make_error(nat['error'])
                    left[0] -= 1
                    if str(name) in wheel:
                        name = None
                real.__init__(self, name, *a, **k)
        if nat['wheel']:
            self.patch(glob, 'glob', fake_glob)
        self.patch(ctypes, 'CDLL', CDLL)
        self.witness()

    def native_missing(self):
        real_glob = glob.glob
        real = ctypes.CDLL
        me = self

        def no_glob(pattern, *a, **k):
            return [] if 'geos' in str(pattern) else real_glob(
                pattern, *a, **k)

        class CDLL(real):
            def __init__(self, name, *a, **k):
                if name is not None and 'geos' in str(name):
                    me.ctx.count('fault:native library missing')
                    raise OSError('%s: cannot open shared object file: '
                                  'No such file or directory' % name)
                real.__init__(self, name, *a, **k)
        self.ctx.log('no native library anywhere')
        self.patch(glob, 'glob', no_glob)
        self.patch(ctypes.util, 'find_library', lambda name: None)
        self.patch(ctypes, 'CDLL', CDLL)
        self.witness()

    def witness(self):
        """Note the error as it leaves the native library's own module."""
        me = self

        class Finder(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path=None, target=None):
                if name != 'shapely.geos':
                    return None
                spec = importlib.machinery.PathFinder.find_spec(name, path)
                if spec is None:
                    return None
                real = spec.loader.exec_module

                def exec_module(module):
                    try:
                        real(module)
                    except BaseException as e:  # noqa
                        me.note(e)
                        raise
                spec.loader.exec_module = exec_module
                return spec
        f = Finder()
        sys.meta_path.insert(0, f)
        self.undo.append((sys.meta_path, f, None))

    def note(self, e):
        """Remember an error as it was when raised."""
        self.raised.append(
            {'type': type(e), 'args': list(e.args), 'repr': repr(e),
             'errno': getattr(e, 'errno', None),
             'filename': getattr(e, 'filename', None),
             'interrupt': isinstance(e, KeyboardInterrupt)})

    def finder(self, package, module, error, nth):
        me = self
        count = [0]

        class Finder(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path=None, target=None):
                if name != package and not name.startswith(package + '.'):
                    return None
                count[0] += 1
                if name == module or count[0] == nth:
                    e = make_error(error)
                    me.ctx.count('fault:module of %s unreadable' % package)
                    me.ctx.log('unreadable', name)
                    me.note(e)
                    raise e
                return None
        f = Finder()
        sys.meta_path.insert(0, f)
        self.undo.append((sys.meta_path, f, None))

    def interrupt(self, nth):
        left = [nth]
        me = self

        def tracer(frame, event, arg):
            if os.sep + 'pvfactors' + os.sep not in \
                    frame.f_code.co_filename:
                return None
            if event == 'line':
                left[0] -= 1
                if left[0] == 0:
                    sys.settrace(None)
                    me.ctx.count('fault:interrupted')
                    me.ctx.log('interrupt')
                    e = KeyboardInterrupt()
                    me.note(e)
                    raise e
            return tracer
        self.undo.append((None, sys.gettrace(), None))
        sys.settrace(tracer)

    def __exit__(self, *exc):
        sys.settrace(None)
        for obj, name, old in reversed(self.undo):
            if obj is sys.meta_path:
                sys.meta_path.remove(name)
            elif obj is not None:
                setattr(obj, name, old)


def text_of(e):
    return '%s %s' % (e, ' '.join(str(a) for a in e.args))


class C14(Property):
    ID = 'C14'
    TITLE = 'Import works or explains itself, whatever the environment breaks'
    NEEDS_PVFACTORS = False
    RUNS = {'quick': 1500, 'thorough': 20000}
    WALL = {'quick': 150., 'thorough': 2000.}
    RULE = 'One evaluation is one process that imports the package once or ' \
        'several times while the simulator decides what git, the loader ' \
        'of the native library and the file system answer to each ' \
        'request, ending with an import without faults.'
    REAL = ['pvfactors import and all its modules', 'shapely import',
            'Python import system', 'numpy', 'pandas', 'pvlib']
    STUBS = ['process creation (scripted git)', 'ctypes.CDLL, '
             'ctypes.util.find_library and glob when made to fail']
    ASSUMPTIONS = ['the native library is loaded through ctypes, as the '
                   'installed shapely does']
    TIME_NOTE = 'no timers in these operations'

    def setup(self):
        import pvlib.irradiance  # noqa
        import pvlib.iam  # noqa
        import pvlib.tools  # noqa
        import matplotlib.pyplot  # noqa
        if any(m.split('.')[0] in ('shapely', 'pvfactors')
               for m in sys.modules):
            raise RuntimeError('imported too early')
        # source trees as release archives and unpacked tarballs have them
        self.tmp = tempfile.mkdtemp(prefix='sim_c14_')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(self.tmp, ignore_errors=True)
        atexit.register(clean)

    # ------------------------------------------------------------ scenario

    def generate(self, rng, i, tier):
        sc = {'tree': self.gen_tree(rng), 'attempts': [],
              'entry': rng.choice(ENTRIES),
              'cwd_gone': rng.chance(0.08), 'use': rng.chance(0.15)}
        for _ in range(rng.weighted([(0, 30), (1, 45), (2, 20), (3, 5)])):
            att = {'git': self.gen_git(rng)}
            kind = rng.weighted([('native', 6), ('read', 2),
                                 ('interrupt', 2), ('none', 1)])
            if kind == 'native':
                att['native'] = self.gen_native(rng)
            elif kind == 'read':
                att['read'] = rng.randint(1, 14)
            elif kind == 'interrupt':
                att['interrupt'] = rng.weighted([
                    (rng.randint(1, 60), 1), (rng.randint(60, 300), 1),
                    (rng.randint(300, 1500), 2)])
            sc['attempts'].append(att)
        sc['last'] = {'git': self.gen_git(rng)}
        return sc

    @staticmethod
    def gen_tree(rng):
        k = rng.weighted([('repo', 7), ('parentdir', 1), ('archive', 2)])
        if k == 'parentdir':
            return [k, rng.choice(['pvfactors-1.2.3', 'pvfactors-0.9',
                                   'pvfactors-2.0.1rc1', 'other-1.0']),
                    rng.randint(0, 2)]
        if k == 'archive':
            return [k, rng.choice([
                ' (HEAD -> master, tag: v1.5.2, origin/master)',
                ' (tag: v0.3)', ' (HEAD, tag: v2.1.0rc1, dev)',
                ' (HEAD -> master)', '', ' (HEAD, v1.4.1, master)',
                ' (tag: release, tag: v1.0.0)', ' (tag: nightly)'])]
        return [k]

    @staticmethod
    def gen_git(rng):
        tag = rng.choice(['v1.5.2', 'v0.1', 'v1.0.0-rc1', 'v1.4.1+local',
                          None, None])
        n = rng.choice([0, 0, 1, 7, 120])
        dirty = rng.chance(0.3)
        short = HEX[:rng.choice([7, 7, 10]) if tag else 7]
        script = {
            'git-dir': ['out', 0, '.git\n'],
            'describe': ['out', 0, ('%s-%d-g%s' % (tag, n, short)
                                    if tag else short)
                         + ('-dirty' if dirty else '') + '\n'],
            'head': ['out', 0, HEX + '\n'],
            'count': ['out', 0, '%d\n' % n],
            'date': ['out', 0, '2021-05-04 10:11:12 -0700\n'],
            'truth': [tag, n, dirty, short]}
        for step in STEPS:
            if rng.chance(0.22):
                script['truth'] = None
                k = rng.weighted([('raise', 3), ('rc', 3), ('garbage', 3),
                                  ('empty', 2), ('bytes', 2), ('cut', 1)])
                old = script[step][2]
                if k == 'raise':
                    script[step] = ['raise', rng.choice(OS_ERRORS)]
                elif k == 'rc':
                    script[step] = ['out', rng.choice([1, 128, 127, -9,
                                                       -11]),
                                    rng.choice(['', old, 'fatal\n']),
                                    'failed']
                elif k == 'garbage':
                    script[step] = ['out', 0, rng.choice([
                        'warning: something\n' + old, 'usage: git\n',
                        'v1.0-x-gzz', '-dirty', '--', 'a-b-c', 'v-3-gabc',
                        '%s%d{}\n', 'x' * 3000, '\x00', 'nightly-3-gabc12',
                        '-1', '1e3', '1_0', 'v-dirty']), 'garbage']
                elif k == 'empty':
                    script[step] = ['out', 0, rng.choice(['', '\n', '  ']),
                                    'no output']
                elif k == 'bytes':
                    script[step] = ['out', rng.choice([0, 0, 1]),
                                    rng.choice(['\xff\xfe', 'v1\xe9-2-gab',
                                                '\x80' * 9, '5\xc3\n']),
                                    'undecodable output']
                else:
                    script[step] = ['out', 0,
                                    old[:rng.randint(0, len(old))],
                                    'short output']
        return script

    @staticmethod
    def gen_native(rng):
        err = rng.choice([
            ['OSError', 'libgeos_c.so.1: cannot open shared object file'],
            ['OSError', 'libgeos: undefined symbol: _ZN4geos4geomE'],
            ['OSError', 'ENOENT', 'No such file or directory'],
            ['OSError', 'EACCES', 'Permission denied',
             '/usr/lib/libgeos_c.so'],
            ['OSError', 'ENOMEM', 'Cannot allocate memory'],
            ['OSError', 'EMFILE', 'Too many open files'],
            ['OSError', 'EIO', 'Input/output error', 'libgeos.so'],
            ['FileNotFoundError', 'geos_c.dll not found'],
            ['FileNotFoundError', "Could not find module 'geos_c.dll' (or "
             "one of its dependencies)"],
            ['PermissionError', 'library blocked by policy'],
            ['Custom', 'loader says no'],
            ['Custom', 'ENOENT', 'loader finds nothing']])
        if rng.chance(0.1):
            err = ['OSError']
        k = rng.weighted([('cdll', 6), ('missing', 2), ('finder', 2)])
        if k == 'cdll':
            return {'kind': k, 'after': rng.choice([0, 0, 1]),
                    'wheel': rng.chance(0.7), 'error': err}
        if k == 'missing':
            return {'kind': k}
        return {'kind': k, 'module': rng.choice(
            ['shapely', 'shapely.geos', 'shapely.geos',
             'shapely.ctypes_declarations']), 'error': err}

    # ----------------------------------------------------------- execution

    def execute(self, sc, ctx):
        root = self.plant(sc['tree'])
        try:
            if root != boot.REPO:
                sys.path.remove(boot.REPO)
                sys.path.insert(0, root)
            if sc['cwd_gone']:
                d = tempfile.mkdtemp(dir=self.tmp)
                os.chdir(d)
                os.rmdir(d)
                ctx.count('fault:working directory gone')
            sys.dont_write_bytecode = True
            for k, att in enumerate(sc['attempts']):
                self.one(sc, att, ctx, root, k)
            last = dict(sc['last'])
            self.one(sc, last, ctx, root, len(sc['attempts']))
            self.whole(sc, ctx, last, root)
        finally:
            os.chdir('/')
            if root != boot.REPO:
                shutil.rmtree(os.path.join(self.tmp, str(os.getpid())),
                              ignore_errors=True)

    def plant(self, tree):
        """The source tree that is imported."""
        if tree[0] == 'repo':
            return boot.REPO
        base = os.path.join(self.tmp, str(os.getpid()))
        root = base
        if tree[0] == 'parentdir':
            root = os.path.join(base, tree[1], *['sub'] * tree[2])
        src = os.path.join(boot.REPO, 'pvfactors')
        shutil.copytree(src, os.path.join(root, 'pvfactors'),
                        ignore=shutil.ignore_patterns(
                            'tests', '__pycache__', '*.pyc'))
        if tree[0] == 'archive':
            # what 'git archive' does to files marked export-subst
            path = os.path.join(root, 'pvfactors', '_version.py')
            if os.path.exists(path):
                with open(path) as f:
                    text = f.read()
                for a, b in (('$Format:%d$', tree[1]),
                             ('$Format:%H$', HEX),
                             ('$Format:%ci$', '2021-05-04 10:11:12 -0700')):
                    text = text.replace(a, b)
                with open(path, 'w') as f:
                    f.write(text)
        return root

    def one(self, sc, att, ctx, root, k):
        """One import under the faults of one attempt."""
        fresh = not any(m.split('.')[0] == 'pvfactors'
                        for m in sys.modules)
        ctx.count('op:import')
        ctx.log('import', sc['entry'], sorted(att))
        err = None
        with Faults(att, ctx) as f:
            try:
                importlib.import_module('pvfactors')
                importlib.import_module(sc['entry'])
            except BaseException as e:  # noqa
                err = e
        fired = bool(f.raised)
        if err is None:
            ctx.log('ok')
            # a fault that fired and was swallowed would show in whole()
            # or in a half-working package
            ctx.check(not (fired and att.get('native')),
                      'import succeeded without the native library',
                      str(att))
            self.version(sc, att, ctx, fresh)
            return
        ctx.log('raised', type(err).__name__)
        tb = ''.join(traceback.format_exception(
            type(err), err, err.__traceback__))[-900:]
        if not fired:
            git = {s: v for s, v in att['git'].items()
                   if s != 'truth' and (v[0] == 'raise' or v[3:])}
            ctx.violate('import failed', 'git answers %s: %s: %s\n%s' % (
                git, type(err).__name__, err, tb))
        orig = f.raised[-1]
        if orig['interrupt']:
            ctx.check(isinstance(err, KeyboardInterrupt),
                      'interrupt turned into something else', tb)
            return
        ctx.check(type(err) is orig['type'], 'import error of another kind',
                  lambda: 'loading fails with %s, import with %s: %s\n%s'
                  % (orig['repr'], type(err).__name__, err, tb))
        said = text_of(err)
        for a in orig['args']:
            ctx.check(str(a) in said, 'original error text lost',
                      lambda: '%r is not in %r' % (a, said))
        if orig['errno'] is not None:
            ctx.check(err.errno == orig['errno'], 'errno lost',
                      '%s became %r' % (orig['repr'], err))
        if orig['filename'] is not None:
            ctx.check(err.filename == orig['filename'], 'file name lost',
                      '%s became %r' % (orig['repr'], err))
        if att.get('native'):
            ctx.count('probe:native failure explained')
            ctx.check(all(w in str(err) for w in ADVICE),
                      'advice missing', lambda: 'message: %s' % err)
            ctx.check(str(err).count('Try reinstalling') <= 1
                      and str(err).count('conda install') <= 1,
                      'advice repeated', lambda: 'message: %s' % err)

    def version(self, sc, att, ctx, fresh):
        pkg = sys.modules.get('pvfactors')
        v = getattr(pkg, '__version__', None)
        ctx.log('version', v)
        ctx.check(isinstance(v, str) and v != '', 'no version string',
                  '__version__ is %r, git answers %s' % (v, att['git']))
        want = self.expected(sc, att) if fresh else None
        if want is not None:
            ctx.count('probe:version known')
            ctx.check(v == want, 'wrong version', '%r, expected %r (tree %s,'
                      ' git %s)' % (v, want, sc['tree'], att['git']))

    @staticmethod
    def expected(sc, att):
        """The version when nothing is broken, by a model of its own."""
        tree, git = sc['tree'], att['git']
        if tree[0] == 'archive':
            refs = [r.strip() for r in tree[1].strip(' ()').split(',')]
            tags = [r[5:] for r in refs if r.startswith('tag: ')]
            if not tags:
                tags = [r for r in refs if any(c.isdigit() for c in r)]
            tags = [t[1:] for t in tags if t.startswith('v')]
            return min(tags) if tags else '0+unknown'
        if git['truth'] is not None:
            tag, n, dirty, short = git['truth']
            if tag is None:
                return '0+untagged.%d.g%s' % (n, short) \
                    + ('.dirty' if dirty else '')
            v = tag[1:]
            if n or dirty:
                v += ('.' if '+' in v else '+') + '%d.g%s' % (n, short)
                if dirty:
                    v += '.dirty'
            return v
        first = git['git-dir']
        if first[0] == 'raise' or first[1] != 0:
            # git does not know the tree: the directory name decides
            if tree[0] == 'parentdir':
                if tree[1].startswith('pvfactors-') and tree[2] <= 2:
                    return tree[1][len('pvfactors-'):]
            return '0+unknown'
        return None

    def whole(self, sc, ctx, last, root):
        """After an import without faults everything is there."""
        with Faults({'git': last['git']}, ctx):
            for name in WHOLE:
                try:
                    importlib.import_module(name)
                except BaseException as e:  # noqa
                    ctx.violate('later import fails', '%s: %s: %s\n%s' % (
                        name, type(e).__name__, e,
                        traceback.format_exc()[-900:]))
            pkg = sys.modules['pvfactors']
            ctx.check(os.path.realpath(os.path.dirname(os.path.dirname(
                pkg.__file__))) == os.path.realpath(root),
                'imported from elsewhere', pkg.__file__)
            v = getattr(pkg, '__version__', None)
            ctx.check(isinstance(v, str) and v != '',
                      'no version string', repr(v))
            err = getattr(pkg, 'PVFactorsError', None)
            ctx.check(isinstance(err, type) and issubclass(err, Exception),
                      'package incomplete after a later import',
                      'PVFactorsError is %r' % (err,))
            if sc['use']:
                ctx.count('op:simulation after import')
                self.simulate(ctx)

    @staticmethod
    def simulate(ctx):
        import datetime as dt
        try:
            from pvfactors.engine import PVEngine
            from pvfactors.geometry import OrderedPVArray
            arr = OrderedPVArray.init_from_dict({
                'n_pvrows': 2, 'pvrow_height': 1.5, 'pvrow_width': 1.,
                'axis_azimuth': 0., 'gcr': 0.4})
            eng = PVEngine(arr)
            eng.fit([dt.datetime(2019, 6, 1, 11)], [1000.], [50.], [30.],
                    [180.], [20.], [90.], 0.2)
            eng.run_full_mode()
            q = arr.ts_pvrows[0].back.get_param_weighted('qinc')
        except BaseException as e:  # noqa
            ctx.violate('package does not work after a later import',
                        '%s: %s\n%s' % (type(e).__name__, e,
                                        traceback.format_exc()[-900:]))
        ctx.log('qinc', round(float(q[0]), 4))
        ctx.check(20. < float(q[0]) < 500., 'wrong result after a later '
                  'import', 'back qinc %r' % (q,))

    # ------------------------------------------------------------- shrink

    def shrinks(self, sc):
        for k in range(len(sc['attempts'])):
            yield dict(sc, attempts=sc['attempts'][:k]
                       + sc['attempts'][k + 1:])
        if sc['tree'] != ['repo']:
            yield dict(sc, tree=['repo'])
        if sc['entry'] != 'pvfactors':
            yield dict(sc, entry='pvfactors')
        for k in ('cwd_gone', 'use'):
            if sc[k]:
                yield dict(sc, **{k: False})
        plain = {'git-dir': ['raise', 'ENOENT'], 'truth': None}
        for k, att in enumerate(sc['attempts'] + [sc['last']]):
            last = k == len(sc['attempts'])

            def put(new):
                if last:
                    return dict(sc, last=new)
                return dict(sc, attempts=sc['attempts'][:k] + [new]
                            + sc['attempts'][k + 1:])
            if att['git'] != plain:
                yield put(dict(att, git=plain))
                for s in STEPS:
                    r = att['git'].get(s)
                    if r and (r[0] == 'raise' or r[3:]):
                        good = {'git-dir': '.git', 'describe': HEX[:7],
                                'head': HEX, 'count': '3',
                                'date': '2021-05-04 10:11:12 -0700'}[s]
                        yield put(dict(att, git=dict(
                            att['git'], **{s: ['out', 0, good]})))
            for f in ('native', 'read', 'interrupt'):
                if att.get(f) and not last:
                    yield put({x: y for x, y in att.items() if x != f})

    def nontrivial(self, out):
        return out['n_events'] > 2


PROPERTY = C14()
