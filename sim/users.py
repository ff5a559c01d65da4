"""What users of the library supply: report builders, report functions and
their own classes. They record what they see in seams.OBS."""
import os

import numpy as np

from sim import seams

FAIL = {'build': None, 'merge': None}


class UserError(ValueError):
    """Error raised by user code."""


# errors that code of the user may well raise; the library must not take one
# of them for a sign of its own
ERRORS = {e.__name__: e for e in (
    UserError, AttributeError, KeyError, IndexError, TypeError, ValueError,
    AssertionError, ImportError, NotImplementedError, ZeroDivisionError,
    FloatingPointError, EOFError, BrokenPipeError, FileNotFoundError,
    TimeoutError, StopIteration, RecursionError, LookupError, BufferError)}


class OddError(Exception):
    """An exception that cannot be rebuilt from its args."""

    def __init__(self, code, text):
        Exception.__init__(self, '%s %s' % (code, text))
        self.code = code


def _boom(*a):
    raise RuntimeError('cannot be reloaded')


class BadReload(object):
    def __reduce__(self):
        return _boom, ()


def _note(*what):
    seams.OBS.append(tuple(what))


def _fault():
    """Injected misbehaviour of user code in this task."""
    w = seams.WORKER
    f = (w or {}).get('fault') or {}
    kind = f.get('kind')
    if kind is not None and f.get('once'):
        # only the first call in this task goes wrong
        if f.get('done'):
            return None
        f['done'] = True
    if kind in ('build_raises', 'build_odd_error', 'build_exit',
                'build_unsendable', 'build_bad_reload'):
        _note('faulted', kind)
    if kind == 'build_raises':
        raise ERRORS[w['fault'].get('error', 'UserError')]('bad piece')
    if kind == 'build_odd_error':
        raise OddError(3, 'bad piece')
    if kind == 'build_exit':
        raise SystemExit(3)
    if kind == 'build_unsendable':
        return lambda: None
    if kind == 'build_bad_reload':
        return BadReload()
    return None


def _vec(x, n):
    return np.array(np.asarray(x, dtype=float) * np.ones(n))


def _touched(pvarray, n):
    """Which segments of the back sides did a fast run fill in?"""
    out = {}
    for i, row in enumerate(pvarray.ts_pvrows):
        for j, sg in enumerate(row.back.list_segments):
            try:
                v = sg.get_param_ww('qinc')
            except Exception:  # noqa
                v = None
            out['filled %d.%d' % (i, j)] = _vec(v is not None, n)
    return out


def extract(pvarray, fast=None, wide=False):
    """Values per time step. fast = (row, segment) for a fast run."""
    n = pvarray.n_states
    out = {'rotation': _vec(pvarray.rotation_vec, n)}
    if fast is None:
        for i, row in enumerate(pvarray.ts_pvrows):
            for name in ('front', 'back'):
                side = getattr(row, name)
                for p in ('qinc', 'q0', 'qabs', 'isotropic', 'reflection'):
                    out['%d.%s.%s' % (i, name, p)] = _vec(
                        side.get_param_weighted(p), n)
                out['%d.%s.shaded' % (i, name)] = _vec(
                    side.shaded_length, n)
                for j, seg in enumerate(side.list_segments):
                    out['%d.%s.%d' % (i, name, j)] = _vec(
                        seg.get_param_weighted('qinc'), n)
        out['ground'] = _vec(pvarray.ts_ground.get_param_weighted('qinc'), n)
        out['ground.shaded'] = _vec(pvarray.ts_ground.shaded_length, n)
    else:
        row, seg = fast
        side = pvarray.ts_pvrows[row].back
        for j, sg in enumerate(side.list_segments):
            if seg is None or seg == j:
                out['seg%d' % j] = _vec(sg.get_param_weighted('qinc'), n)
                out['iso%d' % j] = _vec(
                    sg.get_param_weighted('isotropic'), n)
                out['refl%d' % j] = _vec(
                    sg.get_param_weighted('reflection'), n)
        if seg is None:
            out['side'] = _vec(side.get_param_weighted('qinc'), n)
        if wide:
            out.update(_touched(pvarray, n))
    return out


def _see(who, pvarray, rep):
    _note('build', who, os.getpid(), int(pvarray.n_states),
          [round(float(z), 6) for z in rep['rotation']])


def join(reports):
    keys = list(reports[0])
    return {k: np.concatenate([np.asarray(r[k], dtype=float)
                               for r in reports]) for k in keys}


def _see_merge(who, reports):
    _note('merge', who, os.getpid(), len(reports),
          [[round(float(z), 6) for z in r['rotation']] for r in reports])


class ClassBuilder(object):
    """Used as a class."""
    FAST = None

    @staticmethod
    def build(pvarray):
        odd = _fault()
        rep = extract(pvarray)
        _see('class', pvarray, rep)
        if odd is not None:
            rep['odd'] = odd
        return rep

    @staticmethod
    def merge(reports):
        _see_merge('class', reports)
        return join(reports)


class MethodBuilder(object):
    """Used as a class with class methods."""

    @classmethod
    def build(cls, pvarray):
        odd = _fault()
        rep = extract(pvarray)
        _see('method', pvarray, rep)
        if odd is not None:
            rep['odd'] = odd
        return rep

    @classmethod
    def merge(cls, reports):
        _see_merge('method', reports)
        return join(reports)


class ObjectBuilder(object):
    """Used as an object, carries its own settings."""

    def __init__(self, scale=1., fast=None, lists=False, tag='object',
                 wide=False):
        self.scale = scale
        self.wide = wide
        self.fast = fast
        self.lists = lists
        self.tag = tag
        self.merged = 0
        self.built = 0

    def build(self, pvarray):
        odd = _fault()
        rep = extract(pvarray, self.fast, self.wide)
        _see(self.tag, pvarray, rep)
        self.built += 1
        rep = {k: (v if k == 'rotation' else v * self.scale)
               for k, v in rep.items()}
        if self.lists:
            rep = {k: list(v) for k, v in rep.items()}
        if odd is not None:
            rep['odd'] = odd
        return rep

    def merge(self, reports):
        _see_merge(self.tag, reports)
        self.merged += 1
        if self.lists:
            out = {k: list(v) for k, v in reports[0].items()}
            for r in reports[1:]:
                for k in out:
                    out[k] += r[k]
            return {k: np.array(v) for k, v in out.items()}
        return join(reports)


class NoCompare(object):
    """A report that can be neither compared nor tested."""

    def __init__(self, n):
        self.n = n

    def _no(self, *a):
        raise TypeError('not comparable')
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = \
        __len__ = _no
    __hash__ = None

    def __repr__(self):
        return 'NoCompare(%d)' % self.n


def odd_report(k, n=0):
    """Things that a builder may well return for a piece."""
    return [lambda: None, lambda: 0, lambda: False, lambda: [], dict,
            str, tuple, lambda: np.zeros(0), lambda: np.arange(3.),
            lambda: (n, 0), lambda: ('report', n), lambda: float('nan'),
            lambda: n, lambda: 'piece %d' % n, lambda: NoCompare(n),
            lambda: [None], lambda: {'index': 0}, lambda: -1,
            lambda: np.array([[n, 1.]])][k % 19]()


class OddBuilder(ObjectBuilder):
    """A builder whose reports are of any kind, also ones that count as
    false or cannot be compared."""
    result = 0

    def build(self, pvarray):
        _fault()
        rep = extract(pvarray, self.fast)
        _see(self.tag, pvarray, rep)
        return self.of([round(float(z), 6) for z in rep['rotation']])

    def of(self, rotation):
        k = sum(int(abs(z) * 1000) for z in rotation)
        return odd_report(k + self.result, k)

    def merge(self, reports):
        self.merged += 1
        _note('merge', self.tag, os.getpid(), len(reports),
              [repr(r) for r in reports], type(reports).__name__)
        self.returned = odd_report(self.result, len(reports))
        if isinstance(reports, list):
            del reports[:]
        return self.returned


class CallOnce(object):
    """An object whose build and merge are attributes that differ."""

    def __init__(self, fast=None, wide=False):
        self.inner = ObjectBuilder(2., fast, False, 'inner', wide)

    def build(self, pvarray):
        return self.inner.build(pvarray)

    def merge(self, reports):
        return self.inner.merge(reports)


def builder(kind, fast=None, wide=False):
    """fast = None, or (row, segment)."""
    if kind == 'class' and fast is None:
        return ClassBuilder
    if kind == 'method' and fast is None:
        return MethodBuilder
    if kind == 'example' and fast is None:
        from pvfactors.report import ExampleReportBuilder
        return ExampleReportBuilder
    if kind == 'lists':
        return ObjectBuilder(1., fast, True, wide=wide)
    if kind == 'scaled':
        return ObjectBuilder(3., fast, wide=wide)
    if kind == 'nested':
        return CallOnce(fast, wide)
    return ObjectBuilder(1., fast, wide=wide)


class BadArgs(ObjectBuilder):
    """A builder that cannot be sent to another process."""

    def __init__(self, fast=None):
        ObjectBuilder.__init__(self, 1., fast)
        self.fn = lambda: None


class BadMerge(ObjectBuilder):
    """A builder whose merge fails."""
    error = 'UserError'

    def merge(self, reports):
        _see_merge(self.tag, reports)
        raise ERRORS[self.error]('merge')


BUILDERS = ('class', 'method', 'object', 'lists', 'scaled', 'nested')


def fails_at(fn, pieces):
    """Report function that raises."""
    def f(pvarray):
        raise UserError('report')
    return f


# ------------------------------------------------------------ user classes

_made = {}


def _classes():
    """Subclasses a user may supply (made late, so that importing this
    module does not import the code under test)."""
    if _made:
        return _made
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.engine import PVEngine
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.viewfactors import VFCalculator

    class UserArray(OrderedPVArray):
        @classmethod
        def init_from_dict(cls, pvarray_params, **kw):
            p = dict(pvarray_params)
            p['pvrow_height'] = p['pvrow_height'] * 1.25
            return super(UserArray, cls).init_from_dict(p, **kw)

    class UserEngine(PVEngine):
        def fit(self, timestamps, DNI, DHI, *a, **k):
            return super(UserEngine, self).fit(timestamps, DNI, DHI * 0.5,
                                               *a, **k)

    class UserPerez(HybridPerezOrdered):
        def __init__(self, **k):
            k.setdefault('rho_front', 0.2)
            super(UserPerez, self).__init__(**k)

    class UserIsotropic(IsotropicOrdered):
        def __init__(self, **k):
            k.setdefault('rho_back', 0.25)
            super(UserIsotropic, self).__init__(**k)

    class UserVF(VFCalculator):
        def build_ts_vf_matrix(self, pvarray):
            m = super(UserVF, self).build_ts_vf_matrix(pvarray)
            m[:-1, -1, :] *= 0.9
            return m

        def get_vf_ts_pvrow_element(self, *a, **k):
            d = super(UserVF, self).get_vf_ts_pvrow_element(*a, **k)
            d['to_sky'] = d['to_sky'] * 0.9
            return d

    for c in (UserArray, UserEngine, UserPerez, UserIsotropic, UserVF):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c
        _made[c.__name__] = c
    return _made


def class_kwargs(cfg, names):
    """Keyword arguments choosing classes in the run functions."""
    from sim import world
    made = _classes()
    kw = {}
    irr = world.model_class(cfg)
    if 'irradiance' in names:
        irr = made['UserPerez' if cfg['model'] == 'perez'
                   else 'UserIsotropic']
    kw['cls_irradiance'] = irr
    if 'array' in names:
        kw['cls_pvarray'] = made['UserArray']
    if 'engine' in names:
        kw['cls_engine'] = made['UserEngine']
    if 'vf' in names:
        kw['cls_vf'] = made['UserVF']
    return kw
