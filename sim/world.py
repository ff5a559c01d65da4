"""Simulated world: array configurations, weather feeds, user-supplied
classes and functions, and digests of results.

Everything random comes from the row numbers and dictionaries stored in
a scenario, so a scenario is complete and shrinkable."""
import datetime
import hashlib

import numpy as np
import pandas as pd

from sim.core import rng_for, list_shrinks

COLUMNS = ('timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth',
           'surface_tilt', 'surface_azimuth', 'albedo', 'ghi')
NUMERIC = COLUMNS[1:]

# ------------------------------------------------------ user-side functions


TRAP = {'left': None, 'fired': False}


def _tick():
    """User-side functions may fail at a chosen call."""
    if TRAP['left'] is not None:
        TRAP['left'] -= 1
        if TRAP['left'] < 0:
            TRAP['left'] = None
            TRAP['fired'] = True
            raise RuntimeError('reflection function failed')


def faoi_soft(angles):
    """Smooth reflection-loss function of the angle from the surface."""
    _tick()
    x = np.sin(np.deg2rad(np.asarray(angles, dtype=float)))
    return 1. - 0.9 * (1. - x) ** 4


def faoi_hard(angles):
    _tick()
    x = np.sin(np.deg2rad(np.asarray(angles, dtype=float)))
    return 0.96 * x ** 0.25


class FaoiObject(object):
    """Object with a faoi method."""

    def __init__(self, a):
        self.a = a

    def faoi(self, angles):
        _tick()
        x = np.sin(np.deg2rad(np.asarray(angles, dtype=float)))
        return 0.98 - self.a * (1. - x) ** 5


FAOI = {'soft': faoi_soft, 'hard': faoi_hard, 'object': FaoiObject(0.7),
        'object2': FaoiObject(0.3)}


def faoi_fn(name):
    """A reflection function: a lasting one, or one made for this use."""
    if name.startswith('new:'):
        return FaoiObject(float(name[4:]))
    if name.startswith('def:'):
        a = float(name[4:])

        def faoi(angles):
            return FaoiObject.faoi(own, angles)
        own = FaoiObject(a)
        return faoi
    return FAOI[name]


# ------------------------------------------------------------ configuration

def gen_config(rng, rich=True):
    """Configuration of array, model and calculator."""
    n_rows = rng.weighted([(1, 1), (2, 3), (3, 5), (4, 2), (5, 1)])
    cfg = {
        'n_pvrows': n_rows,
        'pvrow_height': round(rng.uniform(1., 4.), 3),
        'pvrow_width': round(rng.uniform(0.8, 3.), 3),
        'axis_azimuth': rng.choice([0., 0., 90., 180.,
                                    round(rng.uniform(-180., 360.), 2)]),
        'gcr': round(rng.uniform(0.15, 0.75), 3),
        'cut': {},
        'model': rng.weighted([('perez', 4), ('iso', 1)]),
        'model_params': {}, 'vf_params': {},
    }
    # a row must not reach the ground
    if cfg['pvrow_height'] < cfg['pvrow_width'] / 2. + 0.2:
        cfg['pvrow_height'] = round(cfg['pvrow_width'] / 2. + 0.4, 3)
    if rich and rng.chance(0.5):
        for r in range(n_rows):
            if rng.chance(0.5):
                c = {}
                if rng.chance(0.6):
                    c['front'] = rng.randint(1, 4)
                if rng.chance(0.7):
                    c['back'] = rng.randint(1, 4)
                if c:
                    cfg['cut'][str(r)] = c
    mp = cfg['model_params']
    if rich and rng.chance(0.6):
        if rng.chance(0.5):
            mp['rho_front'] = round(rng.uniform(0.005, 0.3), 3)
        if rng.chance(0.5):
            mp['rho_back'] = round(rng.uniform(0.005, 0.3), 3)
        if rng.chance(0.4):
            mp['module_transparency'] = round(rng.uniform(0., 0.5), 3)
        if rng.chance(0.4):
            mp['module_spacing_ratio'] = round(rng.uniform(0., 0.5), 3)
        if cfg['model'] == 'perez' and rng.chance(0.3):
            mp['horizon_band_angle'] = round(rng.uniform(2., 12.), 2)
    if rich and rng.chance(0.35):
        f, b = [rng.choice(sorted(FAOI)) if rng.chance(0.7) else
                'new:%.2f' % rng.uniform(0.1, 0.9) for _ in range(2)]
        cfg['vf_params'] = {'faoi_fn_front': f, 'faoi_fn_back': b,
                            'n_aoi_integral_sections':
                            rng.choice([7, 20, 36, 60])}
        if rng.chance(0.8):
            mp['faoi_fn_front'], mp['faoi_fn_back'] = f, b
    if rng.chance(0.15):
        round_numbers(rng, cfg)
    return cfg


def round_numbers(rng, cfg):
    """Dimensions as people like to type them."""
    w = rng.choice([1., 1., 2., 2., 3., 4.])
    cfg['pvrow_width'] = w
    cfg['pvrow_height'] = rng.choice([h for h in (1.5, 2., 2.5, 3., 4.)
                                      if h >= w / 2. + 0.2])
    cfg['gcr'] = rng.choice([0.2, 0.25, 0.4, 0.5])
    cfg['axis_azimuth'] = rng.choice([0., 0., 90., 180.])
    if rng.chance(0.5):
        # segments of one metre
        for r in range(cfg['n_pvrows']):
            cfg['cut'][str(r)] = {'front': int(w), 'back': int(w)}


def shrink_config(cfg):
    """Simpler configurations."""
    for key, val in (('cut', {}), ('model_params', {}), ('vf_params', {}),
                     ('model', 'perez'), ('axis_azimuth', 0.),
                     ('n_pvrows', 2), ('n_pvrows', 3)):
        if cfg[key] != val and not (key == 'n_pvrows'
                                    and cfg[key] <= val):
            new = dict(cfg)
            new[key] = val
            if key == 'n_pvrows':
                new['cut'] = {k: v for k, v in cfg['cut'].items()
                              if int(k) < val}
            if key == 'model':
                new['model_params'] = dict(cfg['model_params'])
            yield new
    for key in ('model_params', 'cut'):
        for k in list(cfg[key]):
            if len(cfg[key]) > 1:
                new = dict(cfg)
                new[key] = {a: b for a, b in cfg[key].items() if a != k}
                yield new


def array_params(cfg):
    """Parameter dictionary a user passes for the array."""
    return {'n_pvrows': cfg['n_pvrows'], 'pvrow_height': cfg['pvrow_height'],
            'pvrow_width': cfg['pvrow_width'],
            'axis_azimuth': cfg['axis_azimuth'], 'gcr': cfg['gcr'],
            'cut': {int(k): dict(v) for k, v in cfg['cut'].items()}}


def _fns(params):
    return {k: (faoi_fn(v) if k.startswith('faoi') else v)
            for k, v in params.items()}


def model_params(cfg):
    return _fns(cfg['model_params'])


def vf_params(cfg):
    return _fns(cfg['vf_params'])


def model_class(cfg):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    return HybridPerezOrdered if cfg['model'] == 'perez' \
        else IsotropicOrdered


def make_array(cfg):
    from pvfactors.geometry import OrderedPVArray
    return OrderedPVArray.init_from_dict(array_params(cfg))


def make_model(cfg):
    return model_class(cfg)(**model_params(cfg))


def make_calculator(cfg):
    from pvfactors.viewfactors import VFCalculator
    return VFCalculator(**vf_params(cfg))


def make_engine(cfg, array=None, model=None, calc=None, row=None, seg=None):
    from pvfactors.engine import PVEngine
    return PVEngine(array if array is not None else make_array(cfg),
                    irradiance_model=model if model is not None
                    else make_model(cfg),
                    vf_calculator=calc if calc is not None
                    else make_calculator(cfg),
                    fast_mode_pvrow_index=row, fast_mode_segment_index=seg)


# ----------------------------------------------------------------- weather

def row_values(number, axis_azimuth):
    """Inputs of one time step, a function of its number."""
    r = rng_for('row', number)
    kind = r.weighted([('day', 8), ('low', 3), ('behind', 3), ('flat', 2),
                       ('steep', 2), ('cloudy', 2), ('night', 1),
                       ('dark', 0.5)])
    day = r.randint(0, 364)
    minute = r.randint(0, 24 * 60 - 1)
    ts = datetime.datetime(2019, 1, 1) + datetime.timedelta(
        days=day, minutes=minute, microseconds=number % 1000000)
    side = r.choice([90., -90.])
    surface_azimuth = (axis_azimuth + side) % 360.
    v = {'dni': r.uniform(50., 1000.), 'dhi': r.uniform(15., 350.),
         'solar_zenith': r.uniform(8., 80.),
         'solar_azimuth': (surface_azimuth + r.uniform(-75., 75.)) % 360.,
         'surface_tilt': r.uniform(2., 70.),
         'surface_azimuth': surface_azimuth,
         'albedo': r.uniform(0.05, 0.7)}
    if kind == 'low':
        v['solar_zenith'] = r.uniform(80., 89.5)
    elif kind == 'behind':
        v['solar_azimuth'] = (surface_azimuth + 180.
                              + r.uniform(-60., 60.)) % 360.
        v['solar_zenith'] = r.uniform(35., 88.)
        v['surface_tilt'] = r.uniform(20., 75.)
    elif kind == 'flat':
        v['surface_tilt'] = 0.
    elif kind == 'steep':
        v['surface_tilt'] = r.uniform(70., 89.)
    elif kind == 'cloudy':
        v['dni'] = r.choice([0., r.uniform(0., 30.)])
    elif kind == 'night':
        v['solar_zenith'] = r.uniform(92., 150.)
        v['dni'] = r.choice([0., r.uniform(0., 100.)])
    elif kind == 'dark':
        v['dni'] = 0.
        v['dhi'] = 0.
    v['ghi'] = max(0., v['dni'] * np.cos(np.deg2rad(v['solar_zenith']))
                   + v['dhi']) * r.uniform(0.9, 1.1)
    v['timestamps'] = ts
    v['kind'] = kind
    for k in ('solar_azimuth', 'surface_azimuth'):
        # other ways to write the same direction
        v[k] += r.weighted([(0., 12), (-360., 1), (360., 1)])
    return v


def gen_rows(rng, n):
    return [rng.randint(0, 10**6) for _ in range(n)]


LENGTHS = (24, 31, 48, 60, 64, 96, 100, 128, 144, 168, 200, 256, 288, 365,
           500, 512, 720, 744, 1000, 1024, 1440, 2000, 2880, 4320, 8760)


def n_surfaces(cfg):
    """Number of surfaces of an array, roughly."""
    n = cfg['n_pvrows']
    sides = sum(c.get(s, 1) for c in cfg['cut'].values()
                for s in ('front', 'back')) + 2 * (n - len(cfg['cut']))
    return 2 * sides + (2 * n + 1) * (n + 1)


def gen_length(rng, cfg, budget=2.5e6):
    """A number of steps as of a day, a month or a year, within what the
    array leaves affordable."""
    most = max(30, int(budget / n_surfaces(cfg) ** 2))
    fits = [x for x in LENGTHS if x <= most]
    n = rng.choice(fits[len(fits) // 2:] + fits[-3:]) if fits else most
    return max(2, n + rng.choice([0, 0, 1, -1, rng.randint(-9, 9)]))


def gen_long(rng, cfg, rows, budget=2.5e6):
    """Positions of a long series in a few different rows."""
    n = gen_length(rng, cfg, budget)
    m = len(rows)
    style = rng.choice(['tile', 'random', 'blocks', 'rare'])
    if style == 'tile':
        return [i % m for i in range(n)]
    if style == 'blocks':
        return [i * m // n for i in range(n)]
    if style == 'rare':
        # one step unlike all others
        at, a = rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(m)
        b = rng.randrange(m)
        return [b if i == at else a for i in range(n)]
    return [rng.randrange(m) for _ in range(n)]


GROUPS = {'sun': ('solar_zenith', 'solar_azimuth'),
          'tilt': ('surface_tilt', 'surface_azimuth')}


def table(rows, cfg, overrides=(), mix=None):
    """Columns for a list of row numbers; overrides are
    [position, column, value], mix takes columns from other rows."""
    vals = [row_values(n, cfg['axis_azimuth']) for n in rows]
    for c in sorted(mix or ()):
        for v, n in zip(vals, mix[c]):
            other = row_values(n, cfg['axis_azimuth'])
            for k in GROUPS.get(c, (c,)):
                v[k] = other[k]
    t = {'timestamps': [v['timestamps'] for v in vals]}
    for c in NUMERIC:
        t[c] = np.array([v[c] for v in vals], dtype=float)
    for pos, col, val in overrides:
        if pos < len(rows):
            t[col][pos] = float(val)
    t['kinds'] = [v['kind'] for v in vals]
    return t


def engine_args(t, ghi=False, albedo=None):
    """Arguments of PVEngine.fit in plain arrays."""
    args = [pd.DatetimeIndex(t['timestamps'])] + [
        t[c].copy() for c in NUMERIC[:6]]
    args.append(t['albedo'].copy() if albedo is None else albedo)
    return args, {'ghi': t['ghi'].copy() if ghi else None}


def run_kwargs(t, cfg, feed):
    """Keyword arguments for the two run functions; feed describes the
    containers."""
    idx = pd.DatetimeIndex(t['timestamps'])
    n = len(idx)
    tz = feed.get('tz')
    if tz:
        idx = idx.tz_localize('UTC').tz_convert(tz)
    cont = feed.get('container', 'array')

    def wrap(x, k):
        if cont == 'array':
            return np.array(x)
        if cont == 'readonly':
            a = np.array(x)
            a.flags.writeable = False
            return a
        if cont == 'float32col':
            return np.asfortranarray(np.vstack([x, x]).T)[:, 0]
        if cont == 'series_range':
            return pd.Series(np.array(x))
        if cont == 'series_offset':
            return pd.Series(np.array(x), index=range(7, 7 + n))
        if cont == 'series_time':
            return pd.Series(np.array(x), index=idx)
        if cont == 'mixed':
            return np.array(x) if k % 2 else pd.Series(np.array(x),
                                                       index=idx)
        raise ValueError(cont)

    tsc = feed.get('ts', 'index')
    ts = {'index': idx, 'list': list(idx), 'py': idx.to_pydatetime(),
          'series': pd.Series(idx),
          'np64': idx.values}[tsc]
    kw = {'timestamps': ts}
    for k, c in enumerate(NUMERIC[:6]):
        kw[c] = wrap(t[c], k)
    kw['albedo'] = (feed['albedo'] if feed.get('albedo') is not None
                    else wrap(t['albedo'], 7))
    if feed.get('ghi'):
        kw['ghi'] = wrap(t['ghi'], 8)
    return kw


def plain_kwargs(t, feed):
    """The same inputs as plain numpy arrays: the reference."""
    idx = pd.DatetimeIndex(t['timestamps'])
    if feed.get('tz') and feed.get('ts') != 'np64':
        idx = idx.tz_localize('UTC').tz_convert(feed['tz'])
    kw = {'timestamps': idx}
    for c in NUMERIC[:6]:
        kw[c] = np.array(t[c])
    kw['albedo'] = (np.full(len(idx), float(feed['albedo']))
                    if feed.get('albedo') is not None
                    else np.array(t['albedo']))
    if feed.get('ghi'):
        kw['ghi'] = np.array(t['ghi'])
    return kw


def span_seconds(t):
    """Simulated time covered by a series."""
    if not t['timestamps']:
        return 0.
    return (max(t['timestamps'])
            - min(t['timestamps'])).total_seconds() + 60.


# ---------------------------------------------------------------- published

FULL_PARAMS = ('q0', 'qinc', 'isotropic', 'reflection', 'qabs')
FAST_PARAMS = ('qinc', 'reflection_gnd_shaded', 'reflection_gnd_illum',
               'reflection_pvrow_shaded', 'reflection_pvrow_illum',
               'isotropic', 'reflection', 'sky_term')
POINT = 1e-6


def surfaces_of(pvarray):
    return list(pvarray.all_ts_surfaces)


def published_full(pvarray):
    """What a full run publishes: per-surface values where the surface has
    an extent, side averages, and the matrices."""
    surfs = surfaces_of(pvarray)
    out = {}
    lengths = np.array([s.length * np.ones(pvarray.n_states)
                        for s in surfs])
    out['lengths'] = lengths
    mask = lengths > POINT
    for p in FULL_PARAMS:
        a = np.array([np.asarray(s.get_param(p), dtype=float)
                      for s in surfs])
        out[p] = np.where(mask, a, 0.)
    for r, row in enumerate(pvarray.ts_pvrows):
        for side in ('front', 'back'):
            for p in FULL_PARAMS:
                out['row%d.%s.%s' % (r, side, p)] = np.asarray(
                    getattr(row, side).get_param_weighted(p), dtype=float)
    for p in ('qinc', 'qabs'):
        out['ground.%s' % p] = np.asarray(
            pvarray.ts_ground.get_param_weighted(p), dtype=float)
    full = np.vstack([mask, np.ones((1, mask.shape[1]), bool)])
    both = full[:, None, :] & full[None, :, :]
    for name in ('ts_vf_matrix', 'ts_vf_aoi_matrix'):
        out[name] = np.where(both, np.asarray(getattr(pvarray, name)), 0.)
    return out


def published_fast(pvarray, row, seg):
    """What a fast run publishes for the selected row or segment."""
    side = pvarray.ts_pvrows[row].back
    segs = side.list_segments if seg is None else [side.list_segments[seg]]
    out = {}
    for i, sg in enumerate(segs):
        for j, s in enumerate(sg.all_ts_surfaces):
            ln = s.length * np.ones(pvarray.n_states)
            out['len%d.%d' % (i, j)] = ln
            for p in FAST_PARAMS:
                out['%s%d.%d' % (p, i, j)] = np.where(
                    ln > POINT, np.asarray(s.get_param(p), dtype=float), 0.)
            vf = s.get_param('view_factors')
            for k in sorted(vf):
                out['vf.%s%d.%d' % (k, i, j)] = np.where(
                    ln > POINT, np.asarray(vf[k], dtype=float), 0.)
        out['seg%d' % i] = np.asarray(sg.get_param_weighted('qinc'),
                                      dtype=float)
    if seg is None:
        out['side'] = np.asarray(side.get_param_weighted('qinc'),
                                 dtype=float)
    return out


def difference(a, b, rtol=1e-7, atol=1e-6):
    """First difference between two dictionaries of arrays, or None.
    The last axis is time."""
    if sorted(a) != sorted(b):
        return 'keys %s / %s' % (sorted(set(a) - set(b))[:5],
                                 sorted(set(b) - set(a))[:5])
    for k in sorted(a):
        x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        if x.shape != y.shape:
            return '%s: shape %s / %s' % (k, x.shape, y.shape)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(x - y) <= atol + rtol * np.abs(y))
                    | (x == y) | (np.isnan(x) & np.isnan(y)))
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            return '%s%s: %r / %r (%d of %d differ)' % (
                k, list(i), float(x[i]), float(y[i]), int(bad.sum()),
                bad.size)
    return None


def take(pub, positions):
    """Restrict published values to some time steps (last axis)."""
    return {k: np.asarray(v)[..., positions] for k, v in pub.items()}


def digest(pub):
    """Coarse value digest for event logs (5 significant digits, so that
    it is a function of the scenario and not of rounding)."""
    h = hashlib.sha256()
    for k in sorted(pub):
        a = np.asarray(pub[k], dtype=float)
        s = float(np.nansum(a)) if a.size else 0.
        h.update(('%s %s %.4g %d' % (k, a.shape, s,
                                     int(np.isnan(a).sum()))).encode())
    return h.hexdigest()[:12]


def checksum(obj):
    """Bitwise checksum of anything a caller may hold."""
    h = hashlib.sha256()

    def feed(o, depth=0):
        if depth > 8:
            return
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                feed(list(o), depth + 1)
            else:
                h.update(str((o.dtype, o.shape)).encode())
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (pd.Series, pd.Index)):
            h.update(type(o).__name__.encode())
            feed(np.asarray(o), depth + 1)
            if isinstance(o, pd.Series):
                feed(o.index, depth + 1)
        elif isinstance(o, dict):
            for k in o:
                h.update(repr(k).encode())
                feed(o[k], depth + 1)
        elif isinstance(o, (list, tuple)):
            h.update(('%s%d' % (type(o).__name__, len(o))).encode())
            for x in o:
                feed(x, depth + 1)
        elif isinstance(o, (float, int, str, bytes, bool, type(None),
                            datetime.datetime)):
            h.update(repr(o).encode())
        elif hasattr(o, '__dict__') and not isinstance(o, type) \
                and not callable(o):
            feed(vars(o), depth + 1)
        else:
            h.update(getattr(o, '__name__', type(o).__name__).encode())
    feed(obj)
    return h.hexdigest()[:16]
