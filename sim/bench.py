"""A workshop of long-lived arrays, models, calculators and engines, shared
in arbitrary ways, on which histories of operations are played."""
import numpy as np

from sim import users, world
from sim.core import Failed, pristine
from sim.core import list_shrinks

ARRAY_KEYS = ('n_pvrows', 'pvrow_height', 'pvrow_width', 'axis_azimuth',
              'gcr', 'cut')


def gen_stage(rng, shared=True, rich=True, kept=False):
    """Objects of a scenario; kept: some engines are made with a row or
    segment for fast mode."""
    n = rng.weighted([(1, 2), (2, 4), (3, 2)]) if shared else 1
    st = {'arrays': [world.gen_config(rng, rich)
                     for _ in range(rng.randint(1, n))],
          'models': [world.gen_config(rng, rich)
                     for _ in range(rng.randint(1, n))],
          'calcs': [world.gen_config(rng, rich)
                    for _ in range(rng.randint(1, n))],
          'engines': []}
    for _ in range(n):
        a = rng.randrange(len(st['arrays']))
        st['engines'].append([a, rng.randrange(len(st['models'])),
                              rng.randrange(len(st['calcs']))])
    if kept:
        st['kept'] = [gen_mode(rng, stage_cfg(st, e), 0.)
                      if rng.chance(0.35) else None for e in range(n)]
    return st


def kept_mode(st, e):
    """What engine e was made for, or None."""
    return st.get('kept', [None] * len(st['engines']))[e]


def stage_cfg(st, e):
    """Configuration of engine e as one dictionary."""
    a, m, v = st['engines'][e]
    cfg = {k: st['arrays'][a][k] for k in ARRAY_KEYS}
    for k in ('model', 'model_params'):
        cfg[k] = st['models'][m][k]
    cfg['vf_params'] = st['calcs'][v]['vf_params']
    return cfg


def gen_data(rng, max_rows=8, scalar=True, prev=()):
    """One series; prev: earlier ones of the history, to which it may be
    related."""
    if prev and rng.chance(0.5):
        d = relate(rng, prev[rng.randrange(len(prev))], max_rows)
        d['scalar'] = scalar and len(d['rows']) == 1 and rng.chance(0.2)
        return d
    n = rng.weighted([(1, 2), (rng.randint(2, 4), 4),
                      (rng.randint(min(5, max_rows), max_rows), 2)])
    return {'rows': world.gen_rows(rng, n), 'ghi': rng.chance(0.3),
            'albedo': round(rng.uniform(0.05, 0.6), 3)
            if rng.chance(0.25) else None,
            'scalar': scalar and n == 1 and rng.chance(0.4), 'bad': [],
            'inplace': bool(prev) and rng.chance(0.3)}


def stretched(data, at):
    """The same few steps as a long series."""
    n = len(data['rows'])
    return dict(data, rows=[data['rows'][i % n] for i in at],
                mix={c: [v[i % n] for i in at]
                     for c, v in data.get('mix', {}).items()},
                scalar=False)


MIXED = ('timestamps', 'dni', 'dhi', 'ghi', 'albedo', 'sun', 'tilt')


def relate(rng, data, max_rows=8):
    """A series that has part of its values in common with another."""
    d = dict(data, mix=dict(data.get('mix', {})), inplace=rng.chance(0.4))
    n = len(d['rows'])
    how = rng.weighted([('some', 5), ('most', 2), ('same', 1),
                        ('order', 1), ('longer', 1)])
    if how == 'some':
        for c in rng.sample(MIXED, rng.randint(1, 2)):
            d['mix'][c] = world.gen_rows(rng, n)
    elif how == 'most':
        keep = rng.sample(MIXED, rng.randint(1, 2))
        for c in MIXED:
            if c not in keep:
                d['mix'][c] = world.gen_rows(rng, n)
    elif how == 'order' and n > 1:
        i, j = rng.sample(range(n), 2)
        perm = list(range(n))
        perm[i], perm[j] = j, i
        d['rows'] = [d['rows'][x] for x in perm]
        if rng.chance(0.5):
            d['mix'] = {c: [v[x] for x in perm]
                        for c, v in d['mix'].items()}
    elif how == 'longer' and n < max_rows:
        d['rows'] = d['rows'] + world.gen_rows(rng, 1)
        d['mix'] = {c: v + world.gen_rows(rng, 1)
                    for c, v in d['mix'].items()}
        d['inplace'] = False
    if rng.chance(0.3):
        d['ghi'] = not d['ghi']
    if rng.chance(0.15):
        d['albedo'] = None if d['albedo'] is not None \
            else round(rng.uniform(0.05, 0.6), 3)
    return d


def gen_mode(rng, cfg, p_full=0.6, kept=None):
    if rng.chance(p_full):
        return None
    if kept is not None and rng.chance(0.4):
        return list(kept)
    row = rng.randint(0, cfg['n_pvrows'] - 1)
    nseg = cfg['cut'].get(str(row), {}).get('back', 1)
    # without a segment the one of the engine counts
    any_seg = (kept is None or kept[1] is None) and rng.chance(0.5)
    return [row, None if any_seg else rng.randint(0, nseg - 1)]


def data_table(cfg, data):
    return world.table(data['rows'], cfg, data.get('bad', ()),
                       data.get('mix'))


def fit_args(cfg, data, held=None):
    """Arguments of PVEngine.fit and the table they come from; held: arrays
    of the caller, which some series are written into."""
    t = data_table(cfg, data)
    args, kw = world.engine_args(t, data['ghi'], data['albedo'])
    if data.get('scalar'):
        args = [args[0][0]] + [float(a[0]) if not np.isscalar(a) else a
                               for a in args[1:]]
        if kw['ghi'] is not None:
            kw['ghi'] = float(kw['ghi'][0])
    elif held is not None:
        for i, a in list(enumerate(args)) + [('ghi', kw['ghi'])]:
            if not isinstance(a, np.ndarray):
                continue
            key = i, len(a)
            if data.get('inplace') and key in held:
                held[key][:] = a
            else:
                held[key] = a
            if i == 'ghi':
                kw['ghi'] = held[key]
            else:
                args[i] = held[key]
    return args, kw, t


def run_mode(eng, mode, fn=None, default=False):
    """One run; mode None is full, [row, segment] fast."""
    if mode is None:
        return eng.run_full_mode(fn_build_report=fn)
    if default == 'kept':
        # through the indices the engine was made with
        return eng.run_fast_mode(fn_build_report=fn)
    if default:
        # through indices set on the engine
        was = eng.fast_mode_pvrow_index, eng.fast_mode_segment_index
        eng.fast_mode_pvrow_index, eng.fast_mode_segment_index = mode
        try:
            return eng.run_fast_mode(fn_build_report=fn)
        finally:
            eng.fast_mode_pvrow_index, eng.fast_mode_segment_index = was
    return eng.run_fast_mode(fn_build_report=fn, pvrow_index=mode[0],
                             segment_index=mode[1])


def by_default(st, e, mode, flag):
    """How a run is asked for: through indices set on the engine, through
    those it was made with, or by arguments."""
    if flag == 'kept':
        return 'kept' if mode is not None and mode == kept_mode(st, e) \
            else False
    return bool(flag)


def published(pvarray, mode):
    if mode is None:
        return world.published_full(pvarray)
    return world.published_fast(pvarray, mode[0], mode[1])


def fresh(cfg, data, mode):
    """What freshly built objects publish."""
    eng = world.make_engine(cfg)
    args, kw, _ = fit_args(cfg, data)
    eng.fit(*args, **kw)
    box = []
    run_mode(eng, mode, lambda p: box.append(users.extract(
        p, None if mode is None else tuple(mode))))
    pub = published(eng.pvarray, mode)
    pub.update({'report ' + k: v for k, v in box[0].items()})
    return pub


class References(object):
    """Results of fresh objects in pristine processes, computed before the
    history starts, one process each."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.known = {}

    def get(self, cfg, data, mode):
        key = repr((cfg, data, mode))
        if key not in self.known:
            self.known[key] = pristine(fresh, cfg, data, mode)
        return self.known[key]


def run_and_publish(eng, mode, default=False):
    box = []
    run_mode(eng, mode, lambda p: box.append(users.extract(
        p, None if mode is None else tuple(mode))), default)
    pub = published(eng.pvarray, mode)
    pub.update({'report ' + k: v for k, v in box[0].items()})
    return pub


class Stage(object):
    """The objects themselves."""

    def __init__(self, st):
        self.st = st
        cf = st
        self.arrays = [world.make_array(c) for c in cf['arrays']]
        self.models = [world.make_model(c) for c in cf['models']]
        self.calcs = [world.make_calculator(c) for c in cf['calcs']]
        kept = cf.get('kept', [None] * len(st['engines']))
        self.engines = [
            world.make_engine(stage_cfg(st, e), self.arrays[a],
                              self.models[m], self.calcs[v],
                              *(kept[e] or (None, None)))
            for e, (a, m, v) in enumerate(st['engines'])]

    def cfg(self, e):
        return stage_cfg(self.st, e)


def shrink_stage(sc):
    """Simpler objects; operations refer to engines by number."""
    st = sc['stage']
    for key in ('arrays', 'models', 'calcs'):
        for i, c in enumerate(st[key]):
            for small in world.shrink_config(c):
                if key == 'arrays' and small['n_pvrows'] < c['n_pvrows']:
                    continue
                new = dict(st)
                new[key] = [small if j == i else x
                            for j, x in enumerate(st[key])]
                yield dict(sc, stage=new)


def fits_cfg(mode, cfg):
    """Does a mode make sense for a configuration?"""
    if mode is None:
        return True
    if mode[0] >= cfg['n_pvrows']:
        return False
    return mode[1] is None or mode[1] < cfg['cut'].get(
        str(mode[0]), {}).get('back', 1)


def shrink_data(data):
    n = len(data['rows'])
    for keep in list_shrinks(list(range(n))):
        if keep:
            yield dict(data, rows=[data['rows'][i] for i in keep],
                       mix={c: [v[i] for i in keep]
                            for c, v in data.get('mix', {}).items()})
    for c in data.get('mix', {}):
        yield dict(data, mix={a: b for a, b in data['mix'].items()
                              if a != c})
    for k, v in (('ghi', False), ('albedo', None), ('scalar', False),
                 ('inplace', False)):
        if data.get(k) not in (v, None) or (k == 'albedo'
                                            and data[k] is not None):
            yield dict(data, **{k: v})


def shrink_ops(sc, minimum=1):
    """Fewer and simpler operations."""
    ops = sc['ops']
    for cand in list_shrinks(ops):
        if len(cand) >= minimum:
            yield dict(sc, ops=cand)
    for i, op in enumerate(ops):
        if 'data' in op:
            for d in shrink_data(op['data']):
                yield dict(sc, ops=ops[:i] + [dict(op, data=d)]
                           + ops[i + 1:])
        if len(op.get('modes', ())) > 1:
            for m in list_shrinks(op['modes']):
                if m:
                    yield dict(sc, ops=ops[:i] + [dict(op, modes=m)]
                               + ops[i + 1:])


def valid_modes(sc):
    """Modes of all operations fit the stage (after shrinking)."""
    for op in sc['ops']:
        cfg = stage_cfg(sc['stage'], op['eng'])
        for m in op.get('modes', ()):
            if not fits_cfg(m, cfg):
                return False
    return all(fits_cfg(kept_mode(sc['stage'], e),
                        stage_cfg(sc['stage'], e))
               for e in range(len(sc['stage']['engines'])))


def shrinks(sc, minimum=1):
    for c in shrink_ops(sc, minimum):
        yield c
    for c in shrink_stage(sc):
        if valid_modes(c):
            yield c


def check_reference(ref):
    """A reference that fails is reported by the caller."""
    return not isinstance(ref, Failed)


class Parts(object):
    """The parts of a simulation used on their own, without an engine."""

    def __init__(self, cfg):
        self.arr = world.make_array(cfg)
        self.model = world.make_model(cfg)
        self.calc = world.make_calculator(cfg)

    def go(self, kw, scalar=False, order=0):
        """Fit everything and publish the vectors and matrices that the
        parts hand out, masked where a surface has no extent."""
        arr, model, calc = self.arr, self.model, self.calc
        n = len(kw['dni'])
        angles = [np.asarray(kw[k]) for k in (
            'solar_zenith', 'solar_azimuth', 'surface_tilt',
            'surface_azimuth')]
        sun = [np.asarray(kw[k]) for k in ('dni', 'dhi')]
        ghi = None if kw.get('ghi') is None else np.asarray(kw['ghi'])
        albedo = kw['albedo']
        if not np.isscalar(albedo):
            albedo = np.asarray(albedo)
        ts = kw['timestamps']

        def fit_model():
            if scalar:
                model.fit(ts[0], float(sun[0][0]), float(sun[1][0]),
                          *[float(a[0]) for a in angles],
                          albedo if np.isscalar(albedo)
                          else float(albedo[0]),
                          ghi=None if ghi is None else float(ghi[0]))
            else:
                model.fit(ts, sun[0], sun[1], *(angles + [albedo]), ghi=ghi)
        for what in ((lambda: arr.fit(*angles), fit_model,
                      lambda: calc.fit(n)) if order == 0 else
                     (fit_model, lambda: calc.fit(n),
                      lambda: arr.fit(*angles))):
            what()
        out = {'rotation': np.asarray(arr.rotation_vec) * np.ones(n),
               'sun': np.asarray(arr.solar_2d_vectors)}
        model.transform(arr)
        surfs = arr.all_ts_surfaces
        mask = np.array([s.length * np.ones(n) for s in surfs]) > world.POINT
        both = np.vstack([mask, np.ones((1, n), bool)])
        out['coords'] = np.array([np.where(m, c, 0.) for s, m in zip(
            surfs, mask) for c in (s.b1.x, s.b1.y, s.b2.x, s.b2.y)])
        out['shadows'] = np.array([
            e.length * np.ones(n)
            for e in arr.ts_ground.shadow_elements
            + arr.ts_ground.illum_elements])
        for r in arr.ts_pvrows:
            out['row%d' % r.index] = np.array([
                c * np.ones(n) for c in (
                    r.full_pvrow_coords.b1.x, r.full_pvrow_coords.b1.y,
                    r.full_pvrow_coords.b2.x, r.full_pvrow_coords.b2.y,
                    r.highest_point.y, r.front.shaded_length,
                    r.back.shaded_length)])
        for name in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded',
                     'pvrow_illum', 'sky_luminance'):
            out[name] = np.asarray(getattr(model, name)) * np.ones(n)
        mats = model.get_full_ts_modeling_vectors(arr)
        for name, m in zip(('irradiance', 'rho', 'inv_rho', 'perez'), mats):
            out[name] = np.where(both, m, 0.)
        for absorbed in (False, True):
            out['summed %s' % absorbed] = np.where(
                mask, model.get_summed_components(arr, absorbed=absorbed),
                0.)
        square = both[:, None, :] & both[None, :, :]
        out['vf'] = np.where(square, calc.build_ts_vf_matrix(arr), 0.)
        rho = np.moveaxis(np.tile(mats[1].T, (len(both), 1, 1)), -1, 0)
        out['vf_aoi'] = np.where(
            square, calc.build_ts_vf_aoi_matrix(arr, rho), 0.)
        return out
