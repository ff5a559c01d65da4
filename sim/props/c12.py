"""Bad samples spoil only their own time steps."""
import numpy as np

from sim import bench, seams, users, world
from sim.core import Failed, list_shrinks, pristine
from sim.prop import Property, SutError, attempt, where
from sim.props import common

COLS = ('dni', 'dhi', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
        'surface_azimuth', 'albedo', 'ghi')
VALUES = [(float('nan'), 8), (float('inf'), 3), (float('-inf'), 2),
          (0., 4), (-1., 2), (-9999., 2), (1., 2), (1e6, 1), (1e30, 1),
          (1e308, 1), (1e-300, 1), (90., 2), (180., 2), (270., 1),
          (359.999, 1), (720., 1), (-90., 1), (-0., 1), (89.9999999, 1),
          (2., 1)]


def simulate(cfg, feed, rows, faults, mode, api, fast_first=False):
    """One batch through fresh objects."""
    t = world.table(rows, cfg, faults)
    if feed['clock_fault']:
        for pos in feed['clock_fault']:
            if pos < len(rows) and faults:
                t['timestamps'][pos] = None if feed.get('no_time') else \
                    t['timestamps'][0]
    kw = world.plain_kwargs(t, {'albedo': feed['albedo'],
                                'ghi': feed['ghi']})
    names = ('timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth',
             'surface_tilt', 'surface_azimuth', 'albedo')
    if api == 'engine':
        eng = world.make_engine(cfg)
        eng.fit(*[kw[n] for n in names], ghi=kw.get('ghi'))
        return bench.run_and_publish(eng, mode)
    full = dict(kw)
    full['pvarray_parameters'] = world.array_params(cfg)
    full['cls_irradiance'] = world.model_class(cfg)
    full['irradiance_model_params'] = world.model_params(cfg)
    full['vf_calculator_params'] = world.vf_params(cfg)
    if mode is not None:
        full['fast_mode_pvrow_index'], \
            full['fast_mode_segment_index'] = mode
    b = users.ObjectBuilder(1., None if mode is None else tuple(mode))
    if api == 'functional':
        from pvfactors.run import run_timeseries_engine
        return run_timeseries_engine(b.build, **full)
    from pvfactors.run import run_parallel_engine
    from sim.core import Ctx
    with seams.World(Ctx(), [1, 2, 3, 5, 8]):
        try:
            rep = run_parallel_engine(b, n_processes=2, **full)
        except seams.Hang as e:
            raise RuntimeError('hang: %s' % e)
    return common.as_report(rep)


class C12(Property):
    ID = 'C12'
    TITLE = 'Bad samples spoil only their own time steps'
    RUNS = {'quick': 1600, 'thorough': 30000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one batch with injected feed faults ' \
        '(dropouts, spikes, stuck and absurd values over chosen columns ' \
        'and steps); the run must finish and all other steps must have ' \
        'the values of the same batch without the faults.'
    STUBS = ['the feed']
    ASSUMPTIONS = ['the same series without faults is the reference',
                   'tolerance 1e-7 relative plus 1e-6']

    def generate(self, rng, i, tier):
        cfg = world.gen_config(rng)
        n = rng.weighted([(2, 3), (rng.randint(3, 5), 4),
                          (rng.randint(6, 10), 2)])
        rows = world.gen_rows(rng, n)
        if rng.chance(0.06):
            # a day, a month or a year at once
            rows = [rows[k] for k in world.gen_long(
                rng, cfg, rows, 5e5 if cfg['vf_params'] else 1.2e6)]
            n = len(rows)
        ghi = rng.chance(0.4)
        cols = [c for c in COLS if c != 'ghi' or ghi]
        faults = []
        for _ in range(rng.randint(1, 4)):
            pos = rng.choice([0, n - 1, rng.randint(0, n - 1)])
            kind = rng.weighted([('one', 6), ('dropout', 1.5),
                                 ('several', 2), ('column', 1)])
            if kind == 'one':
                faults.append([pos, rng.choice(cols),
                               rng.weighted(VALUES)])
            elif kind == 'dropout':
                v = rng.choice([float('nan'), 0., -9999., float('inf')])
                faults += [[pos, c, v] for c in cols]
            elif kind == 'several':
                for c in rng.sample(cols, 2):
                    faults.append([pos, c, rng.weighted(VALUES)])
            else:
                c, v = rng.choice(cols), rng.weighted(VALUES)
                for p in range(n):
                    if rng.chance(0.5):
                        faults.append([p, c, v])
        albedo = round(rng.uniform(0.05, 0.6), 3) if rng.chance(0.2) \
            else None
        if albedo is not None:
            faults = [f for f in faults if f[1] != 'albedo'] or \
                [[0, 'dni', float('nan')]]
        return {'cfg': cfg, 'rows': rows, 'faults': faults,
                'feed': {'ghi': ghi, 'albedo': albedo, 'clock_fault':
                         [rng.randint(0, n - 1)] if rng.chance(0.1)
                         else [], 'no_time': rng.chance(0.5)},
                'modes': [bench.gen_mode(rng, cfg, 0.6)]
                + ([None] if rng.chance(0.2) else []),
                'api': rng.weighted([('engine', 6), ('functional', 1),
                                     ('parallel', 1)])}

    def execute(self, sc, ctx):
        cfg, rows, faults = sc['cfg'], sc['rows'], sc['faults']
        n = len(rows)
        bad = set(f[0] for f in faults) | set(sc['feed']['clock_fault'])
        good = [i for i in range(n) if i not in bad]
        for pos, col, val in faults:
            if pos < n:
                ctx.count('fault:%s %s' % (col, repr(float(val))))
        ctx.count('probe:long series', int(n > 20))
        ctx.count('fault:clock', len(sc['feed']['clock_fault']))
        ctx.sim_time += world.span_seconds(world.table(rows, cfg))
        for mode in sc['modes']:
            ctx.log(sc['api'], n, len(good), str(sorted(
                (p, c, repr(v)) for p, c, v in faults))[:300],
                'full' if mode is None else 'fast')
            got = attempt(simulate, cfg, sc['feed'], rows, faults, mode,
                          sc['api'])
            if isinstance(got, SutError):
                ctx.violate('the batch failed', '%s at %s (%s)' % (
                    got, where(got.exc), str(faults)[:300]))
            ctx.check(got is not None, 'no report')
            for k in sorted(got):
                if np.asarray(got[k]).shape[-1:] != (n,):
                    ctx.violate('steps are missing', '%s: %s' % (
                        k, np.asarray(got[k]).shape))
            ctx.count('op:%s batch' % ('full' if mode is None else 'fast'))
            if not good:
                continue
            ref = pristine(simulate, cfg, sc['feed'], rows, [], mode,
                           sc['api'])
            if isinstance(ref, Failed):
                ctx.violate('the batch without faults failed', '%s\n%s' % (
                    ref, ref.tb))
            d = world.difference(world.take(got, good),
                                 world.take(ref, good))
            ctx.check(d is None, 'another step changed', '%s (steps %s '
                      'are good; faults %s)' % (d, str(good)[:100], str(
                          faults)[:300]))
            ctx.count('op:step compared', len(good))

    def shrinks(self, sc):
        for f in list_shrinks(sc['faults']):
            if f:
                yield dict(sc, faults=f)
        if len(sc['modes']) > 1:
            for m in sc['modes']:
                yield dict(sc, modes=[m])
        if sc['api'] != 'engine':
            yield dict(sc, api='engine')
        for k, v in (('ghi', False), ('albedo', None), ('clock_fault', [])):
            if sc['feed'][k] != v and not (
                    k == 'ghi' and any(f[1] == 'ghi'
                                       for f in sc['faults'])):
                yield dict(sc, feed=dict(sc['feed'], **{k: v}))
        n = len(sc['rows'])
        if n > 20:
            for a, b in ((0, n // 2), (n // 2, n), (n // 4, n),
                         (0, 3 * n // 4)):
                yield dict(sc, rows=sc['rows'][a:b],
                           faults=[[p - a, c, v]
                                   for p, c, v in sc['faults']
                                   if a <= p < b],
                           feed=dict(sc['feed'], clock_fault=[]))
        for drop in range(n if n <= 20 else 0):
            if n > 1:
                yield dict(sc, rows=sc['rows'][:drop]
                           + sc['rows'][drop + 1:],
                           faults=[[p - (p > drop), c, v]
                                   for p, c, v in sc['faults']
                                   if p != drop],
                           feed=dict(sc['feed'], clock_fault=[]))
        for cfg in world.shrink_config(sc['cfg']):
            if all(bench.fits_cfg(m, cfg) for m in sc['modes']):
                yield dict(sc, cfg=cfg)


PROPERTY = C12()
