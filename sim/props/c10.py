"""What a full run publishes is one coherent solution, in any history."""
import numpy as np

from sim import bench, seams, world
from sim.prop import Property, SutError, attempt, where

COMPONENTS = {'perez': ('direct', 'circumsolar', 'horizon'),
              'iso': ('direct',)}
POINT = 1e-6


class Claim(object):
    """A completed full run on an array nobody has touched since."""

    def __init__(self, name, array, model, albedo, rho, sky, faoi):
        self.name = name
        self.array = array
        self.model = model
        self.albedo = albedo
        self.rho = rho
        self.sky = sky
        self.faoi = faoi


def defaults():
    from pvfactors.config import DEFAULT_RHO_FRONT, DEFAULT_RHO_BACK
    return DEFAULT_RHO_FRONT, DEFAULT_RHO_BACK


def incoherence(c):
    """First way in which published values contradict each other."""
    arr = c.array
    n = arr.n_states
    surfs = list(arr.all_ts_surfaces)
    ns = len(surfs)
    ones = np.ones(n)
    length = np.array([s.length * ones for s in surfs])
    real = length > POINT
    vals = {p: np.array([np.asarray(s.get_param(p), dtype=float) * ones
                         for s in surfs])
            for p in ('q0', 'qinc', 'isotropic', 'reflection', 'qabs')}
    own = np.zeros((ns, n))
    own_abs = np.zeros((ns, n))
    for comp in COMPONENTS[c.model]:
        for i, s in enumerate(surfs):
            own[i] += np.asarray(s.get_param(comp)) * ones
            own_abs[i] += np.asarray(s.get_param(comp + '_absorbed')) * ones
    # reflectivities as the caller gave them
    rho = np.zeros((ns, n))
    ground = set(id(s) for s in arr.ts_ground.all_ts_surfaces)
    front = set(id(s) for r in arr.ts_pvrows
                for s in r.front.all_ts_surfaces)
    for i, s in enumerate(surfs):
        rho[i] = (c.albedo if id(s) in ground else
                  c.rho[0] if id(s) in front else c.rho[1]) * ones
    # a step whose sky model has no solution publishes no numbers
    given = own.sum(axis=0) + own_abs.sum(axis=0)
    if c.sky is not None:
        given = given + c.sky
    real = real & ~np.isnan(given)
    vf = np.asarray(arr.ts_vf_matrix)
    vfa = np.asarray(arr.ts_vf_aoi_matrix)
    for name, m in (('view factors', vf), ('absorption view factors', vfa)):
        if m.shape != (ns + 1, ns + 1, n):
            return '%s have shape %s' % (name, m.shape)

    def first(a, b, scale, what):
        tol = 1e-6 * (np.abs(scale) + 1.)
        with np.errstate(all='ignore'):
            bad = real & ~(np.abs(a - b) <= tol)
        if bad.any():
            i, t = (int(x) for x in np.argwhere(bad)[0])
            return '%s: surface %d step %d: %r, %r' % (
                what, i, t, float(a[i, t]), float(b[i, t]))
    k = np.argmax(np.where(real, vf[:-1, -1], 0.), axis=0)
    steps = np.arange(n)
    sky = c.sky if c.sky is not None else \
        vals['isotropic'][k, steps] / vf[k, -1, steps]
    q = np.where(real, vals['q0'], 0.)
    far = (vf[:-1, :-1] * vals['q0'][None]).sum(axis=1)
    for r in (
            first(vals['q0'], rho * vals['qinc'], q,
                  'radiosity is not reflectivity x incident'),
            first(vals['isotropic'], vf[:-1, -1] * sky, sky,
                  'isotropic term is not view factor x sky'),
            first(vals['reflection'], far, far,
                  'reflection is not what view factors bring'),
            first(vals['qinc'], own + vals['isotropic'] + far,
                  vals['qinc'], 'incident is not the sum of its parts'),
            first(vals['qabs'],
                  own_abs + (vfa[:-1, :-1] * vals['q0'][None]).sum(axis=1)
                  + vfa[:-1, -1] * sky, vals['qinc'],
                  'absorbed is not the sum of its parts'),
            first(vf[:-1].sum(axis=1), np.ones((ns, n)), 1.,
                  'view factors do not sum to one')):
        if r:
            return r
    lf = vf[:-1, :-1] * length[:, None]
    both = real[:, None] & real[None]
    bad = both & ~(np.abs(lf - np.swapaxes(lf, 0, 1)) <= 1e-6)
    if bad.any():
        i, j, t = (int(x) for x in np.argwhere(bad)[0])
        return 'not reciprocal: surfaces %d and %d step %d: %r, %r' % (
            i, j, t, float(lf[i, j, t]), float(lf[j, i, t]))
    if not c.faoi:
        for j in range(ns + 1):
            r = first(vfa[:-1, j], (1. - rho) * vf[:-1, j], 1.,
                      'absorption view factor to %d is not (1 - rho) x '
                      'view factor' % j)
            if r:
                return r
    return None


class C10(Property):
    ID = 'C10'
    TITLE = 'What a run publishes is one coherent solution, in any history'
    RUNS = {'quick': 1000, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one history of fits, runs, interrupted runs ' \
        'and direct calculator uses on shared objects; the published values ' \
        'of every array are tied together inside each report, after the ' \
        'run, and after every later operation on other arrays.'
    STUBS = ['injected exceptions (line trace hook)']
    ASSUMPTIONS = ['surfaces shorter than 1e-6 m are left out',
                   'tolerance 1e-6 relative to the terms added']

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng)
        # more reflection-loss functions than elsewhere
        for c in st['calcs']:
            if not c['vf_params'] and rng.chance(0.35):
                f = sorted(world.FAOI)
                c['vf_params'] = {
                    'faoi_fn_front': rng.choice(f),
                    'faoi_fn_back': rng.choice(f),
                    'n_aoi_integral_sections': rng.choice([7, 20, 36])}
        ops = []
        for _ in range(rng.randint(2, 6)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            op = {'op': rng.weighted([('use', 6), ('fast', 1), ('fit', 1),
                                      ('cut', 1), ('calc', 1.2),
                                      ('functional', 1)]),
                  'eng': e, 'data': bench.gen_data(
                      rng, 6, prev=[o['data'] for o in ops]),
                  'modes': [bench.gen_mode(rng, cfg, 0.)],
                  'times': rng.weighted([(1, 5), (2, 1)]),
                  'to': rng.randrange(len(st['calcs'])),
                  'at': round(rng.random(), 4)}
            ops.append(op)
        return {'stage': st, 'ops': ops, 'rho_init': rng.chance(0.2)}

    def execute(self, sc, ctx):
        st = sc['stage']
        stage = bench.Stage(st)
        if sc['rho_init']:
            from pvfactors.engine import PVEngine
            for e, (a, m, v) in enumerate(st['engines']):
                if stage.calcs[v].vf_aoi_methods is not None:
                    mod = stage.models[m]
                    for side in ('front', 'back'):
                        if 'rho_' + side not in st['models'][m][
                                'model_params']:
                            setattr(mod, 'rho_' + side, None)
        if sc['rho_init']:
            for e, (a, m, v) in enumerate(st['engines']):
                if stage.calcs[v].vf_aoi_methods is not None:
                    stage.engines[e] = PVEngine.with_rho_initialization(
                        stage.arrays[a], stage.calcs[v], stage.models[m])
                    ctx.count('probe:calculated reflectivity')
                    for side in ('front', 'back'):
                        r = getattr(stage.models[m], 'rho_' + side)
                        ctx.check(np.isscalar(r) and 0. < r < 1.,
                                  'calculated reflectivity is no '
                                  'reflectivity', repr(r))
            d = defaults()
            for m in stage.models:
                for k, side in enumerate(('front', 'back')):
                    if getattr(m, 'rho_' + side) is None:
                        setattr(m, 'rho_' + side, d[k])
        self.claims = {}
        self.kept = []
        for k, op in enumerate(sc['ops']):
            e = op['eng']
            a, m, v = st['engines'][e]
            cfg = stage.cfg(e)
            eng = stage.engines[e]
            args, kw, t = bench.fit_args(cfg, op['data'])
            ctx.sim_time += world.span_seconds(t)
            ctx.log(op['op'], k, e, len(op['data']['rows']))
            ctx.count('op:%s' % op['op'])
            if op['op'] not in ('calc', 'functional'):
                self.claims.pop(a, None)
            getattr(self, 'op_' + op['op'])(ctx, k, op, cfg, stage, eng, a,
                                            args, kw, t)
            self.verify(ctx, k, op['op'])

    def verify(self, ctx, k, what):
        for c in list(self.claims.values()) + self.kept:
            d = incoherence(c)
            ctx.check(d is None, 'published values contradict each other',
                      'run %s, after operation %d (%s): %s' % (
                          c.name, k, what, d))
            ctx.count('op:residual check')

    def guard(self, ctx, k, what, fn, *a, **kw):
        r = attempt(fn, *a, **kw)
        if isinstance(r, SutError):
            ctx.violate('%s raised' % what, 'operation %d: %s at %s' % (
                k, r, where(r.exc)))
        return r

    def claim(self, k, cfg, stage, op, eng, args):
        n = len(op['data']['rows'])
        albedo = np.array(args[7]) * np.ones(n)
        mod = eng.irradiance
        return Claim('of operation %d' % k, eng.pvarray, cfg['model'],
                     albedo, (float(mod.rho_front), float(mod.rho_back)),
                     np.array(mod.sky_luminance) * np.ones(n),
                     eng.vf_calculator.vf_aoi_methods is not None)

    def op_use(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        self.guard(ctx, k, 'fit', eng.fit, *args, **kw)
        c = self.claim(k, cfg, stage, op, eng, args)

        def report(pvarray):
            d = incoherence(c)
            ctx.check(d is None, 'published values contradict each other',
                      'in the report of operation %d: %s' % (k, d))
        for _ in range(op['times']):
            self.guard(ctx, k, 'run', eng.run_full_mode,
                       fn_build_report=report)
        self.claims[a] = c
        if c.faoi:
            ctx.count('probe:reflection-loss functions')

    def op_fast(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        self.guard(ctx, k, 'fit', eng.fit, *args, **kw)
        self.guard(ctx, k, 'run', bench.run_mode, eng, op['modes'][0])
        c = self.claim(k, cfg, stage, op, eng, args)
        if op['times'] > 1:
            self.guard(ctx, k, 'run', eng.run_full_mode)
            self.claims[a] = c

    def op_fit(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        self.guard(ctx, k, 'fit', eng.fit, *args, **kw)

    def op_cut(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        """A full run that fails at some line, then runs again."""
        self.guard(ctx, k, 'fit', eng.fit, *args, **kw)
        c = self.claim(k, cfg, stage, op, eng, args)

        def boom():
            raise MemoryError('injected')
        trap = seams.LineTrap(1 + int(op['at'] * 3000), boom)
        with trap:
            r = attempt(eng.run_full_mode)
        if trap.fired:
            ctx.count('fault:MemoryError in run')
            ctx.log('cut', k, trap.where)
        elif isinstance(r, SutError):
            ctx.violate('run raised', 'operation %d: %s' % (k, r))
        if op['times'] > 1:
            self.guard(ctx, k, 'run', eng.run_full_mode)
            self.claims[a] = c

    def op_calc(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        """Direct use of a shared calculator on an array of its own."""
        arr = world.make_array(cfg)
        calc = stage.calcs[op['to']]
        x = [np.atleast_1d(np.asarray(y, dtype=float)) for y in args[3:7]]
        self.guard(ctx, k, 'array fit', arr.fit, *x)
        self.guard(ctx, k, 'calculator fit', calc.fit, len(x[0]))
        vf = self.guard(ctx, k, 'view factors', calc.build_ts_vf_matrix, arr)
        kept = vf.copy()
        n = arr.n_ts_surfaces + 1
        vfa = self.guard(ctx, k, 'absorption view factors',
                         calc.build_ts_vf_aoi_matrix, arr,
                         np.full((n, n, len(x[0])), 0.1))
        ctx.check(np.array_equal(vf, kept, equal_nan=True),
                  'view factors changed by building the absorption view '
                  'factors')
        if calc.vf_aoi_methods is None:
            ctx.check(np.allclose(vfa, 0.9 * kept, rtol=0, atol=1e-9,
                                  equal_nan=True),
                      'absorption view factors are not those of the '
                      'same array')

    def op_functional(self, ctx, k, op, cfg, stage, eng, a, args, kw, t):
        from pvfactors.run import run_timeseries_engine
        names = ('timestamps', 'dni', 'dhi', 'solar_zenith',
                 'solar_azimuth', 'surface_tilt', 'surface_azimuth',
                 'albedo')
        full = dict(zip(names, args), ghi=kw['ghi'])
        full['cls_irradiance'] = world.model_class(cfg)
        full['pvarray_parameters'] = world.array_params(cfg)
        full['irradiance_model_params'] = world.model_params(cfg)
        full['vf_calculator_params'] = world.vf_params(cfg)
        n = len(op['data']['rows'])
        d = defaults()
        mp = cfg['model_params']

        def report(pvarray):
            c = Claim('of operation %d' % k, pvarray, cfg['model'],
                      np.array(args[7]) * np.ones(n),
                      (mp.get('rho_front', d[0]), mp.get('rho_back', d[1])),
                      None, bool(cfg['vf_params']))
            self.kept.append(c)
            r = incoherence(c)
            ctx.check(r is None, 'published values contradict each other',
                      'in the report of operation %d: %s' % (k, r))
        self.guard(ctx, k, 'run', run_timeseries_engine, report, **full)

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            yield c
        if sc['rho_init']:
            yield dict(sc, rho_init=False)


PROPERTY = C10()
