"""Caller data stays as it is, handed-out results never change."""
import numpy as np
import pandas as pd

from sim import bench, seams, users, world
from sim.core import Failed, pristine
from sim.prop import Property, SutError, attempt, where
from sim.props import c05


class C07(Property):
    ID = 'C07'
    TITLE = 'Caller data is never modified and results handed out never ' \
        'change'
    RUNS = {'quick': 1100, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one history of fits, runs, queries and ' \
        'failures on shared objects, with checksums of everything the ' \
        'caller passed in or got back taken after every operation.'
    STUBS = ['injected exceptions (line trace hook)']
    ASSUMPTIONS = ['the values of report entries, queried arrays and '
                   'snapshot geometries are what was handed out; the '
                   'timeseries objects of an array are live by design']

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng)
        ops = []
        for k in range(rng.randint(2, 5)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            what = rng.weighted([('use', 6), ('functional', 2),
                                 ('cut', 2), ('parallel', 0.7),
                                 ('geometry', 1), ('helpers', 0.7),
                                 ('merge', 0.8)])
            if what == 'merge' and cfg['n_pvrows'] < 2:
                what = 'use'
            op = {'op': what, 'eng': e,
                  'data': bench.gen_data(rng, 6, scalar=False,
                                         prev=[o['data'] for o in ops]),
                  'modes': [bench.gen_mode(rng, cfg)
                            for _ in range(rng.randint(1, 2))],
                  'container': rng.choice(['array', 'array', 'readonly',
                                           'series', 'list', 'strided']),
                  'same': bool(ops) and rng.chance(0.3),
                  'query': rng.chance(0.6),
                  'at': round(rng.random(), 6), 'even': rng.choice(seams.PLACES),
                  'fault': rng.choice(['line', 'line', 'alloc']),
                  'in': rng.choice(['fit', 'run'])}
            if rng.chance(0.15):
                pos = rng.randrange(len(op['data']['rows']))
                op['data']['bad'] = [[pos, rng.choice(
                    ['dni', 'dhi', 'solar_zenith', 'surface_tilt']),
                    rng.choice([float('nan'), -5., 1e9])]]
            elif rng.chance(0.2):
                # zeros are ordinary values
                op['data']['bad'] = [[rng.randrange(
                    len(op['data']['rows'])), rng.choice(
                        ['dni', 'dhi', 'albedo', 'surface_tilt', 'ghi']), 0.]
                    for _ in range(2)]
            else:
                op['data']['bad'] = []
            ops.append(op)
        return {'stage': st, 'ops': ops}

    # -- what the caller holds

    def inputs(self, op, cfg, held):
        """Arguments of a fit in the chosen containers."""
        t = bench.data_table(cfg, op['data'])
        args, kw = world.engine_args(t, op['data']['ghi'],
                                     op['data']['albedo'])

        def wrap(x):
            if x is None or np.isscalar(x):
                return x
            x = np.array(x)
            c = op['container']
            if c == 'readonly':
                x.flags.writeable = False
            elif c == 'series':
                x = pd.Series(x, index=args[0])
            elif c == 'list':
                x = [float(v) for v in x]
            elif c == 'strided':
                x = np.repeat(x, 2)[::2]
            return x
        args = [args[0]] + [wrap(a) for a in args[1:]]
        kw = {k: wrap(v) for k, v in kw.items()}
        return args, kw, t

    def hold(self, what, obj):
        self.held.append([what, obj, world.checksum(obj)])

    def hold_geometry(self, what, geo):
        """A snapshot geometry: remember its observable values."""
        self.geos.append([what, geo, self.geo_values(geo)])

    @staticmethod
    def geo_values(geo):
        out = {'length': float(geo.length)}
        surfs = geo.all_surfaces
        out['n'] = len(surfs)
        out['wkb'] = [s.wkb_hex for s in surfs]
        out['idx'] = [s.index for s in surfs]
        out['shaded'] = [bool(s.shaded) for s in surfs]
        out['params'] = [world.checksum(
            {k: v for k, v in (s.param_names and {
                n: s.get_param(n) for n in s.param_names} or {}).items()})
            for s in surfs]
        return out

    def verify(self, ctx, k, what):
        for name, obj, sum_ in self.held:
            if world.checksum(obj) != sum_:
                ctx.violate('changed: %s' % name.split(' of ')[0],
                            '%s changed during operation %d (%s)' % (
                                name, k, what))
        for name, geo, val in self.geos:
            if self.geo_values(geo) != val:
                ctx.violate('changed: %s' % name.split(' of ')[0],
                            '%s changed during operation %d (%s)' % (
                                name, k, what))
        ctx.count('op:checksum', len(self.held) + len(self.geos))

    def execute(self, sc, ctx):
        st = sc['stage']
        self.held, self.geos = [], []
        lines = {}
        for k, op in enumerate(sc['ops']):
            if op['op'] == 'cut':
                d = dict(op['data'], bad=[])
                lines[k] = pristine(c05.measure, bench.stage_cfg(
                    st, op['eng']), d, op['in'], op['modes'][0])
        stage = bench.Stage(st)
        last = None
        for k, op in enumerate(sc['ops']):
            e = op['eng']
            cfg = stage.cfg(e)
            eng = stage.engines[e]
            if op['same'] and last is not None:
                args, kw, t = last
            else:
                args, kw, t = self.inputs(op, cfg, None)
                for i, a in enumerate(args):
                    self.hold('input %d of operation %d' % (i, k), a)
                self.hold('input ghi of operation %d' % k, kw['ghi'])
            last = args, kw, t
            ctx.sim_time += world.span_seconds(t)
            ctx.log(op['op'], k, op['container'], len(t['timestamps']))
            ctx.count('op:%s' % op['op'])
            ctx.count('probe:container %s' % op['container'])
            getattr(self, 'op_' + op['op'])(ctx, k, op, cfg, eng, args, kw,
                                            t, lines.get(k))
            self.verify(ctx, k, op['op'])

    def step(self, ctx, k, what, fn, *a, **kw):
        r = attempt(fn, *a, **kw)
        if isinstance(r, SutError):
            # read-only inputs must be fine: nobody may write to them
            ctx.violate('%s raised' % what, 'operation %d: %s at %s' % (
                k, r, where(r.exc)))
        return r

    def op_use(self, ctx, k, op, cfg, eng, args, kw, t, total):
        self.step(ctx, k, 'fit', eng.fit, *args, **kw)
        self.verify(ctx, k, 'fit')
        for j, mode in enumerate(op['modes']):
            reps = []

            def fn(pvarray):
                r = users.extract(pvarray,
                                  None if mode is None else tuple(mode))
                raw = self.raw(pvarray, mode)
                reps.append((r, raw))
                return r
            got = self.step(ctx, k, 'run', bench.run_mode, eng, mode, fn)
            self.hold('report of operation %d' % k, got)
            self.hold('values of operation %d' % k, reps[0][1])
            ctx.log('run', k, j, 'full' if mode is None else 'fast')
            self.verify(ctx, k, 'run')
            if op['query']:
                self.query(ctx, k, eng, mode, len(t['timestamps']))
                self.verify(ctx, k, 'query')

    @staticmethod
    def raw(pvarray, mode):
        """Arrays a report function picks up without copying."""
        out = {}
        for i, s in enumerate(pvarray.all_ts_surfaces):
            for p in ('qinc', 'q0', 'qabs', 'isotropic', 'reflection'):
                try:
                    v = s.get_param(p)
                except KeyError:
                    continue
                if v is not None:
                    out['%d.%s' % (i, p)] = v
            out['%d.length' % i] = s.length
        if mode is None:
            out['vf'] = pvarray.ts_vf_matrix
            out['vf_aoi'] = pvarray.ts_vf_aoi_matrix
        out['rotation'] = pvarray.rotation_vec
        return out

    @staticmethod
    def spoiled(arr, i):
        """Nothing is promised about snapshots of a step whose sun or
        tracker position is missing."""
        return any(not np.isfinite(np.asarray(s.coords.at(i),
                                              dtype=float)).all()
                   for s in arr.all_ts_surfaces)

    def query(self, ctx, k, eng, mode, n):
        arr = eng.pvarray
        i = int(n * 0.6) % n
        if self.spoiled(arr, i):
            return
        for r, row in enumerate(arr.ts_pvrows):
            g = self.step(ctx, k, 'snapshot', row.at, i)
            self.hold_geometry('snapshot of row %d, operation %d' % (r, k),
                               g)
        g = self.step(ctx, k, 'snapshot', arr.ts_ground.at, i)
        self.hold_geometry('snapshot of ground, operation %d' % k, g)
        if mode is None:
            vals = {}
            for r, row in enumerate(arr.ts_pvrows):
                vals['w%d' % r] = row.front.get_param_weighted('qinc')
                vals['l%d' % r] = row.back.length
                vals['s%d' % r] = row.back.shaded_length
            vals['g'] = arr.ts_ground.get_param_weighted('qinc')
            vals['gl'] = arr.ts_ground.shaded_length
            self.hold('queried values of operation %d' % k, vals)

    def op_functional(self, ctx, k, op, cfg, eng, args, kw, t, total):
        from pvfactors.run import run_timeseries_engine
        full = self.run_kwargs(ctx, k, op, cfg, args, kw)
        got = self.step(ctx, k, 'run', run_timeseries_engine,
                        users.builder('lists', None if op['modes'][0]
                                      is None else
                                      tuple(op['modes'][0])).build, **full)
        self.hold('report of operation %d' % k, got)

    def run_kwargs(self, ctx, k, op, cfg, args, kw):
        names = ('timestamps', 'dni', 'dhi', 'solar_zenith',
                 'solar_azimuth', 'surface_tilt', 'surface_azimuth',
                 'albedo')
        full = dict(zip(names, args))
        full['ghi'] = kw['ghi']
        full['cls_irradiance'] = world.model_class(cfg)
        full['pvarray_parameters'] = world.array_params(cfg)
        full['irradiance_model_params'] = world.model_params(cfg)
        full['vf_calculator_params'] = world.vf_params(cfg)
        if op['modes'][0] is not None:
            full['fast_mode_pvrow_index'], \
                full['fast_mode_segment_index'] = op['modes'][0]
        for n in ('pvarray_parameters', 'irradiance_model_params',
                  'vf_calculator_params'):
            self.hold('%s of operation %d' % (n, k), full[n])
        return full

    def op_parallel(self, ctx, k, op, cfg, eng, args, kw, t, total):
        from pvfactors.run import run_parallel_engine
        full = self.run_kwargs(ctx, k, op, cfg, args, kw)
        b = users.ObjectBuilder(1., None if op['modes'][0] is None
                                else tuple(op['modes'][0]))
        with seams.World(ctx, [1, 2, 3]):
            before = dict(vars(b), merged=None)
            try:
                got = self.step(ctx, k, 'run', run_parallel_engine, b,
                                n_processes=2, **full)
            except seams.Hang as e:
                ctx.violate('hang', str(e))
        ctx.check(dict(vars(b), merged=None) == before,
                  'changed: report builder')
        self.hold('report of operation %d' % k, got)

    def op_geometry(self, ctx, k, op, cfg, eng, args, kw, t, total):
        """Static use with a dictionary of scalars."""
        from pvfactors.geometry import OrderedPVArray
        p = world.array_params(cfg)
        p.update(surface_azimuth=float(t['surface_azimuth'][0]),
                 surface_tilt=float(t['surface_tilt'][0]),
                 solar_zenith=float(t['solar_zenith'][0]),
                 solar_azimuth=float(t['solar_azimuth'][0]))
        self.hold('parameters of operation %d' % k, p)
        arr = self.step(ctx, k, 'fit_from_dict_of_scalars',
                        OrderedPVArray.fit_from_dict_of_scalars, p)
        if not self.spoiled(arr, 0):
            g = self.step(ctx, k, 'snapshot', arr.ts_pvrows[0].at, 0)
            self.hold_geometry('snapshot of operation %d' % k, g)
        params = {'qinc': 5.}
        self.hold('surface parameters of operation %d' % k, params)
        names = ['qinc', 'a']
        self.hold('parameter names of operation %d' % k, names)
        arr2 = self.step(ctx, k, 'init_from_dict',
                         OrderedPVArray.init_from_dict, p,
                         param_names=names)
        arr2.fit(*[np.array(args[i]) for i in (3, 4, 5, 6)])
        for s in arr2.all_ts_surfaces[:3]:
            s.update_params(params)
        if not self.spoiled(arr2, 0):
            geo = arr2.ts_pvrows[0].at(0)
            geo.update_params(params)

    def op_helpers(self, ctx, k, op, cfg, eng, args, kw, t, total):
        """Models on their own."""
        m = world.make_model(cfg)
        arr = world.make_array(cfg)
        arr.fit(*[np.asarray(args[i]) for i in (3, 4, 5, 6)])
        alb = args[7]
        a = [np.asarray(x) if isinstance(x, list) else x for x in args[:7]]
        alb = np.asarray(alb) * np.ones(len(a[1]))
        a = [a[0]] + [np.asarray(x) for x in a[1:]]
        for i, x in enumerate(a[1:]):
            self.hold('model input %d of operation %d' % (i, k), x)
        self.hold('model albedo of operation %d' % k, alb)
        ghi = None if kw['ghi'] is None else np.asarray(kw['ghi'])
        self.hold('model ghi of operation %d' % k, ghi)
        self.step(ctx, k, 'model fit', m.fit, a[0], a[1], a[2], a[3], a[4],
                  a[5], a[6], alb, ghi=ghi)
        self.step(ctx, k, 'model transform', m.transform, arr)
        v = self.step(ctx, k, 'modeling vectors',
                      m.get_full_ts_modeling_vectors, arr)
        self.hold('modeling vectors of operation %d' % k, list(v))
        calc = world.make_calculator(cfg)
        calc.fit(len(a[1]))
        vf = self.step(ctx, k, 'view factors', calc.build_ts_vf_matrix, arr)
        self.hold('view factors of operation %d' % k, vf)
        rho = np.full(vf.shape, 0.1)
        self.hold('reflectivities of operation %d' % k, rho)
        vfa = self.step(ctx, k, 'absorption view factors',
                        calc.build_ts_vf_aoi_matrix, arr, rho)
        self.verify(ctx, k, 'absorption view factors')
        self.hold('absorption view factors of operation %d' % k, vfa)

    def op_merge(self, ctx, k, op, cfg, eng, args, kw, t, total):
        """Reports of several runs put together, more than once."""
        from pvfactors.report import ExampleReportBuilder as Example
        reps = []
        for j in range(len(op['modes'])):
            self.step(ctx, k, 'fit', eng.fit, *args, **kw)
            reps.append(self.step(ctx, k, 'run', eng.run_full_mode,
                                  Example.build))
            self.hold('report %d of operation %d' % (j, k), reps[-1])
        pieces = list(reps)
        self.hold('list of reports of operation %d' % k, pieces)
        got = self.step(ctx, k, 'merge', Example.merge, pieces)
        self.verify(ctx, k, 'merge')
        self.hold('merged report of operation %d' % k, got)
        again = self.step(ctx, k, 'merge', Example.merge, pieces)
        self.verify(ctx, k, 'merge')
        ctx.check(world.checksum(got) == world.checksum(again),
                  'changed: merged report',
                  lambda: 'merging twice gave different reports')
        self.step(ctx, k, 'merge', Example.merge, [again, reps[0]])
        self.verify(ctx, k, 'merge')

    def op_cut(self, ctx, k, op, cfg, eng, args, kw, t, total):
        """An operation that fails midway."""
        if isinstance(total, Failed):
            ctx.violate('fresh objects raised', str(total))

        trap = seams.trap_at(total, op['fault'], op['at'], op['even'],
                             MemoryError)
        try:
            if op['in'] == 'run':
                eng.fit(*args, **kw)
                self.verify(ctx, k, 'fit')
            with trap:
                if op['in'] == 'fit':
                    eng.fit(*args, **kw)
                else:
                    bench.run_mode(eng, op['modes'][0])
        except Exception as e:  # noqa
            if not trap.fired:
                ctx.violate('raised without a fault', 'operation %d: %s: %s '
                            'at %s' % (k, type(e).__name__, e, where(e)))
        if trap.fired:
            ctx.count('fault:MemoryError in %s' % op['in'])
            ctx.log('cut', k, op['in'], trap.where)

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            for o in c['ops']:
                o['data']['bad'] = [b for b in o['data']['bad']
                                    if b[0] < len(o['data']['rows'])]
            yield c
        for i, op in enumerate(sc['ops']):
            for key, v in (('container', 'array'), ('query', False),
                           ('same', False)):
                if op[key] != v:
                    yield dict(sc, ops=sc['ops'][:i] + [
                        dict(op, **{key: v})] + sc['ops'][i + 1:])


PROPERTY = C07()
