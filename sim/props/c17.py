"""The state of the process is left as it was found."""
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from sim import ambient, bench, boot, seams, users, world
from sim.core import Failed, pristine
from sim.prop import Property, SutError, attempt
from sim.props import c05, c08
from sim.props.common import gen_schedule

PROBE = r'''
import sys, pickle
from sim import boot
boot.prepare()
import numpy, numpy.random, pandas, pvlib, shapely, shapely.geometry
import shapely.ops, matplotlib, matplotlib.pyplot, importlib, locale, logging
import multiprocessing, subprocess
from sim import ambient
env, mods = pickle.loads(sys.stdin.buffer.read())
ambient.set_up(env)
before = ambient.snapshot()
try:
    for m in mods:
        importlib.import_module(m)
    out = ambient.changed(
        {k: v for k, v in before.items() if k != 'logging'},
        ambient.snapshot())
except BaseException as e:
    out = 'import raised', '%s: %s' % (type(e).__name__, e)
sys.stdout.buffer.write(b'RESULT' + pickle.dumps(out))
sys.stdout.buffer.flush()
'''


class Looker(c08.Looker):
    def bad(self, kind, detail):
        """What a look shows is another property's matter."""


class C17(Property):
    ID = 'C17'
    TITLE = 'The state of the process is left as it was found'
    RUNS = {'quick': 800, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    TIMEOUT = 120.
    RULE = 'One evaluation is one history of simulations, parallel runs, ' \
        'looks, plots and edits, some cut short by faults, in a process ' \
        'whose settings were changed by the user; after every operation ' \
        'all settings are compared with what they were.'
    STUBS = ['process pool (multiprocessing replaced by the simulator)',
             'injected exceptions']
    ASSUMPTIONS = ['at import the package configures logging, which is '
                   'left out']

    setup = c08.C08.setup

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng)
        ops = []
        for k in range(rng.randint(2, 5)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            what = rng.weighted([
                ('use', 4), ('functional', 1), ('parallel', 2), ('look', 2),
                ('edit', 1), ('cut', 4), ('user', 1.5), ('args', 1.5),
                ('merge', 0.4), ('draw', 0.5), ('helpers', 1)])
            op = {'op': what, 'eng': e,
                  'data': bench.gen_data(rng, 6, prev=[
                      o['data'] for o in ops]),
                  'modes': [bench.gen_mode(rng, cfg)],
                  'looks': [c08.gen_query(rng)
                            for _ in range(rng.randint(1, 3))],
                  'at': round(rng.random(), 6), 'even': rng.choice(seams.PLACES),
                  'fault': rng.choice(['line', 'alloc', 'line']),
                  'exc': rng.choice(sorted(c05.KINDS)),
                  'in': rng.choice(['fit', 'run', 'look', 'functional']),
                  'arg': rng.randint(1, 7),
                  'how': rng.choice(['short', 'none', 'text', 'empty'])}
            if what == 'parallel':
                op['n'] = rng.randint(1, 5)
                op['choices'] = gen_schedule(rng, 30)
                op['trouble'] = rng.choice([
                    None, None, 'interrupt', 'build_raises', 'kill_at',
                    'start', 'merge'])
            if rng.chance(0.3):
                op['data']['bad'] = [[0, rng.choice(
                    ['dni', 'dhi', 'solar_zenith', 'surface_tilt',
                     'albedo']), rng.choice([float('nan'), 0., -5.,
                                             1e300])]]
            ops.append(op)
        sc = {'stage': st, 'ops': ops, 'env': ambient.gen(rng),
              'import': None}
        if rng.chance(0.05):
            sc['import'] = rng.choice([
                ['pvfactors'], ['pvfactors.run'], ['pvfactors.engine'],
                ['pvfactors.geometry', 'pvfactors.irradiance'],
                ['pvfactors.run', 'pvfactors.viewfactors',
                 'pvfactors.report', 'pvfactors.geometry.plot']])
        return sc

    def execute(self, sc, ctx):
        st = sc['stage']
        for k in sc['env']:
            ctx.count('probe:user set %s' % k)
        if sc['import']:
            self.importing(ctx, sc)
        lines = {}
        for k, op in enumerate(sc['ops']):
            if op['op'] == 'cut' and op['in'] in ('fit', 'run'):
                cfg = bench.stage_cfg(st, op['eng'])
                lines[k] = pristine(c05.measure, cfg, dict(
                    op['data'], bad=[]), op['in'], op['modes'][0])
        ambient.set_up(sc['env'])
        stage = bench.Stage(st)
        # what is loaded or filled on first use is not looked at twice
        before = ambient.snapshot()
        for k, op in enumerate(sc['ops']):
            e = op['eng']
            cfg = stage.cfg(e)
            args, kw, t = bench.fit_args(cfg, op['data'])
            ctx.sim_time += world.span_seconds(t)
            r = getattr(self, 'op_' + op['op'])(
                ctx, k, op, cfg, stage.engines[e], args, kw, lines.get(k))
            how = 'raised %s' % type(r.exc).__name__ \
                if isinstance(r, SutError) else 'done'
            ctx.log(op['op'], k, how)
            ctx.count('op:%s' % op['op'])
            after = ambient.snapshot()
            c = ambient.changed(before, after)
            if c is not None:
                ctx.violate('%s changed' % c[0], 'operation %d (%s, %s): %s'
                            % (k, op['op'], how, c[1]))

    # -- operations: what comes of them is not looked at here

    @staticmethod
    def shield(fn, *a, **k):
        """Any end of an operation."""
        try:
            return attempt(fn, *a, **k)
        except BaseException as e:  # noqa
            return SutError(e)

    def op_use(self, ctx, k, op, cfg, eng, args, kw, total):
        def go():
            eng.fit(*args, **kw)
            bench.run_and_publish(eng, op['modes'][0])
            look = Looker(self, ctx, k, eng.pvarray, 'use')
            look.look(op['looks'][0])
        return self.shield(go)

    def op_look(self, ctx, k, op, cfg, eng, args, kw, total):
        def go():
            eng.fit(*args, **kw)
            bench.run_mode(eng, op['modes'][0])
            look = Looker(self, ctx, k, eng.pvarray, 'look')
            for q in op['looks']:
                look.look(q)
        return self.shield(go)

    def full(self, op, cfg, args, kw):
        names = ('timestamps', 'dni', 'dhi', 'solar_zenith',
                 'solar_azimuth', 'surface_tilt', 'surface_azimuth',
                 'albedo')
        full = dict(zip(names, args), ghi=kw['ghi'])
        if np.ndim(args[0]) == 0:
            # one step given as plain numbers
            full = {a: b if b is None else np.atleast_1d(b)
                    for a, b in full.items()}
            full['timestamps'] = [args[0]]
        full['cls_irradiance'] = world.model_class(cfg)
        full['pvarray_parameters'] = world.array_params(cfg)
        full['irradiance_model_params'] = world.model_params(cfg)
        full['vf_calculator_params'] = world.vf_params(cfg)
        if op['modes'][0] is not None:
            full['fast_mode_pvrow_index'], \
                full['fast_mode_segment_index'] = op['modes'][0]
        return full

    def op_functional(self, ctx, k, op, cfg, eng, args, kw, total):
        from pvfactors.run import run_timeseries_engine
        mode = op['modes'][0]
        return self.shield(
            run_timeseries_engine, users.ObjectBuilder(
                1., None if mode is None else tuple(mode)).build,
            **self.full(op, cfg, args, kw))

    def op_parallel(self, ctx, k, op, cfg, eng, args, kw, total):
        from pvfactors.run import run_parallel_engine
        mode = op['modes'][0]
        fast = None if mode is None else tuple(mode)
        tr = op['trouble']
        b = (users.BadMerge if tr == 'merge' else users.ObjectBuilder)(
            fast=fast)
        faults = []
        if tr in ('build_raises', 'kill_at'):
            faults = [{'task': 1 + op['arg'] % op['n'], 'kind': tr,
                       'line': 1 + int(op['at'] * 500)}]
        elif tr == 'start':
            faults = [{'start': 1 + op['arg'] % op['n'], 'exc': 'OSError'}]
        full = self.full(op, cfg, args, kw)
        with seams.World(ctx, op['choices'], faults, interrupt_at=(
                1 + op['arg'] if tr == 'interrupt' else None)) as w:
            r = self.shield(run_parallel_engine, b, n_processes=op['n'],
                            **full)
            if w.fired:
                ctx.count('fault:%s' % tr)
        return r

    def op_merge(self, ctx, k, op, cfg, eng, args, kw, total):
        from pvfactors.report import ExampleReportBuilder as Example

        def go():
            eng.fit(*args, **kw)
            Example.merge([eng.run_full_mode(Example.build)] * 2)
        return self.shield(go)

    def op_draw(self, ctx, k, op, cfg, eng, args, kw, total):
        """Plots on axes of the user, who works on others."""
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is None or not plt.get_fignums():
            from matplotlib.figure import Figure
            ax = Figure(figsize=(1, 1)).add_subplot(111)
        else:
            n = plt.get_fignums()
            now = plt.gcf()
            ax = plt.figure(n[op['arg'] % len(n)]).axes[0]
            plt.figure(now.number)

        def go():
            eng.fit(*args, **kw)
            i = op['arg'] % eng.pvarray.n_states
            if op['even']:
                eng.pvarray.plot_at_idx(i, ax)
            else:
                eng.pvarray.ts_pvrows[0].plot_at_idx(i, ax)
                eng.pvarray.ts_ground.plot_at_idx(i, ax)
        return self.shield(go)

    def op_helpers(self, ctx, k, op, cfg, eng, args, kw, total):
        """What users also call on their own."""
        from pvfactors.engine import PVEngine
        from pvfactors.geometry import OrderedPVArray
        from pvfactors.irradiance import utils
        from pvfactors.viewfactors import VFCalculator
        from pvfactors.viewfactors.aoimethods import AOIMethods, \
            faoi_fn_from_pvlib_sandia
        f = world.faoi_fn(sorted(world.FAOI)[op['arg'] % len(world.FAOI)])

        def rho():
            for n in (300, 60):
                x = AOIMethods(f, f, n)
                x.rho_from_faoi_fn(False)
                x.rho_from_faoi_fn(True)

        def made():
            new = PVEngine.with_rho_initialization(
                world.make_array(cfg), VFCalculator(f, f),
                world.make_model(cfg))
            new.fit(*args, **kw)
            bench.run_mode(new, op['modes'][0])

        def sandia():
            g = faoi_fn_from_pvlib_sandia('SunPower_128_Cell_Module___2009_')
            g([10., 60., 90., 120.])

        def shares():
            for m in ('uniform_disk', 'gaussian', 'other'):
                x = (op['at'] * 100. + float(np.ravel(args[1])[0])) % 100.
                utils.calculate_circumsolar_shading(x, m)

        def sky():
            x = [np.atleast_1d(a) for a in args]
            utils.breakup_df_inputs(utils.pd.DataFrame(
                {'solar_zenith': x[3], 'solar_azimuth': x[4],
                 'surface_tilt': x[5], 'surface_azimuth': x[6],
                 'dni': x[1], 'dhi': x[2]}, index=x[0]))
            utils.perez_diffuse_luminance(x[0], x[5], x[6], x[3], x[4],
                                          x[1], x[2])

        def scalars():
            x = [float(np.ravel(a)[0]) for a in args[3:7]]
            OrderedPVArray.fit_from_dict_of_scalars(dict(
                world.array_params(cfg), solar_zenith=x[0],
                solar_azimuth=x[1], surface_tilt=x[2],
                surface_azimuth=x[3]))
        r = None
        for fn in (rho, made, sandia, shares, sky, scalars)[
                op.get('only', 0):][:6 if op.get('only') is None else 1]:
            e = self.shield(fn)
            if isinstance(e, SutError):
                ctx.count('probe:%s raised' % fn.__name__)
                r = e
        return r

    def op_edit(self, ctx, k, op, cfg, eng, args, kw, total):
        from pvfactors.geometry.pvground import PVGround
        from pvfactors.geometry.pvrow import PVRow
        from matplotlib.figure import Figure
        from shapely.geometry import LineString, Point

        def go():
            row = PVRow.from_linestring_coords(
                [(0., 1.), (2., 2.)], (-1., 2.), cut={'front': 3})
            row.front.cast_shadow(LineString([(0., 1.), (1., 1.5)]))
            row.back.cut_at_point(Point(0.5, 1.25))
            row.front.merge_shaded_areas()
            row.update_params({'qinc': 1.})
            ground = PVGround.as_flat()
            ground.cast_shadow(LineString([(0., 0.), (1., 0.)]))
            ax = Figure(figsize=(1, 1)).add_subplot(111)
            row.plot(ax)
            ground.plot(ax)
        return self.shield(go)

    def op_user(self, ctx, k, op, cfg, eng, args, kw, total):
        """A failing report or reflection function."""
        def fail(pvarray):
            raise users.UserError('report')

        def go():
            if op['even']:
                world.TRAP['left'] = int(op['at'] * 12)
            try:
                eng.fit(*args, **kw)
                bench.run_mode(eng, op['modes'][0], fail)
            finally:
                world.TRAP['left'] = None
        ctx.count('fault:user function raised')
        return self.shield(go)

    def op_args(self, ctx, k, op, cfg, eng, args, kw, total):
        bad = list(args)
        j = op['arg'] % len(bad)
        bad[j] = {'short': bad[j][:-1] if hasattr(bad[j], '__len__')
                  else None, 'none': None, 'text': 'abc',
                  'empty': args[1][:0] if hasattr(args[1], '__len__')
                  else []}[op['how']]
        ctx.count('fault:unusable arguments')

        def go():
            if op['even']:
                eng.fit(*bad, **kw)
            else:
                eng.fit(*args, **kw)
                eng.run_fast_mode(pvrow_index=99)
        return self.shield(go)

    def op_cut(self, ctx, k, op, cfg, eng, args, kw, total):
        if isinstance(total, Failed):
            ctx.violate('fresh objects raised', str(total))
        exc = MemoryError if op['fault'] == 'alloc' else c05.KINDS[op['exc']]
        if total is None:
            total = [2000, [], 300]
        trap = seams.trap_at(total, op['fault'], op['at'], op['even'], exc)

        def go():
            if op['in'] == 'functional':
                with trap:
                    self.run_functional(op, cfg, args, kw)
                return
            if op['in'] != 'fit':
                eng.fit(*args, **kw)
            if op['in'] == 'look':
                bench.run_mode(eng, op['modes'][0])
                look = Looker(self, ctx, k, eng.pvarray, 'cut')
                with trap:
                    for q in op['looks']:
                        getattr(look, 'q_' + q['q'])(
                            q, q['at'] % eng.pvarray.n_states)
                return
            with trap:
                if op['in'] == 'fit':
                    eng.fit(*args, **kw)
                else:
                    bench.run_mode(eng, op['modes'][0])
        r = self.shield(go)
        if trap.fired:
            ctx.count('fault:%s in %s' % (
                'failing numpy call' if op['fault'] == 'alloc'
                else op['exc'], op['in']))
            ctx.log('cut', trap.where)
        return r

    def run_functional(self, op, cfg, args, kw):
        from pvfactors.run import run_timeseries_engine
        return run_timeseries_engine(None, **self.full(op, cfg, args, kw))

    def importing(self, ctx, sc):
        env = boot.child_env()
        env['PYTHONPATH'] = boot.VERIF
        with tempfile.TemporaryDirectory() as tmp:
            env['MPLCONFIGDIR'] = tmp
            p = subprocess.run(
                [boot.PYTHON, '-c', PROBE], env=env, cwd='/',
                input=pickle.dumps((sc['env'], sc['import'])),
                stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        ctx.count('op:import')
        ctx.log('import', len(sc['import']))
        i = p.stdout.find(b'RESULT')
        if i < 0:
            ctx.violate('import ended the process', '%s %s' % (
                p.returncode, p.stderr[-1000:]))
        c = pickle.loads(p.stdout[i + 6:])
        if c is not None:
            ctx.violate('%s changed' % c[0], 'import of %s: %s' % (
                sc['import'], c[1]))

    def shrinks(self, sc):
        if sc['import']:
            yield dict(sc, **{'import': None})
        for c in bench.shrinks(sc):
            for o in c['ops']:
                o['data']['bad'] = [b for b in o['data']['bad']
                                    if b[0] < len(o['data']['rows'])]
            yield c
        if sc['import']:
            for c in bench.shrink_ops(sc, 0):
                yield c
        for k in sc['env']:
            yield dict(sc, env={a: b for a, b in sc['env'].items()
                                if a != k})
        for i, op in enumerate(sc['ops']):
            if len(op['looks']) > 1:
                for q in op['looks']:
                    yield dict(sc, ops=sc['ops'][:i] + [dict(
                        op, looks=[q])] + sc['ops'][i + 1:])
            if op.get('trouble'):
                yield dict(sc, ops=sc['ops'][:i] + [dict(
                    op, trouble=None)] + sc['ops'][i + 1:])
            if op['data']['bad']:
                yield dict(sc, ops=sc['ops'][:i] + [dict(
                    op, data=dict(op['data'], bad=[]))]
                    + sc['ops'][i + 1:])


PROPERTY = C17()
