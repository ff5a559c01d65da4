"""What a process holds does not grow with the work it has done."""
import copy
import gc
import os
import sys
import threading
import tracemalloc


from sim import bench, seams, world
from sim.core import Ctx, Failed, pristine
from sim.prop import Property, SutError, attempt
from sim.props import c05, c08, c17

WARM = 20           # cycles before the first measurement
BLOCK = 25          # cycles between two measurements
PATIENCE = (60, 120, 240, 240)     # further blocks if something grows
OWN = 12.           # bytes per cycle, allocated by the package's own code
ALL = 250., 80.     # by any code: at first, and at last


class C16(Property):
    ID = 'C16'
    TITLE = 'What a process holds stays bounded in a long stream of work'
    RUNS = {'quick': 48, 'thorough': 1600}
    WALL = {'quick': 280., 'thorough': 3000.}
    TIMEOUT = 240.
    RULE = 'One evaluation is one stream of a few hundred cycles of work ' \
        'of the same size (long-lived and throwaway objects, looks, plots, ' \
        'copies, parallel runs, failures) on ever new values; after each ' \
        'block of cycles memory, objects, files, threads, processes and ' \
        'figures are counted.'
    STUBS = ['process pool (multiprocessing replaced by the simulator)',
             'injected exceptions']
    ASSUMPTIONS = ['growth that goes on through every block of a stream of '
                   'many hundred cycles is unbounded',
                   'memory allocated inside GEOS is not seen']

    setup = c08.C08.setup

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng, kept=rng.chance(0.3))
        # small ones: what counts is the number of cycles
        for c in st['arrays']:
            if c['n_pvrows'] > 3:
                c['n_pvrows'] = 3
                c['cut'] = {k: v for k, v in c['cut'].items()
                            if int(k) < 3}
        if 'kept' in st:
            st['kept'] = [m if m and bench.fits_cfg(
                m, bench.stage_cfg(st, e)) else None
                for e, m in enumerate(st['kept'])]
        ops = []
        heavy = False
        for k in range(rng.randint(1, 3)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            what = rng.weighted([
                ('use', 5), ('fit', 1), ('fresh', 2), ('functional', 2),
                ('mix', 2), ('helpers', 0.7),
                ('look', 3), ('plot', 0.5), ('cut', 2), ('user', 1),
                ('args', 1), ('parallel', 0.4), ('clone', 0.7),
                ('edit', 0.7), ('merge', 0.4)])
            if what in ('parallel', 'plot', 'clone'):
                if heavy:
                    what = 'use'
                heavy = True
            op = {'op': what, 'eng': e,
                  'data': bench.gen_data(rng, 2, scalar=False),
                  'modes': [bench.gen_mode(rng, cfg)
                            for _ in range(rng.randint(1, 2))],
                  'looks': [c08.gen_query(rng)
                            for _ in range(rng.randint(1, 2))],
                  'at': round(rng.random(), 6), 'even': True,
                  'fault': rng.choice(['line', 'alloc']),
                  'exc': 'MemoryError', 'in': rng.choice(['fit', 'run']),
                  'arg': rng.randint(1, 7), 'n': 2, 'choices': [],
                  'trouble': rng.choice([None, 'build_raises']),
                  'how': rng.choice(['short', 'none', 'text', 'empty'])}
            for q in op['looks']:
                q['break'] = None
                if q['q'] == 'plot':
                    q['q'] = 'row'
            op['data']['inplace'] = False
            ops.append(op)
        return {'stage': st, 'ops': ops, 'block': BLOCK}

    # what is done is not looked at here
    helper = c17.C17()

    def one(self, ctx, c, k, op, stage, total):
        e = op['eng']
        cfg = stage.cfg(e)
        eng = stage.engines[e]
        data = dict(op['data'], rows=[(r + 7919 * c) % 10**6
                                      for r in op['data']['rows']])
        args, kw, t = bench.fit_args(cfg, data)
        # ever new values, also where rows give round ones
        args[1] = args[1] + 1e-3 * c
        args[4] = args[4] + 1e-6 * c
        args[5] = args[5] + 1e-6 * c
        # another place, another kind of mistake in every cycle
        op = dict(op, at=round((op['at'] + 0.6180339887 * c) % 1., 6),
                  arg=1 + (op['arg'] + c) % 7)
        if c == 0:
            ctx.sim_time += world.span_seconds(t) * self.cycles
        return getattr(self, 'op_' + op['op'])(k, op, cfg, eng, args, kw,
                                               total)

    def op_use(self, k, op, cfg, eng, args, kw, total):
        eng.fit(*args, **kw)
        for m in op['modes']:
            bench.run_and_publish(eng, m)

    def op_fit(self, k, op, cfg, eng, args, kw, total):
        eng.fit(*args, **kw)

    def op_fresh(self, k, op, cfg, eng, args, kw, total):
        new = world.make_engine(cfg)
        new.fit(*args, **kw)
        bench.run_mode(new, op['modes'][0])

    def op_mix(self, k, op, cfg, eng, args, kw, total):
        """A new engine around lasting parts and new ones."""
        keep = int(op['at'] * 7) + 1          # which parts last
        new = world.make_engine(
            cfg, eng.pvarray if keep & 1 else None,
            eng.irradiance if keep & 2 else None,
            eng.vf_calculator if keep & 4 else None)
        new.fit(*args, **kw)
        bench.run_mode(new, op['modes'][0])

    def op_helpers(self, k, op, cfg, eng, args, kw, total):
        """Functions of the package that users call on their own."""
        from pvfactors.irradiance import utils
        self.helper.op_helpers(Ctx(), k, dict(op, only=op['arg'] % 6), cfg,
                               eng, args, kw, total)
        x = float(args[1][0])
        for model in ('uniform_disk', 'gaussian'):
            for i in range(5):
                utils.calculate_circumsolar_shading((x + 17. * i) % 100.,
                                                    model)
        utils.calculate_horizon_band_shading(args[4] % 9., 6.5)
        utils.perez_diffuse_luminance(args[0], args[5], args[6], args[3],
                                      args[4], args[1], args[2])

    def op_look(self, k, op, cfg, eng, args, kw, total):
        eng.fit(*args, **kw)
        bench.run_mode(eng, op['modes'][0])
        look = c17.Looker(self, Ctx(), k, eng.pvarray, '')
        for q in op['looks']:
            look.look(q)

    def op_plot(self, k, op, cfg, eng, args, kw, total):
        from matplotlib.figure import Figure
        eng.fit(*args, **kw)
        eng.pvarray.plot_at_idx(0, Figure(figsize=(1, 1)).add_subplot(111))

    def op_clone(self, k, op, cfg, eng, args, kw, total):
        new = copy.deepcopy(eng)
        new.fit(*args, **kw)
        bench.run_mode(new, op['modes'][0])

    def op_functional(self, k, op, cfg, eng, args, kw, total):
        return self.helper.op_functional(Ctx(), k, op, cfg, eng, args, kw,
                                         total)

    def op_parallel(self, k, op, cfg, eng, args, kw, total):
        r = self.helper.op_parallel(Ctx(), k, op, cfg, eng, args, kw, total)
        del seams.OBS[:]
        return r if op['trouble'] is None else None

    def op_merge(self, k, op, cfg, eng, args, kw, total):
        if cfg['n_pvrows'] > 1:
            return self.helper.op_merge(Ctx(), k, op, cfg, eng, args, kw,
                                        total)

    def op_edit(self, k, op, cfg, eng, args, kw, total):
        return self.helper.op_edit(Ctx(), k, op, cfg, eng, args, kw, total)

    def op_user(self, k, op, cfg, eng, args, kw, total):
        self.helper.op_user(Ctx(), k, op, cfg, eng, args, kw, total)

    def op_args(self, k, op, cfg, eng, args, kw, total):
        self.helper.op_args(Ctx(), k, op, cfg, eng, args, kw, total)

    def op_cut(self, k, op, cfg, eng, args, kw, total):
        trap = seams.trap_at(total, op['fault'], op['at'], op['even'],
                             MemoryError)
        try:
            if op['in'] == 'run':
                eng.fit(*args, **kw)
            with trap:
                if op['in'] == 'fit':
                    eng.fit(*args, **kw)
                else:
                    bench.run_mode(eng, op['modes'][0])
        except MemoryError:
            pass

    # -- measurements

    @staticmethod
    def children():
        with open('/proc/self/task/%d/children' % os.getpid()) as f:
            return len(f.read().split())

    def measure(self):
        del seams.OBS[:]
        gc.collect()
        plt = sys.modules.get('matplotlib.pyplot')
        snap = tracemalloc.take_snapshot()
        own = sum(t.size for t in snap.traces
                  if seams.SUT_DIR in t.traceback[0].filename)
        del snap
        m = [own, tracemalloc.get_traced_memory()[0],
             len(gc.get_objects()), len(os.listdir('/proc/self/fd')), threading.active_count(),
              self.children(), 0 if plt is None else len(plt.get_fignums())]
        return m

    WHAT = ('memory', 'memory', 'objects', 'open files', 'threads',
            'processes', 'figures')
    # per cycle
    LEAST = (OWN, None, 0.5, 0.1, 0.1, 0.1, 0.1)

    def block(self, ctx, sc, c0, n, stage, lines):
        for c in range(c0, c0 + n):
            for k, op in enumerate(sc['ops']):
                r = attempt(self.one, ctx, c, k, op, stage, lines.get(k))
                if isinstance(r, SutError):
                    ctx.count('probe:%s raised' % op['op'])
                r = None
        return [c0 + n] + self.measure()

    def growing(self, hist, least):
        """What grew, in all and in the later half? (Lists grow in
        jumps, so not in every block.)"""
        a, b, c = hist[0], hist[len(hist) // 2], hist[-1]
        for j, what in enumerate(self.WHAT):
            rate = least if self.LEAST[j] is None else self.LEAST[j]
            if all((c[1 + j] - x[1 + j]) >= rate * (c[0] - x[0])
                   for x in (a, b)):
                return what, [c[1 + j] - x[1 + j] for x in (a, b)]
        return None

    def execute(self, sc, ctx):
        st = sc['stage']
        self.cycles = WARM + 3 * sc['block']
        lines = {}
        for k, op in enumerate(sc['ops']):
            if op['op'] == 'cut':
                lines[k] = pristine(c05.measure, bench.stage_cfg(
                    st, op['eng']), op['data'], op['in'], op['modes'][0])
                if isinstance(lines[k], Failed):
                    ctx.violate('fresh objects raised', str(lines[k]))
        stage = bench.Stage(st)
        for op in sc['ops']:
            ctx.count('op:%s in every cycle' % op['op'])
            ctx.log(op['op'], op['eng'], len(op['data']['rows']))
        tracemalloc.start(1)
        m = self.block(ctx, sc, 0, WARM, stage, lines)
        hist = [m]
        for _ in range(3):
            hist.append(self.block(ctx, sc, hist[-1][0], sc['block'], stage,
                                   lines))
        g = self.growing(hist, ALL[0])
        if g is not None:
            ctx.count('probe:looked at for longer')
            # caches may fill up; growth that never ends is a violation
            for n in PATIENCE:
                hist.append(self.block(ctx, sc, hist[-1][0], n, stage,
                                       lines))
                g = self.growing(hist[-3:], ALL[1])
                if g is None:
                    break
        if g is not None:
            ctx.violate('%s grows' % g[0], 'by %s in the last of %d cycles'
                        % (g[1], hist[-1][0]))
        ctx.count('op:cycle', hist[-1][0])
        self.hist = hist

    def nontrivial(self, out):
        return out['counts'].get('op:cycle', 0) > 100

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            yield c
        for i, op in enumerate(sc['ops']):
            if op['op'] not in ('use', 'fit'):
                yield dict(sc, ops=sc['ops'][:i] + [dict(op, op='use')]
                           + sc['ops'][i + 1:])


PROPERTY = C16()
