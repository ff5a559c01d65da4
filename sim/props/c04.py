"""Reused objects forget their past."""
from sim import bench, world
from sim.core import Failed
from sim.prop import Property, SutError, attempt, where


class C04(Property):
    ID = 'C04'
    TITLE = 'Reused engines, arrays, models and calculators forget their past'
    RUNS = {'quick': 1000, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one history of fits and runs (full, fast, ' \
        'repeated, alternating, different lengths) on engines sharing ' \
        'arrays, models and calculators; every run is compared with fresh ' \
        'objects in a pristine process.'
    ASSUMPTIONS = ['freshly built objects in a process with no history are '
                   'the reference',
                   'values are compared with rtol 1e-7, atol 1e-6']

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng, kept=True)
        ops = []
        for _ in range(rng.randint(2, 5)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            op = {'op': rng.weighted([('use', 6), ('fit', 1), ('cut', 1)]),
                  'eng': e, 'data': bench.gen_data(
                      rng, prev=[o['data'] for o in ops])}
            op['modes'] = [bench.gen_mode(
                rng, cfg, kept=bench.kept_mode(st, e)) for _ in range(
                    rng.weighted([(1, 4), (2, 2), (3, 1)]))]
            if rng.chance(0.15):
                op['modes'].append(op['modes'][0])
            ops.append(op)
        ops[-1]['op'] = 'use'
        if rng.chance(0.08):
            # a day, a month or a year at once
            k = rng.randrange(len(ops))
            at = world.gen_long(rng, max(
                (bench.stage_cfg(st, e) for e in range(len(st['engines']))),
                key=world.n_surfaces), ops[k]['data']['rows'],
                5e5 if any(c['vf_params'] for c in st['calcs']) else 1.2e6)
            for j, op in enumerate(ops):
                if j == k or rng.chance(0.3):
                    op['data'] = bench.stretched(op['data'], at)
        return {'stage': st, 'ops': ops,
                'default_mode': rng.weighted(
                    [('kept', 4), (True, 1), (False, 2)])}

    def execute(self, sc, ctx):
        st = sc['stage']
        refs = bench.References(ctx)
        for op in sc['ops']:
            if op['op'] == 'use':
                for m in op['modes']:
                    refs.get(bench.stage_cfg(st, op['eng']), op['data'], m)
        stage = bench.Stage(st)
        last, held = {}, {}
        for k, op in enumerate(sc['ops']):
            e = op['eng']
            cfg = stage.cfg(e)
            eng = stage.engines[e]
            n = len(op['data']['rows'])
            if last.get(e, n) != n:
                ctx.count('probe:other length than before')
            last[e] = n
            if n > 20:
                ctx.count('probe:long series')
            if op['data'].get('mix'):
                ctx.count('probe:series in part like an earlier one')
            if op['data'].get('inplace'):
                ctx.count('probe:inputs rewritten in place')
            args, kw, t = bench.fit_args(cfg, op['data'], held)
            ctx.sim_time += world.span_seconds(t)
            ctx.log('fit', e, op['op'], len(op['data']['rows']))
            r = attempt(eng.fit, *args, **kw)
            if isinstance(r, SutError):
                ctx.violate('fit raised', 'operation %d: %s at %s' % (
                    k, r, where(r.exc)))
            ctx.count('op:fit')
            if op['op'] == 'fit':
                continue
            if op['op'] == 'cut':
                # a run that fails for reasons of the caller
                n = len(eng.pvarray.ts_pvrows)
                attempt(eng.run_fast_mode, pvrow_index=n + 3)
                ctx.count('fault:run with an invalid row')
                continue
            for j, mode in enumerate(op['modes']):
                ref = refs.get(cfg, op['data'], mode)
                if isinstance(ref, Failed):
                    ctx.violate('fresh objects raised', '%s\n%s' % (
                        ref, ref.tb))
                pub = attempt(bench.run_and_publish, eng, mode,
                              bench.by_default(st, e, mode,
                                               sc['default_mode']))
                ctx.count('op:%s run' % ('full' if mode is None
                                         else 'fast'))
                ctx.log('run', e, 'full' if mode is None else 'fast', j)
                if isinstance(pub, SutError):
                    ctx.violate('run raised', 'operation %d run %d: %s at '
                                '%s' % (k, j, pub, where(pub.exc)))
                d = world.difference(pub, ref)
                ctx.check(d is None, 'differs from fresh objects',
                          'operation %d run %d (%s): %s' % (
                              k, j, 'full' if mode is None else mode, d))
        ctx.count('probe:array shared', int(self.shared(st, 0)))
        ctx.count('probe:model shared', int(self.shared(st, 1)))
        ctx.count('probe:calculator shared', int(self.shared(st, 2)))

    @staticmethod
    def shared(st, i):
        col = [e[i] for e in st['engines']]
        return len(set(col)) < len(col)

    def nontrivial(self, out):
        return out['n_events'] > 3

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            if c['ops'][-1]['op'] == 'use':
                yield c


PROPERTY = C04()
