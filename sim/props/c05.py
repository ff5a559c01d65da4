"""Recovery after interrupted fits and runs."""
from sim import bench, seams, users, world
from sim.core import Failed, pristine
from sim.prop import Property, SutError, attempt, where

KINDS = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
         'OSError': OSError}


def measure(cfg, data, what, mode):
    """Lines of the code under test that an operation executes."""
    eng = world.make_engine(cfg)
    args, kw, _ = bench.fit_args(cfg, data)
    if what == 'fit':
        return seams.count_lines(lambda: eng.fit(*args, **kw))
    eng.fit(*args, **kw)
    return seams.count_lines(lambda: bench.run_mode(eng, mode))


class C05(Property):
    ID = 'C05'
    TITLE = 'An interrupted fit or run leaves nothing that spoils the next'
    RUNS = {'quick': 800, 'thorough': 16000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one history with fits or runs cut short at ' \
        'chosen executed lines, reflection-function calls, report calls or ' \
        'by unusable arguments, each followed by a recovery that is ' \
        'compared with fresh objects in a pristine process.'
    STUBS = ['the exceptions are raised by the simulator (line trace hook, '
             'user functions)']
    ASSUMPTIONS = ['an exception can appear at any line of the code under '
                   'test (failed allocation, interrupt)',
                   'freshly built objects are the reference']

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng, shared=rng.chance(0.5), kept=True)
        if rng.chance(0.4):
            # reflection functions are where state is kept
            for c in st['calcs'][:1]:
                c['vf_params'] = {'faoi_fn_front': 'soft',
                                  'faoi_fn_back': 'hard',
                                  'n_aoi_integral_sections': 20}
        ops = []
        for _ in range(rng.randint(1, 3)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            kept = bench.kept_mode(st, e)

            def data():
                prev = [o[x] for o in ops for x in ('data', 'data2')
                        if x in o]
                return bench.gen_data(rng, 5, prev=prev)
            if rng.chance(0.4):
                ops.append({'op': 'use', 'eng': e, 'data': data(),
                            'modes': [bench.gen_mode(rng, cfg,
                                                     kept=kept)]})
            op = {'op': 'broken', 'eng': e, 'data': data(),
                  'modes': [bench.gen_mode(rng, cfg, kept=kept)],
                  'cut': rng.weighted([('fit', 4), ('run', 6)]),
                  'fault': rng.weighted([('line', 5), ('alloc', 2),
                                         ('faoi', 1.5),
                                         ('report', 1), ('args', 1)]),
                  'at': round(rng.random(), 6), 'even': rng.choice(seams.PLACES),
                  'exc': rng.choice(sorted(KINDS))}
            if op['fault'] == 'args':
                op['cut'] = 'fit'
                op['how'] = rng.choice(['short', 'none', 'text', 'empty'])
                op['arg'] = rng.randint(1, 7)
            if op['fault'] == 'report':
                op['cut'] = 'run'
            # how to go on
            if op['cut'] == 'run' and rng.chance(0.6):
                op['then'] = 'run'
                op['modes2'] = [op['modes'][0] if rng.chance(0.5)
                                else bench.gen_mode(rng, cfg, kept=kept)]
            else:
                op['then'] = 'fit'
                op['modes2'] = [bench.gen_mode(rng, cfg, kept=kept)]
                op['data2'] = op['data'] if rng.chance(0.4) \
                    else bench.relate(rng, op['data'], 5) \
                    if rng.chance(0.4) else data()
            ops.append(op)
        return {'stage': st, 'ops': ops}

    def execute(self, sc, ctx):
        st = sc['stage']
        refs = bench.References(ctx)
        lines = {}
        for k, op in enumerate(sc['ops']):
            cfg = bench.stage_cfg(st, op['eng'])
            if op['op'] == 'use':
                refs.get(cfg, op['data'], op['modes'][0])
                continue
            if op['fault'] in ('line', 'alloc'):
                lines[k] = pristine(measure, cfg, op['data'], op['cut'],
                                    op['modes'][0])
            refs.get(cfg, op['data'] if op['then'] == 'run'
                     else op['data2'], op['modes2'][0])
        stage = bench.Stage(st)
        held = {}
        for k, op in enumerate(sc['ops']):
            e = op['eng']
            cfg = stage.cfg(e)
            eng = stage.engines[e]
            args, kw, t = bench.fit_args(cfg, op['data'], held)
            ctx.sim_time += world.span_seconds(t)
            if op['op'] == 'use':
                ctx.log('use', e)
                attempt(eng.fit, *args, **kw)
                self.good(ctx, k, eng, op['modes'][0],
                          refs.get(cfg, op['data'], op['modes'][0]), st, e)
                continue
            r = self.broken(ctx, sc, k, op, eng, args, kw, lines.get(k))
            if r == 'stop':
                return
            # recovery
            if op['then'] == 'fit' or r == 'fit failed':
                data = op.get('data2', op['data'])
                a2, k2, t2 = bench.fit_args(cfg, data, held)
                ctx.sim_time += world.span_seconds(t2)
                got = attempt(eng.fit, *a2, **k2)
                if isinstance(got, SutError):
                    ctx.violate('later fit raised', 'operation %d: %s at %s'
                                % (k, got, where(got.exc)))
            else:
                data = op['data']
            ctx.count('op:recovery by %s' % op['then'])
            self.good(ctx, k, eng, op['modes2'][0],
                      refs.get(cfg, data, op['modes2'][0]), st, e)

    def broken(self, ctx, sc, k, op, eng, args, kw, total):
        """The operation that is cut short."""
        mode = op['modes'][0]
        fault = op['fault']
        if op['cut'] == 'run' or fault == 'faoi':
            if not (fault == 'faoi' and op['cut'] == 'fit'):
                r = attempt(eng.fit, *args, **kw)
                if isinstance(r, SutError):
                    ctx.violate('fit raised', 'operation %d: %s at %s' % (
                        k, r, where(r.exc)))

        def act():
            if op['cut'] == 'fit':
                eng.fit(*args, **kw)
            else:
                bench.run_mode(eng, mode, report)

        def report(pvarray):
            if fault == 'report':
                fired.append('report')
                raise users.UserError('report')
        fired = []
        how = 'completed'
        try:
            if fault in ('line', 'alloc'):
                if isinstance(total, Failed):
                    ctx.violate('fresh objects raised', str(total))
                trap = seams.trap_at(
                    total, fault, op['at'], op['even'],
                    MemoryError if fault == 'alloc' else KINDS[op['exc']])
                try:
                    with trap:
                        act()
                finally:
                    if trap.fired:
                        fired.append(op['exc'])
                        ctx.log('cut', k, op['cut'], trap.where)
                        ctx.count('fault:%s in %s' % (
                            'failing numpy call' if fault == 'alloc'
                            else op['exc'], op['cut']))
                        ctx.count('probe:in %s' % trap.where.split(':')[0])
            elif fault == 'faoi':
                world.TRAP['left'] = int(op['at'] * 12)
                world.TRAP['fired'] = False
                try:
                    act()
                finally:
                    world.TRAP['left'] = None
                    if world.TRAP['fired']:
                        fired.append('faoi')
                        ctx.count('fault:reflection function raised')
            elif fault == 'args':
                act = None
                bad = list(args)
                j = op['arg'] % len(bad)
                bad[j] = {'short': bad[j][:-1] if hasattr(bad[j], '__len__')
                          else None, 'none': None, 'text': 'abc',
                          'empty': args[1][:0] if hasattr(
                              args[1], '__len__') else []}[op['how']]
                ctx.count('fault:unusable arguments')
                fired.append('args')
                eng.fit(*bad, **kw)
            else:
                ctx.count('fault:report function raised')
                act()
        except BaseException as e:  # noqa
            how = type(e).__name__
            if not fired:
                ctx.violate('raised without a fault', 'operation %d: %s: %s '
                            'at %s' % (k, how, e, where(e)))
        ctx.log('broken', op['cut'], fault, how, bool(fired))
        # whatever became of it, a fit with unusable arguments does not
        # count as one
        return 'fit failed' if op['cut'] == 'fit' else 'run'

    def good(self, ctx, k, eng, mode, ref, st, e):
        if isinstance(ref, Failed):
            ctx.violate('fresh objects raised', '%s\n%s' % (ref, ref.tb))
        pub = attempt(bench.run_and_publish, eng, mode,
                      bench.by_default(st, e, mode, 'kept'))
        ctx.log('run', 'full' if mode is None else 'fast')
        ctx.count('op:%s run' % ('full' if mode is None else 'fast'))
        if isinstance(pub, SutError):
            ctx.violate('later run raised', 'operation %d: %s at %s' % (
                k, pub, where(pub.exc)))
        d = world.difference(pub, ref)
        ctx.check(d is None, 'differs from fresh objects after recovery',
                  'operation %d (%s): %s' % (
                      k, 'full' if mode is None else mode, d))

    def nontrivial(self, out):
        return any(k.startswith('fault:') for k in out['counts'])

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            if all(bench.fits_cfg(m, bench.stage_cfg(c['stage'], op['eng']))
                   for op in c['ops'] for m in op.get('modes2', ())):
                yield c
        for i, op in enumerate(sc['ops']):
            if op.get('at', 0) > 0.01:
                for at in (0., round(op['at'] / 2, 6)):
                    yield dict(sc, ops=sc['ops'][:i] + [dict(op, at=at)]
                               + sc['ops'][i + 1:])


PROPERTY = C05()
