"""Copies and checkpoints of engines go on as the originals would."""
import copy
import pickle

from sim import bench, remote, seams, world
from sim.core import Failed, pristine
from sim.prop import Property, SutError, attempt, where
from sim.props import c05

HOW = ('deepcopy', 'pickle', 'parts', 'report', 'one')


class Clone(object):
    """One set of engines and what is known about each."""

    def __init__(self, engines, states):
        self.engines = engines
        self.states = states      # per engine: [phase, data, mode, shown]
        self.saved = None         # last checkpoint: (blob, states)

    def forget(self, st, e):
        """Engines sharing something with e have to be fitted again."""
        for i, other in enumerate(st['engines']):
            if any(a == b for a, b in zip(other, st['engines'][e])):
                self.states[i] = ['new', None, None, None]


class C15(Property):
    ID = 'C15'
    TITLE = 'Copies and pickled checkpoints go on as the originals would'
    RUNS = {'quick': 900, 'thorough': 10000}
    WALL = {'quick': 240., 'thorough': 3000.}
    TIMEOUT = 120.
    RULE = 'One evaluation is one history in which sets of engines are ' \
        'fitted, run, cut short, copied, saved, lost, restored and moved ' \
        'to other processes; every run anywhere is compared with fresh ' \
        'objects, and what each copy shows is compared with the original ' \
        'and watched while the others go on.'
    STUBS = ['the crash: all objects are dropped, only the pickle stays']
    ASSUMPTIONS = ['pickles are restored by the same version of the code',
                   'values are compared with rtol 1e-7, atol 1e-6']

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng, shared=rng.chance(0.6), kept=True)
        ops = []
        for k in range(rng.randint(3, 8)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            op = {'op': rng.weighted([
                ('use', 4), ('fit', 1.5), ('run', 2), ('clone', 4),
                ('save', 1.5), ('crash', 1.5), ('away', 1), ('cut', 0.7),
                ('new process', 0.15)]),
                'eng': e, 'who': rng.randrange(6)}
            if k == 1:
                op['op'] = rng.choice(['clone', 'save', 'clone'])
            prev = [o['data'] for o in ops if 'data' in o]
            if op['op'] in ('use', 'fit', 'cut', 'away', 'new process'):
                op['data'] = bench.gen_data(rng, 5, prev=prev)
                op['data']['inplace'] = False
            if op['op'] in ('use', 'run', 'away', 'new process', 'cut'):
                op['modes'] = [bench.gen_mode(rng, cfg, kept=bench.kept_mode(
                    st, e))]
            if op['op'] == 'use' and rng.chance(0.25):
                op['inside'] = True      # copied by the report function
            if op['op'] == 'clone':
                op['how'] = rng.choice(HOW[:3] + HOW[4:])
            if op['op'] == 'cut':
                op.update({'in': rng.choice(['fit', 'run']),
                           'fault': rng.choice(['line', 'alloc']),
                           'even': rng.choice(seams.PLACES),
                           'at': round(rng.random(), 6)})
            if op['op'] in ('clone', 'save', 'away', 'new process'):
                op['protocol'] = rng.choice([2, 3, 4, 5])
            if op['op'] in ('away', 'new process'):
                op['back'] = rng.chance(0.6)
                op['fit'] = rng.chance(0.5)
                op['hashseed'] = rng.randint(1, 10**6)
            ops.append(op)
        if rng.chance(0.5):
            self.parting(rng, st, ops)
        return {'stage': st, 'ops': ops}

    def parting(self, rng, st, ops):
        """Begin with a copy of something in use, after which both sides
        go on with the same engine, one of them with other data."""
        e = rng.randrange(len(st['engines']))
        cfg = bench.stage_cfg(st, e)
        gen_mode = lambda: [bench.gen_mode(rng, cfg, kept=bench.kept_mode(
            st, e))]
        first = bench.gen_data(rng, 5)
        other = bench.gen_data(rng, 5, prev=[first])
        for d in first, other:
            d['inplace'] = False
        a, b = rng.choice([(0, 1), (1, 0)])
        begin = [
            {'op': rng.choice(['use', 'fit']), 'eng': e, 'who': 0,
             'data': first, 'modes': gen_mode()},
            {'op': 'clone', 'eng': e, 'who': 0,
             'how': rng.choice(['deepcopy', 'pickle', 'one']),
             'protocol': rng.choice([2, 3, 4, 5])},
            {'op': rng.choice(['use', 'fit']), 'eng': e, 'who': a,
             'data': other, 'modes': gen_mode()},
            {'op': 'run', 'eng': e, 'who': b, 'modes': gen_mode()},
            {'op': 'run', 'eng': e, 'who': a, 'modes': gen_mode()}]
        # 'who' counts among the copies there are at that moment
        ops[:] = begin + ops[:rng.randint(0, 4)]

    # -- what is known

    def show(self, eng, mode):
        return bench.published(eng.pvarray, mode)

    def watch(self, ctx, k, what):
        """What every copy shows is what it showed after its last run."""
        for n, c in enumerate(self.clones):
            for e, (phase, data, mode, shown) in enumerate(c.states):
                if phase == 'run' and c.engines[e] is not None:
                    d = world.difference(self.show(c.engines[e], mode),
                                         shown, 0., 0.)
                    ctx.check(d is None, 'another copy changed',
                              'copy %d engine %d during operation %d (%s): '
                              '%s' % (n, e, k, what, d))
                    ctx.count('op:copy looked at')

    def taken(self, ctx, k, what, fn, *a):
        r = attempt(fn, *a)
        if isinstance(r, SutError):
            ctx.violate('%s raised' % what, 'operation %d: %s at %s' % (
                k, r, where(r.exc)))
        return r

    def same(self, ctx, k, what, engines, states):
        """A copy shows what the original showed (its memory may be laid
        out in another way). Returns the states of the copy."""
        new = []
        for e, (phase, data, mode, shown) in enumerate(states):
            if phase == 'run' and engines[e] is not None:
                got = attempt(self.show, engines[e], mode)
                if isinstance(got, SutError):
                    ctx.violate('looking at a copy raised',
                                'operation %d (%s): %s' % (k, what, got))
                d = world.difference(got, shown, 1e-9, 1e-9)
                ctx.check(d is None, 'copy differs from the original',
                          'operation %d (%s), engine %d: %s' % (
                              k, what, e, d))
                shown = got
            new.append([phase, data, mode, shown])
        return new

    def good(self, ctx, k, c, e, data, mode, pub):
        ref = self.refs.get(self.cfgs[e], data, mode)
        if isinstance(ref, Failed):
            ctx.violate('fresh objects raised', '%s\n%s' % (ref, ref.tb))
        if isinstance(pub, SutError):
            ctx.violate('run raised', 'operation %d: %s at %s' % (
                k, pub, where(pub.exc)))
        d = world.difference(pub, ref)
        ctx.check(d is None, 'differs from fresh objects',
                  'operation %d (%s): %s' % (
                      k, 'full' if mode is None else mode, d))

    # -- planning: what will be compared is computed before the history

    def plan(self, sc):
        """References needed, by following the phases only."""
        st = sc['stage']
        need, lines = [], {}
        n = len(st['engines'])
        clones = [[[None] * n, None, [True] * n]]

        def forget(c, e):
            for i, o in enumerate(st['engines']):
                if any(a == b for a, b in zip(o, st['engines'][e])):
                    c[0][i] = None
        for k, op in enumerate(sc['ops']):
            c = clones[op['who'] % len(clones)]
            e = op['eng']
            if not c[2][e]:
                continue
            if op['op'] in ('use', 'fit'):
                forget(c, e)
                c[0][e] = op['data']
                if op['op'] == 'use':
                    need.append((e, op['data'], op['modes'][0]))
                    if op.get('inside'):
                        clones.append([list(c[0]), None, list(c[2])])
            elif op['op'] == 'run' and c[0][e] is not None:
                need.append((e, c[0][e], op['modes'][0]))
            elif op['op'] == 'clone':
                s = list(c[0])
                has = list(c[2])
                if op['how'] == 'parts':
                    s = [None] * n
                    has = [i == e for i in range(n)]
                elif op['how'] == 'one':
                    s = [x if i == e else None for i, x in enumerate(s)]
                    has = [i == e for i in range(n)]
                clones.append([s, None, has])
            elif op['op'] == 'save':
                c[1] = list(c[0]), list(c[2])
            elif op['op'] == 'crash' and c[1] is not None:
                c[0], c[2] = list(c[1][0]), list(c[1][1])
            elif op['op'] == 'cut':
                forget(c, e)
                lines[k] = True
            elif op['op'] in ('away', 'new process'):
                fit = op['fit'] or c[0][e] is None
                data = op['data'] if fit else c[0][e]
                need.append((e, data, op['modes'][0]))
                if op['back']:
                    new = [list(c[0]), None, list(c[2])]
                    if fit:
                        forget(new, e)
                        new[0][e] = data
                    clones.append(new)
        return need, lines

    def execute(self, sc, ctx):
        st = sc['stage']
        self.cfgs = [bench.stage_cfg(st, e)
                     for e in range(len(st['engines']))]
        self.refs = bench.References(ctx)
        need, lines = self.plan(sc)
        for e, data, mode in need:
            self.refs.get(self.cfgs[e], data, mode)
        for k in lines:
            op = sc['ops'][k]
            lines[k] = pristine(c05.measure, self.cfgs[op['eng']],
                                op['data'], op['in'], op['modes'][0])
        self.far = remote.Elsewhere() if any(
            op['op'] == 'away' for op in sc['ops']) else None
        stage = bench.Stage(st)
        n = len(st['engines'])
        self.clones = [Clone(stage.engines,
                             [['new', None, None, None] for _ in range(n)])]
        try:
            for k, op in enumerate(sc['ops']):
                c = self.clones[op['who'] % len(self.clones)]
                if c.engines[op['eng']] is None:
                    continue
                ctx.log(op['op'], op['eng'], op['who'] % len(self.clones),
                        op.get('how'), c.states[op['eng']][0])
                ctx.count('op:%s' % op['op'])
                getattr(self, 'op_' + op['op'].replace(' ', '_'))(
                    ctx, k, op, c, op['eng'], st, lines.get(k))
                self.watch(ctx, k, op['op'])
        finally:
            if self.far is not None:
                self.far.close()

    # -- operations

    def fit(self, ctx, k, c, e, data, st):
        args, kw, t = bench.fit_args(self.cfgs[e], data)
        ctx.sim_time += world.span_seconds(t)
        c.forget(st, e)
        r = attempt(c.engines[e].fit, *args, **kw)
        if isinstance(r, SutError):
            ctx.violate('fit raised', 'operation %d: %s at %s' % (
                k, r, where(r.exc)))
        c.states[e] = ['fit', data, None, None]

    def run(self, ctx, k, c, e, mode):
        eng = c.engines[e]
        data = c.states[e][1]
        pub = attempt(bench.run_and_publish, eng, mode)
        self.good(ctx, k, c, e, data, mode, pub)
        c.states[e] = ['run', data, mode, self.show(eng, mode)]

    def op_fit(self, ctx, k, op, c, e, st, total):
        self.fit(ctx, k, c, e, op['data'], st)

    def op_use(self, ctx, k, op, c, e, st, total):
        self.fit(ctx, k, c, e, op['data'], st)
        mode = op['modes'][0]
        if not op.get('inside'):
            self.run(ctx, k, c, e, mode)
            return
        box = []
        got = attempt(bench.run_mode, c.engines[e], mode,
                      lambda p: box.append(copy.deepcopy(c.engines)))
        if isinstance(got, SutError):
            ctx.violate('copying in the report function raised',
                        'operation %d: %s at %s' % (k, got,
                                                    where(got.exc)))
        c.states[e] = ['run', op['data'], mode,
                       self.show(c.engines[e], mode)]
        self.clones.append(Clone(box[0], self.same(
            ctx, k, 'in the report function', box[0], c.states)))

    def op_run(self, ctx, k, op, c, e, st, total):
        if c.states[e][0] in ('fit', 'run'):
            self.run(ctx, k, c, e, op['modes'][0])

    def op_clone(self, ctx, k, op, c, e, st, total):
        how = op['how']
        states = [list(s) for s in c.states]
        if how == 'parts':
            # the parts on their own, put into a new engine
            eng = c.engines[e]
            a, m, v = self.taken(
                ctx, k, 'copying', copy.deepcopy,
                (eng.pvarray, eng.irradiance, eng.vf_calculator)) \
                if op['protocol'] % 2 else self.taken(
                    ctx, k, 'pickling', lambda: pickle.loads(pickle.dumps(
                        (eng.pvarray, eng.irradiance, eng.vf_calculator),
                        op['protocol'])))
            new = world.make_engine(self.cfgs[e], a, m, v,
                                    *(bench.kept_mode(st, e)
                                      or (None, None)))
            engines = [None] * len(c.engines)
            engines[e] = new
            self.same(ctx, k, how, engines, states)
            # the array shows its results, the engine is a new one
            states = [['new', None, None, None] for _ in states]
        elif how == 'one':
            engines = [None] * len(c.engines)
            engines[e] = self.taken(ctx, k, 'copying', copy.deepcopy,
                                    c.engines[e])
            states = [s if i == e else ['new', None, None, None]
                      for i, s in enumerate(states)]
        elif how == 'deepcopy':
            engines = self.taken(ctx, k, 'copying', copy.deepcopy,
                                 c.engines)
        else:
            engines = self.taken(
                ctx, k, 'pickling', lambda: pickle.loads(pickle.dumps(
                    c.engines, op['protocol'])))
        self.clones.append(Clone(engines, self.same(
            ctx, k, how, engines, states)))

    def op_save(self, ctx, k, op, c, e, st, total):
        c.saved = (self.taken(ctx, k, 'pickling', pickle.dumps, c.engines,
                              op['protocol']),
                   [list(s) for s in c.states])

    def op_crash(self, ctx, k, op, c, e, st, total):
        if c.saved is None:
            return
        ctx.count('fault:lost everything but the checkpoint')
        blob, states = c.saved
        c.engines = self.taken(ctx, k, 'restoring', pickle.loads, blob)
        c.states = self.same(ctx, k, 'restored', c.engines, states)

    def op_away(self, ctx, k, op, c, e, st, total, ask=None):
        blob = self.taken(ctx, k, 'pickling', pickle.dumps, c.engines,
                          op['protocol'])
        mode = op['modes'][0]
        phase, data = c.states[e][:2]
        fit = op['fit'] or phase == 'new'
        if fit:
            data = op['data']
        acts = [['publish', i, None, s[2]]
                for i, s in enumerate(c.states)
                if s[0] == 'run' and c.engines[i] is not None]
        shown = [s[3] for i, s in enumerate(c.states)
                 if s[0] == 'run' and c.engines[i] is not None]
        acts.append(['use' if fit else 'run', e, data, mode])
        ok, got = (ask or self.far.ask)({
            'blob': blob, 'acts': acts, 'cfgs': self.cfgs,
            'back': op['back'], 'protocol': op['protocol']})
        if not ok:
            ctx.violate('failed in another process', 'operation %d: %s' % (
                k, got))
        pubs, back = got
        for p, s in zip(pubs, shown):
            d = world.difference(p, s, 1e-9, 1e-9)
            ctx.check(d is None, 'copy differs in another process',
                      'operation %d: %s' % (k, d))
        self.good(ctx, k, c, e, data, mode, pubs[-1])
        if back is not None:
            engines = self.taken(ctx, k, 'restoring', pickle.loads, back)
            new = Clone(engines, [list(s) for s in c.states])
            if fit:
                new.forget(st, e)
            # a run on what is shared replaces what others showed
            for i, o in enumerate(st['engines']):
                if i != e and o[0] == st['engines'][e][0] \
                        and new.states[i][0] == 'run':
                    new.states[i] = ['new', None, None, None]
            new.states[e] = ['run', data, mode, {
                a: b for a, b in pubs[-1].items()
                if not a.startswith('report ')}]
            new.states = self.same(ctx, k, 'back from another process',
                                   engines, new.states)
            self.clones.append(new)

    def op_new_process(self, ctx, k, op, c, e, st, total):
        self.op_away(ctx, k, op, c, e, st, total,
                     lambda r: remote.ask_new_interpreter(
                         r, op['hashseed']))

    def op_cut(self, ctx, k, op, c, e, st, total):
        if isinstance(total, Failed):
            ctx.violate('fresh objects raised', str(total))
        c.forget(st, e)
        eng = c.engines[e]
        args, kw, t = bench.fit_args(self.cfgs[e], op['data'])
        trap = seams.trap_at(total, op['fault'], op['at'], op['even'],
                             MemoryError)
        try:
            if op['in'] == 'run':
                eng.fit(*args, **kw)
            with trap:
                if op['in'] == 'fit':
                    eng.fit(*args, **kw)
                else:
                    bench.run_mode(eng, op['modes'][0])
        except Exception as x:  # noqa
            if not trap.fired:
                ctx.violate('raised without a fault', 'operation %d: %s: %s '
                            'at %s' % (k, type(x).__name__, x, where(x)))
        if trap.fired:
            ctx.count('fault:MemoryError in %s' % op['in'])

    def nontrivial(self, out):
        return out['n_events'] > 2

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            yield c
        for i, op in enumerate(sc['ops']):
            for key, v in (('inside', False), ('back', False), ('who', 0)):
                if op.get(key):
                    yield dict(sc, ops=sc['ops'][:i] + [
                        dict(op, **{key: v})] + sc['ops'][i + 1:])
            if op['op'] == 'new process':
                yield dict(sc, ops=sc['ops'][:i] + [
                    dict(op, op='away')] + sc['ops'][i + 1:])


PROPERTY = C15()
