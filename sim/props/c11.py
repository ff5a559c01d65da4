"""Each time step stands alone: batching, order, replay and restarts."""
import datetime

import numpy as np
import pandas as pd

from sim import bench, seams, users, world
from sim.core import Failed, list_shrinks, pristine
from sim.prop import Property, SutError, attempt, where
from sim.props import common

ZONES = (None, None, None, 'Europe/Berlin', 'UTC')
CONTAINERS = ('array', 'array', 'array', 'series_range', 'series_time',
              'mixed')


def inputs(cfg, feed, rows):
    """Columns of a batch of steps."""
    t = world.table(rows, cfg)
    if feed['clock'] == 'stuck':
        t['timestamps'] = [datetime.datetime(2019, 6, 1, 12)
                           for _ in rows]
    elif feed['clock'] == 'date':
        t['timestamps'] = [x.replace(hour=0, minute=0, second=0,
                                     microsecond=0)
                           for x in t['timestamps']]
    for i, n in enumerate(rows):
        for pos, col, val in feed['odd']:
            if n == pos:
                t[col][i] = val
    return t


def kwargs(cfg, feed, rows, container=None):
    t = inputs(cfg, feed, rows)
    kw = world.run_kwargs(t, cfg, {
        'container': container or feed['container'], 'ts': 'index',
        'tz': feed['tz'], 'albedo': feed['albedo'], 'ghi': feed['ghi']})
    return kw, t


def fit(eng, kw, scalar=False):
    names = ('timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth',
             'surface_tilt', 'surface_azimuth', 'albedo')
    args = [kw[n] for n in names]
    ghi = kw.get('ghi')
    if scalar:
        args = [np.asarray(a)[0] if not np.isscalar(a) else a for a in args]
        args[0] = kw['timestamps'][0]
        args[1:] = [float(a) for a in args[1:]]
        ghi = None if ghi is None else float(np.asarray(ghi)[0])
    eng.fit(*args, ghi=ghi)


def singles(cfg, feed, rows, modes, parts=False):
    """Every step computed alone by fresh objects."""
    out = {}
    for n in rows:
        if parts:
            out[n, 'parts'] = bench.Parts(cfg).go(
                kwargs(cfg, feed, [n], 'array')[0])
        for m in modes:
            eng = world.make_engine(cfg)
            fit(eng, kwargs(cfg, feed, [n], 'array')[0])
            out[n, repr(m)] = bench.run_and_publish(eng, m)
    return out


def measure(cfg, feed, rows, mode):
    eng = world.make_engine(cfg)
    kw = kwargs(cfg, feed, rows)[0]

    def go():
        fit(eng, kw)
        bench.run_mode(eng, mode)
    return seams.count_lines(go)


class C11(Property):
    ID = 'C11'
    TITLE = 'Each time step stands alone: batching, order, replay and ' \
        'restarts are free'
    RUNS = {'quick': 700, 'thorough': 16000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one series delivered over a simulated link ' \
        'that loses, repeats, delays and reorders steps to consumers that ' \
        'crash and restart; every batch processed is compared, step by ' \
        'step, with each step computed alone by fresh objects.'
    STUBS = ['the delivery link', 'process pool (multiprocessing replaced '
             'by the simulator)', 'crashes (line trap hook)']
    ASSUMPTIONS = ['a crash loses all objects; results stored before '
                   'it survive', 'tolerance 1e-7 relative plus 1e-6']

    # ------------------------------------------------------------ scenario

    def generate(self, rng, i, tier):
        cfg = world.gen_config(rng)
        n = rng.weighted([(2, 2), (rng.randint(3, 6), 4),
                          (rng.randint(7, 12), 2)])
        rows = world.gen_rows(rng, n)
        feed = {'clock': rng.weighted([('true', 6), ('stuck', 1),
                                       ('date', 1)]),
                'tz': rng.choice(ZONES), 'ghi': rng.chance(0.3),
                'albedo': round(rng.uniform(0.05, 0.6), 3)
                if rng.chance(0.2) else None,
                'container': rng.choice(CONTAINERS), 'odd': []}
        if rng.chance(0.4):
            # edges of the rules that steps are treated by
            for _ in range(rng.randint(1, 3)):
                feed['odd'].append([rng.choice(rows)] + rng.choice([
                    ['solar_zenith', 90.], ['solar_zenith', 89.999],
                    ['solar_zenith', 90.001], ['solar_zenith', 0.],
                    ['dni', 0.], ['dhi', 0.], ['surface_tilt', 0.],
                    ['surface_tilt', 90.], ['dni', -1.], ['dhi', -1.],
                    ['solar_zenith', 120.], ['albedo', 0.001],
                    ['albedo', 1.], ['dni', 1400.]]))
        modes = [bench.gen_mode(rng, cfg, 0.7)]
        if rng.chance(0.3):
            modes.append(bench.gen_mode(rng, cfg, 0.4))
        sc = {'cfg': cfg, 'rows': rows, 'feed': feed, 'modes': modes,
              'events': self.deliver(rng, n, len(modes)),
              'twice': rng.chance(0.2)}
        if rng.chance(0.1):
            # the link delivers what it kept of a day, a month or a year
            budget = 1e6 if cfg['vf_params'] else 2.5e6
            sc['events'].insert(rng.randint(0, len(sc['events'])), {
                'batch': world.gen_long(rng, cfg, rows, budget),
                'lost': 0, 'fate': 'ok', 'at': 0.37,
                'consumer': rng.weighted([('same', 3), ('new', 1)]),
                'api': rng.weighted([('engine', 6), ('functional', 1),
                                     ('parallel', 1), ('parts', 1)]),
                'mode': rng.randrange(len(modes)), 'scalar': False,
                'ways': rng.randint(1, 5), 'even': False})
        return sc

    def deliver(self, rng, n, n_modes):
        """Play the link: which steps arrive together, in which order."""
        style = rng.weighted([('stream', 3), ('rough', 4), ('one', 1)])
        loss, dup = (0., 0.) if style == 'stream' else \
            (rng.uniform(0., 0.4), rng.uniform(0., 0.4))
        waiting = list(range(n))
        if style == 'one':
            rng.shuffle(waiting)
        events = []
        done = set()
        while waiting and len(events) < 12:
            size = len(waiting) if style == 'one' else rng.weighted(
                [(1, 2), (rng.randint(1, 3), 4), (rng.randint(2, 8), 2)])
            got, late = [], []
            take = waiting[:size]
            waiting = waiting[size:]
            lost = 0
            for p in take:
                if rng.random() < loss and len(events) < 8:
                    late.append(p)       # lost: sent again later
                    lost += 1
                    continue
                got.append(p)
                if rng.random() < dup:
                    got.append(p)
            if done and rng.random() < dup:
                got.append(rng.choice(sorted(done)))
            if style != 'stream' and rng.chance(0.5):
                rng.shuffle(got)
            waiting += late
            if not got:
                continue
            ev = {'batch': got, 'lost': lost,
                  'fate': 'ok', 'at': round(rng.random(), 6),
                  'even': rng.choice(seams.PLACES),
                  'consumer': rng.weighted([('same', 5), ('new', 1),
                                            ('other', 1)]),
                  'api': rng.weighted([('engine', 6), ('functional', 1),
                                       ('parallel', 1), ('parts', 1.5)]),
                  'mode': rng.randrange(n_modes),
                  'scalar': rng.chance(0.3), 'ways': rng.randint(1, 3)}
            if rng.chance(0.15) and len(events) < 8:
                ev['fate'] = 'crash'
                waiting = list(dict.fromkeys(got)) + waiting
            else:
                done |= set(got)
            events.append(ev)
        if waiting:
            events.append({'batch': waiting, 'lost': 0, 'fate': 'ok',
                           'at': 0., 'consumer': 'same', 'api': 'engine',
                           'mode': 0, 'scalar': False, 'ways': 1})
        return events

    # ----------------------------------------------------------- execution

    def execute(self, sc, ctx):
        cfg, feed, rows, modes = sc['cfg'], sc['feed'], sc['rows'], \
            sc['modes']
        refs = pristine(singles, cfg, feed, rows, modes, any(
            e['api'] == 'parts' for e in sc['events']))
        if isinstance(refs, Failed):
            ctx.violate('a step computed alone raised', '%s\n%s' % (
                refs, refs.tb))
        lines = None
        if any(e['fate'] == 'crash' for e in sc['events']):
            lines = pristine(measure, cfg, feed, rows[:2], modes[0])
            if isinstance(lines, Failed):
                ctx.violate('run raised', str(lines))
        consumers = {'same': world.make_engine(cfg), 'other': None}
        stored = {}
        ctx.parts = {}
        for k, ev in enumerate(sc['events']):
            batch = [rows[p] for p in ev['batch']]
            mode = modes[ev['mode']]
            kw, t = kwargs(cfg, feed, batch)
            ctx.sim_time += world.span_seconds(t)
            ctx.count('fault:step lost and sent again', ev['lost'])
            ctx.count('fault:step repeated',
                      len(batch) - len(set(batch))
                      + len([n for n in set(batch)
                             if (n, repr(mode)) in stored]))
            if ev['batch'] != sorted(ev['batch']):
                ctx.count('fault:steps out of order')
            if len(batch) > 20:
                ctx.count('probe:long batch')
            ctx.log(ev['api'], k, self.name(ev['batch']), ev['fate'],
                    ev['consumer'])
            who = ev['consumer']
            if who == 'new':
                consumers['same'] = world.make_engine(cfg)
                ctx.count('fault:restart between batches')
                who = 'same'
            if consumers[who] is None:
                consumers[who] = world.make_engine(cfg)
            if ev['fate'] == 'crash':
                self.crash(ctx, consumers[who], kw, mode, ev, lines)
                consumers[who] = world.make_engine(cfg)
                continue
            pub = attempt(self.process, sc, ctx, consumers[who], kw, mode,
                          ev, len(batch))
            ctx.count('op:%s batch' % ev['api'])
            if isinstance(pub, SutError):
                ctx.violate('processing a batch raised', 'batch %d (%s): '
                            '%s at %s' % (k, self.name(ev['batch']), pub,
                                          where(pub.exc)))
            for p in sorted(set(ev['batch'])):
                n = rows[p]
                at = [i for i, q in enumerate(ev['batch']) if q == p]
                ref = refs[n, 'parts' if ev['api'] == 'parts'
                           else repr(mode)]
                if ev['api'] in ('functional', 'parallel'):
                    ref = {x[7:]: v for x, v in ref.items()
                           if x.startswith('report ')}
                if any(np.asarray(v).shape[-1:] != (len(batch),)
                       for v in pub.values()):
                    ctx.violate('steps are missing', 'batch %d of %d '
                                'steps' % (k, len(batch)))
                got = world.take(pub, at)
                d = world.difference(got, world.take(ref, [0] * len(at)))
                ctx.check(d is None, 'differs from the step computed alone',
                          'batch %d %s (%s), step %d (positions %s): %s' % (
                              k, self.name(ev['batch']), ev['api'], p,
                              self.name(at), d))
                stored[n, repr(mode)] = True
                ctx.count('op:step compared', len(at))
        missing = [n for n in rows
                   if not any((n, repr(m)) in stored for m in modes)]
        if missing:
            ctx.count('op:steps never delivered', len(missing))

    @staticmethod
    def name(batch):
        return str(batch) if len(batch) <= 20 else '%d steps %s...' % (
            len(batch), batch[:12])

    def process(self, sc, ctx, eng, kw, mode, ev, n):
        if ev['api'] == 'parts':
            key = 'parts of ' + ev['consumer']
            parts = ctx.parts.get(key)
            if parts is None or ev['consumer'] == 'new':
                parts = ctx.parts[key] = bench.Parts(sc['cfg'])
            plain = dict(kw)
            for k, v in kw.items():
                # no engine that takes the values of a series
                if k not in ('timestamps', 'albedo') and v is not None \
                        and not isinstance(v, str):
                    plain[k] = np.asarray(v)
            return parts.go(plain, ev['scalar'] and n == 1, ev['ways'] % 2)
        if ev['api'] == 'engine':
            fit(eng, kw, ev['scalar'] and n == 1)
            if sc['twice']:
                bench.run_mode(eng, mode)
            return bench.run_and_publish(eng, mode)
        job = {'cfg': sc['cfg'], 'mode': mode, 'builder': 'object',
               'classes': []}
        full = dict(kw)
        full['pvarray_parameters'] = world.array_params(sc['cfg'])
        full['cls_irradiance'] = world.model_class(sc['cfg'])
        full['irradiance_model_params'] = world.model_params(sc['cfg'])
        full['vf_calculator_params'] = world.vf_params(sc['cfg'])
        if mode is not None:
            full['fast_mode_pvrow_index'], \
                full['fast_mode_segment_index'] = mode
        if ev['api'] == 'functional':
            from pvfactors.run import run_timeseries_engine
            box = []
            run_timeseries_engine(lambda p: box.append(users.extract(
                p, None if mode is None else tuple(mode))), **full)
            return box[0]
        from pvfactors.run import run_parallel_engine
        with seams.World(ctx, [int(ev['at'] * 9973) % 101, 3, 1, 7]):
            try:
                rep = run_parallel_engine(
                    users.ObjectBuilder(1., None if mode is None
                                        else tuple(mode)),
                    n_processes=ev['ways'], **full)
            except seams.Hang as e:
                ctx.violate('hang', str(e))
        rep = common.as_report(rep)
        if rep is None:
            ctx.violate('parallel run returned no report')
        return rep

    def crash(self, ctx, eng, kw, mode, ev, lines):
        def boom():
            raise MemoryError('crash')
        trap = seams.LineTrap(seams.line_at(lines, ev['at'],
                                             ev.get('even')), boom)
        with trap:
            r = attempt(self.go, eng, kw, mode)
        if trap.fired:
            ctx.count('fault:crash inside a batch')
            ctx.log('crash', trap.where)
        elif isinstance(r, SutError):
            ctx.violate('processing a batch raised', str(r))

    @staticmethod
    def go(eng, kw, mode):
        fit(eng, kw)
        bench.run_mode(eng, mode)

    # ----------------------------------------------------------- shrinking

    def shrinks(self, sc):
        for ev in list_shrinks(sc['events']):
            if ev:
                yield dict(sc, events=ev)
        for i, e in enumerate(sc['events']):
            for b in list_shrinks(e['batch']):
                if b:
                    yield dict(sc, events=sc['events'][:i] + [
                        dict(e, batch=b)] + sc['events'][i + 1:])
            for k, v in (('api', 'engine'), ('consumer', 'same'),
                         ('scalar', False), ('fate', 'ok'), ('lost', 0)):
                if e[k] != v:
                    yield dict(sc, events=sc['events'][:i] + [
                        dict(e, **{k: v})] + sc['events'][i + 1:])
        for k, v in (('clock', 'true'), ('tz', None), ('ghi', False),
                     ('albedo', None), ('container', 'array')):
            if sc['feed'][k] != v:
                yield dict(sc, feed=dict(sc['feed'], **{k: v}))
        for o in list_shrinks(sc['feed']['odd']):
            yield dict(sc, feed=dict(sc['feed'], odd=o))
        if sc['twice']:
            yield dict(sc, twice=False)
        for cfg in world.shrink_config(sc['cfg']):
            if all(bench.fits_cfg(m, cfg) for m in sc['modes']):
                yield dict(sc, cfg=cfg)


PROPERTY = C11()
