"""When reports are built and merged."""
import os

import numpy as np

from sim import seams, users, world
from sim.core import shrink_keys
from sim.prop import Property, SutError, where
from sim.props.common import (
    as_report, count_job, gen_clock, gen_job, gen_schedule, guarded,
    make_builder, parallel, serial, shrink_job, job_kwargs)

ODD_REPORTS = ('none', 'zero', 'empty list', 'empty dict', 'string',
               'generator', 'array', 'object', 'self')


class C03(Property):
    ID = 'C03'
    TITLE = 'Reports are built once per piece and merged once in order'
    RUNS = {'quick': 1000, 'thorough': 12000}
    WALL = {'quick': 200., 'thorough': 3000.}
    RULE = 'One evaluation is one recorded history of report building and ' \
        'merging: a parallel run with a chosen placement and completion ' \
        'order, or serial and engine runs with unusual report functions.'
    STUBS = ['process pool and executor scheduling (simulated; worker '
             'processes are real forks)', 'clocks', 'cpu count']
    ASSUMPTIONS = ['calls are observed in the report builders, in the '
                   'workers and in the caller']
    TIME_NOTE = 'simulated clock advanced by the scheduler'

    def generate(self, rng, i, tier):
        job = gen_job(rng, 14, rich=rng.chance(0.4), feeds=False)
        if job['builder'] == 'example':
            job['builder'] = 'object'
        n = len(job['rows'])
        if rng.chance(0.25):
            return {'what': 'engine', 'job': job, 'choices': [],
                    'returns': [rng.choice(ODD_REPORTS)
                                for _ in range(rng.randint(1, 5))],
                    'modes': [rng.randint(0, 5) for _ in range(5)]}
        np_ = rng.weighted([(1, 1), (2, 2), (rng.randint(3, 6), 5), (n, 1),
                            (n + 2, 1), (rng.randint(10, 13), 2.5),
                            (-1, 1)])
        return {'what': 'parallel', 'job': job, 'n_processes': np_,
                'choices': gen_schedule(rng), 'steps': gen_clock(rng),
                'start': 'spawn' if rng.chance(0.3) else 'fork',
                'cpus': rng.choice([1, 2, 3, 5, 11]),
                'times': 2 if rng.chance(0.25) else 1,
                'tiny': rng.chance(0.1),
                'odd': rng.randint(0, 18) if rng.chance(0.25) else None}

    def execute(self, sc, ctx):
        count_job(ctx, sc['job'])
        if sc['what'] == 'engine':
            return self.engine(sc, ctx)
        job = sc['job']
        with seams.World(ctx, sc['choices'], (), sc['start'], sc['cpus'],
                         sc['steps']) as w:
            ref = serial(job)
            builder = make_builder(job)
            if sc.get('odd') is not None:
                builder = users.OddBuilder(1., None if job['mode'] is None
                                           else tuple(job['mode']))
                builder.result = sc['odd']
                ctx.count('probe:unusual reports')
            for k in range(sc['times']):
                del seams.OBS[:]
                del w.worker_obs[:]
                from pvfactors.run import run_parallel_engine
                box = {}
                probe = Watched(builder, box) if sc['tiny'] else builder
                got = guarded(ctx, run_parallel_engine, probe,
                              n_processes=sc['n_processes'],
                              **job_kwargs(job))
                if isinstance(got, SutError):
                    ctx.violate('parallel run raised', '%s at %s' % (
                        got, where(got.exc)))
                self.history(sc, ctx, w, ref, got, builder, k)
                ctx.log('call done', k)

    def history(self, sc, ctx, w, ref, got, builder, k):
        here = os.getpid()
        builds = [o[2:] for o in w.worker_obs if o[2] == 'build'] + \
            [o for o in seams.OBS if o[0] == 'build']
        merges = [o for o in seams.OBS if o[0] == 'merge']
        far = [o for o in w.worker_obs if o[2] == 'merge']
        ctx.check(not far, 'merged in a worker', str(far)[:300])
        ctx.check(len(merges) == 1, 'merge ran %s' % (
            'never' if not merges else 'more than once'),
            '%d merges' % len(merges))
        m = merges[0]
        ctx.check(m[2] == here, 'merged elsewhere')
        pieces = m[4]
        ctx.count('op:piece', len(pieces))
        if isinstance(builder, users.OddBuilder):
            # the pieces themselves show nothing: go by the order of time
            want = [round(float(z), 6) for z in ref['rotation']]
            have = [b[4] for b in builds]
            ctx.check(sorted(z for b in have for z in b) == sorted(want),
                      'pieces out of order or incomplete',
                      lambda: '%s / %s' % (have, want))
            ctx.check(in_order([(b, repr(builder.of(b))) for b in have],
                               pieces, want),
                      'merged reports are not the built ones',
                      lambda: '%s / %s' % (pieces, [
                          (b, repr(builder.of(b))) for b in have]))
            ctx.check(got is builder.returned, 'report was changed on the '
                      'way', '%r became %r' % (builder.returned, got))
            return
        ctx.check(len(builds) == len(pieces), 'builds and pieces differ',
                  '%d builds, %d reports merged' % (len(builds),
                                                    len(pieces)))
        # every piece was built on its own data
        ctx.check(sorted(map(tuple, pieces))
                  == sorted(tuple(b[4]) for b in builds),
                  'merged reports are not the built ones')
        want = [round(float(z), 6) for z in ref['rotation']]
        ctx.check([z for p in pieces for z in p] == want,
                  'pieces out of order or incomplete',
                  lambda: '%s / %s' % (pieces, want))
        order = [o for o in ctx.events if o[0] == 'deliver']
        if order != sorted(order):
            ctx.count('probe:finished out of order')
        if isinstance(builder, users.ObjectBuilder):
            ctx.check(builder.merged == k + 1, 'merged with another object',
                      str(builder.merged))
        rep = as_report(got)
        ctx.check(rep is not None, 'no report', type(got).__name__)
        d = world.difference(rep, ref)
        ctx.check(d is None, 'report differs', d)

    # -- serial and engine runs with unusual report functions

    def engine(self, sc, ctx):
        from pvfactors.run import run_timeseries_engine
        job = sc['job']
        cfg = job['cfg']
        fast = job['mode']
        eng = world.make_engine(cfg)
        t = world.table(job['rows'], cfg)
        args, kw = world.engine_args(t, job['feed']['ghi'],
                                     job['feed']['albedo'])
        ctx.sim_time += world.span_seconds(t)
        eng.fit(*args, **kw)
        for i, ret in enumerate(sc['returns']):
            m = sc['modes'][i]
            row = m % cfg['n_pvrows'] if fast is not None else None
            calls = []

            def fn(pvarray):
                calls.append((pvarray, users.extract(
                    pvarray, None if row is None else (row, None))))
                sent.append(self.odd(ret, pvarray))
                return sent[-1]
            sent = []
            how = 'serial' if m % 3 == 0 else 'engine'
            if how == 'serial':
                jk = dict(job, feed=dict(job['feed'], container='array',
                                         ts='index', tz=None), classes=[],
                          mode=None if row is None else [row, None])
                got = guarded(ctx, run_timeseries_engine, fn,
                              **job_kwargs(jk))
            elif row is None:
                got = guarded(ctx, eng.run_full_mode, fn)
            else:
                got = guarded(ctx, eng.run_fast_mode, fn, pvrow_index=row)
            if isinstance(got, SutError):
                ctx.violate('run raised', '%s at %s' % (got,
                                                        where(got.exc)))
            ctx.log('run', how, ret, row is None)
            ctx.check(len(calls) == 1, 'report function ran %s' % (
                'never' if not calls else 'more than once'),
                '%d calls' % len(calls))
            ctx.check(got is sent[0], 'report was changed on the way',
                      '%r became %r' % (sent[0], got))
            arr, seen = calls[0]
            now = users.extract(arr, None if row is None else (row, None))
            d = world.difference(seen, now, 0., 0.)
            ctx.check(d is None, 'report built too early', d)
            # complete: what a run without a report function leaves
            eng2 = world.make_engine(cfg)
            eng2.fit(*args, **kw)
            if row is None:
                r2 = eng2.run_full_mode()
            else:
                r2 = eng2.run_fast_mode(pvrow_index=row)
            ctx.check(r2 is None, 'report without a report function')
            d = world.difference(seen, users.extract(
                eng2.pvarray, None if row is None else (row, None)))
            ctx.check(d is None, 'report built too early', d)

    @staticmethod
    def odd(kind, pvarray):
        return {'none': None, 'zero': 0, 'empty list': [], 'empty dict': {},
                'string': 'report', 'generator': (x for x in ()),
                'array': np.zeros(3), 'object': object(),
                'self': pvarray}[kind]

    def shrinks(self, sc):
        if sc['what'] == 'engine':
            for c in shrink_keys(sc, 'returns', 1):
                yield c
        else:
            if sc['times'] > 1:
                yield dict(sc, times=1)
            for np_ in (2, 3):
                if sc['n_processes'] > np_ or sc['n_processes'] == -1:
                    yield dict(sc, n_processes=np_)
            if sc['start'] != 'fork':
                yield dict(sc, start='fork')
            if sc['steps']:
                yield dict(sc, steps=[])
            if sc['tiny']:
                yield dict(sc, tiny=False)
            if sc.get('odd'):
                yield dict(sc, odd=0)
        for job in shrink_job(sc['job']):
            yield dict(sc, job=job)
        for c in shrink_keys(sc, 'choices'):
            yield c


def in_order(built, merged, want, at=0):
    """Whether the merged reports can be the built ones in the order of
    time. built: (steps, report) of each piece."""
    if not merged:
        return not built and at == len(want)
    for i, piece in enumerate(built):
        steps, report = piece
        if report == merged[0] and piece not in built[:i] \
                and want[at:at + len(steps)] == steps \
                and in_order(built[:i] + built[i + 1:], merged[1:], want,
                             at + len(steps)):
            return True
    return False


class Watched(object):
    """A builder that hands everything on to another one."""

    def __init__(self, inner, box):
        self.inner = inner

    def build(self, pvarray):
        return self.inner.build(pvarray)

    def merge(self, reports):
        return self.inner.merge(reports)


PROPERTY = C03()
