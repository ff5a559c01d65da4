"""Parallel run equals serial run."""
from sim import seams, world
from sim.core import shrink_keys
from sim.prop import Property, SutError, where
from sim.props.common import (
    as_report, count_job, gen_clock, gen_job, gen_schedule, guarded, parallel,
    serial, shrink_job, job_kwargs, make_builder)


class C01(Property):
    ID = 'C01'
    TITLE = 'A parallel run returns what the serial run returns'
    RUNS = {'quick': 900, 'thorough': 12000}
    WALL = {'quick': 200., 'thorough': 3000.}
    RULE = 'One evaluation is one simulated parallel run (random ' \
        'configuration, series, containers, classes, number of processes, ' \
        'placement and completion order) compared with the serial run on ' \
        'plain arrays.'
    STUBS = ['process pool and executor scheduling (simulated; worker '
             'processes are real forks, arguments and results really '
             'pickled)', 'clocks', 'cpu count']
    ASSUMPTIONS = ['the serial run on plain numpy arrays is the reference',
                   'values are compared with rtol 1e-7, atol 1e-6']
    TIME_NOTE = 'simulated clock advanced by the scheduler'

    def generate(self, rng, i, tier):
        job = gen_job(rng)
        if rng.chance(0.06):
            # a day, a month or a year at once
            job['rows'] = [job['rows'][k] for k in world.gen_long(
                rng, job['cfg'], job['rows'],
                5e5 if job['cfg']['vf_params'] else 1.2e6)]
        n = len(job['rows'])
        np_ = rng.weighted([
            (1, 1), (2, 3), (rng.randint(3, 5), 4), (min(n, 25), 1), (min(n, 25) + 1, 1),
            (rng.randint(10, 13), 2), (-1, 1)])
        return {'job': job, 'n_processes': np_,
                'before': gen_job(rng, 5) if rng.chance(0.25) else None,
                'choices': gen_schedule(rng), 'steps': gen_clock(rng),
                'start': 'spawn' if rng.chance(0.3) else 'fork',
                'cpus': rng.choice([1, 2, 3, 5, 12]),
                'serial_feed': rng.chance(0.5)}

    def execute(self, sc, ctx):
        job = sc['job']
        count_job(ctx, job)
        ctx.count('probe:long series', int(len(job['rows']) > 20))
        ctx.count('probe:more processes than steps',
                  int(sc['n_processes'] > len(job['rows'])))
        ctx.count('probe:more than ten processes',
                  int(sc['n_processes'] > 10))
        w = seams.World(ctx, sc['choices'], (), sc['start'], sc['cpus'],
                        sc['steps'])
        with w:
            ref = serial(job)
            if sc['serial_feed']:
                from pvfactors.run import run_timeseries_engine
                got = guarded(ctx, run_timeseries_engine,
                              make_builder(job).build, **job_kwargs(job))
                self.compare(ctx, 'serial run on %s' % (job['feed'],), got,
                             ref)
            if sc['before'] is not None:
                guarded(ctx, parallel, sc['before'], 2)
            got = guarded(ctx, parallel, job, sc['n_processes'])
            self.compare(ctx, 'parallel run', got, ref)
            ctx.log('done', world.digest(ref))

    @staticmethod
    def compare(ctx, what, got, ref):
        if isinstance(got, SutError):
            ctx.violate('%s raised' % what.split(' on ')[0],
                        '%s: %s at %s' % (what, got, where(got.exc)))
        rep = as_report(got)
        ctx.check(rep is not None, 'no report', type(got).__name__)
        d = world.difference(rep, ref)
        ctx.check(d is None, '%s differs from the serial run'
                  % what.split(' on ')[0], '%s: %s' % (what, d))

    def shrinks(self, sc):
        if sc['before'] is not None:
            yield dict(sc, before=None)
        for np_ in (2, 3):
            if sc['n_processes'] > np_ or sc['n_processes'] == -1:
                yield dict(sc, n_processes=np_)
        for job in shrink_job(sc['job']):
            yield dict(sc, job=job)
        if sc['start'] != 'fork':
            yield dict(sc, start='fork')
        if sc['serial_feed']:
            yield dict(sc, serial_feed=False)
        if sc['steps']:
            yield dict(sc, steps=[])
        for c in shrink_keys(sc, 'choices'):
            yield c


PROPERTY = C01()
