"""Independent simulations in interleaved threads."""
from sim import bench, seams, users, world
from sim.core import Failed, pristine, shrink_keys
from sim.prop import Property, where
from sim.props.common import (
    gen_job, job_kwargs, make_builder, shrink_job)
from sim.threads import Injected, Threads

ACTS = ('functional', 'engine', 'engine', 'scalar', 'snapshot')


def act(job, what, shared_kw=None):
    """What one thread does; its results."""
    kw = dict(shared_kw or job_kwargs(job))
    b = make_builder(job)
    if what == 'functional':
        from pvfactors.run import run_timeseries_engine
        rep = run_timeseries_engine(b.build, **kw)
        return {k: v for k, v in rep.items()}
    cfg = job['cfg']
    if what == 'scalar':
        from pvfactors.geometry import OrderedPVArray
        p = dict(kw['pvarray_parameters'])
        p.update(surface_azimuth=float(kw['surface_azimuth'][0]),
                 surface_tilt=float(kw['surface_tilt'][0]),
                 solar_zenith=float(kw['solar_zenith'][0]),
                 solar_azimuth=float(kw['solar_azimuth'][0]))
        arr = OrderedPVArray.fit_from_dict_of_scalars(p)
        return {'lengths': [s.length * 1. for s in arr.all_ts_surfaces],
                'rotation': arr.rotation_vec}
    eng = world.make_engine(cfg)
    eng.fit(kw['timestamps'], kw['dni'], kw['dhi'], kw['solar_zenith'],
            kw['solar_azimuth'], kw['surface_tilt'], kw['surface_azimuth'],
            kw['albedo'], ghi=kw.get('ghi'))
    pub = bench.run_and_publish(eng, job['mode'])
    if what == 'snapshot':
        i = len(job['rows']) - 1
        row = eng.pvarray.ts_pvrows[0].at(i)
        gnd = eng.pvarray.ts_ground.at(i)
        pub['row len'] = [row.front.length, row.back.length,
                          row.front.shaded_length, row.back.shaded_length]
        pub['gnd len'] = [gnd.length, gnd.shaded_length]
    return pub


def profile(job):
    return seams.count_lines(lambda: act(job, job['what']))


class C06(Property):
    ID = 'C06'
    TITLE = 'Independent simulations in concurrent threads do not affect ' \
        'each other'
    RUNS = {'quick': 900, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one interleaving, at the granularity of ' \
        'executed lines of the code under test, of two to four independent ' \
        'simulations in threads; each is compared with itself run alone ' \
        'in a pristine process.'
    STUBS = ['thread scheduler (real threads, one runs at a time, switches '
             'at lines chosen by the scenario)']
    ASSUMPTIONS = ['switches happen between lines of the code under test, '
                   'not inside numpy, pandas, pvlib or shapely calls']

    def generate(self, rng, i, tier):
        n = rng.weighted([(2, 6), (3, 3), (4, 1)])
        jobs = []
        for k in range(n):
            j = gen_job(rng, 5, feeds=False)
            j['what'] = rng.choice(ACTS)
            if jobs and rng.chance(0.5):
                # same shapes make clashes visible
                j['cfg'] = jobs[0]['cfg'] if rng.chance(0.6) \
                    else dict(j['cfg'], vf_params=jobs[0]['cfg'][
                        'vf_params'])
                j['mode'] = bench.gen_mode(rng, j['cfg'])
                if rng.chance(0.5):
                    j['rows'] = (j['rows'] * len(jobs[0]['rows']))[
                        :len(jobs[0]['rows'])]
                if j['builder'] == 'example':
                    j['builder'] = 'object'
            jobs.append(j)
        twins = rng.chance(0.4)
        if twins:
            self.twins(rng, jobs)
        style = rng.choice(['fine', 'mixed', 'mixed', 'few', 'lockstep',
                            'inside', 'inside'])
        if style == 'inside':
            return {'jobs': jobs, 'slices': self.inside(rng, n), 'kills': {},
                    'share': rng.chance(0.5)}
        slices = []
        if style != 'few' and rng.chance(0.7):
            # come to an inner part first
            slices = [[t, int(10 ** rng.uniform(1, 4.3))] for t in range(n)]
        for s in range({'fine': 120, 'mixed': 60, 'few': 5,
                        'lockstep': 200}[style]):
            t = s % n if style == 'lockstep' else rng.randrange(n)
            k = {'fine': rng.randint(1, 20),
                 'mixed': int(10 ** rng.uniform(0, 3.2)),
                 'few': int(10 ** rng.uniform(1, 3.7)),
                 'lockstep': 1 + i % 30}[style]
            slices.append([t, k])
        kills = {}
        if rng.chance(0.15):
            kills[str(rng.randrange(n))] = int(10 ** rng.uniform(1, 3.5))
        return {'jobs': jobs, 'slices': slices, 'kills': kills,
                'share': rng.chance(0.5)}

    @staticmethod
    def twins(rng, jobs):
        """Simulations alike but for a few values: the same shapes, the
        same functions, the same lines."""
        first = jobs[0]
        for k, j in enumerate(jobs):
            if k == 0:
                continue
            n = len(first['rows'])
            keep = rng.chance(0.3)
            jobs[k] = dict(first, rows=first['rows'] if keep
                           else world.gen_rows(rng, n))
            if not keep and rng.chance(0.5):
                # alike in part
                jobs[k]['rows'] = first['rows']
                jobs[k]['mix'] = {c: world.gen_rows(rng, n)
                                  for c in rng.sample(bench.MIXED,
                                                      rng.randint(1, 5))}
            cfg = dict(first['cfg'])
            what = rng.choice(['model', 'geometry', 'both', 'none'])
            if what in ('model', 'both'):
                cfg['model_params'] = dict(
                    cfg['model_params'],
                    rho_front=round(rng.uniform(0.005, 0.3), 3),
                    rho_back=round(rng.uniform(0.005, 0.3), 3))
            if what in ('geometry', 'both'):
                cfg['gcr'] = round(rng.uniform(0.15, 0.75), 3)
                cfg['axis_azimuth'] = rng.choice([0., 90., 180.])
            if cfg['vf_params'] and rng.chance(0.5):
                cfg['vf_params'] = dict(
                    cfg['vf_params'],
                    faoi_fn_front=rng.choice(sorted(world.FAOI)))
            jobs[k]['cfg'] = cfg
            if rng.chance(0.3):
                jobs[k]['mode'] = bench.gen_mode(rng, cfg)
                jobs[k]['builder'] = 'object'

    @staticmethod
    def inside(rng, n):
        """Take one thread to a place in some function, let others go to
        or past the same place, and so on."""
        out = []
        at = 0.
        place = rng.choice([True, 'shared', 'shared'])
        for _ in range(rng.randint(1, 12)):
            at = round(at + rng.random() * (1. - at)
                       * rng.choice([0.1, 0.3, 1.]), 6)
            first = rng.randrange(n)
            out.append([first, 'at', rng.choice([at, at, round(
                rng.random(), 6)]), place])
            past = rng.chance(0.3)
            for t in range(n):
                if t == first:
                    continue
                if past and rng.chance(0.6):
                    # all the rest of it
                    out.append([t, 10**7])
                elif rng.chance(0.8):
                    out.append([t, 'at', round(min(
                        0.999999, at + rng.choice(
                            [0., 0., 0.003, 0.02, 0.2])), 6), place])
                    if rng.chance(0.5):
                        out.append([t, rng.randint(1, 12)])
            if rng.chance(0.5):
                out.append([first, rng.randint(1, 12)])
        return out

    def execute(self, sc, ctx):
        refs = [pristine(act, j, j['what']) for j in sc['jobs']]
        slices = sc['slices']
        if any(s[1] == 'at' for s in slices):
            lines = [pristine(profile, j) for j in sc['jobs']]
            for r in lines:
                if isinstance(r, Failed):
                    ctx.violate('run alone raised', '%s\n%s' % (r, r.tb))
            slices = [s if s[1] != 'at' else
                      [s[0], 'to', seams.line_at(
                          lines[s[0] % len(lines)], s[2],
                          s[3] if len(s) > 3 else True)]
                      for s in slices]
        for r in refs:
            if isinstance(r, Failed):
                ctx.violate('run alone raised', '%s\n%s' % (r, r.tb))
        shared = {}
        fns = []
        for j in sc['jobs']:
            kw = job_kwargs(j)
            if sc['share']:
                # same dictionaries, arrays and classes where equal
                for k in list(kw):
                    key = repr((k, world.checksum(kw[k])))
                    kw[k] = shared.setdefault(key, kw[k])
            fns.append(lambda j=j, kw=kw: act(j, j['what'], kw))
            ctx.sim_time += world.span_seconds(world.table(
                j['rows'], j['cfg']))
        th = Threads(ctx, fns, slices,
                     {int(k): v for k, v in sc['kills'].items()})
        results = th.run()
        ctx.count('op:thread', len(fns))
        ctx.count('op:switch', th.switches)
        ctx.count('op:line', sum(th.lines))
        for s in sorted(th.sites):
            ctx.count('probe:switch in %s' % s)
        for i, (how, got) in enumerate(results):
            if how == 'raised':
                if isinstance(got, Injected):
                    continue
                ctx.violate('thread raised', 'thread %d: %s: %s at %s' % (
                    i, type(got).__name__, got, where(got)))
            d = world.difference(got, refs[i])
            ctx.check(d is None, 'thread result differs',
                      'thread %d (%s): %s' % (i, sc['jobs'][i]['what'], d))

    def nontrivial(self, out):
        return out['counts'].get('op:switch', 0) > 1

    def shrinks(self, sc):
        if sc['kills']:
            yield dict(sc, kills={})
        if sc['share']:
            yield dict(sc, share=False)
        if len(sc['jobs']) > 2:
            for i in range(len(sc['jobs'])):
                yield dict(sc, jobs=sc['jobs'][:i] + sc['jobs'][i + 1:])
        for c in shrink_keys(sc, 'slices'):
            yield c
        for i, j in enumerate(sc['jobs']):
            for s in shrink_job(j):
                yield dict(sc, jobs=sc['jobs'][:i] + [s]
                           + sc['jobs'][i + 1:])


PROPERTY = C06()
