"""Simulations done inside the user's callbacks."""
import copy

import numpy as np

from sim import bench, seams, world
from sim.core import Failed, pristine, shrink_keys
from sim.prop import Property, SutError, attempt, where
from sim.props.c06 import C06
from sim.props.common import (
    gen_job, gen_schedule, job_kwargs, make_builder, parallel, shrink_job)

ACTS = ('functional', 'engine', 'engine', 'scalar', 'snapshot', 'copy',
        'parallel')
HOOKED = {
    'cls_engine': ('fit', 'run_full_mode', 'run_fast_mode'),
    'cls_pvarray': ('fit',),
    'cls_irradiance': ('fit', 'transform', 'get_full_ts_modeling_vectors',
                       'get_summed_components',
                       'update_ts_surface_sky_term'),
    'cls_vf': ('fit', 'build_ts_vf_matrix', 'build_ts_vf_aoi_matrix',
               'get_vf_ts_pvrow_element'),
}


class Lazy(object):
    """Array-like of the user, which makes its values when asked."""

    def __init__(self, values, hook):
        self.values = values
        self.hook = hook

    def __len__(self):
        return len(self.values)

    def __array__(self, dtype=None, copy=None):
        self.hook('array')
        return np.array(self.values, dtype=dtype)


def subclass(base, names, hook):
    """The user's own class, whose methods do something before and after
    those of the library."""
    def method(name):
        old = getattr(base, name)

        def call(self, *a, **k):
            hook('before ' + name)
            try:
                return old(self, *a, **k)
            finally:
                hook('after ' + name)
        return call
    return type('User' + base.__name__, (base,),
                {n: method(n) for n in names if hasattr(base, n)})


def no_hook(what):
    pass


def act(job, what, hook=no_hook, choices=(), ctx=None):
    """One simulation and its results; hook is called in all the places at
    which the library calls the user's code."""
    if what == 'parallel' and hook is no_hook:
        if ctx is None:
            from pvfactors.run import run_timeseries_engine
            return run_timeseries_engine(make_builder(job).build,
                                         **job_kwargs(job))
        with seams.World(ctx, choices):
            return parallel(job, 2)
    kw = job_kwargs(job)
    b = make_builder(job)
    if hook is not no_hook:
        from pvfactors.engine import PVEngine
        from pvfactors.geometry import OrderedPVArray
        from pvfactors.viewfactors import VFCalculator
        base = {'cls_engine': PVEngine, 'cls_pvarray': OrderedPVArray,
                'cls_vf': VFCalculator}
        for k, names in sorted(HOOKED.items()):
            kw[k] = subclass(kw.get(k, base.get(k)), names, hook)
        for k in ('irradiance_model_params', 'vf_calculator_params'):
            kw[k] = {n: wrap(v, hook) if n.startswith('faoi') else v
                     for n, v in kw.get(k, {}).items()}

    def build(pvarray):
        hook('report')
        rep = b.build(pvarray)
        hook('report')
        return rep
    if what in ('functional', 'parallel'):
        from pvfactors.run import run_timeseries_engine
        return dict(run_timeseries_engine(build, **kw))
    if what == 'scalar':
        p = dict(kw['pvarray_parameters'])
        p.update(surface_azimuth=float(kw['surface_azimuth'][0]),
                 surface_tilt=float(kw['surface_tilt'][0]),
                 solar_zenith=float(kw['solar_zenith'][0]),
                 solar_azimuth=float(kw['solar_azimuth'][0]))
        arr = pick(kw, 'cls_pvarray').fit_from_dict_of_scalars(p)
        return {'lengths': [s.length * 1. for s in arr.all_ts_surfaces],
                'rotation': arr.rotation_vec}
    model = kw['cls_irradiance'](**kw.get('irradiance_model_params', {}))
    calc = pick(kw, 'cls_vf')(**kw.get('vf_calculator_params', {}))
    arr = pick(kw, 'cls_pvarray').init_from_dict(kw['pvarray_parameters'])
    eng = pick(kw, 'cls_engine')(arr, irradiance_model=model,
                                 vf_calculator=calc)
    args = [kw[n] for n in ('timestamps', 'dni', 'dhi', 'solar_zenith',
                            'solar_azimuth', 'surface_tilt',
                            'surface_azimuth', 'albedo')]
    if hook is not no_hook and 'engine' not in job['classes']:
        args[1:] = [Lazy(a, hook) if isinstance(a, np.ndarray) else a
                    for a in args[1:]]
    eng.fit(*args, ghi=kw.get('ghi'))
    if what == 'copy':
        eng = copy.deepcopy(eng)
    rep = bench.run_mode(eng, job['mode'], build)
    pub = bench.published(eng.pvarray, job['mode'])
    pub.update(('report ' + k, v) for k, v in rep.items())
    if what == 'snapshot':
        i = len(job['rows']) - 1
        row = eng.pvarray.ts_pvrows[0].at(i)
        gnd = eng.pvarray.ts_ground.at(i)
        pub['row len'] = [row.front.length, row.back.length,
                          row.front.shaded_length, row.back.shaded_length]
        pub['gnd len'] = [gnd.length, gnd.shaded_length]
    return pub


def pick(kw, name):
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    return kw.get(name) or {
        'cls_engine': PVEngine, 'cls_pvarray': OrderedPVArray,
        'cls_vf': VFCalculator}[name]


def wrap(fn, hook):
    inner = fn.faoi if hasattr(fn, 'faoi') else fn

    def faoi(angles):
        hook('reflection function')
        return inner(angles)
    return faoi


def moments(job, what):
    """How often the user's code is called."""
    n = []
    act(job, what, n.append)
    return len(n)


def measure(job, what):
    return seams.count_lines(lambda: act(job, what))


class Injected(Exception):
    """What cuts an inner simulation short."""


class C18(Property):
    ID = 'C18'
    TITLE = 'Simulations inside callbacks do not disturb the one outside'
    RUNS = {'quick': 900, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    TIMEOUT = 120.
    RULE = 'One evaluation is one simulation in whose callbacks (report ' \
        'and reflection functions, methods of the user\'s classes, ' \
        'array-like inputs) others are done, which may have callbacks of ' \
        'that kind themselves or be cut short; each is compared with ' \
        'itself alone in a pristine process.'
    STUBS = ['injected exceptions', 'process pool (multiprocessing '
             'replaced by the simulator)']
    ASSUMPTIONS = ['inner simulations use objects of their own']

    def gen_node(self, rng, depth, outer):
        j = gen_job(rng, 4, feeds=False)
        what = rng.choice(ACTS)
        if outer is not None:
            if rng.chance(0.5):
                jobs = [outer['job'], j]
                C06.twins(rng, jobs)
                j = dict(jobs[1])
            elif rng.chance(0.3):
                j = dict(j, cfg=outer['job']['cfg'])
                j['mode'] = bench.gen_mode(rng, j['cfg'])
                j['builder'] = 'object'
        node = {'job': j, 'what': what, 'inner': []}
        if outer is not None:
            node['at'] = round(rng.random(), 6)
            if rng.chance(0.2) and what not in ('parallel',):
                node['fail'] = {'at': round(rng.random(), 6),
                                'even': rng.choice(seams.PLACES),
                                'kind': rng.choice(['line', 'line',
                                                    'alloc'])}
            if what == 'parallel':
                node['choices'] = gen_schedule(rng, 12)
        if outer is None and what in ('scalar', 'parallel', 'copy'):
            node['what'] = 'engine'
        if depth < 3 and node['what'] != 'parallel' and 'fail' not in node \
                and (depth == 1 or rng.chance(0.25)):
            for _ in range(rng.weighted([(1, 3), (2, 2), (4, 1)])
                           if depth == 1 else 1):
                node['inner'].append(self.gen_node(rng, depth + 1, node))
        return node

    def generate(self, rng, i, tier):
        return {'outer': self.gen_node(rng, 1, None)}

    # -- before the simulation: each alone

    def prepare(self, ctx, node):
        node = dict(node)
        ctx.sim_time += world.span_seconds(world.table(
            node['job']['rows'], node['job']['cfg']))
        node['ref'] = pristine(act, node['job'], node['what'])
        if isinstance(node['ref'], Failed):
            ctx.violate('run alone raised', '%s\n%s' % (
                node['ref'], node['ref'].tb))
        if node.get('fail'):
            node['lines'] = pristine(measure, node['job'], node['what'])
        if node['inner']:
            node['moments'] = pristine(moments, node['job'], node['what'])
            if isinstance(node['moments'], Failed):
                ctx.violate('run alone with callbacks raised', '%s\n%s' % (
                    node['moments'], node['moments'].tb))
        node['inner'] = [self.prepare(ctx, n) for n in node['inner']]
        return node

    def run(self, ctx, node, depth):
        """Do it, with the inner ones in its callbacks; compare."""
        seen = [0]
        due = {}
        for n in node['inner']:
            due.setdefault(int(n['at'] * node['moments']), []).append(n)

        def hook(what):
            now = due.pop(seen[0], ())
            seen[0] += 1
            for n in now:
                ctx.count('probe:inside %s' % what)
                ctx.log('inside', depth, what, n['what'])
                self.run(ctx, n, depth + 1)
        what = node['what']
        ctx.count('op:%s at depth %d' % (what, depth))
        ctx.log('start', depth, what, len(node['job']['rows']),
                node['job']['cfg']['n_pvrows'], str(node['job']['mode']))
        if node.get('fail'):
            f = node['fail']
            trap = seams.trap_at(node['lines'], f['kind'], f['at'],
                                 f['even'], MemoryError if f['kind'] ==
                                 'alloc' else Injected)
            with trap:
                got = attempt(act, node['job'], what)
            if trap.fired:
                ctx.count('fault:inner simulation cut short')
                ctx.log('cut short', trap.where)
                return
        elif what == 'parallel':
            got = attempt(act, node['job'], what, no_hook, node['choices'],
                          ctx)
            del seams.OBS[:]
        else:
            got = attempt(act, node['job'], what,
                          hook if node['inner'] else no_hook)
        side = 'outer' if depth == 1 else 'inner'
        if isinstance(got, SutError):
            ctx.violate('%s simulation raised' % side,
                        'depth %d (%s): %s at %s' % (depth, what, got,
                                                     where(got.exc)))
        d = world.difference(got, node['ref'])
        ctx.check(d is None, '%s simulation differs' % side,
                  'depth %d (%s): %s' % (depth, what, d))
        if due:
            ctx.count('probe:moment not reached', len(due))

    def execute(self, sc, ctx):
        self.run(ctx, self.prepare(ctx, sc['outer']), 1)

    def nontrivial(self, out):
        return any(k.startswith('probe:inside') for k in out['counts'])

    def shrinks(self, sc):
        for n in self.smaller(sc['outer'], True):
            yield {'outer': n}

    def smaller(self, node, top):
        for c in shrink_keys(node, 'inner', 1 if top else 0):
            yield c
        for i, n in enumerate(node['inner']):
            for m in self.smaller(n, False):
                yield dict(node, inner=node['inner'][:i] + [m]
                           + node['inner'][i + 1:])
        if node.get('fail'):
            yield {k: v for k, v in node.items() if k != 'fail'}
        if node['what'] not in ('engine', 'parallel'):
            yield dict(node, what='engine')
        for j in shrink_job(node['job']):
            yield dict(node, job=j)


PROPERTY = C18()
