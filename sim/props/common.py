"""Pieces shared by the properties about runs."""
import contextlib
import io

import numpy as np

from sim import seams, users, world
from sim.core import Violation
from sim.prop import SutError, attempt, where

CONTAINERS = ('array', 'array', 'readonly', 'float32col', 'series_range',
              'series_offset', 'series_time', 'mixed')
TS = ('index', 'index', 'list', 'py', 'series', 'np64')
ZONES = (None, None, None, 'Europe/Berlin', 'America/Los_Angeles', 'UTC')


def gen_feed(rng, rich=True):
    feed = {'container': rng.choice(CONTAINERS) if rich else 'array',
            'ts': rng.choice(TS) if rich else 'index',
            'tz': rng.choice(ZONES) if rich else None,
            'ghi': rng.chance(0.35), 'albedo': None}
    if rng.chance(0.25):
        feed['albedo'] = round(rng.uniform(0.05, 0.6), 3)
    return feed


def shrink_feed(feed):
    for k, v in (('container', 'array'), ('ts', 'index'), ('tz', None),
                 ('ghi', False), ('albedo', None)):
        if feed[k] != v:
            new = dict(feed)
            new[k] = v
            yield new


def gen_mode(rng, cfg):
    """None for full, [row, segment] for fast."""
    if rng.chance(0.6):
        return None
    row = rng.choice([0, cfg['n_pvrows'] - 1,
                      rng.randint(0, cfg['n_pvrows'] - 1)])
    nseg = cfg['cut'].get(str(row), {}).get('back', 1)
    seg = None if rng.chance(0.5) else rng.randint(0, nseg - 1)
    return [row, seg]


def gen_job(rng, max_rows=14, rich=True, feeds=True):
    """One run a user asks for."""
    cfg = world.gen_config(rng, rich)
    n = rng.weighted([(1, 1), (2, 2), (rng.randint(3, 6), 5),
                      (rng.randint(min(7, max_rows), max_rows), 4)])
    mode = gen_mode(rng, cfg)
    builder = rng.choice(users.BUILDERS)
    if mode is None and cfg['n_pvrows'] > 1 and rng.chance(0.12):
        builder = 'example'
    return {'cfg': cfg, 'rows': world.gen_rows(rng, n), 'mode': mode,
            'feed': gen_feed(rng, rich and feeds), 'builder': builder,
            'classes': sorted(c for c in ('array', 'engine', 'irradiance',
                                          'vf') if rich and rng.chance(0.12))
            }


def shrink_job(job):
    for cfg in world.shrink_config(job['cfg']):
        m = job['mode']
        if m is not None:
            if m[0] >= cfg['n_pvrows']:
                m = [cfg['n_pvrows'] - 1, m[1]]
            if m[1] is not None and m[1] >= cfg['cut'].get(
                    str(m[0]), {}).get('back', 1):
                m = [m[0], 0]
        yield dict(job, cfg=cfg, mode=m)
    for feed in shrink_feed(job['feed']):
        yield dict(job, feed=feed)
    if job['classes']:
        yield dict(job, classes=[])
    if job['builder'] != 'object':
        yield dict(job, builder='object')
    if job['mode'] is not None:
        yield dict(job, mode=None)
    if job.get('mix'):
        yield dict(job, mix={})
        for c in sorted(job['mix']):
            yield dict(job, mix={k: v for k, v in job['mix'].items()
                                 if k != c})
    for rows in world.list_shrinks(job['rows']):
        if rows:
            yield dict(job, rows=rows)


def job_kwargs(job, plain=False, t=None):
    """All arguments of the run functions except the builder."""
    if t is None:
        t = world.table(job['rows'], job['cfg'], (), job.get('mix'))
    kw = world.plain_kwargs(t, job['feed']) if plain else \
        world.run_kwargs(t, job['cfg'], job['feed'])
    kw['pvarray_parameters'] = world.array_params(job['cfg'])
    kw.update(users.class_kwargs(job['cfg'], job['classes']))
    if job['mode'] is not None:
        kw['fast_mode_pvrow_index'], kw['fast_mode_segment_index'] = \
            job['mode']
    mp, vp = world.model_params(job['cfg']), world.vf_params(job['cfg'])
    if mp:
        kw['irradiance_model_params'] = mp
    if vp:
        kw['vf_calculator_params'] = vp
    return kw


def make_builder(job):
    return users.builder(job['builder'],
                         None if job['mode'] is None else tuple(job['mode']),
                         True)


def serial(job, plain=True):
    """The serial run: the reference."""
    from pvfactors.run import run_timeseries_engine
    kw = job_kwargs(job, plain)
    rep = run_timeseries_engine(make_builder(job).build, **kw)
    return {k: np.asarray(v, dtype=float) for k, v in rep.items()}


def parallel(job, n_processes, builder=None):
    from pvfactors.run import run_parallel_engine
    kw = job_kwargs(job)
    return run_parallel_engine(builder or make_builder(job),
                               n_processes=n_processes, **kw)


def as_report(rep):
    """A merged report in comparable form, or None."""
    if not isinstance(rep, dict):
        return None
    try:
        return {k: np.asarray(v, dtype=float) for k, v in rep.items()}
    except Exception:  # noqa
        return None


def count_job(ctx, job):
    ctx.count('op:%s mode' % ('full' if job['mode'] is None else 'fast'))
    ctx.count('probe:feed %s' % job['feed']['container'])
    if job['feed']['ghi']:
        ctx.count('probe:ghi given')
    if job['feed']['tz']:
        ctx.count('probe:time zone')
    if job['mode'] and job['mode'][0] == 0:
        ctx.count('probe:fast mode row 0')
    if job['cfg']['vf_params']:
        ctx.count('probe:reflection functions')


def gen_schedule(rng, n=60):
    """Scheduling decisions in one of several styles."""
    style = rng.choice(['first', 'last', 'random', 'random', 'two'])
    if style == 'first':
        return []
    if style == 'last':
        return [997] * n
    if style == 'two':
        return [rng.choice([0, 1]) for _ in range(n)]
    return [rng.randint(0, 5039) for _ in range(n)]


def gen_clock(rng):
    return [rng.choice([0.001, 0.01, 0.5, 0., 30., 7200., -1., -3600.])
            for _ in range(6)] if rng.chance(0.6) else []


def guarded(ctx, fn, *a, **k):
    """Call the code under test: value, SutError, or violation on a hang."""
    try:
        return attempt(fn, *a, **k)
    except seams.Hang as e:
        raise Violation('hang', str(e))


__all__ = [n for n in dir() if not n.startswith('__')]
