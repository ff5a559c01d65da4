"""Failing parallel runs."""
import multiprocessing

from sim import seams, users, world
from sim.core import shrink_keys
from sim.prop import Property, where
from sim.props.common import (
    as_report, count_job, gen_clock, gen_job, gen_schedule, make_builder,
    serial, shrink_job, job_kwargs)


def gen_error(rng):
    return rng.choice(rng.choice([
        sorted(users.ERRORS), ['UserError'],
        ['AttributeError', 'IndexError', 'KeyError', 'TypeError']]))


class C02(Property):
    ID = 'C02'
    TITLE = 'A failing parallel run fails cleanly'
    RUNS = {'quick': 1100, 'thorough': 16000}
    WALL = {'quick': 200., 'thorough': 3000.}
    RULE = 'One evaluation is one simulated parallel run with faults placed ' \
        'at chosen tasks, starts, executed lines or scheduler events, ' \
        'followed by the same call without faults.'
    STUBS = ['process pool and executor scheduling (simulated; worker '
             'processes are real forks and are really killed)', 'clocks',
             'cpu count', 'process start failures (raised by the '
             'simulator)']
    ASSUMPTIONS = [
        'a killed worker of multiprocessing.Pool loses its task and is '
        'replaced; a killed worker of ProcessPoolExecutor breaks the '
        'executor (behaviour of the standard library)',
        'hang: the caller waits and no simulated event can happen any more']
    TIME_NOTE = 'simulated clock advanced by the scheduler'

    def generate(self, rng, i, tier):
        job = gen_job(rng, 8, rich=rng.chance(0.3), feeds=False)
        np_ = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        sc = {'job': job, 'n_processes': np_, 'faults': [],
              'choices': gen_schedule(rng, 40), 'steps': gen_clock(rng),
              'start': 'spawn' if rng.chance(0.25) else 'fork',
              'cpus': rng.choice([1, 2, 5]), 'interrupt_at': None,
              'user': None, 'calls': 2 if rng.chance(0.2) else 1}
        if sc['job']['builder'] in ('class', 'method', 'example') \
                and job['mode'] is not None or job['builder'] == 'example':
            job['builder'] = 'object'
        n_faults = rng.weighted([(1, 6), (2, 2), (3, 1), (0, 0.7)])
        for _ in range(n_faults):
            kind = rng.weighted([
                ('build_raises', 2), ('build_odd_error', 1.2),
                ('build_unsendable', 1.2), ('build_bad_reload', 1.2),
                ('build_exit', 0.6), ('kill_before', 1.2), ('kill_at', 2.5),
                ('kill_after', 1.2), ('raise_at', 2.5), ('start', 1.6),
                ('interrupt', 1.2), ('args', 0.7), ('merge', 1.5)])
            if kind == 'start':
                sc['faults'].append({'start': rng.randint(1, np_ + 1),
                                     'exc': rng.choice(['OSError',
                                                        'MemoryError'])})
            elif kind == 'interrupt':
                sc['interrupt_at'] = rng.randint(1, 2 * np_)
            elif kind in ('args', 'merge'):
                sc['user'] = kind
                sc['error'] = gen_error(rng)
            else:
                f = {'task': rng.randint(1, np_), 'kind': kind}
                if kind == 'build_raises':
                    f['error'] = gen_error(rng)
                    f['once'] = rng.chance(0.5)
                if kind.endswith('_at'):
                    f['line'] = int(10 ** rng.uniform(0, 4))
                if kind == 'raise_at':
                    f['exc'] = rng.choice(['MemoryError', 'OSError',
                                           'RuntimeError'])
                sc['faults'].append(f)
        return sc

    def call(self, sc, builder):
        from pvfactors.run import run_parallel_engine
        try:
            return 'value', run_parallel_engine(
                builder, n_processes=sc['n_processes'],
                **job_kwargs(sc['job']))
        except seams.Hang as e:
            return 'hang', e
        except BaseException as e:  # noqa
            return 'raised', e

    def execute(self, sc, ctx):
        job = sc['job']
        count_job(ctx, job)
        fast = None if job['mode'] is None else tuple(job['mode'])
        builder = {'args': users.BadArgs, 'merge': users.BadMerge}[
            sc['user']](fast=fast) if sc['user'] else make_builder(job)
        if sc['user'] == 'merge':
            builder.error = sc.get('error', 'UserError')
        w = seams.World(ctx, sc['choices'], sc['faults'], sc['start'],
                        sc['cpus'], sc['steps'], sc['interrupt_at'])
        with w:
            ref = serial(job)
            del seams.OBS[:]
            how, got = self.call(sc, builder)
            merges = [o for o in seams.OBS if o[0] == 'merge']
            fired = list(w.fired)
            interrupted = sc['interrupt_at'] is not None \
                and w.interrupt_at is None
            if sc['user']:
                ctx.count('fault:%s' % sc['user'])
            ctx.log(how, type(got).__name__,
                    sorted(f.get('kind', 'start') for f in fired))
            ctx.check(how != 'hang', 'hang', str(got))
            faulty = bool(fired or interrupted or sc['user'])
            if how == 'value':
                rep = as_report(got)
                ok = rep is not None and world.difference(rep, ref) is None
                ctx.check(ok, 'wrong report after a fault' if faulty
                          else 'wrong report', lambda: '%s after %s' % (
                    None if rep is None else world.difference(rep, ref),
                    fired))
                # a lost worker may be made up for; an error must come out
                hard = [f for f in fired
                        if f.get('kind', '').startswith(('build', 'raise'))]
                ctx.check(not hard and not interrupted and not sc['user'],
                          'error swallowed', str(hard))
            else:
                ctx.check(faulty, 'failed without a fault', '%s: %s at %s' % (
                    type(got).__name__, got, where(got)))
                ctx.check(not merges or sc['user'] == 'merge' or interrupted,
                          'merged a partial report', str(len(merges)))
                self.check_type(ctx, sc, fired, interrupted, got)
            left = w.left_behind() + [repr(p) for p in
                                      multiprocessing.active_children()]
            ctx.check(not left, 'workers left behind',
                      'after %s: %s' % (how, left))
            got = None
            # the fault is gone: the same call again
            w.faults, w.start_faults, w.interrupt_at = {}, {}, None
            for _ in range(sc['calls']):
                del seams.OBS[:]
                how, got = self.call(dict(sc, user=None), make_builder(job))
                ctx.check(how == 'value', 'later call failed',
                          '%s %s' % (type(got).__name__, got))
                rep = as_report(got)
                d = 'no report' if rep is None \
                    else world.difference(rep, ref)
                ctx.check(d is None, 'later call wrong', d)
                ctx.check(not w.left_behind(), 'workers left behind',
                          'after a good call: %s' % w.left_behind())
            ctx.log('recovered', world.digest(ref))

    @staticmethod
    def check_type(ctx, sc, fired, interrupted, exc):
        """With one cause, and a cause that is an error of a task, the
        caller gets that error."""
        if len(fired) + interrupted + bool(sc['user']) != 1:
            return
        if interrupted:
            want = KeyboardInterrupt
        elif sc['user'] == 'merge':
            want = users.ERRORS[sc.get('error', 'UserError')]
        elif sc['user']:
            return
        else:
            f = fired[0]
            want = None
            if f.get('kind') == 'build_raises':
                want = users.ERRORS[f.get('error', 'UserError')]
            if f.get('kind') == 'raise_at':
                want = {'MemoryError': MemoryError, 'OSError': OSError,
                        'RuntimeError': RuntimeError}[f['exc']]
        # a generator turns StopIteration into another error by itself
        if want is not None and want is not StopIteration:
            ctx.check(isinstance(exc, want), 'error changed type',
                      '%s became %s: %s' % (want.__name__,
                                            type(exc).__name__, exc))

    def nontrivial(self, out):
        return any(k.startswith('fault:') for k in out['counts'])

    def shrinks(self, sc):
        for c in shrink_keys(sc, 'faults'):
            yield c
        if sc['interrupt_at'] is not None and sc['faults']:
            yield dict(sc, interrupt_at=None)
        if sc['user'] and sc['faults']:
            yield dict(sc, user=None)
        if sc['calls'] > 1:
            yield dict(sc, calls=1)
        for np_ in (1, 2, 3):
            if sc['n_processes'] > np_:
                yield dict(sc, n_processes=np_)
        for job in shrink_job(sc['job']):
            yield dict(sc, job=job)
        if sc['start'] != 'fork':
            yield dict(sc, start='fork')
        if sc['steps']:
            yield dict(sc, steps=[])
        for c in shrink_keys(sc, 'choices'):
            yield c
        for i, f in enumerate(sc['faults']):
            if f.get('line', 1) > 1:
                fs = [dict(g) for g in sc['faults']]
                fs[i]['line'] = f['line'] // 2
                yield dict(sc, faults=fs)


PROPERTY = C02()
