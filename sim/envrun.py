"""One simulation under a chosen ambient environment (used by C13), in this
process or as the main program of a new one."""
import contextlib
import gc
import os
import pickle
import random
import sys


def poison_factory(real, value):
    import numpy as np

    def filled(a):
        k = a.dtype.kind
        if k in 'fc':
            if value == 'random':
                a[...] = random.Random(a.size).uniform(-1e6, 1e6)
            else:
                a[...] = float(value)
        elif k in 'iu':
            a[...] = 77
        elif k == 'b':
            a[...] = True
        return a

    def make(*args, **kw):
        return filled(real(*args, **kw))
    return make


@contextlib.contextmanager
def ambient(env):
    """Apply the in-process part of an environment."""
    import locale
    import time
    import numpy as np
    undo = []

    def patch(obj, name, new):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)
    try:
        if env.get('poison') is not None:
            for n in ('empty', 'empty_like'):
                patch(np, n, poison_factory(getattr(np, n), env['poison']))
        if env.get('gc') == 'off':
            gc.disable()
        elif env.get('gc') == 'often':
            gc.set_threshold(1, 1, 1)
        if env.get('clock') is not None:
            state = [float(env['clock'][0])]
            steps = env['clock'][1]

            def now():
                state[0] += steps[int(abs(state[0])) % len(steps)]
                return state[0]
            for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
                patch(time, n, now)
            for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
                patch(time, n, lambda: int(now() * 1e9))
        if env.get('random') is not None:
            random.seed(env['random'])
            np.random.seed(env['random'] % 2**32)
        if env.get('cwd'):
            os.chdir(env['cwd'])
        if env.get('tz'):
            os.environ['TZ'] = env['tz']
            time.tzset()
        if env.get('err'):
            np.seterr(all=env['err'])
        if env.get('print'):
            np.set_printoptions(precision=2, suppress=True, threshold=3)
        if env.get('locale'):
            try:
                locale.setlocale(locale.LC_ALL, env['locale'])
            except locale.Error:
                pass
        if env.get('pandas'):
            import pandas as pd
            for k, v in env['pandas']:
                pd.set_option(k, v)
        if env.get('umask') is not None:
            os.umask(env['umask'])
        if env.get('memory') is not None:
            from sim import memory
            with memory.simulated(env['memory']):
                yield
        else:
            yield
    finally:
        for obj, name, old in reversed(undo):
            setattr(obj, name, old)
        gc.enable()
        gc.set_threshold(700, 10, 10)


def everything(sc):
    """All results of one simulation, as arrays."""
    import numpy as np
    from sim import bench, world
    cfg, data = sc['cfg'], sc['data']
    out = {}
    eng = world.make_engine(cfg)
    args, kw, t = bench.fit_args(cfg, data)
    eng.fit(*args, **kw)
    for j, mode in enumerate(sc['modes']):
        for k, v in bench.run_and_publish(eng, mode).items():
            out['%d %s' % (j, k)] = v
    arr = eng.pvarray
    if sc['modes'][-1] is None:
        # surfaces without any extent carry numbers too
        for s in arr.all_ts_surfaces:
            none = np.asarray(s.length) * np.ones(arr.n_states) == 0.
            for p in world.FULL_PARAMS:
                out['point %d %s' % (s.index, p)] = np.where(
                    none, np.asarray(s.get_param(p), dtype=float), 0.)
    out['indices'] = np.array([s.index for s in arr.all_ts_surfaces],
                              dtype=float)
    i = sc['step'] % len(t['timestamps'])
    for r, row in enumerate(arr.ts_pvrows):
        g = row.at(i)
        out['snapshot %d' % r] = np.array(
            [[s.index] + [x for c in s.coords for x in c]
             for s in g.all_surfaces], dtype=float).reshape(-1)
    g = arr.ts_ground.at(i)
    out['snapshot ground'] = np.array(
        [[-1 if s.index is None else s.index]
         + [x for c in s.coords for x in c]
         for s in g.all_surfaces], dtype=float).reshape(-1)
    if sc['rho'] and eng.vf_calculator.vf_aoi_methods is not None:
        out['rho'] = np.array([
            eng.vf_calculator.vf_aoi_methods.rho_from_faoi_fn(b)
            for b in (False, True)])
    if sc['functional']:
        from pvfactors.run import run_timeseries_engine
        from sim import users
        names = ('timestamps', 'dni', 'dhi', 'solar_zenith',
                 'solar_azimuth', 'surface_tilt', 'surface_azimuth',
                 'albedo')
        full = dict(zip(names, args), ghi=kw['ghi'])
        full['cls_irradiance'] = world.model_class(cfg)
        full['pvarray_parameters'] = world.array_params(cfg)
        full['irradiance_model_params'] = world.model_params(cfg)
        full['vf_calculator_params'] = world.vf_params(cfg)
        for k, v in run_timeseries_engine(
                users.ObjectBuilder(1.).build, **full).items():
            out['functional ' + k] = np.asarray(v, dtype=float)
    return out


def history(sc):
    """Simulations that ran before, good and bad."""
    from sim import bench, world
    for cfg, data, fails in sc['before']:
        try:
            eng = world.make_engine(cfg)
            args, kw, _ = bench.fit_args(cfg, data)
            if fails:
                args[2] = None
            eng.fit(*args, **kw)
            eng.run_full_mode()
        except Exception:  # noqa
            pass
        finally:
            # its objects go away, and their places are taken by others
            eng = args = kw = None


def stream(sc):
    """The simulation itself, then many small ones on other days."""
    from sim import bench, world
    many = sc.get('many')
    if many is None:
        return
    everything(sc)
    from sim.core import Rng
    rng = Rng(many['seed'])
    eng = None
    for k in range(many['n']):
        try:
            cfg = many['cfgs'][rng.randrange(len(many['cfgs']))]
            if eng is None or rng.chance(0.6):
                eng = world.make_engine(cfg)
            rows = rng.sample(range(3000), rng.randint(1, 2))
            args, kw, _ = bench.fit_args(cfg, dict(many['data'], rows=rows))
            eng.fit(*args, **kw)
            if rng.chance(0.3):
                eng.run_fast_mode(pvrow_index=0)
        except Exception:  # noqa
            eng = None


def main():
    from sim import boot
    boot.prepare()
    sc = pickle.loads(sys.stdin.buffer.read())
    try:
        with ambient(sc['env']):
            history(sc)
            stream(sc)
            res = (True, everything(sc))
    except BaseException as e:  # noqa
        import traceback
        res = (False, '%s: %s\n%s' % (type(e).__name__, e,
                                      traceback.format_exc()[-2000:]))
    sys.stdout.buffer.write(b'RESULT' + pickle.dumps(res))
    sys.stdout.buffer.flush()


if __name__ == '__main__':
    main()
