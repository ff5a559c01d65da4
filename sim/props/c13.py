"""Results do not depend on process, hash seed, memory content or time."""
import os
import pickle
import subprocess
import tempfile
import threading

from sim import bench, boot, envrun, world
from sim.core import Failed, pristine
from sim.prop import Property, SutError, attempt, where


class C13(Property):
    ID = 'C13'
    TITLE = 'Results do not depend on process, hash seed, memory content ' \
        'or time'
    RUNS = {'quick': 520, 'thorough': 12000}
    WALL = {'quick': 280., 'thorough': 3000.}
    TIMEOUT = 120.
    RULE = 'One evaluation is one simulation repeated under one drawn ' \
        'ambient environment (in a fork with poisoned arrays, collector, ' \
        'clock, random state, options, thread and history of its own, or ' \
        'in a new process with another hash seed, allocator filling, ' \
        'locale and flags) and compared with a clean run.'
    STUBS = ['np.empty and np.empty_like (filled with chosen values)',
             'time functions', 'allocator of numpy array data (fills new '
             'memory with chosen bytes)']
    ASSUMPTIONS = ['tolerance 1e-7 relative plus 1e-6']

    def setup(self):
        from sim import memory
        memory.prepare()

    def generate(self, rng, i, tier):
        cfg = world.gen_config(rng)
        sc = {'cfg': cfg, 'data': bench.gen_data(rng, 6),
              'modes': [bench.gen_mode(rng, cfg, 0.75)],
              'step': rng.randint(0, 9), 'rho': rng.chance(0.5),
              'functional': rng.chance(0.2), 'before': [], 'env': {},
              'fresh': None, 'thread': rng.chance(0.1)}
        if rng.chance(0.3):
            sc['modes'].append(bench.gen_mode(rng, cfg, 0.3))
        env = sc['env']
        kinds = ['poison', 'gc', 'clock', 'random', 'cwd', 'tz', 'err',
                 'print', 'pandas', 'umask', 'before', 'locale']
        pick = rng.sample(kinds, rng.randint(1, 3))
        if rng.chance(0.5) and 'poison' not in pick:
            pick.append('poison')
        if 'poison' in pick:
            env['poison'] = rng.choice(['nan', '1e300', '-7.5', '0.31',
                                        'random', 'inf', '1'])
        if rng.chance(0.5):
            # memory of numpy arrays as earlier users left it
            env['memory'] = rng.choice([255, 255, 127, 63, 64, 191, 192, 1])
        if 'gc' in pick:
            env['gc'] = rng.choice(['off', 'often'])
        if 'clock' in pick:
            env['clock'] = [rng.choice([0., 1e9, 2e9, -5e8, 1.6e9]),
                            [rng.choice([0., 1., -3600., 86400., 0.001])
                             for _ in range(3)]]
        if 'random' in pick:
            env['random'] = rng.randint(0, 2**31)
        if 'cwd' in pick:
            env['cwd'] = rng.choice(['/', '/tmp', '/usr'])
        if 'tz' in pick:
            env['tz'] = rng.choice(['America/Los_Angeles', 'Asia/Kolkata',
                                    'Pacific/Kiritimati', 'UTC+3:30'])
        if 'err' in pick:
            env['err'] = rng.choice(['ignore', 'warn'])
        if 'print' in pick:
            env['print'] = True
        if 'pandas' in pick:
            env['pandas'] = [list(rng.choice([
                ('mode.copy_on_write', True),
                ('compute.use_bottleneck', False),
                ('compute.use_numexpr', False),
                ('display.precision', 2),
                ('display.max_rows', 2)]))]
        if 'umask' in pick:
            env['umask'] = rng.choice([0o777, 0o000])
        if 'locale' in pick:
            env['locale'] = rng.choice(['C', 'C.UTF-8', 'POSIX'])
        if 'before' in pick:
            for _ in range(rng.randint(1, 3)):
                c = cfg if rng.chance(0.4) else world.gen_config(rng)
                sc['before'].append([c, bench.gen_data(
                    rng, 6, prev=[sc['data']]), rng.chance(0.25)])
            if rng.chance(0.4):
                # short-lived reflection functions, made for each use
                n = rng.choice([7, 20, 36])
                for i, c in enumerate([b[0] for b in sc['before']] + [cfg]):
                    c = dict(c, vf_params={
                        'faoi_fn_front': 'def:%.2f' % rng.uniform(0.1, 0.9),
                        'faoi_fn_back': 'def:%.2f' % rng.uniform(0.1, 0.9),
                        'n_aoi_integral_sections': n})
                    if i < len(sc['before']):
                        sc['before'][i][0] = c
                    else:
                        sc['cfg'] = c
        if rng.chance(0.25):
            # once before, and many small ones in between
            sc['many'] = {
                'n': int(10 ** rng.uniform(0.7, 2.)),
                'seed': rng.randint(0, 2**31),
                'cfgs': [dict(c, vf_params={}, n_pvrows=min(
                    3, c['n_pvrows']), cut={}) for c in
                    [cfg] + [world.gen_config(rng) for _ in range(2)]],
                'data': dict(bench.gen_data(rng, 1), rows=[0])}
        if rng.chance(0.2):
            sc['fresh'] = {
                'PYTHONHASHSEED': str(rng.randint(1, 2**31)),
                'MALLOC_PERTURB_': str(rng.choice([1, 85, 127, 240, 255])),
                'LC_ALL': rng.choice(['C', 'C.UTF-8', 'POSIX', 'de_DE']),
                'TZ': rng.choice(['UTC', 'Asia/Tokyo']),
                'PYTHONOPTIMIZE': rng.choice(['', '1', '2']),
                'PYTHONMALLOC': rng.choice(['', 'malloc', 'debug']),
                'PYTHONUTF8': rng.choice(['', '0', '1']),
                'HOME': rng.choice(['/', '/nonexistent', '/root'])}
        return sc

    def execute(self, sc, ctx):
        ctx.sim_time += world.span_seconds(
            world.table(sc['data']['rows'], sc['cfg']))
        for k, v in sc['env'].items():
            ctx.count(('fault:%s %s' % (k, v if isinstance(v, str)
                                        else '')).strip())
        ctx.log(str(sorted(sc['env'].items())), str(sc['fresh']),
                len(sc['before']), sc['thread'], len(sc['data']['rows']))
        ref = pristine(envrun.everything, sc)
        if isinstance(ref, Failed):
            ctx.violate('the clean run raised', '%s\n%s' % (ref, ref.tb))
        if sc['before']:
            ctx.count('fault:simulations before', len(sc['before']))
        if sc.get('many') is not None:
            ctx.count('fault:many simulations in between', sc['many']['n'])
        if sc['fresh'] is not None:
            ctx.count('fault:new process')
            got = self.fresh(sc)
        else:
            got = self.here(sc, ctx)
        ctx.count('op:repeated simulation')
        if isinstance(got, SutError):
            ctx.violate('raised in another environment', '%s (%s): %s at '
                        '%s' % (sc['env'], sc['fresh'], got,
                                where(got.exc)))
        d = world.difference(got, ref)
        ctx.check(d is None, 'differs in another environment',
                  '%s %s: %s' % (sc['env'], sc['fresh'] or '', d))

    def here(self, sc, ctx):
        box = []

        def go():
            with envrun.ambient(sc['env']):
                attempt(envrun.history, sc)
                attempt(envrun.stream, sc)
                box.append(attempt(envrun.everything, sc))
        if sc['thread']:
            ctx.count('fault:not in the main thread')
            th = threading.Thread(target=go)
            th.start()
            th.join()
        else:
            go()
        return box[0]

    @staticmethod
    def fresh(sc):
        over = {k: v for k, v in sc['fresh'].items() if v != ''}
        env = boot.child_env(**over)
        env['PYTHONPATH'] = boot.VERIF
        with tempfile.TemporaryDirectory() as tmp:
            env['MPLCONFIGDIR'] = tmp
            p = subprocess.run(
                [boot.PYTHON, '-m', 'sim.envrun'], env=env, cwd='/',
                input=pickle.dumps(sc), stdout=subprocess.PIPE,
                stderr=subprocess.PIPE)
        out = p.stdout
        if b'RESULT' not in out:
            return SutError(RuntimeError('process ended with %s: %s' % (
                p.returncode, p.stderr[-1500:])))
        ok, v = pickle.loads(out[out.index(b'RESULT') + 6:])
        return v if ok else SutError(RuntimeError(v))

    def shrinks(self, sc):
        if sc['before']:
            yield dict(sc, before=[])
            if len(sc['before']) > 1:
                yield dict(sc, before=sc['before'][:1])
        if sc.get('many') is not None:
            yield dict(sc, many=None)
            if sc['many']['n'] > 1:
                for n in (sc['many']['n'] // 2, sc['many']['n'] - 1):
                    yield dict(sc, many=dict(sc['many'], n=n))
        if sc['fresh'] is not None:
            yield dict(sc, fresh=None)
            for k in sc['fresh']:
                if sc['fresh'][k] != '' and k != 'PYTHONHASHSEED':
                    yield dict(sc, fresh=dict(sc['fresh'], **{k: ''}))
        for k in sc['env']:
            yield dict(sc, env={a: b for a, b in sc['env'].items()
                                if a != k})
        for k in ('rho', 'functional', 'thread'):
            if sc[k]:
                yield dict(sc, **{k: False})
        if len(sc['modes']) > 1:
            for m in sc['modes']:
                yield dict(sc, modes=[m])
        for d in bench.shrink_data(sc['data']):
            yield dict(sc, data=d)
        for cfg in world.shrink_config(sc['cfg']):
            if all(bench.fits_cfg(m, cfg) for m in sc['modes']):
                yield dict(sc, cfg=cfg)


PROPERTY = C13()
