"""Command line: run, replay or self-test the check of one property.

  python -m sim.check C01                  quick or thorough ($VERIF_TIER)
  python -m sim.check C01 --replay FILE    execute a replay file
  python -m sim.check C01 --digest N       event log digests of N scenarios
"""
from sim import boot  # noqa: first
import sys

if __name__ == '__main__':
    boot.reexec_if_needed()

import argparse
import gc
import importlib
import json
import os
import subprocess
import time

REAL_TIME = time.monotonic


def load(prop_id):
    """Import the code under test behind its seams, then the property."""
    boot.prepare()
    from sim import seams
    seams.install()
    mod = importlib.import_module('sim.props.%s' % prop_id.lower())
    prop = mod.PROPERTY
    if prop.NEEDS_PVFACTORS:
        import pvfactors.run  # noqa
        boot.check_origin()
        boot.import_all()
        from sim import users
        users._classes()
    prop.setup()
    gc.collect()
    gc.freeze()
    return prop


def replay(prop, path, quiet=False):
    from sim import core
    with open(path) as f:
        rep = json.load(f)
    hangs = rep['expect']['kind'] == 'no progress'
    out = core.run_isolated(prop, rep['scenario'],
                            prop.TIMEOUT * (1 if hangs else 3))
    v = core.verdict(prop, out)
    same = v is not None and v[0] == 'violation'
    exact = same and v[1] == rep['expect']['kind'] \
        and out['log'] == rep['expect']['log']
    print('replay: %s' % (
        'not reproduced (%s)' % (out['status'],) if not same else
        '%s: %s%s' % (v[1], out['detail'],
                      '' if exact else ' [differs from the recorded run]')))
    if out['status'] == 'error':
        print(out['detail'])
        return 2, exact
    if same:
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1, exact
    return 0, exact


def fresh_replay(prop_id, path, timeout):
    """Replay in a new process; (reproduced, exactly)."""
    try:
        p = subprocess.run([sys.executable, '-m', 'sim.check', prop_id,
                            '--replay', path], cwd=boot.VERIF,
                           env=boot.child_env(VERIF_REPO=boot.REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=max(timeout, 1.))
    except subprocess.TimeoutExpired:
        return False, False
    return p.returncode == 1, p.returncode == 1 \
        and 'differs from the recorded' not in p.stdout


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--digest', type=int)
    ap.add_argument('--one', type=int)
    ap.add_argument('--n', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--all', action='store_true',
                    help='do not stop at violations')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = REAL_TIME()
    from sim import core
    prop = load(a.prop)

    if a.replay:
        return replay(prop, a.replay)[0]
    if a.one is not None:
        sc = prop.generate(core.rng_for(a.seed, prop.ID, a.one), a.one, tier)
        print(json.dumps(sc, indent=1))
        out = core.run_isolated(prop, sc, prop.TIMEOUT)
        print(out['status'], out.get('kind'), out.get('detail'))
        print(out['counts'], out['log'], out['sim_time'])
        for e in out.get('events', []):
            print('  ', e)
        return 0
    n = a.n or prop.RUNS[tier]
    wall = a.wall or prop.WALL[tier]
    print('seed %d tier %s property %s' % (a.seed, tier, prop.ID))
    print('  %s' % prop.TITLE)
    sys.stdout.flush()
    if a.digest:
        outs, bad, _ = core.run_batch(prop, a.seed, tier, a.digest, 1e6,
                                      a.workers, 10**9)
        for o in outs:
            print('%d %s %s %s' % (o['i'], o['status'], o['log'],
                                   o['shape']))
        return 0

    outs, bad, wall_run = core.run_batch(
        prop, a.seed, tier, n, wall, a.workers,
        10**9 if a.all else 2,
        None if tier == 'thorough' else t0 + 600.)
    return conclude(prop, a, tier, outs, bad, n, wall_run, t0)


def conclude(prop, a, tier, outs, bad, n, wall_run, t0):
    # a quick check must be over in 900 s
    end = t0 + (1e6 if tier == 'thorough' else 840.)
    from sim import core
    errors = [o for o in outs
              if (core.verdict(prop, o) or ('',))[0] == 'error']
    viols = [o for o in outs
             if (core.verdict(prop, o) or ('',))[0] == 'violation']
    known = core.load_known(prop.ID)
    new = []
    known_hits = {}
    for o in viols:
        sc = prop.generate(core.rng_for(a.seed, prop.ID, o['i']), o['i'],
                           tier)
        k = next((k for k in known if prop.matches_known(k, sc, o)), None)
        if k is None:
            new.append(o)
        else:
            known_hits.setdefault(k['what'], []).append(o['i'])
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))

    if a.all:
        for o in viols + errors:
            print('  run %d: %s %s %s' % (o['i'], o['status'], o['kind'],
                                          o['detail'][-1500:]))

    reported = None
    notes = []
    if new:
        o = new[0]
        sc = prop.generate(core.rng_for(a.seed, prop.ID, o['i']), o['i'],
                           tier)
        kind = core.verdict(prop, o)[1]
        print('run %d violates: %s: %s' % (o['i'], kind, o['detail']))
        sys.stdout.flush()
        small, tried, out = sc, 0, o
        if kind != 'no progress' and end - REAL_TIME() > \
                60. + 3. * o.get('took', 0.) and o.get('took', 0.) < 60.:
            small, tried = core.minimise(prop, sc, kind, 45.)
            out = core.run_isolated(prop, small, min(
                prop.TIMEOUT, end - REAL_TIME()))
        if core.verdict(prop, out) != ('violation', kind):
            small, out = sc, o
        path = core.write_replay(prop, a.seed, o['i'], small, out, sc,
                                 'minimised with %d executions' % tried)
        again, exact = fresh_replay(prop.ID, path, end - REAL_TIME())
        if not exact:
            path = core.write_replay(prop, a.seed, o['i'], sc, o, sc,
                                     'not minimised')
            again, exact = fresh_replay(prop.ID, path, end - REAL_TIME())
        print('minimised with %d executions; replay in a fresh process: %s'
              % (tried, 'exact' if exact else
                 'reproduced' if again else 'NOT reproduced'))
        notes.append('violation: %s: %s' % (kind, out['detail']))
        reported = path

    write_evidence(prop, a, tier, outs, n, wall_run, t0, new, known_hits,
                   errors, notes)
    done = len(outs)
    print('%d of %d runs, %d distinct, %d violations (%d known), '
          '%d harness errors, %.1f s' % (
              done, n, len(set(o['shape'] for o in outs)), len(viols),
              len(viols) - len(new), len(errors), REAL_TIME() - t0))
    if reported:
        print('VIOLATION property=%s replay=%s' % (prop.ID, reported))
        return 1
    if errors or bad:
        for o in errors[:3]:
            print('HARNESS ERROR run %d: %s' % (o['i'], o['detail']))
        for b in bad:
            print('HARNESS ERROR', b)
        return 2
    if done < min(n, prop.MIN_RUNS):
        print('HARNESS ERROR: only %d runs in the time allowed' % done)
        return 2
    return 0


def write_evidence(prop, a, tier, outs, n, wall_run, t0, new, known_hits,
                   errors, notes):
    from sim import core
    counts = {}
    for o in outs:
        for k, v in o['counts'].items():
            counts[k] = counts.get(k, 0) + v
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in counts.items() if k.startswith('probe:')}
    ops = {k[3:]: v for k, v in counts.items() if k.startswith('op:')}
    other = {k: v for k, v in counts.items()
             if not k.startswith(('fault:', 'probe:', 'op:'))}
    nontrivial = len(set(o['shape'] for o in outs
                         if prop.nontrivial(o)))
    samples = []
    for o in outs[:2]:
        samples.append({'run': o['i'], 'outcome': o['status'],
                        'scenario': prop.generate(
                            core.rng_for(a.seed, prop.ID, o['i']), o['i'],
                            tier)})
    sim_time = sum(o['sim_time'] for o in outs)
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(outs),
            'distinct_nontrivial': nontrivial,
            'rule': prop.RULE + ' Distinct: different sequence of simulator '
                    'events (operations and their sizes, scheduling '
                    'decisions, faults).',
            'samples': samples,
            'runs_planned': n,
            'runs_per_hour': round(len(outs) / max(wall_run, 1e-9) * 3600),
            'seeds_note': 'every run has its own seed, derived from '
                          'VERIF_SEED and the run number',
            'simulated_seconds': round(sim_time, 3),
            'simulated_time_note': prop.TIME_NOTE,
            'simulator_events': sum(o['n_events'] for o in outs),
            'faults_fired': faults,
            'operations': ops,
            'rare_conditions_reached': probes,
            'other_counts': other,
            'distinct_interleavings': len(set(o['shape'] for o in outs)),
            'distinct_logs': len(set(o['log'] for o in outs)),
            'real_components': prop.REAL,
            'stub_components': prop.STUBS,
            'harness_errors': len(errors),
            'known_finding_runs': {k: len(v) for k, v in
                                   known_hits.items()},
            'notes': notes,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(REAL_TIME() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(core.EVIDENCE, exist_ok=True)
    tmp = os.path.join(core.EVIDENCE, '.%s.tmp' % prop.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(core.EVIDENCE, '%s.json' % prop.ID))


if __name__ == '__main__':
    sys.exit(main())
