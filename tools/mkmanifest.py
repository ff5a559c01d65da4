"""Write MANIFEST.json from properties.jsonl and the check modules.

Run from /verif: /opt/venv/bin/python tools/mkmanifest.py"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.getcwd())
PY = '/opt/venv/bin/python'

TECH = {
    'C01': 'deterministic simulation of the process pool: seeded placement, '
           'completion order and clock; parallel against serial run',
    'C02': 'deterministic simulation with fault injection: worker kills, '
           'start failures, raising tasks, unsendable results, interrupts',
    'C03': 'deterministic simulation of the process pool with recorded '
           'build and merge histories',
    'C04': 'simulated operation histories on shared, long-lived objects '
           'against freshly built objects',
    'C05': 'fault injection at seeded executed lines and calls of fits and '
           'runs, then recovery against fresh objects',
    'C06': 'seeded thread schedules at line granularity against runs alone',
    'C07': 'simulated operation histories with injected faults; checksums '
           'of caller data and of results handed out',
    'C08': 'simulated histories of observers interleaved with fits and '
           'runs; snapshots against the series, later runs against '
           'unobserved runs',
    'C09': 'simulated edit histories against an interval reference model',
    'C10': 'simulated histories of shared engines; solution invariants '
           'checked after every run',
    'C11': 'simulated delivery: batches, reordering, duplication, replay '
           'and restarts against single-step runs',
    'C12': 'fault injection into the input feed; unaffected steps against '
           'the clean run',
    'C13': 'seeded process environments: poisoned memory, hash seed, '
           'collector, clock, random state, locale, history',
    'C14': 'fault injection into imports, library loading and the version '
           'lookup subprocesses',
    'C15': 'simulated histories with copies, pickled checkpoints and '
           'crashes; continuations on both sides against fresh objects',
    'C16': 'long simulated streams of work with faults; resources counted '
           'after every block',
    'C17': 'simulated histories with injected faults under ambient states '
           'set by the user; process state compared around every operation',
    'C18': 'seeded nesting of simulations inside the callbacks of others, '
           'faults included; each against itself alone',
}

NOTE = ('Sampled, not enumerated: a pass says that no violation was found '
        'in the seeded runs counted in the evidence file. Trusts the '
        'simulator (sim/seams.py), numpy, pandas, pvlib, shapely and the '
        'stated tolerances. ')

EXTRA = {
    'C01': 'The serial run is the reference: errors that hit both alike '
           'are not seen here.',
    'C02': 'What the standard pools do when a worker dies is modelled after '
           'CPython 3.12.',
    'C04': 'Fresh objects are the reference.',
    'C10': 'Checks the published solution against its own equations, not '
           'against measurements.',
    'C12': 'Clean steps of the same series are the reference.',
    'C15': 'Fresh objects are the reference. Copies of 2D snapshots are '
           'not claimed.',
    'C16': 'Growth that continues through every block counts as unbounded; '
           'memory allocated inside GEOS is not seen.',
    'C17': 'Covers the states listed in sim/ambient.py.',
    'C18': 'Each simulation alone, in a pristine process, is the reference.',
}


def main():
    props = [json.loads(s) for s in open('properties.jsonl')]
    reasons = json.load(open('tools/not_applicable.json'))
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in reasons:
            na.append({'property': pid, 'reason': reasons[pid]})
            continue
        if not os.path.exists('sim/props/%s.py' % pid.lower()):
            na.append({'property': pid, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': '%s -m sim.check %s' % (PY, pid),
            'thorough_cmd': 'VERIF_TIER=thorough %s -m sim.check %s' % (
                PY, pid),
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid],
            'level': 'exploration',
            'level_note': NOTE + EXTRA.get(pid, '')})
    man = {'version': 1,
           'setup_cmd': '%s -c "import numpy, pandas, pvlib, shapely"' % PY,
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is a standard library '
                    'name replaced before the package is imported.'}
    with open('MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
