"""Writes /verif/evidence/<id>.json from what the workers counted."""
import os
import json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULE = ('A run is one scenario generated from one integer (schemas, values, operations, user-code faults, re-entrant '
        'programs, interrupts, thread schedule), executed once in its own process. It is non-trivial if at least one '
        'fault or re-entrant program actually fired or at least one thread switch took place; two runs are the same '
        'if their outcome counts, fired fault kinds, number of scheduling points and interleaving (hash of the '
        'sequence of switches and where they happened) are equal.')
REAL = ['oblate (all of /repo/oblate, from the working tree)', 'CPython contextvars, copy, warnings, typing']
STUB = ['thread scheduling (seeded cooperative scheduler)', 'threading.Lock/RLock (simulated locks)',
        'user code: fields, validators, defaults, hooks, data mappings (scripted by the scenario)']


def write(pid, seed, tier, outs, wall, nviol):
    import props
    c, maps = {}, {}
    shapes, sigs, nontriv = set(), set(), set()
    for d in outs:
        for k, v in d['agg']['c'].items():
            c[k] = c.get(k, 0) + v
        for m, kv in d['agg']['maps'].items():
            for k, v in kv.items():
                maps.setdefault(m, {})
                maps[m][k] = maps[m].get(k, 0) + v
        shapes.update(d['agg']['shapes'])
        sigs.update(d['agg']['sigs'])
        nontriv.update(d['agg']['nontrivial'])
    runs = c.get('runs', 0)
    samples = [d['sample'] for d in outs if d.get('sample')][:2]
    if not samples:
        samples = [{'note': 'no sample was recorded'}]
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(nontriv),
        'rule': RULE,
        'samples': samples,
        'seeds': runs,
        'runs_per_hour': int(runs / wall * 3600) if wall else 0,
        'processes_forked': sum(d.get('forks', 0) for d in outs),
        'simulated_time': {'scheduling_points': c.get('steps', 0),
                           'note': 'oblate reads no clock and has no timers; simulated time is counted in scheduling points'},
        'thread_switches': c.get('switches', 0),
        'multi_threaded_runs': c.get('threaded_runs', 0),
        'distinct_interleavings': len(sigs),
        'preemption_granularity_of_runs': maps.get('gran', {}),
        'schedule_policy_of_runs': maps.get('policy', {}),
        'operations_by_outcome': maps.get('ops', {}),
        'faults_injected': dict(sorted(maps.get('faults', {}).items())),
        'hash_seeds': [d['hashseed'] for d in outs],
        'real_components': REAL,
        'stubbed_components': STUB,
        'invalid_scenarios': c.get('invalid', 0),
        'disagreements_filed_under_other_properties': maps.get('other_aspects', {}),
        'truncated_by_wall_clock': any(d['truncated'] for d in outs),
    }
    if maps.get('extra'):
        cov['reached'] = dict(sorted(maps['extra'].items()))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['sampled, not exhaustive', 'CPython with the GIL; preemption between bytecodes'],
          'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
