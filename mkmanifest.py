"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
DONE = os.environ.get('DONE', 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24').split()
MODEL = ('Seeded search over simulated runs: scripted user code injects failures, re-entrant operations, interrupts and '
         'thread switches (at callbacks, lines or bytecodes of oblate); every run is compared operation by operation with '
         'an independent sequential reference model. ')
TRUST = ('Sampled, not exhaustive. Trusts the reference model and harness in /verif/dst (checked against planted bugs), '
         'CPython, and that preemption happens between bytecodes of oblate or at user callbacks.')
NOTE = {
    'C01': 'Judges the whole stored state of every instance after every update that succeeds, is rejected, raises any exception or is interrupted at an arbitrary line.',
    'C02': 'Judges every read and the stored state after every operation, including interrupted assignments.',
    'C03': 'Judges the flattened report as a multiset of (path, message) against the model; the wording of the library\'s own messages is not compared.',
    'C04': 'Judges schema, key, field, context and state of every reported FieldError and of FieldErrors created by probes in every callback, with re-entrant operations in between.',
    'C05': 'Judges the context variables around every operation, after exceptions of all kinds, and that no result depends on what ran before.',
    'C06': 'Differential: each program of a run that interleaves or nests programs is compared with the same program executed alone in a fresh process; no model involved.',
    'C07': 'Judges every attempt to change frozen fields and schemas, also partial, from callbacks and on copies.',
    'C08': 'Judges copies and originals (values and context state) through histories of changes to either.',
    'C09': 'Judges dump() results, callbacks and reports under include/exclude, failing dumps and nested schemas, under a different hash seed per worker.',
    'C10': 'Judges which validators ran how often on which values, with validators registered and removed by callbacks and by another thread meanwhile.',
    'C11': 'Judges every previously defined class by its behaviour after every class-level step (definition, failing definition, copy, registration).',
    'C12': 'Judges the class of every raised validation error and every warning against the settings in force during the operation, with settings changed by other threads meanwhile.',
    'C13': 'Judges the context given to every callback: field, schema, value, state, update flag, included fields.',
    'C14': 'Judges how often and when the hooks run, initialisation state, and that input data is untouched.',
    'C15': 'Differential: construction, update and assignment of the same value compared with one another.',
    'C16': 'Linearizability of each field as a register over recorded histories of 2-4 threads preempted at bytecodes of oblate, every written value unique.',
    'C17': 'Judges every call of a default callable and the value each instance got.',
    'C18': 'Judges, for exceptions of 24 hard and 8 soft types raised in every kind of callback, what reaches the caller.',
    'C19': 'Differential: every validation of a history (concurrent, re-entrant, after failures) compared with the same validation alone in a fresh process.',
    'C20': 'Differential: every verdict of a shared validator or field (concurrent, re-entrant, after aborts) compared with that of a fresh one alone in a fresh process.',
    'C21': 'Differential: an Object field compared with constructing the nested schema directly, in construction, update, assignment and dump.',
    'C22': 'After every run everything the caller had is dropped, the collector runs, and whatever instance, value, context or error of the run is still alive is reported.',
    'C23': 'Liveness under stalls: a callback stalls until all other threads are done or stalled too; a run without progress, or an operation that ends otherwise than the model says, is reported.',
    'C24': 'Judges every repr/str of an instance - in callbacks, with values whose own repr raises, assigns or re-enters, and with concurrent writers, where the fields shown must be linearizable reads.',
}
TECH = {'C22': 'deterministic simulation with fault injection, reachability audit after quiescence',
        'C06': 'deterministic simulation, differential against solo runs',
        'C15': 'deterministic simulation with fault injection, differential between operations',
        'C16': 'deterministic simulation, linearizability checking',
        'C19': 'deterministic simulation, differential against fresh processes',
        'C20': 'deterministic simulation, differential against fresh processes',
        'C21': 'deterministic simulation with fault injection, differential against direct construction',
        'C11': 'deterministic simulation of class-definition histories, behavioural model',
        'C12': 'deterministic simulation, configuration register history checking'}
checks = []
for pid in DONE:
    checks.append({
        'property': pid,
        'quick_cmd': '%s dst/check.py %s' % (PY, pid),
        'thorough_cmd': 'VERIF_TIER=thorough %s dst/check.py %s' % (PY, pid),
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': TECH.get(pid, 'deterministic simulation with fault injection, reference model'),
        'level': 'exploration',
        'level_note': (MODEL if pid not in TECH else '') + NOTE[pid] + ' ' + TRUST,
    })
na = json.load(open(os.path.join(HERE, 'not_applicable.json')))
todo = [l for l in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))
        if l['id'] not in DONE and l['id'] not in [x['property'] for x in na]]
na += [{'property': l['id'], 'reason': 'check under construction'} for l in todo]
m = {'version': 1, 'setup_cmd': '%s dst/selftest.py' % PY, 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all seams are import-time substitutions made by /verif/dst/seams.py. '
              'Replay a violation with: %s dst/replay.py <file>.' % PY}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
