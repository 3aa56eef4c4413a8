#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
T = 'deterministic simulation with fault injection: seeded search over '
NOTE = (' Seeded exploration, not proof: it holds on every simulated run of the check; a failure is replayed exactly '
        'from its minimised plan file.')
claimed = {
 'T01': (T + 'time zones, start instants and schedules against a minute-by-minute reference calendar',
         'Real crond and parser code; simulated time zone and clock.'),
 'T02': (T + 'crashes, restarts, clones, clock jumps and interleavings of schedule iterators',
         'Real crond and parser code; the daemon and its durable record are harness code.'),
 'T03': (T + 'bounded windows, offset changes and clones with a work budget for termination',
         'Real crond and parser code; endless work is detected by a budget of time-zone queries proportional to the window.'),
 'T04': (T + 'torn, corrupted and mistyped schedule lines with an independent reader as oracle',
         'Real crond and parser code; where the grammar tolerates a trailing separator the reference does too.'),
}
na = {
 'U01': 'Pure function of one input: parsing and printing a URI involves no concurrency, time, I/O or other party, so there is no schedule or fault to simulate.',
 'G01': 'Algebraic laws of pure combinators: no schedule, clock, I/O or fault enters; an input-space question.',
 'G02': 'Bounds and associativity of pure combinators over one input: nothing nondeterministic to control.',
 'G03': 'Character-class membership is a finite pure function; simulation adds nothing.',
 'C01': 'Language membership of one text: pure; what faults do to schedule lines is claimed as T04.',
 'K01': 'Merge semantics of a document text are a pure function; what I/O, processes and time do to it is claimed as H01-H09.',
 'K02': 'Number and duration conversion is pure arithmetic.',
 'L01': 'The toy interpreter is single-threaded, without I/O or time: its semantics are a pure function of the program.',
}
extra = f'{root}/tools/claims.json'
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        claimed[k] = (T + v[0], v[1])
checks = []
for p in props:
    i = p['id']
    if i in claimed:
        t, n = claimed[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} --tier quick',
                       'thorough_cmd': f'./check.sh {i} --tier thorough',
                       'technique': t, 'level': 'exploration', 'level_note': n + NOTE})
    elif i not in na:
        na[i] = 'The simulation scenario of this property is not built yet.'
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': na[p['id']]} for p in props if p['id'] in na]}
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
