#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property module that exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(os.path.join(ROOT, 'properties.jsonl'))]

WHAT = {
    'C01': ('faults injected at seeded instants of fit(), state observed afterwards',
            'Seeded search over fault instants, fault kinds and retraining histories; oracle: the answers before the call, those '
            'of a complete fit made in another process, or consistently untrained.'),
    'C02': ('seeded histories with faults, compared with a brand-new estimator in another process',
            'Seeded search over histories; oracle: exact equality with a fresh estimator trained once in a pristine process.'),
    'C03': ('seeded query orders with interrupts at bytecode granularity',
            'Seeded search over query sequences and interruption points; oracle: exact equality with answers asked alone.'),
    'C04': ('seeded bytecode-level interleavings of querying threads with kills',
            'Seeded search over interleavings; oracle: exact equality with every query asked alone in another process.'),
    'C05': ('seeded bytecode-level interleavings of training threads with kills',
            'Seeded search over interleavings; oracle: exact equality with an estimator trained alone in another process.'),
    'C06': ('byte-exact snapshots of caller objects checked as an invariant during simulated runs with faults',
            'Checked every few library steps while operations run, fail or are interrupted.'),
    'C07': ('the same plan under different simulated ambient states (entropy, clock, hash seed, numerical history, schedule)',
            'Oracle: exact equality of all answers, and untouched global generators at every sampled instant.'),
    'C08': ('simulated optimizers (scripted, duplicated, degenerate, stopped early, interrupted) against a reference evidence model',
            'Reference model computes the evidence of all splits independently; directions with near-ties are left out.'),
    'C09': ('simulated worker pools (threads and out-of-process copies) with kills, retries, duplicates, delays and reordering',
            'Oracle: the best score reported to the optimizer, and consistency of direction, position and recorded gain.'),
    'C10': ('refinement against an executable Bayesian reference model after seeded fault histories',
            'Reference model decides all splits of the greedy tree; near-ties within numerical tolerance are accepted either way.'),
    'C11': ('conservation and routing checked after seeded fault histories',
            'Every training row is routed by the library and accounted for against counts and posteriors recomputed independently.'),
    'C12': ('seeded batchings, orders, duplicates, concurrent requests and faults over storage formats',
            'Oracle: exact equality with the row asked alone.'),
    'C13': ('crash and restart with only saved bytes surviving, torn writes, saves during training',
            'Oracle: exact equality of answers, parameters and further training in a process that never saw the model.'),
    'C14': ('scikit-learn model selection on a simulated worker pool with worker deaths and retries',
            'Oracle: exact equality with serial evaluation in a pristine process, plus an untouched prototype.'),
    'C15': ('invalid requests injected into seeded histories of valid, failed and interrupted operations',
            'Oracle: ValueError, and exact equality of all answers and of later training with a twin that never saw the request.'),
    'C16': ('git subprocess behind a seam; seeded sequences of subprocess failures during import',
            'Oracle: import succeeds; placeholder or independently rendered version.'),
    'C17': ('step budgets, deadlock detection and progress after faults in simulated runs',
            'Bounded liveness: operations have to finish within stated numbers of library steps and evaluations.'),
    'C18': ('cross-checks of all views of one tree at every point of seeded histories',
            'Oracle: the structure read through one view recomputed from every other view.'),
}
NA = {
    'N01': 'A pure function of its argument: no schedule, time, I/O, fault or history it could depend on, so a simulation would '
           'degenerate to input sampling; statistical uniformity is not decidable per run.',
    'N02': 'A relation between the results of two pure computations on different inputs; no nondeterminism to simulate.',
    'N03': 'Numerical analysis of pure arithmetic; schedules, faults and crashes do not enter.',
    'N04': 'A deterministic number sequence; no nondeterminism to simulate, and discrepancy is a mathematical property.',
}
checks = []
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
for p in props:
    i = p['id']
    if i in NA:
        continue
    if not os.path.exists(os.path.join(ROOT, 'sim', 'props', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'The check is not built yet.'})
        continue
    checks.append({'property': i,
                   'quick_cmd': '/opt/venv/bin/python check.py {} --tier quick'.format(i),
                   'thorough_cmd': '/opt/venv/bin/python check.py {} --tier thorough'.format(i),
                   'evidence_file': 'evidence/{}.json'.format(i),
                   'technique': 'deterministic simulation with fault injection: ' + WHAT[i][0],
                   'level': 'exploration',
                   'level_note': WHAT[i][1] + '  Runs are seeded samples, not an enumeration; trusts numpy, scipy and the simulator.'})
out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py setup', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: interpreter-level instrumentation (sys.monitoring) and existing seams suffice.  '
                'Replay a violation with: /opt/venv/bin/python check.py replay <path>.  Simulator self-test: check.py selftest.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
