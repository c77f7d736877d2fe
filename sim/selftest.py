"""Determinism of the simulator: the same seeds give the same executions whatever the worker count and hash seed.

An execution is compared by its outcome, its message, the checksum over executed instructions, interleaving and events, the
number of steps and switches, and the faults that fired and where."""
import json
import os
import subprocess
import sys

from . import env, runner

VARIANTS = [('1', '0'), ('5', '0'), ('3', '12345')]


def trace(prop, seed, tier, runs, workers):
    """Prints one line of JSON with every execution."""
    mod = runner.load(prop)
    got = {}
    runner.campaign(mod, seed, tier, runs, workers, collect=got)
    print(json.dumps({str(i): [st, payload, st_.get('sig'), st_.get('steps'), st_.get('switches'), st_.get('faults'),
                               st_.get('where'), st_.get('probes')] for i, (st, payload, st_) in sorted(got.items())},
                     sort_keys=True))
    return 0


def start(prop, seeds, workers, hashseed):
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONHASHSEED', 'VERIF_PINNED')}
    e['VERIF_HASHSEED'] = hashseed
    return subprocess.Popen([sys.executable, os.path.join(env.VERIF, 'check.py'), 'trace', prop, '--runs', str(seeds),
                             '--workers', workers], env=e, cwd=env.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def main(seeds):
    props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(env.VERIF, 'sim', 'props'))
                   if f.startswith('c') and f[1:3].isdigit())
    bad = 0
    for p in props:
        ps = [start(p, seeds, *v) for v in VARIANTS]
        outs = []
        for q in ps:
            o, e = q.communicate(timeout=800)
            try:
                outs.append(json.loads(o.decode().strip().splitlines()[-1]))
            except Exception:
                print('{}: no trace: {}'.format(p, (o + e).decode(errors='replace')[-1500:]))
                outs.append(None)
        diff = [i for i in (outs[0] or {}) if any(o is None or o.get(i) != outs[0][i] for o in outs[1:])]
        ok = outs[0] is not None and not diff
        print('{}: {} executions x {} variants {}'.format(p, len(outs[0] or {}), len(VARIANTS),
                                                         'identical' if ok else 'DIFFER at {}'.format(diff[:5])))
        for i in diff[:2]:
            for o in outs:
                print('   ', json.dumps((o or {}).get(i))[:600])
        sys.stdout.flush()
        bad += not ok
    return 1 if bad else 0
