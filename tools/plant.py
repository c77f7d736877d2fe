#!/usr/bin/env python3
"""tools/plant.py ID... [--checks C01,C02|own|all] [--no-tests]: applies each seeded change to a scratch copy of /repo,
confirms that its demonstration passes without and fails with it, that the existing tests pass with it, and runs checks."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def prepare(i, tests):
    d = os.path.join(ROOT, 'seeded', i)
    tmp = tempfile.mkdtemp(prefix='plant_' + i + '_')
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    demo = os.path.join(tmp, 'demo')
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    msgs = []
    rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, timeout=300)
    if rc != 0:
        msgs.append('demo fails on the unchanged tree: ' + out[-800:])
    rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
    if rc != 0:
        msgs.append('patch does not apply: ' + out)
    rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, timeout=300)
    if rc == 0:
        msgs.append('demo passes with the patch')
    if tests:
        rc, out = sh([PY, '-m', 'pytest', '-q', '-o', 'addopts=', '-p', 'no:cacheprovider', '--timeout=300', '-x', 'tests'], repo)
        if rc != 0:
            msgs.append('tests fail: ' + out[-1500:])
    return tmp, repo, msgs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--seed', default='1')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with cf.ThreadPoolExecutor(6) as ex:
        prepared = list(ex.map(lambda i: prepare(i, not a.no_tests), ids))
    for i, (tmp, repo, msgs) in zip(ids, prepared):
        prop = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))['property']
        if a.checks == 'own':
            checks = [prop]
        elif a.checks == 'none':
            checks = []
        elif a.checks == 'all':
            checks = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
        else:
            checks = a.checks.split(',')
        print('{} ({}): {}'.format(i, prop, 'valid' if not msgs else ' | '.join(msgs)))
        for c in checks:
            rc, out = sh([PY, 'check.py', c, '--seed', a.seed], ROOT, {'VERIF_REPO': repo})
            lines = out.strip().splitlines()
            what = [ln for ln in lines if not ln.startswith(c + ' quick')]
            print('   {} -> exit {} {}'.format(c, rc, ' / '.join(what)[:400] if rc else ''))
            sys.stdout.flush()
        shutil.rmtree(tmp)


main()
