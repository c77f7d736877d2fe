#!/opt/venv/bin/python
"""check.py CNN [--tier quick|thorough] [--seed N] [--runs N] [--workers N]   check one property
check.py replay FILE                                                        re-execute a recorded violation
check.py selftest [--seeds N]                                               determinism of the simulator itself"""
import argparse
import json
import os
import sys

# The hash seed and the address space layout are ambient nondeterminism: pin them before anything else is imported.
if os.environ.get('VERIF_PINNED') != '1':
    os.environ['VERIF_PINNED'] = '1'
    os.environ['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--json', action='store_true')
    ap.add_argument('--seeds', type=int, default=40)
    a = ap.parse_args()
    try:
        from sim import runner
        if a.what == 'replay':
            r = runner.replay(a.file, quiet=a.json)
            if a.json:
                print(json.dumps(r))
            return 1 if r['status'] == 'viol' else 0 if r['status'] == 'ok' else 2
        if a.what == 'digest':
            from sim.props import c07
            return c07.digest_main(a.file)
        if a.what == 'restore':
            from sim.props import c13
            return c13.restore_main(a.file)
        if a.what == 'setup':
            from sim import core
            core.arm()
            print('{} code objects of {} instrumented'.format(len(core._points), sys.modules['sim.env'].PKG_DIR))
            return 0 if core._points else 2
        if a.what == 'selftest':
            from sim import selftest
            return selftest.main(a.seeds)
        if a.what == 'trace':
            from sim import selftest
            return selftest.trace(a.file, a.seed, a.tier, a.runs, a.workers)
        return runner.check(a.what, a.seed, a.tier, a.runs, a.workers)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
