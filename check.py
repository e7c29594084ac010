#!/usr/bin/env python3
"""check.py --property C01 [--tier quick|thorough] [--seconds S] [--jobs N]    decides one property by seeded simulation
check.py --replay FILE                                                      runs a recorded scenario again
check.py --selftest N                                                       runs N scenarios per module twice and compares"""
import argparse
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--max-runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int)
    ap.add_argument('--only')
    a = ap.parse_args()
    from sim import boot
    boot.ensure_env([os.path.abspath(__file__)] + sys.argv[1:])
    try:
        boot.boot()
        from sim import runner
        if a.replay:
            import tempfile
            tmp = None
            if not os.environ.get('VERIF_SCRATCH') or not os.path.isdir(os.environ['VERIF_SCRATCH']):
                tmp = tempfile.mkdtemp(prefix='verif_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
                os.environ['VERIF_SCRATCH'] = tmp
            try:
                path = os.path.abspath(a.replay)
                doc, out = runner.replay_file(path)
            finally:
                if tmp:
                    shutil.rmtree(tmp, ignore_errors=True)
            if out is None:
                print('HARNESS ERROR: the replay failed')
                return 2
            for v in out:
                print('  [%s] %s' % (v[1], v[2]))
            if any(v[1] == doc['kind'] for v in out):
                print('VIOLATION property=%s replay=%s' % (doc['property'], path))
                return 1
            print('the recorded violation (%s) does not occur' % doc['kind'])
            return 0
        if a.selftest:
            from sim import selftest
            return selftest.main(a.selftest, a.only)
        return runner.main(a.property, a.tier, a.seed, a.seconds, a.jobs, a.max_runs)
    finally:
        boot.remove_tmp()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 2)
