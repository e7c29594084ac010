"""Every execution has to be a pure function of its seed: runs scenarios in one process, in another one in reverse order and in a third
one with another hash seed, and compares traces, verdicts and counters."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import registry, runner

BASE = 100000000


def child(spec):
    prop, n, order = spec.split(':')
    mod = registry.module(prop)
    runner.scratch()
    seeds = list(range(BASE, BASE + int(n)))
    out = {}
    for s in seeds if order == 'up' else reversed(seeds):
        res = runner.run_one(mod, mod.generate(s))
        out[s] = [res.digest, res.steps, sorted(res.probes.items()), sorted(res.faults.items()), [list(v[:2]) for v in res.violations]]
    d = runner.SCRATCH[1]
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    print('\nSELFTEST ' + json.dumps(out, sort_keys=True))
    return 0


def main(n, only):
    if only and only.startswith('@'):
        return child(only[1:])
    props = only.split(',') if only else registry.all_properties()
    bad = 0
    check = os.path.join(runner.VERIF, 'check.py')
    tmp = tempfile.mkdtemp(prefix='verif_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        for p in props:
            procs = []
            for order, seed in (('up', '0'), ('down', '0'), ('up', '7')):
                env = dict(os.environ, VERIF_HASHSEED=seed, VERIF_SCRATCH=tmp)
                for k in ('PYTHONHASHSEED',):
                    env.pop(k, None)
                procs.append(subprocess.Popen([sys.executable, check, '--selftest', str(n), '--only', '@%s:%d:%s' % (p, n, order)], env=env,
                                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
            outs = []
            for q in procs:
                o, e = q.communicate()
                line = [x for x in o.splitlines() if x.startswith('SELFTEST ')]
                outs.append(json.loads(line[-1][9:]) if line else None)
                if not line:
                    print(p, 'no answer:', e[-500:])
            if None in outs:
                bad += 1
                continue
            diff = [s for s in outs[0] if outs[0][s] != outs[1].get(s)]
            hashed = [s for s in outs[0] if outs[0][s] != outs[2].get(s)]
            print('%s: %d scenarios, %d differ in another order and process %s, %d with another hash seed %s' % (
                p, len(outs[0]), len(diff), diff[:5], len(hashed), hashed[:5]), flush=True)
            bad += bool(diff)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0
