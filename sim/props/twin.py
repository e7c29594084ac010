"""C06: a tuning with instrument errors, each answered by calling again, against its twin without errors."""
import random

from .. import gen
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, load, store
from ..shadow import diff_snapshots
from ..world import INSTRUMENT
from .core import shrink as core_shrink


def effects(log):
    """What the successful call did: voltages set and measurements made."""
    out = []
    for e in log:
        if e[0] == 'set':
            out.append(('set', sorted(e[1].items()), sorted(e[3].items())))
        elif e[0] == 'measure':
            out.append(('measure', e[1], repr(sorted(e[2].items())), repr(sorted(e[3].items())), sorted(e[4].items())))
    return out


class Module:
    SECONDS = dict(quick=28, thorough=1200, shrink=40)
    PROBES = {'C06': ['retried', 'error after taking effect', 'several errors in a row', 'reload after an error',
                      'error during a measurement', 'completed']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C06-%d' % seed)
        o = dict(easy=rng.random() < 0.5, sensing=0.35,
                 p=dict(exc=0, nan=0.4, manual=0.4, retarget=0.4, resume=0, old=0))
        cfg = gen.gen_cfg(rng, o)
        o['n'] = rng.choice([15, 30, 60])
        ops = gen.gen_ops(rng, cfg, o)
        rate = rng.choice([0.1, 0.3, 0.6])
        burst = rng.choice([1, 1, 2, 5])
        for op in ops:
            if op['op'] == 'iterate' and rng.random() < rate:
                op['attempts'] = []
                for _ in range(rng.randint(1, burst)):
                    a = {'faults': [gen.gen_fault(rng)]}
                    if rng.random() < 0.15:
                        a['reload'] = True
                    op['attempts'].append(a)
            elif op['op'] in ('manual', 'restart') and rng.random() < rate:
                op['faults'] = [dict(gen.gen_fault(rng), n=1)]
        return {'cfg': cfg, 'ops': ops}

    def execute(self, sc):
        a = Driver(sc['cfg'], shadow=False)       # with errors
        b = Driver(sc['cfg'], shadow=False)       # without
        probes = {}

        def hit(p):
            probes[p] = probes.get(p, 0) + 1

        def bad(kind, msg):
            a.bad('C06', kind, msg)
        for i, op in enumerate(sc['ops']):
            plain = {k: v for k, v in op.items() if k not in ('attempts', 'faults')}
            failed = 0
            for att in op.get('attempts', ()) if not a.snap['complete'] else ():
                a.step(i, dict(plain, faults=att['faults']))
                if a.dead:
                    break
                fired = [f for f in a.exp.fired if f[0] != 'nan']
                if not fired:
                    break           # the faulty call was not reached, hence the iteration is done
                failed += 1
                hit('retried')
                if fired[0][1] == 'after':
                    hit('error after taking effect')
                if fired[0][0] == 'measure':
                    hit('error during a measurement')
                if att.get('reload'):
                    hit('reload after an error')
                    a.step(i, {'op': 'resume'})
                    if a.dead:
                        break
            else:
                a.step(i, dict(plain, faults=op.get('faults')) if op.get('faults') else plain)
            if failed > 1:
                hit('several errors in a row')
            if a.dead:
                break
            ea = effects(a.exp.log)
            b.step(i, plain)
            if b.dead:
                break
            eb = effects(b.exp.log)
            if ea != eb:
                bad('effects', 'operation %d (%s): after %d errors it did %s, without errors %s' % (i, op['op'], failed, ea, eb))
            d = diff_snapshots(a.snap, b.snap)
            if d:
                bad('state', 'operation %d (%s): after %d errors the state differs from the one without errors: %s' % (
                    i, op['op'], failed, d))
            if a.exp.v != b.exp.v:
                bad('voltages', 'operation %d (%s): after %d errors the voltages are %s instead of %s' % (
                    i, op['op'], failed, a.exp.v, b.exp.v))
            if a.res.violations or b.res.violations:
                break
        if b.res.completed:
            hit('completed')
        res = a.finish()
        res.violations += [v for v in b.res.violations if v not in res.violations]
        res.probes = probes
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return bool(res.probes.get('retried'))

    def shrink(self, sc):
        yield from core_shrink(sc)
        ops = sc['ops']
        for i, op in enumerate(ops):
            if op.get('attempts'):
                rest = [dict(op, attempts=op['attempts'][:k] + op['attempts'][k + 1:]) for k in range(len(op['attempts']))]
                for r in rest:
                    if not r['attempts']:
                        del r['attempts']
                    yield dict(sc, ops=ops[:i] + [r] + ops[i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a random tuning executed twice in lockstep: once without instrument errors and once with random errors '
                 '(six exception types, before or after the call takes effect, at any instrument call, up to five in a row, '
                 'sometimes followed by a reload) which are answered by calling again; state, voltages, settings made and '
                 'measurements used have to be identical after every operation; runs are distinct if the trace of operations, '
                 'states and voltages differs; non-trivial if at least one iteration was retried',
            measure='(operation, group, status, pending, complete, exception, failed groups)',
            real=['qtune.autotuner', 'qtune.parameter_tuner', 'qtune.solver', 'qtune.gradient', 'qtune.kalman_gradient',
                  'qtune.storage (to_hdf5/from_hdf5)', 'filterpy', 'h5py in memory'],
            stub=['experiment (simulated instruments with faults)', 'evaluators (return simulated parameters)', 'clock',
                  'background writer (not used: no storage path)'],
            assumptions=['the simulated device is deterministic: the same voltages yield the same values, so that a repeated '
                         'measurement is comparable', 'sampled, not exhaustive: a clean batch is evidence, no proof'])
