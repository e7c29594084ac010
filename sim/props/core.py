"""Properties of the tuning loop which are judged step by step by the reference model."""
import copy
import random

from .. import gen
from ..driver import Driver
from ..runner import ddmin

OPTIONS = {
    'C01': dict(easy=0.8, n=[60, 120], off=[], force=['retarget'], p=dict(exc=0.4, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C02': dict(easy=0.6, n=[30, 60, 90], groups=[2, 2, 3], p=dict(exc=0.5, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C03': dict(n=[30, 60], groups=[1, 2, 2, 3], wide=0.6, explore=0.6, maxstep=0.7, bad_gate=0.3, undefined=0.08,
                p=dict(exc=0.3, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C04': dict(n=[30, 60], maxstep=1.0, p=dict(exc=0.4, nan=0.3, manual=0.4, resume=0.5, old=0.3)),
    'C05': dict(n=[30, 60], force=['nan'], burst=0.5, fail=0.4, p=dict(exc=0.2, nan=1, manual=0.3, resume=0.3, old=0.2)),
    'C07': dict(n=[30, 60], force=['manual'], p=dict(exc=0.3, nan=0.4, manual=1, resume=0.2, old=0.5)),
    'C08': dict(much='retarget', n=[30, 60], force=['retarget'], p=dict(exc=0.3, nan=0.3, manual=0.3, resume=0.3, old=0.2)),
    'C09': dict(n=[30, 60, 90], quantum=0.7, p=dict(exc=0.3, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C10': dict(n=[30, 60], sensing=1.0, levels=0.4, optfactor=0.5, p=dict(exc=0.3, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C12': dict(n=[30, 60], explore=0.1, p=dict(exc=0.3, nan=0.4, manual=0.4, resume=0.3, old=0.2)),
    'C13': dict(n=[30, 60], groups=[1, 2, 2, 3], explore=0.7, kinds=['kalman'] * 6 + ['self', 'selfs'], share=0.5,
                p=dict(exc=0.3, nan=0.4, manual=0.5, resume=0.3, old=0.3)),
    'C14': dict(n=[30, 60], varmod=0.5, kinds=['fd', 'fds', 'self', 'selfs'], noise=0.2, nl=0.05,
                p=dict(exc=0.4, nan=0.5, manual=0.5, resume=0.4, old=0.3)),
}

NONTRIVIAL = {
    'C01': ('completed',), 'C02': ('set',), 'C03': ('compute',), 'C04': ('step cut to the maximal size',),
    'C05': ('recovery step',), 'C07': ('restart',), 'C08': ('retarget',), 'C09': ('first value after (re)start', 'group tuned'),
    'C10': ('expensive measurement', 'sensing tuned'), 'C12': ('step newton',), 'C13': ('kalman update',),
    'C14': ('finite differences completed',),
}

PROBES = {
    'C01': ['completed', 'group tuned', 'sensing tuned', 'retarget', 'restart', 'reload', 'desired value given', 'desired value withdrawn'],
    'C02': ['set', 'compute', 'exception after effect'],
    'C03': ['step explore', 'unmeasured slice', 'recovery step', 'unknown gate refused', 'undefined voltage read', 'undefined voltage refused'],
    'C04': ['step cut to the maximal size', 'unmeasured slice'],
    'C05': ['failed measurement', 'recovery step', 'failed sensing measurement'],
    'C10': ['signal at a threshold', 'expensive measurement', 'sensing tuned', 'failed sensing measurement'],
    'C12': ['step newton'], 'C13': ['kalman update', 'step explore', 'first value after (re)start'],
    'C14': ['finite differences completed', 'finite differences compared with the true gradient',
            'finite differences: point measured again'],
}


class Module:
    SECONDS = dict(quick=28, thorough=1200, shrink=40)
    PROBES = PROBES

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('%s-%d' % (self.prop, seed))
        o = dict(OPTIONS[self.prop])
        # one third of the runs is unbiased
        if rng.random() < 0.33:
            o = dict(p=o['p'], n=[15, 30, 60], easy=0.5)
        o['easy'] = rng.random() < o.get('easy', 0.4)
        if self.prop == 'C12' and seed % 5 == 0:
            o['units'] = 2.5                # parameters of very different size
        if 'groups' in o:
            o['groups'] = rng.choice(o['groups'])
        cfg = gen.gen_cfg(rng, o)
        o['n'] = rng.choice(o['n'])
        sc = {'cfg': cfg, 'ops': gen.gen_ops(rng, cfg, o)}
        if rng.random() < o.get('bad_gate', 0):
            sc['unknown'] = gen.gen_unknown(rng, cfg)
        elif rng.random() < o.get('undefined', 0):
            sc['undefined'] = dict(gates=rng.sample(cfg['gates'], rng.choice([1, 1, len(cfg['gates'])])), at=rng.randrange(12), n=rng.choice([1, 1, 2, 5]), resume=rng.random() < 0.2)
        return sc

    def execute(self, sc):
        if sc.get('unknown'):
            from .unknown import run_unknown
            return run_unknown(sc)
        if sc.get('undefined'):
            from .unknown import run_undefined
            return run_undefined(sc)
        d = Driver(sc['cfg'])
        res = d.run(sc['ops'])
        from ..clock import CLOCK, MONO0
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return any(res.probes.get(p) for p in NONTRIVIAL[self.prop]) or bool(sc.get('unknown') or sc.get('undefined'))

    def shrink(self, sc):
        return shrink(sc)

    def info(self, prop):
        return dict(
            rule='a run is a random tuning (1-3 gradient groups, optionally a sensing dot group; Kalman, finite difference and '
                 'self-initialising gradients; size-limited steps, noise, quantised gates) driven by a random sequence of '
                 'iterations, instrument exceptions, failed measurements, manual changes, changes of targets, saves, reloads '
                 'and crashes; runs are distinct if the trace of operations, states and voltages differs; non-trivial if one of '
                 'the conditions %s occurred' % (NONTRIVIAL[prop],),
            measure='(operation, group, status, pending, complete, exception, failed groups)',
            real=['qtune.autotuner', 'qtune.parameter_tuner', 'qtune.solver', 'qtune.gradient', 'qtune.kalman_gradient',
                  'qtune.storage (to_hdf5/from_hdf5)', 'filterpy', 'h5py in memory'],
            stub=['experiment (simulated instruments with faults)', 'evaluators (return simulated parameters)', 'clock',
                  'background writer (not used: no storage path)'],
            assumptions=['the reference model in sim/shadow.py states the property correctly',
                         'sampled, not exhaustive: a clean batch is evidence, no proof'])


def shrink(sc):
    ops = sc['ops']

    def with_ops(o):
        c = dict(sc)
        c['ops'] = o
        return c
    yield from ddmin(ops, with_ops)
    for i, op in enumerate(ops):
        for key in ('faults', 'nans'):
            if op.get(key):
                o = dict(op)
                del o[key]
                yield with_ops(ops[:i] + [o] + ops[i + 1:])
        if op['op'] == 'manual' and len(op['dv']) > 1:
            for g in op['dv']:
                o = dict(op, dv={k: x for k, x in op['dv'].items() if k != g})
                yield with_ops(ops[:i] + [o] + ops[i + 1:])
        if op['op'] == 'retarget':
            for gi, ch in enumerate(op['changes']):
                if ch:
                    o = dict(op, changes=op['changes'][:gi] + [{}] + op['changes'][gi + 1:])
                    yield with_ops(ops[:i] + [o] + ops[i + 1:])
    cfg = sc['cfg']

    def with_cfg(c):
        d = dict(sc)
        d['cfg'] = c
        return d
    if len(cfg['groups']) > 1:
        c = copy.deepcopy(cfg)
        c['groups'].pop()
        d = with_cfg(c)
        d['ops'] = [dict(op, changes=op['changes'][:len(c['groups'])]) if op['op'] == 'retarget' else op for op in ops]
        yield d
    for key, val in (('quantum', 0), ('alias', False), ('read_order', 'as_is')):
        if cfg.get(key) != val:
            yield with_cfg(dict(cfg, **{key: val}))
    for p, d in cfg['params'].items():
        for key in ('sigma', 'nl', 'fail'):
            if d.get(key):
                c = copy.deepcopy(cfg)
                del c['params'][p][key]
                yield with_cfg(c)
    for gi, g in enumerate(cfg['groups']):
        if g['kind'] != 'newton':
            continue
        if g.get('maxstep'):
            c = copy.deepcopy(cfg)
            c['groups'][gi]['maxstep'] = None
            yield with_cfg(c)
        for p, e in g['est'].items():
            if e.get('alpha', 1.) != 1.:
                c = copy.deepcopy(cfg)
                c['groups'][gi]['est'][p]['alpha'] = 1.
                yield with_cfg(c)
