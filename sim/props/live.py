"""C15: bounded progress once faults stop, for devices which respond nearly linearly."""
import random

from .. import gen
from ..clock import CLOCK, MONO0
from ..driver import Driver
from .core import shrink as core_shrink


def tame(cfg, rng):
    """Keeps to the conditions under which progress is promised: measurements are precise enough for the tolerances, the step
    widths of the gradient estimation and the demanded accuracy of the gradients; the sensing dot can be optimised."""
    scale = cfg['scale']
    if any(g.get('maxstep') is None for g in cfg['groups'] if g['kind'] == 'newton'):
        # a group with limited steps takes arbitrarily long to return from where a group with unlimited ones went
        for g in cfg['groups']:
            if g['kind'] == 'newton':
                g['maxstep'] = None
    for g in cfg['groups']:
        if g['kind'] == 'sensing':
            for t in g['target'].values():
                if 'minimum' in t:
                    t['cost_threshold'] = t['minimum']
            continue
        for p, t in g['target'].items():
            par = cfg['params'][p]
            par.pop('fail', None)
            par.pop('nl', None)
            if 'desired' not in t:
                par.pop('sigma', None)
            tol = t.get('tolerance', 0.01) * t.get('factor', 1.)
            if par.get('sigma'):
                par['sigma'] = gen.r3(min(par['sigma'], 0.01 * tol))
            par['var'] = gen.r3(par.get('sigma', 1e-5) ** 2)
            e = g['est'][p]
            if 'share' in e:
                continue
            # the change of the parameter by a step of the gradient estimation has to be visible
            step = min(e['eps'], g['maxstep'] or 1e300)
            if e['kind'] != 'kalman' and par.get('sigma') and par['sigma'] > 0.03 * step / scale:
                par['sigma'] = gen.r3(0.03 * step / scale)
                par['var'] = gen.r3(par['sigma'] ** 2)
            if e['kind'] == 'kalman':
                # variance of a slope measured with this step width
                best = 30 * par['var'] / t.get('factor', 1.) ** 2 / step ** 2
                if min(e['maxcov'].values() if isinstance(e['maxcov'], dict) else [e['maxcov']]) < best:
                    c = max(max(r) for r in e['cov0'])
                    e['maxcov'] = c * 1e4
    return cfg


def bound(cfg, v, scale):
    """Iterations which are allowed after the last fault: almost three times the largest number seen (440 in 10000 scenarios)."""
    return 1200


class FdWatch:
    """Notices finite differences whose points were measured at different voltages of the gates of other groups."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.seen = {gi: [] for gi, g in enumerate(cfg['groups']) if any(e.get('kind') in ('fd', 'fds', 'self', 'selfs') for e in g.get('est', {}).values())}
        self.tainted = set()

    def step(self, op, pre, d):
        for gi, seen in self.seen.items():
            if op['op'] in ('manual', 'restart', 'resume_old'):
                seen.clear()
            was = [e['est'] is None for e in pre['groups'][gi]['est']]
            now = [e['est'] is None for e in d.snap['groups'][gi]['est']]
            if op['op'] == 'iterate' and pre['index'] == gi and any(was):
                gates = set(self.cfg['groups'][gi]['gates'])
                seen.append({g: x for g, x in d.exp.v.items() if g not in gates})
                if any(a and not b for a, b in zip(was, now)) and any(x != seen[0] for x in seen):
                    self.tainted.add(gi)


class Module:
    SECONDS = dict(quick=28, thorough=1200, shrink=60)
    PROBES = {'C15': ['completed', 'faults before', 'completed after a change of targets']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C15-%d' % seed)
        o = dict(easy=True, nl=0, p=dict(exc=0.6, nan=0.6, manual=0.5, retarget=0.5, resume=0.5, old=0.4))
        cfg = tame(gen.gen_cfg(rng, o), rng)
        o['n'] = rng.choice([5, 15, 30, 60])
        fd = [p for g in cfg['groups'] for p, e in g.get('est', {}).items() if e.get('kind') in ('fd', 'fds', 'selfs')]
        if any(cfg['params'][p].get('sigma') for p in fd):
            # failed evaluations halve voltage steps, also the steps of finite differences, down to the noise
            if rng.random() < 0.5:
                o['off'] = ['nan']
            else:
                for p in fd:
                    cfg['params'][p].pop('sigma', None)
        ops = gen.gen_ops(rng, cfg, o)
        for op in ops:
            for ch in op.get('changes', ()):
                if 'minimum' in ch:
                    # above the threshold the cheap measurement is trusted; below the minimum the dot is not tuned
                    ch['cost_threshold'] = dict(ch['minimum'])
        return {'cfg': cfg, 'ops': ops}

    def execute(self, sc):
        d = Driver(sc['cfg'], shadow=False)
        fd = FdWatch(sc['cfg'])

        def step(i, op):
            pre = d.snap
            d.step(i, op)
            fd.step(op, pre, d)
        for i, op in enumerate(sc['ops']):
            step(i, op)
            if d.dead:
                return self.end(d, fd)
        faults = sum(d.res.faults.values())
        n = 0
        limit = bound(sc['cfg'], None, None)
        while not d.snap['complete'] and n < limit and not d.dead:
            step(len(sc['ops']) + n, {'op': 'iterate'})
            n += 1
        if not d.snap['complete'] and not d.dead:
            d.bad('C15', 'no-progress', 'the tuning is not complete %d iterations after the last of %d faults (group %d)' % (
                n, faults, d.snap['index']))
        res = self.end(d, fd)
        res.extra = {'iterations_after_the_last_fault': n}
        res.n = n
        if d.snap['complete']:
            res.probes['completed'] = 1
            if faults:
                res.probes['faults before'] = 1
            if res.faults.get('retarget'):
                res.probes['completed after a change of targets'] = 1
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def end(self, d, fd):
        res = d.finish()
        if fd.tainted:
            res.probes['finite differences over different voltages of other groups'] = 1
            res.violations = [(p, 'fd-over-moved-groups' if p in ('C15', '*') else k, m) for p, k, m in res.violations]
        return res

    def nontrivial(self, sc, res):
        return bool(res.faults) and bool(res.probes.get('completed'))

    def shrink(self, sc):
        for c in core_shrink(sc):
            # only the operations: another device need not satisfy the assumptions
            if c['cfg'] == sc['cfg']:
                yield c

    def info(self, prop):
        return dict(
            rule='a run is a random tuning of a device with linear response, noise below 1% of the tolerance and step widths of '
                 'the gradient estimation above the noise; after a random history of up to 60 operations with faults the faults '
                 'stop and the tuning has to be complete within a bounded number of iterations; runs are distinct if the trace '
                 'of operations, states and voltages differs; non-trivial if at least one fault was injected before completion',
            measure='(operation, group, status, pending, complete, exception, failed groups)',
            real=['qtune.autotuner', 'qtune.parameter_tuner', 'qtune.solver', 'qtune.gradient', 'qtune.kalman_gradient',
                  'qtune.storage (to_hdf5/from_hdf5)', 'filterpy', 'h5py in memory'],
            stub=['experiment (simulated instruments with faults)', 'evaluators (return simulated parameters)', 'clock',
                  'background writer (not used: no storage path)'],
            assumptions=['devices outside the stated class (non-linear, noisy, sensing dots whose cheap measurement does not show '
                         'the optimum) are not covered', 'sampled, not exhaustive: a clean batch is evidence, no proof'])
