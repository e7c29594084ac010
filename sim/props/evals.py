"""C11 and C24: evaluators of qtune on simulated scans with instrument errors at every call and scans which cannot be evaluated."""
import hashlib
import math
import random

import numpy as np
import pandas as pd

import qtune.evaluator as ev
from qtune.experiment import Measurement

from .. import gen
from ..clock import CLOCK, MONO0
from ..driver import Result, harness_error, load, store, where
from ..scans import KINDS, scan
from ..world import INSTRUMENT, SimExperiment

FITS = ('NewLoadTime', 'InterDotTCByLineScan', 'LeadTunnelTimePrefitVersion', 'LeadTunnelTimeByLeadScan')
SIMPLE = ('LeadTransition', 'SensingDot1D', 'SensingDot2D', 'SimShifting')
SHAPE = dict(NewLoadTime='load', InterDotTCByLineScan='detune', LeadTunnelTimePrefitVersion='lead',
             LeadTunnelTimeByLeadScan='lead', LeadTransition='transition', SensingDot1D='peak', SensingDot2D='peak2d')


class ScanExperiment(SimExperiment):
    """Instruments of SimExperiment, but measurements are scans; every measurement takes one entry of the plan of kinds."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.kinds = ['signal']
        self.results = []            # what the wrapped evaluators returned
        self.refused = []            # requests of set calls which failed before taking effect
        self.positions = []          # (measurement name, voltages) of the measurements
        self.count = 0

    def arm(self, faults=(), nans=(), kinds=None):
        super().arm(faults, nans)
        self.kinds = kinds or ['signal']
        self.results, self.refused, self.positions = [], [], []
        self.used = []
        self.left = False
        self.settling = None

    def read_gate_voltages(self):
        v = super().read_gate_voltages()
        if self.settling:
            # asked while the gates are still on their way
            for g, x in self.settling.items():
                v[g] = (v[g] + x) / 2
            self.settling = None
        return v

    def set_gate_voltages(self, new):
        n = len(self.log)
        before = dict(self.v)
        try:
            r = super().set_gate_voltages(new)
            if self.cfg.get('settle'):
                self.settling = before if self.v != before else None
            return r
        except INSTRUMENT:
            if len(self.log) == n:
                self.refused.append({g: float(new[g]) for g in new.index})
            raise

    def measure(self, m):
        self.calls += 1
        self.measures += 1
        self.positions.append((m.name, dict(self.v)))
        self._fault('measure', 'before')
        kind = self.kinds[(self.measures - 1) % len(self.kinds)]
        self.used.append(kind)
        self.count += 1
        data = scan(m, self.v, self.cfg['device'], kind, self.count)
        for g, x in (self.cfg.get('leaves') or {}).items():
            # the scan ends at its last point
            self.v[g] = self._quantise(self.v[g] + x)
            self.left = True
        self.log.append(('measure', m.name, dict(m.options), kind, dict(self.v)))
        self._fault('measure', 'after')
        return data


def recording(cls):
    """A subclass which notes its results."""
    def evaluate(self):
        r = cls.evaluate(self)
        self.experiment.results.append((r[0].copy(), r[1].copy(), list(self.experiment.used[-1:])))
        return r

    def to_hdf5(self):
        return cls.to_hdf5(self)
    return type('SimRec' + cls.__name__, (cls,), dict(evaluate=evaluate, to_hdf5=to_hdf5, __module__=__name__))


class SimShifting(ev.Evaluator):
    """Yields what the scan says; here for its arbitrary patterns of undefined values."""

    def __init__(self, experiment, measurements, parameters, raw_x_data=None, raw_y_data=None, name='SimShifting', n=0):
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)
        self.n = int(n)

    def evaluate(self):
        self.n += 1
        k = self.experiment.measures
        self.experiment.read_gate_voltages()
        pattern = self.experiment.cfg['pattern']
        vals = []
        for i, p in enumerate(self.parameters):
            row = pattern[k % len(pattern)]
            vals.append(math.nan if row[i % len(row)] is None else row[i % len(row)])
        self.experiment.measures += 1
        order = list(self.parameters)
        s = pd.Series(vals, index=order)
        if k % 2:
            s = s[order[::-1]]           # the order of the parameters in a result is not guaranteed
        var = s * 0 + 0.25
        self.experiment.results.append((s.copy(), var.copy(), []))
        return s, var

    def to_hdf5(self):
        return dict(super().to_hdf5(), n=self.n)


REC = {n: recording(getattr(ev, n)) for n in FITS + SIMPLE[:3]}
REC['SimShifting'] = SimShifting


def make(sc, exp):
    name = sc['evaluator']
    cls = REC[name]
    a = {k: v for k, v in sc['args'].items()}
    if name == 'SimShifting':
        e = cls(exp, (Measurement('none'),), tuple(a['parameters']))
    else:
        if 'options' in a:
            a['measurements'] = tuple(Measurement(o['name'], **{k: v for k, v in o.items() if k != 'name'}) for o in a.pop('options'))
        e = cls(exp, **a)
    for n in sc['average']:
        e = ev.AveragingEvaluator(e, n)
    return e


def average(results, reps, params):
    """Reference: the value of every parameter after nested averaging of the recorded results."""
    level = [{p: (float(r[0][p]), None) for p in params} for r in results]
    for n in reps:
        assert len(level) % n == 0
        nxt = []
        for i in range(0, len(level), n):
            out = {}
            for p in params:
                good = [x[p][0] for x in level[i:i + n] if x[p][0] == x[p][0]]
                if not good:
                    out[p] = (math.nan, math.nan)
                else:
                    mean = math.fsum(good) / len(good)
                    out[p] = (mean, math.fsum((x - mean) ** 2 for x in good) / len(good) / len(good))
            nxt.append(out)
        level = nxt
    assert len(level) == 1
    return level[0]


class Module:
    SECONDS = dict(quick=25, thorough=900, shrink=40)
    PROBES = {'C11': ['shifted', 'error while shifted', 'error at the shift', 'error at the restoring call', 'measured at the edge of the range', 'scan moved a gate', 'gates settle slowly',
                      'evaluated after an error'],
              'C24': ['averaged with failures', 'all repetitions failed', 'nested', 'clean fit', 'data without signal',
                      'undefined data', 'noise only']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('%s-%d' % (self.prop, seed))
        u = rng.uniform
        if self.prop == 'C11':
            name = rng.choice(['LeadTransition'] * 5 + ['SensingDot1D', 'SensingDot2D', 'SimShifting', 'NewLoadTime'])
        else:
            name = rng.choice(FITS + SIMPLE + ('SimShifting', 'SimShifting', 'SimShifting'))
        gates = ['RFA', 'RFB', 'SDB1', 'SDB2', 'N', 'BA'][:rng.randint(4, 6)]
        rng.shuffle(gates)
        v0 = {g: gen.r3(u(-1, 1)) for g in gates}
        width = gen.r3(rng.choice([4e-3, 2e-3, 1e-2]))
        quantum = rng.choice([0, 0, 1e-4, 3e-5])
        clip = None
        if rng.random() < 0.15:
            clip = [min(v0.values()) - rng.choice([0., width / 2, 10 * width]), max(v0.values()) + 1]
        height = gen.r3(u(.3, 3)) * rng.choice([1, -1])
        g = {q: u(-1, 1) for q in rng.sample(gates, 2)}
        d = dict(seed=seed % 1000, shape=SHAPE.get(name), height=height, offset=gen.r3(u(-1, 1)))
        args = {}
        if name == 'NewLoadTime':
            d.update(c=gen.r3(u(10, 80)), g={q: x * 2 for q, x in g.items()})
            args = dict(initial_curvature=rng.choice([30, 20, 40]))
        elif name == 'InterDotTCByLineScan':
            d.update(c=gen.r3(u(1.2e-4, 3e-4)), g={q: x * 1e-5 for q, x in g.items()}, slope=gen.r3(u(-50, 50)),
                     position=gen.r3(u(-3e-4, 3e-4)), lines=rng.choice([0, 0, 3]))
        elif name.startswith('LeadTunnelTime'):
            d.update(c=gen.r3(u(3e-8, 1.5e-7)), g={q: x * 1e-9 for q, x in g.items()}, ratio=gen.r3(u(.6, 1.6)), begin=gen.r3(u(5e-8, 9e-8)),
                     n=400, rate=1e8)
        elif name == 'LeadTransition':
            d.update(c=gen.r3(u(-5e-4, 5e-4) * rng.choice([1, 1, 4, 8, 10])), g={q: x * rng.choice([1e-4, 1e-3]) for q, x in g.items()}, lines=rng.choice([0, 7]))
            sh = rng.choice([['RFB', 'RFA'], ['RFA', 'RFB'], ['RFA'], [gates[0], gates[1], gates[2]]])
            n = rng.choice([64, 320])
            args = dict(shifting_gates=sh, sweeping_gates=sh[::-1], charge_diagram_width=width,
                        parameters=['position_' + q for q in sh],
                        options=[dict(name='line_scan', center=0., range=4e-3, gate=q, N_points=n, N_average=7) for q in sh[::-1]])
        elif name == 'SensingDot1D':
            q = rng.choice(['SDB1', 'SDB2'])
            d.update(c=v0[q], g={}, width=gen.r3(u(1e-3, 2e-3)))
            args = dict(sweeping_gate=q, parameters=['position_' + q, 'current_signal', 'optimal_signal'],
                        rising_flank=rng.choice([None, True, False]),
                        options=[dict(name='line_scan', center=None, range=4e-3, gate=q, N_points=200)])
        elif name == 'SensingDot2D':
            d.update(c=v0['SDB1'], g={}, width=gen.r3(u(3e-3, 8e-3)))
            args = dict(rising_flank=rng.choice([None, True, False]))
        else:
            d.update(c=0, g={})
            args = dict(parameters=['a', 'b', 'c'][:rng.randint(1, 3)])
        reps = []
        if rng.random() < (0.5 if name == 'SimShifting' else 0.35):
            reps = [rng.choice([1, 2, 3, 5, 8])]
            if rng.random() < 0.25:
                reps.append(rng.choice([1, 2, 3]))
        rate = rng.choice([0.1, 0.4, 0.9])
        pattern = [[None if rng.random() < rate else round(rng.choice([u(-2, 2), 1e8 + u(0, 1), 1e-12 * u(0, 1)]), 14) for _ in range(3)]
                   for _ in range(rng.choice([5, 7, 11]))]
        cfg = dict(gates=gates, v0=v0, quantum=quantum, clip=clip, params={}, sources={}, seed=seed, device=d, pattern=pattern,
                   read_order=rng.choice(['as_is', 'sorted']))
        if name == 'LeadTransition' and rng.random() < 0.2:
            cfg['leaves'] = {q: gen.r3(u(-1, 1) * width) for q in rng.sample(gates, rng.randint(1, 2))}
        elif name == 'LeadTransition' and not reps and rng.random() < 0.2:
            cfg['settle'] = True
        ops = []
        frate = rng.choice([0.3, 0.6]) if self.prop == 'C11' else rng.choice([0, 0, 0.1])
        calls = 2 + 3 * len(args.get('shifting_gates', ())) * int(np.prod(reps or [1]))
        for _ in range(rng.randint(3, 10) if name not in FITS[2:] else rng.randint(2, 4)):
            x = rng.random()
            if x < 0.2:
                ops.append({'op': 'move', 'dv': {q: gen.r3(u(-1, 1) * width) for q in rng.sample(gates, 2)} if name[:7] != 'Sensing' else {}})
            elif x < 0.3:
                ops.append({'op': 'reload'})
            else:
                op = {'op': 'evaluate'}
                if rng.random() < frate:
                    op['faults'] = []
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        op['faults'].append(dict(gen.gen_fault(rng), n=rng.randint(1, min(calls, 16))))
                if self.prop == 'C24':
                    op['kinds'] = [rng.choice(KINDS if rng.random() < 0.7 else KINDS[:2]) for _ in range(rng.randint(1, 4))]
                ops.append(op)
        return dict(cfg=cfg, evaluator=name, args=args, average=reps, ops=ops)

    def execute(self, sc):
        res = Result()
        exp = ScanExperiment(sc['cfg'])
        e = make(sc, exp)
        name = sc['evaluator']
        h = hashlib.blake2b(digest_size=8)
        failed_before = False
        poisoned = False
        params = list(e.parameters)

        def hit(p):
            res.probes[p] = res.probes.get(p, 0) + 1

        def bad(prop, kind, msg):
            res.violations.append((prop, kind, 'operation %d (%s): %s' % (i, name, msg)))
        for i, op in enumerate(sc['ops']):
            res.steps += 1
            if op['op'] == 'move':
                for g, x in op['dv'].items():
                    exp.v[g] = exp._quantise(exp.v[g] + x)
                continue
            if op['op'] == 'reload':
                try:
                    e = load(store(e, exp), exp)
                except Exception as x:
                    bad('*', 'exception:' + type(x).__name__, 'reload raised %s: %s (%s)' % (type(x).__name__, x, where(x)))
                    break
                res.faults['resume'] = res.faults.get('resume', 0) + 1
                continue
            exp.arm(op.get('faults'), kinds=op.get('kinds'))
            exp.used = []
            v0 = dict(exp.v)
            exc = out = None
            CLOCK.advance(1000000)
            try:
                out = e.evaluate()
            except INSTRUMENT as x:
                exc = x
            except Exception as x:
                if harness_error(x):
                    raise
                exc = x
                if not exp.fired:
                    bad('C24', 'exception:' + type(x).__name__, 'scans %s: the evaluation raised %s: %s (%s)' % (
                        exp.used, type(x).__name__, x, where(x)))
                    break
            for what, when in exp.fired:
                k = '%s error %s' % (what, when)
                res.faults[k] = res.faults.get(k, 0) + 1
            for k in exp.used:
                if k != 'signal':
                    res.faults['scan ' + k] = res.faults.get('scan ' + k, 0) + 1
            h.update(repr((name, type(exc).__name__, sorted(exp.v.items()), None if out is None else [list(out[0]), list(out[1])],
                           exp.used)).encode())
            res.abstract.add((name, tuple(sc['average']), type(exc).__name__ if exc else None, tuple(exp.fired[:2]),
                              tuple(exp.used[:3])))
            if exp.fired and exc is None:
                bad('C11', 'swallowed', 'the instrument error (%s %s) did not reach the caller' % exp.fired[0])
            # C11
            refused = any(all(r.get(g) == x for g, x in v0.items()) for r in exp.refused)
            if exp.v != v0 and not refused:
                bad('C11', 'not-restored', 'the voltages were %s before the evaluation and %s after it (%s; errors %s)' % (
                    v0, exp.v, 'raised %s' % type(exc).__name__ if exc else 'returned', exp.fired))
            if refused:
                hit('error at the restoring call')
                exp.v = dict(v0)
            if name == 'LeadTransition':
                hit('shifted')
                sh = sc['args']['shifting_gates']
                w = sc['args']['charge_diagram_width']
                for k, (_, v) in enumerate(exp.positions):
                    want = dict(v0)
                    g = sh[k % len(sh)]
                    want[g] = exp._quantise(v0[g] + -1. * w)
                    if exp.cfg.get('clip') and want[g] == exp._quantise(-1e9):
                        hit('measured at the edge of the range')
                    if v != want and not (exc is None and refused):
                        bad('C11', 'unshifted', 'measurement %d was made at %s instead of %s' % (k, v, want))
                        break
                if any(f[0] == 'measure' for f in exp.fired):
                    hit('error while shifted')
                if any(f[0] == 'set' for f in exp.fired):
                    hit('error at the shift')
            elif any(v != v0 for _, v in exp.positions):
                bad('C11', 'moved', 'a measurement was made at other voltages %s than before the evaluation %s' % (exp.positions, v0))
            if failed_before and exc is None:
                hit('evaluated after an error')
            if exp.left:
                hit('scan moved a gate')
            if sc['cfg'].get('settle'):
                hit('gates settle slowly')
            failed_before = exc is not None
            if exc is not None:
                continue
            # C24
            values, variances = out
            n = int(np.prod(sc['average'] or [1]))
            if len(exp.results) != n:
                bad('C24', 'repetitions', '%d repetitions instead of %d' % (len(exp.results), n))
                break
            if sc['average']:
                want = average(exp.results, sc['average'], params)
                if len(sc['average']) > 1:
                    hit('nested')
                if set(values.index) != set(params) or set(variances.index) != set(params):
                    bad('C24', 'parameters', 'averaged %s, %s instead of %s' % (list(values.index), list(variances.index), params))
                    break
                for p in params:
                    got = (float(values[p]), float(variances[p]))
                    column = [float(r[0][p]) for r in exp.results]
                    good = [x for x in column if x == x]
                    if len(good) < n and good:
                        hit('averaged with failures')
                    if not good:
                        hit('all repetitions failed')
                    scale = max([abs(x) for x in good] or [0.])
                    tol = (1e-12 * scale, 1e-12 * abs(want[p][1] if want[p][1] == want[p][1] else 0) + 1e-14 * scale ** 2)
                    for k, what in enumerate(('value', 'variance')):
                        a, b = got[k], want[p][k]
                        if not (a == b or (a != a and b != b) or abs(a - b) <= tol[k]):
                            bad('C24', what, '%s of %s is %r instead of %r (repetitions %s)' % (what, p, a, b, column))
            for r in exp.results:
                self.check_fit(sc, name, r, bad, hit, poisoned, exp)
                poisoned = poisoned or any(k in ('noise', 'noisy') for k in r[2])
            if res.violations:
                break
        res.digest = h.hexdigest()
        res.completed = True
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def check_fit(self, sc, name, r, bad, hit, poisoned, exp):
        if name not in FITS and not name.startswith('Sensing'):
            return
        values, variances, used = r
        kind = used[0]
        nan = [p for p in values.index if not np.isfinite(values[p])]
        if set(values.index) != set(variances.index):
            bad('C24', 'fit-parameters', 'values for %s, variances for %s' % (list(values.index), list(variances.index)))
            return
        for p in values.index:
            if np.isinf(values[p]) or np.isinf(variances[p]) or (np.isnan(values[p]) != np.isnan(variances[p])):
                bad('C24', 'fit-inconsistent', '%s = %r with variance %r (scan: %s)' % (p, values[p], variances[p], kind))
        if kind in ('nan', 'nans', 'inf') or (kind == 'flat' and name in FITS):
            hit('data without signal' if kind == 'flat' else 'undefined data')
            if kind == 'nans' and name == 'InterDotTCByLineScan' and sc['cfg']['device'].get('lines'):
                return            # undefined points are left out of the average over the lines
            if len(nan) < len(values):
                bad('C24', 'fit-arbitrary', 'the scan (%s) cannot be evaluated but yields %s' % (kind, dict(values)))
        elif kind == 'noise':
            hit('noise only')
        elif kind == 'signal' and name in FITS:
            d = sc['cfg']['device']
            x = d['c'] + sum(a * exp.v[q] for q, a in d['g'].items())
            if name == 'LeadTunnelTimeByLeadScan':
                return            # the model of this fit has more parameters than the simulated pulse; it need not be exact
            if name == 'LeadTunnelTimePrefitVersion':
                if poisoned:
                    return        # the result of the last fit is the first guess of the next one
                want = {'parameter_time_rise': x * d['ratio'], 'parameter_time_fall': x}
            else:
                want = {list(values.index)[0]: x}
            hit('clean fit')
            for p, y in want.items():
                if not abs(values[p] - y) <= 0.01 * abs(y):
                    bad('C24', 'fit-wrong', '%s = %r, the scan was made with %r' % (p, values[p], y))

    def nontrivial(self, sc, res):
        if self.prop == 'C11':
            return any('error' in k for k in res.faults)
        return any(k.startswith('scan') for k in res.faults) or bool(res.probes.get('averaged with failures'))

    def shrink(self, sc):
        ops = sc['ops']
        for i in range(len(ops)):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
        for i, op in enumerate(ops):
            for key in ('faults', 'kinds'):
                for k in range(len(op.get(key) or ())):
                    rest = op[key][:k] + op[key][k + 1:]
                    new = dict(op, **{key: rest})
                    if not rest:
                        del new[key]
                    yield dict(sc, ops=ops[:i] + [new] + ops[i + 1:])
        if sc['average']:
            yield dict(sc, average=sc['average'][:-1])
            for k, n in enumerate(sc['average']):
                if n > 1:
                    yield dict(sc, average=sc['average'][:k] + [n - 1] + sc['average'][k + 1:])
        cfg = sc['cfg']
        for key in ('quantum', 'clip'):
            if cfg.get(key):
                yield dict(sc, cfg=dict(cfg, **{key: 0 if key == 'quantum' else None}))

    def info(self, prop):
        rule = ('a run is a random evaluator of qtune (lead transition with one to three shifted gates, sensing dot, fits, possibly '
                'averaged once or twice) on a random simulated device, evaluated several times with voltages moved, reloads, '
                'instrument errors at random calls (six exception types, before or after the call takes effect, up to three) and '
                'scans of seven kinds; runs are distinct if the sequence of results, voltages and scans differs; ')
        rule += ('non-trivial if an instrument error was injected' if prop == 'C11' else
                 'non-trivial if a scan which is not clean or a failed repetition occurred')
        return dict(rule=rule, measure='(evaluator, averaging, exception, faults, kinds of scans)',
                    real=['qtune.evaluator', 'qtune.util', 'qtune.storage (to_hdf5/from_hdf5)', 'scipy.optimize', 'h5py in memory'],
                    stub=['experiment (simulated instruments and scans with faults)', 'one of the averaged evaluators (arbitrary '
                          'patterns of undefined values)', 'clock'],
                    assumptions=['an exception of the restoring call itself is not blamed on the evaluation',
                                 'clean scans lie in the range of the device parameters the fits were written for',
                                 'sampled, not exhaustive: a clean batch is evidence, no proof'])
