"""C27: the evaluators of the quadruple dot, alone and in tunings, on a simulated MATLAB which analyses the measurements."""
import gc
import hashlib
import math
import random
import warnings

import numpy as np
import pandas as pd

from .. import fakematlab as fm
from .. import gen
from ..clock import CLOCK, MONO0
from ..driver import Result, harness_error, load, store, where
from ..shadow import diff_snapshots
from ..world import make_estimator, make_target, series, snapshot

fm.install()
import qtune.sm                                                                                    # noqa
import qtune.sm_tune_qqd as qqd                                                                    # noqa
from qtune.autotuner import Autotuner                                                              # noqa
from qtune.evaluator import AveragingEvaluator                                                     # noqa
from qtune.experiment import Measurement                                                           # noqa
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner                                     # noqa
from qtune.solver import ForwardingSolver, NewtonSolver                                            # noqa
from .backend import OURS, number, plain                                                           # noqa

KINDS = dict(QQDLine='line', QQDLead='lead', QQDSensor1D='sensor', QQDSensor2D='sensor 2d', QQDCharge='chrg', QQDDistTP='chrg',
             QQDResp='resp', SMQQDPassThru='stp')
TUNED = ('QQDLine', 'QQDLine', 'QQDLead', 'QQDCharge', 'QQDDistTP', 'QQDResp')
LIMITED = ('QQDLine', 'QQDLead', 'QQDResp')


def affine(q, volts):
    return q['c'] + math.fsum(x * volts[g] for g, x in q['g'].items())


class Device:
    """What the analysis of MATLAB yields at these voltages."""

    def __init__(self, spots):
        self.spots = spots           # 'name index' -> description
        self.drift = [0.]            # added to what the n-th scan finds
        self.seen = []               # what the scans found

    def quantities(self, name, index, volts, drift=0.):
        s = self.spots['%s %d' % (name, index)]
        return s, [affine(q, volts) + drift for q in s['q']]

    def __call__(self, name, index, volts, options):
        d = self.drift[len(self.seen) % len(self.drift)]
        self.seen.append(d)
        s, x = self.quantities(name, index, volts, d)
        if name == 'line':
            widths = [dict(number=float(k), width=x[0] + d) for k, d in enumerate(s['spread'])]
            return fm.Structs(widths) if len(widths) > 1 else widths[0]
        if name == 'lead':
            a = np.arange(10.).reshape(2, 5) - 20
            a[1, 3] = x[0]
            return dict(fitParams=fm.Array(a, 'double'), sumResiduals=s['residuals'])
        if name == 'sensor':
            return dict(xVal=x[0], minGradData=-self.slope(s, x, volts), maxGradData=7.)
        if name == 'sensor 2d':
            return dict(xVal=x[0], yVal=x[1], minGradData=-self.slope(s, x, volts) * 1.5)
        if name == 'chrg':
            a = np.array(x)
            # the triple points are so far apart as the first value says
            left = np.array([0.1, -0.3]) + a[0] / 7
            return dict(O=fm.Array(a.reshape(1, -1) if s['row'] else a.reshape(-1, 1), 'double'), triplePointLeft=fm.Array(left, 'double'),
                        triplePointRight=fm.Array(left + a[0] * np.array(s['direction']), 'double'))
        if name == 'resp':
            return fm.Structs([dict(position=y, visiblity=v) for y, v in zip(x, s['visibility'])])
        if name == 'stp':
            return dict(STp_x=x[0], STp_y=x[1])
        if name == 'tl':
            return dict(Tp_x=x[0], Tp_y=x[1])
        raise fm.MatlabExecutionError('no such measurement')

    @staticmethod
    def slope(s, x, volts):
        d = [volts[g] - y for g, y in zip(s['gates'], x)]
        return s['height'] * math.exp(-sum(y * y for y in d) / s['width'] ** 2)


def expected(device, spec, volts, drifts=(0.,) * 9):
    """[(value, variance)] in the order of the parameters; None: anything."""
    kind = spec['kind']
    if kind == 'SMQQDPassThru':
        out = []
        for name, d in zip(spec['measurements'], drifts):
            _, x = device.quantities(name, int(number(spec['index'])), volts, d)
            out += [(y, 0.) for y in x]
        return out
    s, x = device.quantities(KINDS[kind], int(number(spec['index'])), volts, drifts[0])
    k = spec.get('args', {})
    lo, hi = k.get('minimal_value', -math.inf), k.get('maximal_value', math.inf)
    err = k.get('error', 1.)
    if kind == 'QQDLine':
        w = [x[0] + d for d in s['spread']]
        m = math.fsum(w) / len(w)
        v = math.fsum((y - m) ** 2 for y in w) / len(w) / len(w)
        return [(m, v) if lo <= m <= hi else (math.nan, None)]
    if kind == 'QQDLead':
        v = err * s['residuals'] / k.get('reference_residual_sum', 1.)
        return [(x[0], v) if lo <= x[0] <= hi else (math.nan, None)]
    if kind == 'QQDSensor1D':
        return [(x[0], math.nan), (device.slope(s, x, volts), math.nan)]
    if kind == 'QQDSensor2D':
        return [(x[0], math.nan), (x[1], math.nan), (device.slope(s, x, volts) * 1.5, math.nan)]
    if kind == 'QQDCharge':
        return [(y, err) for y in x]
    if kind == 'QQDDistTP':
        return [(abs(x[0]), err)]
    if kind == 'QQDResp':
        out = []
        for i, (y, vis) in enumerate(zip(x, s['visibility'])):
            lo = each(k.get('min_position'), i, -math.inf)
            hi = each(k.get('max_position'), i, math.inf)
            e = each(err, i, 1.)
            good = vis >= k.get('min_transition_height', -math.inf) and lo <= y <= hi
            out.append((y, e) if good else (math.nan, None))
        return out
    raise ValueError(kind)


def each(x, i, default):
    return default if x is None else x[i] if isinstance(x, list) else x


def make(spec, exp):
    kw = {}
    for a, x in spec.get('args', {}).items():
        kw[a] = pd.Series(x, index=spec['parameters'], dtype=float) if isinstance(x, list) else x
    names = spec.get('measurements') or [KINDS[spec['kind']]]
    ms = [Measurement(n, **dict({k: number(v) for k, v in spec['options'].items()}, index=number(spec['index']))) for n in names]
    e = getattr(qqd, spec['kind'])(exp, ms, list(spec['parameters']), name=spec['name'], **kw)
    if spec.get('average'):
        e = AveragingEvaluator(e, spec['average'])
    return e


def remembered(e):
    """The file of the last evaluation as it is stored."""
    e = getattr(e, '_evaluator', e)
    return e.to_hdf5()['last_file_names']


def same(got, want):
    if want is None:
        return True
    if want != want or got != got:
        return want != want and got != got
    return abs(got - want) <= 1e-9 * max(abs(want), 1e-9) + 1e-15


class Module:
    SECONDS = dict(quick=20, thorough=900, shrink=40)
    PROBES = {'C27': sorted(KINDS) + ['several scans per line', 'outside the limits', 'low visibility', 'averaged', 'evaluated after an error', 'evaluated after a reload',
                                      'error during the analysis', 'error during a tuning', 'error after voltages were set', 'tuning completed', 'tuning reloaded',
                                      'sensing dot in a tuning', 'failed measurement in a tuning']}
    frozen = False

    def __init__(self, prop):
        self.prop = prop

    # -- generation ---------------------------------------------------------------------------------------------------
    def generate(self, seed):
        rng = random.Random('C27-%d' % seed)
        u = rng.uniform
        v0 = {g: gen.r3(u(-1, 0)) for g in fm.GATES}
        sc = dict(session=dict(volts=v0, quantum=rng.choice([0, 0, 0, 1e-5]), far=rng.choice([1e9, 1e9, 1e9, 2.])), spots={})
        if rng.random() < 0.55:
            self.gen_evaluators(rng, sc)
        else:
            self.gen_tuning(rng, sc)
        return sc

    def gen_spec(self, rng, sc, kind, index, gates, limits=True):
        """An evaluator and what it measures."""
        u = rng.uniform
        v0 = sc['session']['volts']
        n = dict(QQDLine=1, QQDLead=1, QQDSensor1D=2, QQDSensor2D=3, QQDCharge=rng.choice([2, 2, 3]), QQDDistTP=1, QQDResp=2, SMQQDPassThru=2)[kind]
        spec = dict(kind=kind, name='%s %d' % (kind, index), index=rng.choice([index, float(index), ['np', 'int64', index]]), args={}, options={})

        def q(k, c=None):
            # mostly the k-th gate
            d = {g: gen.r3(rng.choice([-1, 1]) * u(0.7, 1.5) if i == k % len(gates) else u(-.3, .3)) for i, g in enumerate(gates)}
            c = u(-2, 2) if c is None else c
            return dict(c=gen.r3(c - sum(x * v0[g] for g, x in d.items())), g=d)
        names = [KINDS[kind]]
        if kind == 'SMQQDPassThru':
            names = rng.choice([['stp'], ['tl'], ['stp', 'tl'], ['tl', 'stp']])
            spec['measurements'] = names
            n *= len(names)
        for name in names:
            key = '%s %d' % (name, index)
            spot = sc['spots'].setdefault(key, {})
            if not spot:
                if name == 'line':
                    spot.update(q=[q(0)], spread=[gen.r3(u(-.1, .1)) for _ in range(rng.choice([1, 2, 4, 8]))])
                elif name == 'lead':
                    spot.update(q=[q(0)], residuals=gen.r3(u(.1, 4)))
                elif name in ('sensor', 'sensor 2d'):
                    sg = gates[:1] if name == 'sensor' else (gates * 2)[:2]
                    spot.update(q=[dict(c=gen.r3(v0[g] + u(-.05, .05)), g={}) for g in sg], gates=sg, height=gen.r3(u(1, 5)), width=gen.r3(u(.02, .2)))
                elif name == 'chrg':
                    a = u(0, 6.3)
                    spot.update(q=[q(k, u(3, 5) if k == 0 else None) for k in range(n if kind == 'QQDCharge' else 2)], row=rng.random() < 0.5, direction=[math.cos(a), math.sin(a)])
                elif name == 'resp':
                    spot.update(q=[q(0), q(1)], visibility=[gen.r3(u(0, 1)), gen.r3(u(0, 1))])
                else:
                    spot.update(q=[q(0), q(1)])
        if kind == 'QQDCharge':
            n = len(sc['spots']['chrg %d' % index]['q'])
        spec['parameters'] = ['%s_%d_%s' % (kind[3:], index, x) for x in rng.sample('abcdefgh', n)]
        a = spec['args']
        if kind in ('QQDLine', 'QQDLead') and limits:
            if rng.random() < 0.4:
                a['maximal_value'] = gen.r3(u(-2, 3))
            if rng.random() < 0.4:
                a['minimal_value'] = gen.r3(u(-3, 2))
        if kind in ('QQDLead', 'QQDCharge', 'QQDDistTP', 'QQDResp') and (kind != 'QQDResp' or rng.random() < 0.7):
            a['error'] = gen.r3(10 ** u(-6, 0))
        if kind == 'QQDLead':
            a['reference_residual_sum'] = gen.r3(u(.5, 3))
        if kind == 'QQDResp':
            if a.get('error') and rng.random() < 0.3:
                a['error'] = [a['error'], gen.r3(a['error'] * 3)]
            if limits:
                if rng.random() < 0.4:
                    a['min_position'] = rng.choice([gen.r3(u(-3, 1)), [gen.r3(u(-3, 1)), gen.r3(u(-3, 1))]])
                if rng.random() < 0.4:
                    a['max_position'] = rng.choice([gen.r3(u(-1, 3)), [gen.r3(u(-1, 3)), gen.r3(u(-1, 3))]])
                if rng.random() < 0.4:
                    a['min_transition_height'] = gen.r3(u(0, .6))
        for k in rng.sample(['rng', 'npoints', 'nrep', 'gate', 'run'], rng.choice([0, 0, 1, 2, 3])):
            spec['options'][k] = rng.choice([gen.r3(u(-2, 2)), rng.randint(1, 500), ['np', 'float64', rng.randint(1, 99)], 'fine'])
        return spec

    def fault(self, rng, far=60):
        return dict(n=min(far, int(1 + rng.expovariate(1 / 12.))) if rng.random() < 0.8 else rng.randint(1, far), when=rng.choice(['before', 'after']), kind=rng.choice(sorted(fm.ERRORS)))

    def gen_evaluators(self, rng, sc):
        specs = []
        for i in range(rng.choice([1, 1, 2, 3])):
            spec = self.gen_spec(rng, sc, rng.choice(sorted(KINDS)), i + 1 if rng.random() < 0.7 else 1, rng.sample(fm.GATES, rng.randint(1, 3)))
            if any(s['kind'] == spec['kind'] and s['name'] == spec['name'] for s in specs):
                continue
            if rng.random() < 0.2 and spec['kind'] != 'SMQQDPassThru':
                spec['average'] = rng.choice([1, 2, 3])
            specs.append(spec)
        sc['drift'] = [gen.r3(rng.gauss(0, .1)) for _ in range(rng.choice([1, 5, 7]))]
        frate = rng.choice([0, 0.3, 0.6])
        ops = []
        for _ in range(rng.choice([3, 6, 12])):
            x = rng.random()
            k = rng.randrange(len(specs))
            if x < 0.25:
                ops.append(dict(op='move', dv={g: gen.r3(rng.uniform(-1, 1)) for g in rng.sample(fm.GATES, 3)}))
            elif x < 0.4:
                ops.append(dict(op='reload', k=k))
            else:
                op = dict(op='evaluate', k=k)
                if rng.random() < frate:
                    op['faults'] = [self.fault(rng)]
                ops.append(op)
        sc.update(family='evaluators', specs=specs, ops=ops)

    def gen_tuning(self, rng, sc):
        u = rng.uniform
        v0 = sc['session']['volts']
        sc['session']['far'] = 1e9
        gates = list(fm.GATES)
        rng.shuffle(gates)
        groups = []
        index = 1
        device = Device(sc['spots'])
        if rng.random() < 0.25:
            g = gates[:1]
            cheap = self.gen_spec(rng, sc, 'QQDSensor1D', index, g)
            gates = gates[1:]
            p, s = cheap['parameters']
            height = sc['spots']['sensor %d' % index]['height']
            groups.append(dict(kind='sensing', gates=g, cheap=[cheap], expensive=[dict(cheap, name='exp')], map={p: g[0]}, target={p: {}, s: dict(minimum=gen.r3(height * u(.3, .8)),
                               cost_threshold=gen.r3(height * u(.1, .5)))}))
            index += 1
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([1, 2, 2, 3])
            own, gates = gates[:n], gates[n:]
            evs, params = [], []
            while len(params) < n:
                kinds = [k for k in TUNED if len(params) + dict(QQDCharge=2, QQDResp=2).get(k, 1) <= n]
                off = len(params) % n
                spec = self.gen_spec(rng, sc, rng.choice(kinds), index, own[off:] + own[:off], limits=False)
                if rng.random() < 0.15:
                    spec['average'] = 2
                if len(params) + len(spec['parameters']) > n:
                    continue
                index += 1
                evs.append(spec)
                params += spec['parameters']
            target, est = {}, {}
            # finite differences of one group share their points and are not mixed with estimators which explore
            eps = gen.r3(u(.01, .05))
            fd = rng.choice([None, None, None, 'fd', 'fds'])
            for spec in evs:
                name = KINDS[spec['kind']]
                key = '%s %d' % (name, int(number(spec['index'])))
                if name == 'resp' and rng.random() < 0.3:
                    # some transitions are not seen far away
                    spec['args']['max_position'] = gen.r3(3 + u(0, 1))
                for p, q, (y, _) in zip(spec['parameters'], sc['spots'][key]['q'], expected(device, spec, v0)):
                    x = affine(q, v0) if y != y else y
                    target[p] = dict(desired=gen.r3(x + u(-.6, .6)), tolerance=gen.r3(u(.01, .1)))
                    if spec['kind'] == 'QQDLine' and rng.random() < 0.3:
                        lo = min(x, target[p]['desired'])
                        spec['args']['minimal_value'] = gen.r3(lo - u(0.02, 1))
                    if not fd or rng.random() < 0.3:
                        est[p] = dict(kind='kalman', gates=own, grad0={g: gen.r3(q['g'].get(g, 0) + u(-.2, .2)) for g in own},
                                      cov0=(np.eye(n) * gen.r3(10 ** u(-3, 0))).tolist(), R=1e-4, maxcov=1e3 if fd else rng.choice([1e-4, 1e3]), eps=gen.r3(u(.01, .05)))
                    else:
                        est[p] = dict(kind=fd, gates=own, eps=eps)
            groups.append(dict(kind='newton', gates=own, evaluators=evs, target=target, est=est, maxstep=rng.choice([None, None, gen.r3(u(.1, .5))]), maxn=rng.choice([1, 2])))
        frate = rng.choice([0.1, 0.3, 0.6])
        ops = []
        for _ in range(rng.choice([10, 20, 40])):
            x = rng.random()
            if x < 0.04:
                ops.append(dict(op='manual', dv={g: gen.r3(u(-.1, .1)) for g in rng.sample(fm.GATES, 2)}))
            elif x < 0.1:
                ops.append(dict(op='reload'))
            else:
                op = dict(op='iterate')
                if rng.random() < frate:
                    op['attempts'] = [[self.fault(rng, 30)] for _ in range(rng.choice([1, 1, 2, 4]))]
                ops.append(op)
        sc.update(family='tuning', groups=groups, ops=ops)

    # -- execution ----------------------------------------------------------------------------------------------------
    def execute(self, sc):
        res = Result()
        res.extra = {}
        if not Module.frozen:
            Module.frozen = True
            gc.collect()
            gc.freeze()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                Run(sc, res).run()
            finally:
                qtune.sm.SpecialMeasureMatlab.connected_engines.clear()
        res.completed = True
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return bool(res.faults and res.probes)

    def shrink(self, sc):
        ops = sc['ops']
        n = len(ops)
        for size in (n // 2, n // 4):
            if size > 1:
                for i in range(0, n, size):
                    yield dict(sc, ops=ops[:i] + ops[i + size:])
        for i in range(n):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
        for i, op in enumerate(ops):
            for key in ('faults', 'attempts'):
                if op.get(key):
                    yield dict(sc, ops=ops[:i] + [{k: v for k, v in op.items() if k != key}] + ops[i + 1:])
                    if len(op[key]) > 1:
                        yield dict(sc, ops=ops[:i] + [dict(op, **{key: op[key][:1]})] + ops[i + 1:])
        if sc['family'] == 'tuning' and len(sc['groups']) > 1:
            for i in range(len(sc['groups'])):
                yield dict(sc, groups=sc['groups'][:i] + sc['groups'][i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is either a random set of evaluators of the quadruple dot, evaluated at changing voltages with MATLAB errors at random calls and reloads, '
                 'against a model of the analysis, or a random tuning with such evaluators, executed with MATLAB errors answered by calling again and once more without; '
                 'runs are distinct if the sequence of results differs; non-trivial if errors or reloads were injected',
            measure='(family, operation, evaluators, exception) combinations',
            real=['qtune.sm_tune_qqd (SMTuneQQD and all evaluators)', 'qtune.sm (SpecialMeasureMatlab)', 'qtune.mat2py', 'qtune.evaluator.AveragingEvaluator', 'qtune.autotuner',
                  'qtune.parameter_tuner', 'qtune.solver', 'qtune.gradient', 'qtune.storage', 'h5py in memory'],
            stub=['matlab.engine and the tune script with its analysis (sim/fakematlab.py)', 'clock'],
            assumptions=['the structures of the analysis are those the evaluators read', 'the simulated device is deterministic', 'sampled, not exhaustive'])


class Run:
    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.hash = hashlib.blake2b(digest_size=8)
        self.device = Device(sc['spots'])

    def hit(self, p):
        self.res.probes[p] = self.res.probes.get(p, 0) + 1

    def bad(self, kind, msg):
        if len(self.res.violations) < 5:
            self.res.violations.append(('C27', kind, 'operation %d: %s' % (self.i, msg)))

    def connect(self, name):
        s = fm.WORLD.shared[name] = fm.Session(name=name, own=OURS, **self.sc['session'])
        s.volts = dict(s.volts)
        s.model = self.device
        return qqd.SMTuneQQD(qtune.sm.SpecialMeasureMatlab(connect=name)), s

    def attempt(self, f, session, faults):
        session.arm(faults)
        try:
            return f(), None
        except (Exception, KeyboardInterrupt) as e:
            if harness_error(e) and not isinstance(e, fm.ALL_ERRORS + (fm.EngineError,)):
                raise
            return None, e
        finally:
            for kind, when in session.fired:
                k = 'MATLAB error %s (%s)' % (when, kind)
                self.res.faults[k] = self.res.faults.get(k, 0) + 1
            session.faults = []

    def run(self):
        fm.WORLD.reset()
        qtune.sm.SpecialMeasureMatlab.connected_engines.clear()
        self.i = -1
        if self.sc['family'] == 'evaluators':
            self.evaluators()
        else:
            self.tuning()
        self.res.digest = self.hash.hexdigest()

    def judge(self, spec, out, scans, session, files_before):
        """Result of an evaluation and the measurements for it."""
        n = spec.get('average', 1)
        name = spec['name']
        names = spec.get('measurements') or [KINDS[spec['kind']]]
        want_scans = names * n
        first = len(scans) - len(want_scans) if spec['kind'] == 'SMQQDPassThru' else 0
        if [s[1]['name'] for s in scans[first:]] != want_scans or first < 0:
            self.bad('scans', '%s made the measurements %s instead of %s' % (name, [s[1]['name'] for s in scans], want_scans))
            return
        for s in scans:
            pairs = dict(zip(s[1]['pairs'][::2], map(plain, s[1]['pairs'][1::2])))
            want = {k: plain(number(v)) for k, v in spec['options'].items()}
            if s[1]['index'] != float(number(spec['index'])) or pairs != want:
                self.bad('settings', '%s measured %s instead of index %s with %s' % (name, s[1], spec['index'], want))
                return
        m, rep = len(names), spec.get('average')
        seen = self.device.seen[-m * n:]
        if spec['kind'] == 'SMQQDPassThru':
            want = expected(self.device, spec, session.volts, seen)
            if len(scans) > m:
                # the first measurements estimate the errors
                each8 = [expected(self.device, spec, session.volts, self.device.seen[-m * (9 - j):]) for j in range(8)]
                self.errors[id(spec)] = [float(np.var([r[i][0] for r in each8], ddof=1)) for i in range(len(want))]
            elif id(spec) not in self.errors:
                self.bad('errors', '%s did not measure its errors' % name)
                return
            want = [(y, v) for (y, _), v in zip(want, self.errors[id(spec)])]
        else:
            runs = [expected(self.device, spec, session.volts, seen[j:j + 1]) for j in range(n)]
            want = runs[0]
            if rep:
                good = [[r[i][0] for r in runs if r[i][0] == r[i][0]] for i in range(len(want))]
                want = [(math.fsum(g) / len(g), np.var(g) / len(g)) if g else (math.nan, None) for g in good]
        values, variances = out
        if list(values.index) != spec['parameters'] or set(variances.index) != set(spec['parameters']):
            self.bad('parameters', '%s returned %s with variances of %s instead of %s' % (name, list(values.index), list(variances.index), spec['parameters']))
            return
        for p, (y, v) in zip(spec['parameters'], want):
            if y != y:
                self.hit('low visibility' if spec['args'].get('min_transition_height') else 'outside the limits')
            if not same(float(values[p]), y):
                self.bad('value', '%s: %s is %r instead of %r' % (name, p, values[p], y))
            elif v is not None and not (same(float(variances[p]), v) or 0 <= v < 1e-16 and 0 <= variances[p] < 1e-16):
                self.bad('variance', '%s: the variance of %s is %r instead of %r' % (name, p, variances[p], v))

    # -- single evaluators ----------------------------------------------------------------------------------------------
    def evaluators(self):
        sc = self.sc
        exp, session = self.connect('lab')
        self.device.drift = sc['drift']
        self.errors = {}
        es = [make(s, exp) for s in sc['specs']]
        failed = [False] * len(es)
        reloaded = [False] * len(es)
        started = [False] * len(es)
        for self.i, op in enumerate(sc['ops']):
            self.res.steps += 1
            CLOCK.advance(0.1)
            if op['op'] == 'move':
                for g, x in op['dv'].items():
                    session.volts[g] += x
                continue
            k = op['k']
            spec, e = sc['specs'][k], es[k]
            if op['op'] == 'reload':
                before = self.state(e)
                out, exc = self.attempt(lambda: load(store(e, exp), exp), session, None)
                if exc is not None:
                    self.bad('exception', '%s: reloading raised %s: %s (%s)' % (spec['name'], type(exc).__name__, exc, where(exc)))
                    return
                es[k] = out
                reloaded[k] = True
                self.res.faults['reload'] = self.res.faults.get('reload', 0) + 1
                if self.state(out) != before:
                    self.bad('reloaded', '%s became %s by reloading, was %s' % (spec['name'], self.state(out), before))
                    return
                continue
            n = len(session.scans)
            before = self.state(e)
            volts = dict(session.volts)
            out, exc = self.attempt(e.evaluate, session, op.get('faults'))
            name = type(exc).__name__ if exc is not None else None
            self.hash.update(repr((spec['kind'], name, None if out is None else [list(out[0]), list(out[1])], sorted(session.volts.items()))).encode())
            self.res.abstract.add(('evaluate', spec['kind'], name, spec.get('average', 0), failed[k], reloaded[k]))
            scans = session.scans[n:]
            if session.volts != volts:
                self.bad('voltages', '%s changed the voltages' % spec['name'])
            if session.fired:
                if exc is None:
                    self.bad('swallowed', '%s: the error of MATLAB (%s) did not reach the caller' % (spec['name'], session.fired[0][0]))
                elif not isinstance(exc, fm.ERRORS[session.fired[0][0]]):
                    self.bad('other-error', '%s: the error of MATLAB (%s) reached the caller as %s: %s' % (spec['name'], session.fired[0][0], name, exc))
                if scans:
                    self.hit('error during the analysis')
                if self.state(e) != before and spec['kind'] != 'SMQQDPassThru' and 'average' not in spec:
                    self.bad('state', '%s changed by a failed evaluation from %s to %s' % (spec['name'], before, self.state(e)))
                failed[k] = True
            elif exc is not None:
                self.bad('exception', '%s raised %s: %s (%s)' % (spec['name'], name, exc, where(exc)))
            else:
                self.hit(spec['kind'])
                if failed[k]:
                    self.hit('evaluated after an error')
                if reloaded[k]:
                    self.hit('evaluated after a reload')
                if spec.get('average'):
                    self.hit('averaged')
                if spec['kind'] == 'QQDLine' and len(sc['spots']['line %d' % int(number(spec['index']))]['spread']) > 1:
                    self.hit('several scans per line')
                if spec['kind'] == 'SMQQDPassThru' and len(scans) not in (len(spec['measurements']), 9 * len(spec['measurements'])):
                    self.bad('scans', '%s made %d measurements' % (spec['name'], len(scans)))
                self.judge(spec, out, scans, session, None)
                files = [session.data[i + 1]['args']['fullFile'] for i in range(len(session.scans))]
                m = len(spec.get('measurements', [1]))
                want = files[-m:] if spec['kind'] == 'SMQQDPassThru' else files[-1]
                if not self.res.violations and remembered(es[k]) != want:
                    self.bad('file', '%s remembers the file %s instead of %s' % (spec['name'], remembered(es[k]), want))
                started[k] = True
            if self.res.violations:
                return

    @staticmethod
    def state(e):
        def show(x):
            if isinstance(x, pd.Series):
                return [(k, repr(float(v))) for k, v in x.items()]
            if isinstance(x, dict):
                return sorted((k, show(v)) for k, v in x.items())
            if isinstance(x, (list, tuple)):
                return [show(v) for v in x]
            if isinstance(x, Measurement):
                return (x.name, show({k: plain(v) for k, v in x.options.items()}))
            if isinstance(x, (int, float, np.generic)) and not isinstance(x, (bool, np.bool_)):
                return repr(float(x))
            return repr(x) if x is None or isinstance(x, (str, bool)) else type(x).__name__
        e = getattr(e, '_evaluator', e)
        return show(e.to_hdf5())

    # -- tunings ----------------------------------------------------------------------------------------------------------
    def build(self, exp, session):
        v = exp.read_gate_voltages()

        def position(gates):
            return v[list(gates)].copy()
        hierarchy = []
        for g in self.sc['groups']:
            params = list(g['target'])
            if g['kind'] == 'sensing':
                target = make_target(desired=pd.Series(math.nan, index=params), minimum=series({p: g['target'][p].get('minimum', math.nan) for p in params}),
                                     cost_threshold=series({p: g['target'][p].get('cost_threshold', math.nan) for p in params}))
                hierarchy.append(SensingDotTuner([make(s, exp) for s in g['cheap']], [make(s, exp) for s in g['expensive']], gates=list(g['gates']),
                                                 solver=ForwardingSolver(target=target, values_to_position=pd.Series(g['map']), current_position=position(g['gates']))))
            else:
                target = make_target(desired=series({p: g['target'][p]['desired'] for p in params}), tolerance=series({p: g['target'][p]['tolerance'] for p in params}))
                solver = NewtonSolver(target=target, gradient_estimators=[make_estimator(g['est'][p], position) for p in params], current_position=position(g['gates']))
                hierarchy.append(SubsetTuner([make(s, exp) for s in g['evaluators']], gates=list(g['gates']), maximal_step_size=g['maxstep'] or math.nan,
                                             maximal_step_number=g['maxn'], solver=solver))
        return Autotuner(exp, tuning_hierarchy=hierarchy, hdf5_storage_path=None)

    def tuning(self):
        sc = self.sc
        sides = []
        for name in ('with errors', 'without'):
            exp, session = self.connect(name)
            s = dict(exp=exp, session=session, at=self.build(exp, session))
            sides.append(s)
        specs = {}
        for k, g in enumerate(sc['groups']):
            for s in g.get('evaluators', []) + g.get('cheap', []):
                specs[KINDS[s['kind']], float(number(s['index']))] = (k, s)
        if any(g['kind'] == 'sensing' for g in sc['groups']):
            self.hit('sensing dot in a tuning')
        snaps = [snapshot(s['at']) for s in sides]
        for self.i, op in enumerate(sc['ops']):
            self.res.steps += 1
            if snaps[0]['complete']:
                self.hit('tuning completed')
                if op['op'] == 'iterate':
                    continue
            outcome = []
            failed = 0
            for s, attempts in zip(sides, (op.get('attempts', []), [])):
                session, at = s['session'], s['at']
                CLOCK.advance(1.)
                if op['op'] == 'manual':
                    for g, x in op['dv'].items():
                        session.volts[g] += x
                    f = at.restart
                elif op['op'] == 'reload':
                    s['at'], exc = self.attempt(lambda: load(store(at, s['exp']), s['exp']), session, None)
                    if exc is not None:
                        self.bad('exception', 'reloading raised %s: %s (%s)' % (type(exc).__name__, exc, where(exc)))
                        return
                    outcome.append((None, [], []))
                    continue
                else:
                    f = at.iterate
                for faults in attempts + [None]:
                    nset, nscan = len(session.requested), len(session.scans)
                    _, exc = self.attempt(f, session, faults)
                    if session.fired:
                        failed += 1
                        self.hit('error during a tuning')
                        if len(session.requested) > nset:
                            self.hit('error after voltages were set')
                        if exc is None:
                            self.bad('swallowed', 'the error of MATLAB (%s) did not reach the caller' % session.fired[0][0])
                            return
                        if not isinstance(exc, fm.ERRORS[session.fired[0][0]]):
                            self.bad('other-error', 'the error of MATLAB (%s) reached the caller as %s: %s (%s)' % (session.fired[0][0], type(exc).__name__, exc, where(exc)))
                            return
                        continue
                    break
                name = None if exc is None else '%s: %s' % (type(exc).__name__, exc)
                outcome.append((name, [sorted(r.items()) for r in session.requested[nset:]],
                                [(c[1]['name'], c[1]['index'], sorted((k, repr(plain(v))) for k, v in zip(c[1]['pairs'][::2], c[1]['pairs'][1::2]))) for c in session.scans[nscan:]]))
                if exc is not None:
                    outcome[-1] += (where(exc),)
            if op['op'] == 'reload':
                self.hit('tuning reloaded')
                self.res.faults['reload'] = self.res.faults.get('reload', 0) + 1
            if outcome[0][:3] != outcome[1][:3]:
                self.bad('effects', '%s: after %d errors it did %s, without errors %s' % (op['op'], failed, outcome[0], outcome[1]))
                return
            snaps = [snapshot(s['at']) for s in sides]
            d = diff_snapshots(*snaps)
            if d:
                self.bad('tuning-state', '%s: after %d errors the state differs from the one without: %s' % (op['op'], failed, d))
                return
            if sides[0]['session'].volts != sides[1]['session'].volts:
                self.bad('voltages', '%s: the voltages are %s, without errors %s' % (op['op'], sides[0]['session'].volts, sides[1]['session'].volts))
                return
            self.hash.update(repr((op['op'], outcome[1], sorted(sides[1]['session'].volts.items()))).encode())
            self.res.abstract.add(('tuning', op['op'], tuple(g['kind'] for g in sc['groups']), outcome[1][0] and outcome[1][0][:12], bool(failed), snaps[0]['complete']))
            if outcome[1][0] is not None:
                # an error of the tuning itself, which is the same without errors of MATLAB: other properties are about these
                self.res.extra['tunings which ended with ' + outcome[1][0].split(':')[0]] = 1
                self.end = outcome[1]
                return
            # the values which were measured
            for name, index, _ in outcome[1][2]:
                k, spec = specs[name, index]
                values, variances = snaps[1]['groups'][k]['values'], snaps[1]['groups'][k]['variances']
                for p, (y, v) in zip(spec['parameters'], expected(self.device, spec, sides[1]['session'].volts)):
                    if y != y:
                        self.hit('failed measurement in a tuning')
                    v = (None if y != y else 0.) if spec.get('average') else v
                    if not same(float(values[p]), y):
                        self.bad('measured', '%s was recorded as %r instead of %r' % (p, values[p], y))
                    elif v is not None and not (same(float(variances[p]), v) or v == 0. and 0 <= variances[p] < 1e-18):
                        self.bad('measured-variance', 'the variance of %s was recorded as %r instead of %r' % (p, variances[p], v))
            if self.res.violations:
                return
