"""The simulated laboratory: an experiment with instrument faults, evaluators, and tunings built from a JSON description."""
import hashlib
import math
import random
import struct

import numpy as np
import pandas as pd

import qtune.autotuner
import qtune.storage
from qtune.evaluator import Evaluator
from qtune.experiment import Experiment, Measurement
from qtune.gradient import (FiniteDifferencesGradientEstimator, KalmanGradientEstimator,
                            SelfInitializingKalmanEstimator)
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver, make_target


class InstrumentError(Exception):
    """Raised by the simulated instruments."""


class InstrumentRuntimeError(InstrumentError, RuntimeError):
    pass


class InstrumentTimeout(InstrumentError, TimeoutError):
    pass


class InstrumentValueError(InstrumentError, ValueError):
    pass


class InstrumentKeyError(InstrumentError, KeyError):
    pass


class UserInterrupt(KeyboardInterrupt):
    """The user presses Ctrl-C while the instrument is busy."""


FAULTS = dict(plain=InstrumentError, runtime=InstrumentRuntimeError, timeout=InstrumentTimeout, value=InstrumentValueError,
              key=InstrumentKeyError, interrupt=UserInterrupt)
INSTRUMENT = (InstrumentError, UserInterrupt)


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, float):
            m.update(struct.pack('<d', p))
        else:
            m.update(repr(p).encode())
        m.update(b'|')
    return int.from_bytes(m.digest(), 'little')


def gauss(*parts):
    x = h64(*parts)
    u1 = ((x >> 32) + 1) / 4294967297.0
    u2 = (x & 0xffffffff) / 4294967296.0
    return math.sqrt(-2 * math.log(u1)) * math.cos(2 * math.pi * u2)


class SimExperiment(Experiment):
    """cfg keys: gates, v0, quantum, clip, params {name: {c, g, nl, sigma, var, fail}}, sources {name: [params]}, seed"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.gates = list(cfg['gates'])
        self.v = {g: self._quantise(float(cfg['v0'][g])) for g in self.gates}
        self.log = []
        self.calls = 0                    # instrument calls in the current operation
        self.plan = []                    # faults of the current operation: dict(n=, when=)
        self.nan_plan = []                # dict(m=, params=) of the current operation
        self.measures = 0
        self.fired = []
        self.may_fail = set()             # parameters which may be evaluated as NaN (a good point is known)
        self.total_measures = 0           # for drifting parameters
        self.lost = ()                    # gates whose voltages are read as NaN
        self.read_order = cfg.get('read_order', 'as_is')

    # -- faults ----------------------------------------------------------------------------------------------
    def arm(self, faults=(), nans=()):
        self.calls = 0
        self.measures = 0
        self.plan = list(faults or ())
        self.nan_plan = list(nans or ())
        self.fired = []
        self.log = []

    def _fault(self, what, when):
        for f in self.plan:
            if f['n'] == self.calls and f.get('when', 'before') == when:
                self.fired.append((what, when))
                raise FAULTS[f.get('kind', 'plain')]('%s (%s)' % (what, when))

    def _quantise(self, x):
        q = self.cfg.get('quantum') or 0
        clip = self.cfg.get('clip')
        if clip:
            x = min(max(x, clip[0]), clip[1])
        if q:
            k = round(x / q)
            if clip:
                k = min(max(k, math.ceil(clip[0] / q)), math.floor(clip[1] / q))
            x = k * q
        return float(x)

    # -- interface of an experiment ----------------------------------------------------------------------------
    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self.gates)

    def voltages(self):
        order = self.gates if self.read_order == 'as_is' else sorted(self.gates)
        return pd.Series([self.v[g] for g in order], index=order, dtype=float)

    def read_gate_voltages(self):
        self.calls += 1
        self._fault('read', 'before')
        self.log.append(('read',))
        self._fault('read', 'after')
        v = self.voltages()
        if self.lost:
            # the read-back of some gates does not work
            v[[g for g in self.lost if g in v.index]] = float('nan')
            self.fired.append(('undefined voltage', 'read'))
        return v

    def set_gate_voltages(self, new_gate_voltages):
        self.calls += 1
        self._fault('set', 'before')
        request = {g: float(new_gate_voltages[g]) for g in new_gate_voltages.index}
        before = dict(self.v)
        for g, x in request.items():
            if g in self.v:
                self.v[g] = self._quantise(x) if x == x else x
        self.log.append(('set', request, before, dict(self.v)))
        self._fault('set', 'after')
        return self.voltages()

    def measure(self, measurement):
        self.calls += 1
        self.measures += 1
        self.total_measures += 1
        m = self.measures
        self._fault('measure', 'before')
        source = measurement.name
        names = self.cfg['sources'][source]
        forced = set()
        for plan in self.nan_plan:
            if plan['m'] == m:
                forced |= set(names if plan.get('params') is None else [p for p in names if p in plan['params']])
        values, variances = [], []
        for p in names:
            value, var = self.value(p)
            if (p in forced or self._in_fail_region(p)) and p in self.may_fail:
                value, var = float('nan'), float('nan')
                self.fired.append(('nan', p))
            values.append(value)
            variances.append(var)
        self.log.append(('measure', source, dict(zip(names, values)), dict(zip(names, variances)), dict(self.v)))
        self._fault('measure', 'after')
        return np.array([values, variances])

    def _in_fail_region(self, p):
        fail = self.cfg['params'][p].get('fail')
        if not fail:
            return False
        d = math.sqrt(sum((self.v[g] - c) ** 2 for g, c in fail['center'].items()))
        return d > fail['radius']

    def value(self, p):
        """Value and reported variance at the present voltages; a pure function of the voltages."""
        d = self.cfg['params'][p]
        kind = d.get('kind', 'linear')
        if kind == 'optimum':
            # position of the optimum of a gate as seen by the sensing dot
            x = d['c'] + sum(k * self.v[g] for g, k in d.get('g', {}).items())
        elif kind == 'signal':
            # signal strength: decreases with the distance from the optimum
            dist = sum(abs(self.v[g] - (o['c'] + sum(k * self.v[h] for h, k in o.get('g', {}).items())))
                       for g, o in ((g, self.cfg['params'][q]) for g, q in d['optima'].items()))
            x = d['height'] - d['slope'] * dist
            if d.get('level'):
                x = round(x / d['level']) * d['level']
        elif kind == 'random':
            x = d['lo'] + (d['hi'] - d['lo']) * (h64(self.cfg.get('seed', 0), p, tuple(sorted(self.v.items()))) % 10007) / 10006.0
        else:
            x = d['c'] + sum(k * (self.v[g] - self.cfg['v0'][g]) for g, k in d['g'].items())
            nl = d.get('nl')
            if nl:
                x += nl['amp'] * math.sin(sum(k * self.v[g] for g, k in nl['k'].items()))
        if d.get('sigma'):
            x += d['sigma'] * gauss(self.cfg.get('seed', 0), p, *[float(self.v[g]) for g in self.gates])
        if d.get('drift'):
            x += d['drift'] * self.total_measures
        var = float(d.get('var', 1e-6))
        if d.get('varmod'):
            # some points are measured better than others
            var *= 10 ** (d['varmod'] * (h64(self.cfg.get('seed', 0), 'var', p, *[float(self.v[g]) for g in self.gates]) / 2. ** 64 - 0.5))
        return float(x), var


def scan_axis(raw, k):
    """The points of a scan, as large and arranged as they come from instruments."""
    a = np.sqrt(np.arange(raw['n'], dtype=float) + k) * 1e3
    a = a.astype(raw['dtype'])
    if raw['order'] == 'empty':
        return a[:0]
    if raw['order'] == '0d':
        return a[0].reshape(())
    if raw['order'] == 'strided':
        return a[::2]
    if raw['order'] != '1d':
        a = a[:len(a) // 4 * 4].reshape(-1, 4)
    return np.asfortranarray(a) if raw['order'] == 'F' else a[::-1].T if raw['order'] == 'T' else a


class SimEvaluator(Evaluator):
    """One measurement yields all parameters of the evaluator."""

    def __init__(self, experiment, measurements, parameters, name, raw_x_data=None, raw_y_data=None, n_evaluations=0):
        super().__init__(experiment=experiment, measurements=measurements, parameters=parameters,
                         raw_x_data=raw_x_data, raw_y_data=raw_y_data, name=name)
        self.n_evaluations = int(n_evaluations)

    def evaluate(self):
        data = self.experiment.measure(self.measurements[0])
        self.n_evaluations += 1
        raw = self.experiment.cfg.get('raw')
        self._raw_x_data = (scan_axis(raw, self.n_evaluations) if raw else np.arange(data.shape[1], dtype=float),)
        # like the evaluators of qtune, which adapt their scans, and like drivers which reuse their buffers
        self.measurements[0].options['center'] = float(self.n_evaluations)
        if self.experiment.cfg.get('reuse') and self._raw_y_data is not None and getattr(self._raw_y_data[0], 'shape', None) == data.shape:
            self._raw_y_data[0][...] = data
        else:
            self._raw_y_data = (np.array(data),)
        return pd.Series(data[0], index=list(self.parameters)), pd.Series(data[1], index=list(self.parameters))

    def to_hdf5(self):
        return dict(super().to_hdf5(), n_evaluations=self.n_evaluations)


def series(d, order=None):
    keys = list(order) if order is not None else list(d)
    return pd.Series([float(d[k]) for k in keys], index=keys, dtype=float)


class Built:
    pass


def build(cfg, path=None, cls=None, append=False):
    """Builds experiment and autotuner from the description."""
    exp = SimExperiment(cfg)
    b = Built()
    b.exp = exp
    b.est = {}                 # key -> estimator
    groups = []
    v_init = exp.voltages()
    share = v_init if cfg.get('alias') else None
    ev_cache = {}

    def evaluator(source):
        if source not in ev_cache:
            ev_cache[source] = SimEvaluator(exp, (Measurement(source, repetitions=1),), tuple(cfg['sources'][source]), source)
        return ev_cache[source]

    def position(gates):
        if share is not None and set(gates) == set(v_init.index):
            return share
        return v_init[list(gates)].copy()

    for gi, g in enumerate(cfg['groups']):
        if g['kind'] == 'newton':
            params = list(g['target'])
            target = make_target(desired=series({p: g['target'][p].get('desired', math.nan) for p in params}),
                                 tolerance=series({p: g['target'][p].get('tolerance', math.nan) for p in params}),
                                 rescaling_factor=series({p: g['target'][p].get('factor', 1.) for p in params}))
            ests = []
            for p in params:
                e = g['est'][p]
                if 'share' in e:
                    ests.append(b.est[e['share']])
                    continue
                est = make_estimator(e, position)
                b.est['%d/%s' % (gi, p)] = est
                ests.append(est)
            solver = NewtonSolver(target=target, gradient_estimators=ests, current_position=position(g['gates']))
            tuner = SubsetTuner([evaluator(s) for s in g['sources']], gates=list(g['gates']),
                                maximal_step_size=g.get('maxstep', math.nan) or math.nan,
                                maximal_step_number=g.get('maxn', 1), solver=solver)
        elif g['kind'] == 'sensing':
            params = list(g['target'])
            target = make_target(desired=pd.Series(math.nan, index=params),
                                 minimum=series({p: g['target'][p].get('minimum', math.nan) for p in params}),
                                 cost_threshold=series({p: g['target'][p].get('cost_threshold', math.nan) for p in params}),
                                 rescaling_factor=series({p: g['target'][p].get('factor', 1.) for p in params}))
            solver = ForwardingSolver(target=target, values_to_position=pd.Series(g['map']),
                                      current_position=v_init[list(g['gates'])].copy())
            tuner = SensingDotTuner([evaluator(s) for s in g['cheap']], [evaluator(s) for s in g['expensive']],
                                    gates=list(g['gates']), solver=solver)
        else:
            raise ValueError(g['kind'])
        groups.append(tuner)
    b.autotuner = (cls or qtune.autotuner.Autotuner)(exp, tuning_hierarchy=groups, hdf5_storage_path=path,
                                                     append_time_to_path=append)
    exp.arm()
    return b


def make_estimator(e, position):
    gates = e['gates']
    pos = position(gates)
    if e['kind'] == 'kalman':
        kg = KalmanGradient(len(gates), 1, initial_gradient=[e['grad0'][g] for g in gates],
                            initial_covariance_matrix=np.array(e['cov0'], dtype=float),
                            measurement_covariance_matrix=np.array([[e.get('R', 1e-6)]]), alpha=e.get('alpha', 1.))
        return KalmanGradientEstimator(kg, current_position=pos, maximum_covariance=_scalar_or_series(e['maxcov'], gates),
                                       epsilon=_scalar_or_series(e['eps'], gates))
    if e['kind'] in ('fd', 'fds'):
        return FiniteDifferencesGradientEstimator(current_position=None if e.get('nopos') else pos,
                                                  epsilon=_scalar_or_series(e['eps'], gates, force=e.get('nopos')),
                                                  symmetric=e['kind'] == 'fds')
    if e['kind'] in ('self', 'selfs'):
        return SelfInitializingKalmanEstimator.from_scratch(
            current_position=pos, epsilon=_scalar_or_series(e['eps'], gates, force=True), maximum_covariance=e['maxcov'],
            symmetric=e['kind'] == 'selfs')
    raise ValueError(e['kind'])


def _scalar_or_series(x, gates, force=False):
    if isinstance(x, dict):
        return series(x, gates)
    return pd.Series(float(x), index=list(gates)) if force else float(x)


# -- public state ----------------------------------------------------------------------------------------------------
def cs(x):
    return None if x is None else x.copy(deep=True)


def snap_estimator(e):
    est, cov, pos = e.estimate(), e.covariance(), e.current_position
    return dict(type=type(e).__name__, est=cs(est), cov=None if cov is None else pd.DataFrame(cov).copy(), pos=cs(pos))


def snapshot(at, cache=None):
    """The publicly visible state of an autotuner, copied. The lists of voltages grow, hence unchanged elements are copied once
    per cache."""
    groups = []
    cache = {} if cache is None else cache

    def ccs(x):
        hit = cache.get(id(x))
        if hit is not None and hit[0] is x and x.index is hit[2] and x.values.tobytes() == hit[3]:
            return hit[1]
        c = cs(x)
        if isinstance(x, pd.Series) and x.dtype == float:
            cache[id(x)] = (x, c, x.index, x.values.tobytes())
        return c
    for t in at.tuning_hierarchy:
        values, variances = t.last_parameters_and_variances
        data = t.to_hdf5()
        s = t.solver
        g = dict(type=type(t).__name__, last_v=cs(t.last_voltages), values=cs(values), variances=cs(variances),
                 tuned=[ccs(x) for x in t.tuned_voltages], failed=bool(t.last_evaluation_failed),
                 good=[ccs(x) for x in (data.get('evaluatable_voltages') or [])],
                 target=t.target.copy(deep=True), pos=cs(s.current_position),
                 est=[snap_estimator(e) for e in getattr(s, 'gradient_estimators', [])])
        groups.append(g)
    return dict(index=int(at.current_tuner_index), status=bool(at.current_tuner_status), pending=cs(at.voltages_to_set),
                complete=bool(at.is_tuning_complete()), groups=groups)
