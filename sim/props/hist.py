"""C21: a history which is fed after every iteration, the history rebuilt from the stored files, and a reference history."""
import hashlib
import math
import os
import random
import shutil

import numpy as np
import pandas as pd

import qtune.autotuner
import qtune.history

from .. import gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..sched import Scheduler
from ..shadow import diff_snapshots
from ..world import snapshot
from .core import shrink as core_shrink

GATES = ['SDB1', 'gate 1', 'L-1', 'g.1', 'g', 'gg', 'RFA (fast)', 'B+', 'T[0]', 'N', 'x1', '1x', 'RP$']
PARAMS = ['x', 'origin x', 'ori', 'origin', 'time', 'lead time', 'parameter_tunnel_coupling', 'coupling', 'a.b', 'a', 'ab', 'axb', 'y(0)', 'signal*',
          'position_RFA', 'p|q', 'p', 'q', 'n?', 'm^2', 'opt', 'w1', 'w2', 'w3']


def rename(x, names):
    if isinstance(x, dict):
        return {names.get(k, k): v if k == 'kind' else rename(v, names) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, names) for v in x]
    if isinstance(x, str):
        head, sep, tail = x.partition('/')
        if sep and head.isdigit():
            return head + '/' + names.get(tail, tail)
        return names.get(x, x)
    return x


def num(x):
    return float('nan') if x is None else float(x)


def same(a, b):
    return a == b or (a != a and b != b)


class Row:
    """What is known of one stay at a position."""

    def __init__(self, voltages):
        self.voltages = voltages
        self.measured = {}              # group -> (values, variances)
        self.data = {}                  # evaluator -> raw data
        self.unmeasured_step = set()    # groups asked within a walk, without measurement
        self.gradients = {}             # (group, parameter) -> (estimate, covariance)
        self.snap = None
        self.path = None


class Module:
    SECONDS = dict(quick=32, thorough=1200, shrink=40)
    PROBES = {'C21': ['several rows', 'row continued', 'two groups in one row', 'unknown gradient', 'measured again at the same position', 'failed measurement',
                      'within a walk', 'sensing dot', 'new directory after a resume', 'strange names', 'reloaded row', 'single file', 'covariances', 'same position after setting', 'arbitrary time stamps', 'file by file']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C21-%d' % seed)
        o = dict(sharesrc=0., offset=0.35, easy=rng.random() < 0.4, sensing=0.35, noise=0.3, p=dict(exc=0.25, nan=0.4, manual=0.4, retarget=0.4, resume=0, old=0))
        if rng.random() < 0.3:
            o['kinds'] = ['fd', 'fds', 'self', 'selfs']
        cfg = gen.gen_cfg(rng, o)
        if rng.random() < 0.7:
            # the same value is never measured twice
            for p in cfg['params'].values():
                p['drift'] = gen.r3(10 ** rng.uniform(-9, -5))
        o['n'] = rng.choice([4, 8, 15, 25])
        ops = gen.gen_ops(rng, cfg, o)
        for op in ops:
            if op['op'] == 'iterate' and rng.random() < 0.03:
                op['resume'] = True
        sc = {'cfg': cfg, 'ops': ops, 'stored': rng.random() < 0.4, 'reloads': rng.randrange(1 << 20)}
        if rng.random() < 0.4:
            # names which contain other names or special characters
            names = dict(zip(sorted(cfg['gates']), rng.sample(GATES, len(cfg['gates'])))) if len(cfg['gates']) <= len(GATES) else {}
            if len(cfg['params']) <= len(PARAMS):
                names.update(zip(sorted(cfg['params']), rng.sample(PARAMS, len(cfg['params']))))
            sc = rename(sc, names)
            sc['strange'] = True
        return sc

    def execute(self, sc):
        d = os.path.abspath('tuning')
        shutil.rmtree(d, ignore_errors=True)
        s = Scheduler(policy={'kind': 'coop'}, lines=False, max_points=10 ** 7)
        try:
            return s.run(lambda: self.run(sc, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, sc, path):
        d = Driver(sc['cfg'], shadow=False, path=path if sc['stored'] else None)
        self.d = d
        self.probes = set()
        if sc.get('strange'):
            self.probes.add('strange names')
        live = qtune.history.History(None, d.exp)
        rows = []
        dirs = []                              # (directory, history, rows, states)
        states = []
        measured_before = None
        old = []
        before = d.snap
        for i, op in enumerate(sc['ops']):
            n = d.iterations
            counts = {e.name: e.n_evaluations for t in d.at.tuning_hierarchy for e in t.evaluators}
            walk = [int(t.to_hdf5().get('number_queued_steps') or 0) for t in d.at.tuning_hierarchy]
            before = d.snap
            d.step(i, {k: v for k, v in op.items() if k != 'resume'})
            if d.dead:
                break
            if d.iterations == n:
                continue
            try:
                live.append_autotuner(d.at)
            except Exception as e:
                if harness_error(e):
                    raise
                d.bad('C21', 'exception:' + type(e).__name__, 'operation %d: append_autotuner raised %s: %s (%s)' % (i, type(e).__name__, e, where(e)))
                break
            self.refer(rows, before, d, counts, walk)
            states.append((d.at.last_save_file, d.snap))
            if op.get('resume') and sc['stored']:
                d.at.asynchrone_writer.join()
                old.append(d.at)
                dirs.append((os.path.dirname(states[0][0]), live, rows, states))
                d.at = qtune.autotuner.load_auto_tuner(d.at.last_save_file, {'experiment': d.exp})
                d.snap = snapshot(d.at, d.cache)
                live, rows, states = qtune.history.History(None, d.exp), [], []
                d.res.faults['resume'] = d.res.faults.get('resume', 0) + 1
                self.probes.add('new directory after a resume')
        if states:
            dirs.append((os.path.dirname(states[0][0]) if sc['stored'] else None, live, rows, states))
        for t in old + [d.at]:
            if peek.writer(t) is not None:
                peek.writer(t).join()
        if not d.dead and not d.res.violations:
            for directory, live, rows, states in dirs:
                self.verify(sc, directory, live, rows, states)
                if d.res.violations:
                    break
        res = d.finish()
        h = hashlib.blake2b(digest_size=8)
        h.update(repr((res.digest, [(len(r), len(s)) for _, _, r, s in dirs], res.key())).encode())
        res.digest = h.hexdigest()
        res.probes = {p: 1 for p in self.probes}
        res.extra = dict(rows=sum(len(r) for _, _, r, _ in dirs), saved_states=sum(len(s) for _, _, _, s in dirs))
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    # -- reference -------------------------------------------------------------------------------------------------
    def refer(self, rows, before, d, counts, walk):
        """The row of the iteration which was just completed."""
        at, snap = d.at, d.snap
        voltages = dict(snap['groups'][0]['last_v'])
        k = before['index']
        measuring = before['pending'] is None and not before['status']
        if not rows or voltages != rows[-1].voltages:
            rows.append(Row(voltages))
            if len(rows) > 1:
                self.probes.add('several rows')
        else:
            self.probes.add('row continued')
            if before['pending'] is not None:
                self.probes.add('same position after setting')
        row = rows[-1]
        if measuring:
            t = at.tuning_hierarchy[k]
            evaluated = [e for e in t.evaluators if e.n_evaluations != counts[e.name]]
            if not evaluated:
                row.unmeasured_step.add(k)
                row.measured.pop(k, None)
                self.probes.add('within a walk')
            else:
                if k in row.measured:
                    self.probes.add('measured again at the same position')
                g = snap['groups'][k]
                row.unmeasured_step.discard(k)
                names = [p for p in g['values'].index if g['type'] != 'SubsetTuner' or not np.isnan(g['target'].loc[p, 'desired'])]
                if g['type'] == 'SensingDotTuner':
                    self.probes.add('sensing dot')
                    names = [p for p in names if any(p in e.parameters for e in evaluated)]
                row.measured[k] = {p: (num(g['values'][p]), num(g['variances'][p])) for p in names}
                if len(row.measured) > 1:
                    self.probes.add('two groups in one row')
                if g['failed']:
                    self.probes.add('failed measurement')
                for e in evaluated:
                    row.data[e.name] = np.array(e.raw_data[1][0], copy=True)
        row.gradients = {}
        for j in row.measured:
            g = snap['groups'][j]
            for p, e in zip(g['target'].index, g['est']):
                row.gradients[j, p] = (e['est'], e['cov'])
                if e['est'] is None:
                    self.probes.add('unknown gradient')
        row.snap = snap
        row.path = at.last_save_file

    # -- comparison --------------------------------------------------------------------------------------------------
    def verify(self, sc, directory, live, rows, states):
        bad = lambda kind, msg: self.d.bad('C21', kind, msg)
        if directory is None:
            try:
                self.content('live', live, rows, bad)
            except Exception as e:
                if harness_error(e):
                    raise
                bad('exception:' + type(e).__name__, 'reading the live history raised %s: %s (%s)' % (type(e).__name__, e, where(e)))
            return
        stamps = random.Random(sc['reloads'])
        if stamps.random() < 0.5:
            # copied from elsewhere: the times of modification tell nothing
            self.probes.add('arbitrary time stamps')
            for name in sorted(os.listdir(directory)):
                os.utime(os.path.join(directory, name), (stamps.randrange(10 ** 9),) * 2)
        try:
            if stamps.random() < 0.3:
                self.probes.add('file by file')
                again = qtune.history.History(None, self.d.exp)
                for name in sorted(os.listdir(directory)):
                    if os.path.isfile(os.path.join(directory, name)):
                        again.load_file(os.path.join(directory, name))
            else:
                again = qtune.history.History(directory, self.d.exp)
        except Exception as e:
            if harness_error(e):
                raise
            return bad('exception:' + type(e).__name__, 'rebuilding the history raised %s: %s (%s)' % (type(e).__name__, e, where(e)))
        for what, h in (('live', live), ('rebuilt', again)):
            try:
                self.content(what, h, rows, bad)
            except Exception as e:
                if harness_error(e):
                    raise
                bad('exception:' + type(e).__name__, 'reading the %s history raised %s: %s (%s)' % (what, type(e).__name__, e, where(e)))
            if self.d.res.violations:
                return
        self.equal(live, again, bad)
        rng = random.Random(sc['reloads'])
        for r in rng.sample(range(len(rows)), min(1, len(rows))):
            self.probes.add('reloaded row')
            path = again.get_reload_path(r)
            try:
                got = snapshot(qtune.autotuner.load_auto_tuner(path, {'experiment': self.d.exp}))
            except Exception as e:
                bad('reload', 'row %d: loading %s raised %s: %s' % (r, path, type(e).__name__, e))
                break
            diff = diff_snapshots(rows[r].snap, got)
            if diff:
                bad('reload', 'row %d: the state to which the reload path leads (second) differs from the last one of this row: %s' % (r, diff))
        r = rng.randrange(len(states))
        file, snap = states[r]
        try:
            one = qtune.history.History(file, self.d.exp)
            self.probes.add('single file')
            if one.number_of_stored_iterations != 1:
                bad('single', 'the history of the single file %s has %d rows' % (file, one.number_of_stored_iterations))
            for g in sorted(snap['groups'][0]['last_v'].index):
                if not same(float(one.get_gate_values(g).iloc[0]), float(snap['groups'][0]['last_v'][g])):
                    bad('single', 'the history of the single file %s has the wrong voltage of %s' % (file, g))
            if one.get_reload_path(0) != file:
                bad('single', 'the history of the single file %s leads to %s' % (file, one.get_reload_path(0)))
        except Exception as e:
            if harness_error(e):
                raise
            bad('exception:' + type(e).__name__, 'the history of the single file %s: %s: %s (%s)' % (file, type(e).__name__, e, where(e)))

    def content(self, what, h, rows, bad):
        n = h.number_of_stored_iterations
        if n != len(rows):
            return bad('rows', 'the %s history has %d rows, there were %d stays: %s' % (what, n, len(rows), [r.voltages for r in rows]))
        names = set(self.d.exp.gates)
        if set(h.gate_names) != names:
            return bad('names', 'the %s history has the gates %s instead of %s' % (what, sorted(h.gate_names), sorted(names)))
        gates = {g: list(h.get_gate_values(g)) for g in names}
        values, std, grads, gvars, gcovs = {}, {}, {}, {}, {}
        for i, row in enumerate(rows):
            for g in sorted(names):
                if not same(float(gates[g][i]), float(row.voltages[g])):
                    return bad('voltages', 'row %d of the %s history: %s is %r instead of %r' % (i, what, g, gates[g][i], row.voltages[g]))
            if h.get_reload_path(i) != row.path:
                return bad('path', 'row %d of the %s history leads to %s instead of %s' % (i, what, h.get_reload_path(i), row.path))
            for k, vals in row.measured.items():
                for p, (x, v) in vals.items():
                    if p not in values:
                        values[p] = list(h.get_parameter_values(p))
                        std[p] = list(h.get_parameter_std(p))
                    if not same(float(values[p][i]), x):
                        return bad('parameter', 'row %d of the %s history: %s is %r, measured was %r' % (i, what, p, values[p][i], x))
                    if not same(float(std[p][i]), math.sqrt(v) if v >= 0 else float('nan')):
                        return bad('variance', 'row %d of the %s history: the deviation of %s is %r, the variance measured %r' % (i, what, p, std[p][i], v))
            for k in row.unmeasured_step:
                g = row.snap['groups'][k]
                for p in g['values'].index:
                    if np.isnan(g['target'].loc[p, 'desired']) or any(p in m for m in row.measured.values()):
                        continue
                    if p not in values:
                        values[p] = list(h.get_parameter_values(p))
                        std[p] = list(h.get_parameter_std(p))
                    if not math.isnan(float(values[p][i])):
                        return bad('unmeasured', 'row %d of the %s history: %s is %r although it was not measured at this position' % (i, what, p, values[p][i]))
            for (k, p), (est, cov) in row.gradients.items():
                if est is None:
                    continue
                if p not in grads:
                    grads[p] = h.get_gradients(p)
                    gvars[p] = h.get_gradient_variances(p)
                    gcovs[p] = h.get_gradient_covariances(p)
                if not set(est.index) <= set(grads[p].columns) or len(set(grads[p].columns)) != len(grads[p].columns):
                    return bad('gradient', 'the %s history has the gradient of %s with respect to %s instead of %s' % (
                        what, p, list(grads[p].columns), list(est.index)))
                for g in est.index:
                    if not same(float(grads[p][g].iloc[i]), float(est[g])):
                        return bad('gradient', 'row %d of the %s history: the gradient of %s with respect to %s is %r instead of %r' % (
                            i, what, p, g, grads[p][g].iloc[i], est[g]))
                    if cov is not None:
                        if g not in gvars[p].columns or not same(float(gvars[p][g].iloc[i]), float(cov.loc[g, g])):
                            return bad('covariance', 'row %d of the %s history: the variance of the gradient of %s with respect to %s is %r instead of %r' % (
                                i, what, p, g, gvars[p][g].iloc[i] if g in gvars[p].columns else None, cov.loc[g, g]))
                        for g2 in est.index:
                            self.probes.add('covariances')
                            if (g, g2) not in gcovs[p].columns or not same(float(gcovs[p][(g, g2)].iloc[i]), float(cov.loc[g2, g])):
                                return bad('covariance', 'row %d of the %s history: the covariance of the gradient of %s for %s is %r instead of %r' % (
                                    i, what, p, (g, g2), gcovs[p][(g, g2)].iloc[i] if (g, g2) in gcovs[p].columns else list(gcovs[p].columns), cov.loc[g2, g]))
            if row.data:
                data = h.evaluator_data.iloc[i]
                for e, y in row.data.items():
                    x = data.get(e)
                    if not isinstance(x, dict) or not np.array_equal(np.asarray(x['raw_y_data'][0], dtype=float), y, equal_nan=True):
                        return bad('raw data', 'row %d of the %s history: the data of %s are %r, measured were %r' % (
                            i, what, e, x['raw_y_data'] if isinstance(x, dict) else x, y))

    def equal(self, a, b, bad):
        if set(a.parameter_names) != set(b.parameter_names):
            return bad('differs', 'the parameters of the live history are %s, of the rebuilt one %s' % (sorted(a.parameter_names), sorted(b.parameter_names)))
        x, y = a.gradient_controlled_parameter_names, b.gradient_controlled_parameter_names
        if {k: set(v) for k, v in x.items()} != {k: set(v) for k, v in y.items()}:
            return bad('differs', 'the gradients of the live history are %s, of the rebuilt one %s' % (x, y))
        if set(a.evaluator_names) != set(b.evaluator_names):
            return bad('differs', 'the evaluators of the live history are %s, of the rebuilt one %s' % (list(a.evaluator_names), list(b.evaluator_names)))

        def frames(h):
            for p in sorted(h.parameter_names):
                yield 'values of ' + p, h.get_parameter_values(p).to_frame(p)
                yield 'deviations of ' + p, h.get_parameter_std(p).to_frame(p)
            for p in sorted(h.gradient_controlled_parameter_names):
                yield 'gradient of ' + p, h.get_gradients(p)
                yield 'gradient variances of ' + p, h.get_gradient_variances(p)
        for (name, f), (_, g) in zip(frames(a), frames(b)):
            if sorted(map(str, f.columns)) != sorted(map(str, g.columns)) or not np.array_equal(
                    f.values.astype(float), g[list(f.columns)].values.astype(float), equal_nan=True):
                return bad('differs', 'the %s of the live history %s differ from the rebuilt one %s' % (name, f.to_dict('list'), g.to_dict('list')))

    def nontrivial(self, sc, res):
        return 'several rows' in res.probes

    def shrink(self, sc):
        if sc['stored']:
            yield dict(sc, stored=False)
        yield from core_shrink(sc)
        for i, op in enumerate(sc['ops']):
            if op.get('resume'):
                yield dict(sc, ops=sc['ops'][:i] + [{k: v for k, v in op.items() if k != 'resume'}] + sc['ops'][i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a random tuning (failures, instrument errors, manual changes, restarts, retargetings, resumes into a new directory) whose states are '
                 'appended to a history after every iteration and, in 40% of the runs, stored; at the end the history is rebuilt from each directory and both are '
                 'compared with a reference history and with each other, row by row; runs are distinct if the trace of the tuning or the number of rows '
                 'differs; non-trivial with more than one row',
            measure='(operation, group, status, pending, complete, exception, failed groups)',
            real=['qtune.history.History', 'qtune.storage incl. ParallelHDF5Reader and the background writer', 'qtune.autotuner, parameter_tuner, solver, gradient, kalman_gradient',
                  'h5py', 'file system', 'concurrent.futures'],
            stub=['experiment (simulated instruments with faults)', 'evaluators', 'clock', 'thread scheduling (cooperative)'],
            assumptions=['the history is fed after every completed iteration', 'evaluators have distinct names', 'names contain neither # nor /',
                         'sampled, not exhaustive: a clean batch is evidence, no proof'])
