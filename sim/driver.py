"""Runs one scenario (a JSON document) against the real code with the reference model beside it."""
import hashlib
import io
import math
import os
import traceback

import h5py
import pandas as pd

import qtune.autotuner
import qtune.storage

from . import world
from .shadow import Shadow, diff_snapshots
from .world import INSTRUMENT, build, snapshot


class Result:
    def __init__(self):
        self.violations = []      # (property, kind, message)
        self.probes = {}
        self.faults = {}
        self.digest = ''
        self.steps = 0
        self.abstract = set()     # abstract states visited
        self.completed = False

    def key(self):
        return [(p, k) for p, k, _ in self.violations]


def harness_error(exc):
    """True if the innermost frame which is ours or theirs belongs to the harness."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/qtune/' in f:
            last = 'code'
        elif '/verif' in f or os.path.dirname(os.path.abspath(__file__)) in f:
            last = 'harness'
        tb = tb.tb_next
    return last == 'harness' and not isinstance(exc, INSTRUMENT)


def store(at, exp):
    """The bytes of a save of the present state."""
    bio = io.BytesIO()
    with h5py.File(bio, 'w') as f:
        qtune.storage.to_hdf5(f, 'autotuner', at, reserved={'experiment': exp})
    return bio.getvalue()


def load(data, exp):
    with h5py.File(io.BytesIO(data), 'r') as f:
        return qtune.storage.from_hdf5(f, {'experiment': exp})['autotuner']


class Driver:
    def __init__(self, cfg, shadow=True, path=None, append=False):
        self.cfg = cfg
        self.b = build(cfg, path, append=append)
        self.exp = self.b.exp
        self.at = self.b.autotuner
        self.shadow = Shadow(cfg, dict(self.exp.v)) if shadow else None
        self.res = Result()
        self.hash = hashlib.blake2b(digest_size=8)
        self.cache = {}
        self.snap = snapshot(self.at, self.cache)
        self.saves = []
        self.dead = False
        self.done_iterated = False
        self.iterations = 0

    # -- helpers -------------------------------------------------------------------------------------------------
    def _allow(self):
        """Parameters which may be evaluated as NaN: every group measuring them has a good point."""
        ok, bad = set(), set()
        for gi, g in enumerate(self.cfg['groups']):
            s = self.snap['groups'][gi]
            if g['kind'] == 'newton':
                names = [p for src in g['sources'] for p in self.cfg['sources'][src]]
                good = bool(s['good'])
            else:
                names = [p for src in g['cheap'] + g['expensive'] for p in self.cfg['sources'][src]]
                good = bool(s['tuned'])
            (ok if good else bad).update(names)
        self.exp.may_fail = ok - bad

    def _count_faults(self):
        for what, when in self.exp.fired:
            key = 'nan' if what == 'nan' else '%s error %s' % (what, when)
            self.res.faults[key] = self.res.faults.get(key, 0) + 1

    def _digest(self, op, exc):
        s = self.snap
        self.hash.update(repr((op['op'], type(exc).__name__ if exc else None, s['index'], s['status'],
                               sorted(self.exp.v.items()), None if s['pending'] is None else sorted(dict(s['pending']).items())
                               )).encode())
        pend = s['pending'] is not None
        self.res.abstract.add((op['op'], s['index'], s['status'], pend, s['complete'], bool(exc),
                               tuple(bool(g['failed']) for g in s['groups'])))

    def bad(self, prop, kind, msg):
        self.res.violations.append((prop, kind, msg))

    # -- operations ------------------------------------------------------------------------------------------------
    def step(self, i, op):
        if self.dead:
            return
        kind = op['op']
        sh = self.shadow
        if sh is not None:
            sh.where = 'operation %d (%s)' % (i, kind)
        pre = self.snap
        v0 = dict(self.exp.v)
        exc = None
        self._allow()
        if kind == 'iterate':
            if pre['complete']:
                if self.done_iterated:
                    return
                self.done_iterated = True
            self.exp.arm(op.get('faults'), op.get('nans'))
            try:
                self.at.iterate()
            except INSTRUMENT as e:
                exc = e
            except Exception as e:
                exc = e
                if harness_error(e):
                    raise
                if not (pre['complete'] and isinstance(e, RuntimeError)):
                    self.bad('*', 'exception:' + type(e).__name__, 'operation %d: iterate raised %s: %s (%s)' % (
                        i, type(e).__name__, e, where(e)))
                    self.dead = True
            else:
                self.iterations += 1
            fault = [f for f in self.exp.fired if f[0] != 'nan']
            if fault and not isinstance(exc, INSTRUMENT):
                self.bad('C06', 'swallowed', 'operation %d: the instrument error (%s %s) did not reach the caller' % (
                    i, fault[0][0], fault[0][1]))
                self.dead = True
            self.snap = snapshot(self.at, self.cache)
            if sh is not None and not self.dead:
                sh.iterate(pre, self.snap, list(self.exp.log), exc, bool(fault), v0, dict(self.exp.v))
            self._count_faults()
        elif kind in ('manual', 'restart'):
            self.exp.arm()
            for g, x in op.get('dv', {}).items():
                if g in self.exp.v:
                    self.exp.v[g] = self.exp._quantise(self.exp.v[g] + x)
            if op.get('dv'):
                self.res.faults['manual change'] = self.res.faults.get('manual change', 0) + 1
            self.exp.arm(op.get('faults'))
            self._restart(pre, sh, i)
        elif kind == 'retarget':
            self.exp.arm()
            changes = [{c: pd.Series({p: float(x) for p, x in d.items()}) for c, d in ch.items()} for ch in op['changes']]
            try:
                self.at.change_targets(changes)
            except Exception as e:
                exc = e
                self.bad('*', 'exception:' + type(e).__name__, 'operation %d: change_targets raised %s: %s (%s)' % (
                    i, type(e).__name__, e, where(e)))
                self.dead = True
            self.snap = snapshot(self.at, self.cache)
            if sh is not None and not self.dead:
                sh.retarget(pre, self.snap, list(self.exp.log), op['changes'], exc)
            self.res.faults['retarget'] = self.res.faults.get('retarget', 0) + 1
        elif kind in ('save', 'resume'):
            try:
                data = store(self.at, self.exp)
                if kind == 'save':
                    self.saves.append((data, pre, None if sh is None else sh.copy(), dict(self.exp.v)))
                else:
                    self.at = load(data, self.exp)
            except Exception as e:
                self.bad('*', 'exception:' + type(e).__name__, 'operation %d: %s raised %s: %s (%s)' % (
                    i, kind, type(e).__name__, e, where(e)))
                self.dead = True
                return
            if kind == 'resume':
                self.snap = snapshot(self.at, self.cache)
                if sh is not None:
                    sh.resume(pre, self.snap)
                self.res.faults['resume'] = self.res.faults.get('resume', 0) + 1
        elif kind == 'resume_old':
            # the process died; an earlier save is loaded, the voltages stayed where they are, hence restart
            if not self.saves:
                return
            data, old, model, v = self.saves[op['k'] % len(self.saves)]
            try:
                self.at = load(data, self.exp)
            except Exception as e:
                self.bad('*', 'exception:' + type(e).__name__, 'operation %d: loading raised %s: %s (%s)' % (
                    i, type(e).__name__, e, where(e)))
                self.dead = True
                return
            self.snap = snapshot(self.at, self.cache)
            if sh is not None:
                model = model.copy()
                model.violations, model.probes, model.where = sh.violations, sh.probes, sh.where
                self.shadow = sh = model
                sh.resume(old, self.snap, 'reload of an earlier save')
            self.res.faults['crash and resume'] = self.res.faults.get('crash and resume', 0) + 1
            self.exp.arm(op.get('faults'))
            self._restart(self.snap, sh, i)
        else:
            raise ValueError(kind)
        if not self.snap['complete']:
            self.done_iterated = False
        elif kind == 'iterate':
            self.res.completed = True
        self.res.steps += 1
        self._digest(op, exc)

    def _restart(self, pre, sh, i):
        for attempt in (0, 1):
            exc = None
            try:
                self.at.restart()
            except INSTRUMENT as e:
                exc = e
                self._count_faults()
                self.exp.arm()
            except Exception as e:
                self.bad('*', 'exception:' + type(e).__name__, 'operation %d: restart raised %s: %s (%s)' % (
                    i, type(e).__name__, e, where(e)))
                self.dead = True
                return
            if exc is None:
                break
        self.snap = snapshot(self.at, self.cache)
        if sh is not None:
            sh.restart(pre, self.snap, list(self.exp.log), dict(self.exp.v), None)

    def run(self, ops):
        for i, op in enumerate(ops):
            self.step(i, op)
            if self.dead or (self.shadow is not None and len(self.shadow.violations) > 20):
                break
        return self.finish()

    def finish(self):
        if self.shadow is not None:
            self.res.violations = self.shadow.violations + self.res.violations
            self.res.probes = self.shadow.probes
        self.res.digest = self.hash.hexdigest()
        return self.res


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb if '/qtune/' in f.filename]
    return ' < '.join(reversed(frames[-3:]))
