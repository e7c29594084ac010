"""C26: the real MATLAB backed experiments on a simulated MATLAB whose calls fail before or after they took effect."""
import copy
import gc
import hashlib
import os
import random
import warnings

import numpy as np
import pandas as pd

from .. import fakematlab as fm
from .. import gen
from ..clock import CLOCK, MONO0
from ..driver import Result, harness_error, where

fm.install()
import qtune.sm                                                                                    # noqa
import qtune.sm_tune_qqd                                                                           # noqa
from qtune.experiment import Measurement                                                           # noqa

OURS = os.path.join(os.path.dirname(qtune.sm.__file__), 'MATLAB')
SCAN = {'line_scan': 'PythonChargeLineScan', 'detune_scan': 'PythonLineScan', 'lead_scan': 'LeadScan', 'load_scan': 'LoadScan',
        '2d_scan': 'PythonQPCScan2D'}
QQD = ('line', 'lead', 'load', 'load pos', 'chrg rnd', 'chrg s', 'sensor', 'sensor 2d', 'chrg', 'resp', 'stp', 'tl')
NUMBERS = ('N_points', 'N_average', 'center', 'range', 'ramptime')


def number(d):
    """Settings as they come from evaluators and reloaded files."""
    if isinstance(d, dict):
        a = np.array(d['array'], dtype=d['dtype'])
        a = a.T.copy().T if d.get('order') == 'F' else a
        return a[..., ::-1][..., ::-1] if d.get('order') == 'view' else a
    if isinstance(d, list) and d and d[0] == 'np':
        return getattr(np, d[1])(d[2])
    if isinstance(d, list) and d and d[0] == 'tuple':
        return tuple(d[1])
    return d


def plain(x):
    """What MATLAB should see of a setting; arrays as nested lists, one-dimensional ones as rows."""
    if isinstance(x, fm.Array):
        return ('array', x.a.astype(float).tolist())
    if isinstance(x, np.ndarray):
        return ('array', np.atleast_2d(x).astype(float).tolist())
    if isinstance(x, np.generic):
        return float(x)
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, (list, tuple)):
        return ('cell', [plain(v) for v in x])
    return x


class Module:
    SECONDS = dict(quick=14, thorough=600, shrink=30)
    PROBES = {'C26': ['set', 'set some gates', 'set refused by MATLAB', 'error after effect', 'error before effect', 'worked after an error', 'unknown gate',
                      'unknown measurement', 'array setting', 'started', 'connected by name', 'connected to any', 'connection shared', 'connected again after it was dropped',
                      'other qtune on the path', 'other qtune kept', 'set up', 'no set-up', 'error while connecting', 'rounded voltages', 'QQD', 'earlier data looked at again', 'error while tuning', 'measured again'] + sorted(SCAN) + sorted(QQD)}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C26-%d' % seed)
        u = rng.uniform

        def session():
            return dict(volts={g: gen.r3(u(-1, 0)) for g in fm.GATES}, quantum=rng.choice([0, 0, 1e-3, 1 / 2 ** 12]), far=rng.choice([1e9, 1e9, 0.5, 0.03]),
                        own=rng.choice([None, None, OURS_TAG, '/usr']), smdata=rng.random() < 0.7)
        names = ['MATLAB_%d' % i for i in range(rng.choice([1, 1, 2, 3]))]
        sc = dict(shared={n: session() for n in names}, template=session(), ops=[], tick=rng.choice([1e-3, 0.02, 1.]))

        def setting():
            x = rng.random()
            v = gen.r3(u(-2, 2))
            if x < 0.4:
                return v
            if x < 0.5:
                return rng.randint(1, 2000)
            if x < 0.75:
                return ['np', rng.choice(['float64', 'float32', 'int64', 'int32']), rng.randint(1, 2000)]
            if x < 0.8:
                return ['tuple', [v, rng.randint(0, 5)]]
            shape = rng.choice([(rng.randint(1, 5),), (rng.randint(1, 4), rng.randint(1, 4))])
            a = np.round(np.array([u(-50, 50) for _ in range(int(np.prod(shape)))]).reshape(shape))
            return {'array': a.tolist(), 'dtype': rng.choice(['float64', 'float32', 'int32']), 'order': rng.choice(['C', 'F', 'view'])}

        rate = rng.choice([0, 0.15, 0.4])
        frate = rng.choice([0, 0.2, 0.5])
        for i in range(rng.choice([4, 10, 25])):
            x = rng.random()
            if i == 0 or x < rate * 0.6:
                how = rng.choice(['start', 'any'] + names * 2)
                op = dict(op='connect', how=how, script=rng.choice([None, None, 'setup_lab', 'setup_lab', 'setup_nothing', 'no_such_script']),
                          overwrite=rng.choice([None, None, True, False]), kind=rng.choice(['LegacyDQDRefactored', 'LegacyDQDRefactored', 'SMTuneQQD']))
            elif x < rate:
                op = dict(op='drop', k=rng.randrange(4))
            elif x < 0.6:
                gates = rng.sample(fm.GATES, rng.choice([1, 1, 2, 3, len(fm.GATES)]))
                step = rng.choice([0.01, 0.1, 1.])
                op = dict(op='set', k=rng.randrange(4), dv={g: gen.r3(u(-1, 1) * step) for g in gates}, exact=rng.random() < 0.2)
                if rng.random() < 0.05:
                    op['dv']['no such gate'] = 0.
            elif x < 0.75:
                op = dict(op='read', k=rng.randrange(4))
            else:
                name = rng.choice(sorted(SCAN))
                if rng.random() < 0.06:
                    name = rng.choice(['no_such_scan', 'line', 'Line_scan'])
                options = {}
                if name in ('line_scan', 'detune_scan'):
                    options = {k: setting() for k in NUMBERS if rng.random() < 0.8}
                elif name == '2d_scan':
                    options = {'range': setting(), 'n_points': setting()}
                if name != '2d_scan':
                    options['gate'] = rng.choice(fm.GATES)
                    if rng.random() < 0.7:
                        options['AWGorDecaDAC'] = rng.choice(['AWG', 'DecaDAC'])
                op = dict(op='measure', k=rng.randrange(4), name=name, options=options, again=rng.random() < 0.3)
                # if it is a QQD
                op['qqd'] = name if name not in SCAN else rng.choice(QQD)
                op['index'] = rng.choice([rng.randint(1, 6), float(rng.randint(1, 6)), ['np', 'int64', rng.randint(1, 6)]])
                op['pairs'] = {k: rng.choice([gen.r3(u(-2, 2)), rng.randint(-5, 500), ['np', rng.choice(['float64', 'float32', 'int64']), rng.randint(1, 2000)],
                                              rng.choice(['abc', 'fine', 'x y']), rng.random() < 0.5])
                               for k in rng.sample(['rng', 'npoints', 'nrep', 'opts', 'gate', 'run', 'loadFile'], rng.choice([0, 0, 1, 2, 3, 4]))}
            if rng.random() < frate:
                op['faults'] = [dict(n=rng.choice([1, 1, 2, 3, 4, 6, 9] + ([12, 15] if op['op'] == 'measure' else [])), when=rng.choice(['before', 'after']), kind=rng.choice(sorted(fm.ERRORS)))]
            sc['ops'].append(op)
        return sc

    def execute(self, sc):
        res = Result()
        res.extra = {}
        if not Module.frozen:
            Module.frozen = True
            gc.collect()
            gc.freeze()
        run = Run(sc, res)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                run.run()
            finally:
                run.live = []
                run.names = []
                gc.collect()
                qtune.sm.SpecialMeasureMatlab.connected_engines.clear()
        res.digest = run.hash.hexdigest()
        res.completed = True
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    frozen = False

    def nontrivial(self, sc, res):
        return bool(res.probes.get('set') and res.faults)

    def shrink(self, sc):
        ops = sc['ops']
        for i in range(len(ops)):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
        for i, op in enumerate(ops):
            if op.get('faults'):
                yield dict(sc, ops=ops[:i] + [{k: v for k, v in op.items() if k != 'faults'}] + ops[i + 1:])
            for key in ('dv', 'options'):
                for g in list(op.get(key) or ()):
                    if len(op[key]) > 1:
                        yield dict(sc, ops=ops[:i] + [dict(op, **{key: {a: b for a, b in op[key].items() if a != g}})] + ops[i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a random sequence of connections (new, by name, to any session, shared, dropped), set and read calls and scans with random settings on '
                 'simulated MATLAB sessions whose calls fail before or after they took effect; runs are distinct if the sequence of results differs; non-trivial if '
                 'voltages were set and errors were injected',
            measure='(operation, error, kind of session) combinations',
            real=['qtune.sm (SpecialMeasureMatlab, LegacyDQDRefactored)', 'qtune.sm_tune_qqd.SMTuneQQD', 'qtune.mat2py (function and struct views)', 'qtune.experiment'],
            stub=['matlab.engine', 'MATLAB sessions with the special-measure scripts (sim/fakematlab.py)', 'clock'],
            assumptions=['the simulated engine accepts and converts values like the documentation of matlab.engine says', 'one user per session', 'sampled, not exhaustive'])


OURS_TAG = '<ours>'


class Run:
    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.hash = hashlib.blake2b(digest_size=8)
        self.live = []               # (experiment, session)
        self.files = set()
        self.errors = False
        self.dropped = set()
        self.measured = {}

    def hit(self, p):
        self.res.probes[p] = self.res.probes.get(p, 0) + 1

    def bad(self, kind, msg):
        if len(self.res.violations) < 5:
            self.res.violations.append(('C26', kind, 'operation %d: %s' % (self.i, msg)))

    def run(self):
        W = fm.WORLD
        W.reset()
        qtune.sm.SpecialMeasureMatlab.connected_engines.clear()

        def args(d):
            return dict(d, own=OURS if d['own'] == OURS_TAG else d['own'])
        W.template = args(self.sc['template'])
        for n, d in self.sc['shared'].items():
            W.shared[n] = fm.Session(name=n, **args(d))
        for self.i, op in enumerate(self.sc['ops']):
            self.res.steps += 1
            CLOCK.advance(self.sc.get('tick', 1.))
            if op['op'] == 'connect':
                self.connect(op)
            elif not self.live:
                continue
            elif op['op'] == 'drop':
                k = op['k'] % len(self.live)
                self.dropped.add(self.live[k][1].name)
                del self.live[k]
                gc.collect()
            else:
                exp, session, views = self.live[op['k'] % len(self.live)]
                self.use(op, exp, session, views)
                del exp, views
            if self.res.violations:
                return

    def attempt(self, f, sessions, faults):
        """(result, exception)"""
        for s in sessions:
            s.arm(faults)
        try:
            return f(), None
        except Exception as e:
            if harness_error(e) and not isinstance(e, fm.ALL_ERRORS + (fm.EngineError, TypeError, ValueError)):
                raise
            e.__traceback__ = None if isinstance(e, fm.ALL_ERRORS) else e.__traceback__
            return None, e
        except KeyboardInterrupt as e:
            return None, e.with_traceback(None)
        finally:
            for s in sessions:
                for kind, when in s.fired:
                    k = 'MATLAB error %s (%s)' % (when, kind)
                    self.res.faults[k] = self.res.faults.get(k, 0) + 1
                    self.hit('error %s effect' % when)
                s.faults = []

    def sessions(self):
        return list(fm.WORLD.shared.values()) + [s for s, _ in fm.WORLD.started]

    def connect(self, op):
        W = fm.WORLD
        how = op['how']
        connects, refused, started = list(W.connects), W.refused, len(W.started)
        connected = {n: s.engine is not None and s.engine() is not None for n, s in W.shared.items()}
        kw = dict(special_measure_setup_script=op['script'], silently_overwrite_path=op['overwrite'])
        if how == 'start':
            f = lambda: qtune.sm.SpecialMeasureMatlab(**kw)                                        # noqa
        else:
            f = lambda: qtune.sm.SpecialMeasureMatlab(connect=True if how == 'any' else how, **kw)   # noqa
        sessions = self.sessions()
        before = {id(s): (s.smdata, list(s.path), len(s.setups)) for s in sessions}
        if how == 'start' and op.get('faults'):
            op = dict(op, faults=None)
        m, exc = self.attempt(f, sessions, op.get('faults'))
        fired = any(s.fired for s in sessions)
        message = str(exc)
        name = type(exc).__name__
        scriptless = op['script'] in ('setup_nothing', 'no_such_script')
        expected = isinstance(exc, fm.MatlabExecutionError) and op['script'] == 'no_such_script' or \
            isinstance(exc, RuntimeError) and op['script'] == 'setup_nothing'
        exc = None if exc is None else (name, message, where(exc))
        gc.collect()
        self.hash.update(repr(('connect', how, name)).encode())
        self.res.abstract.add(('connect', how[:5], op['script'], op['overwrite'], name))
        if exc is not None:
            if fired:
                self.hit('error while connecting')
                self.errors = True
            elif expected and scriptless:
                self.hit('no set-up')
            elif name == 'EngineError' and how == 'any' and all(connected.values()) and not self.live:
                pass
            else:
                self.bad('connect', 'connecting (%s) raised %s: %s (%s)' % (how, name, exc[1], exc[2]))
            return
        if W.refused > refused:
            self.bad('connected-twice', 'a session which is still connected was connected again')
        session = m.engine._session
        if how == 'start':
            self.hit('started')
            if len(W.started) != started + 1 or W.started[-1][0] is not session:
                self.bad('not-started', 'no new session was started')
        elif len(W.started) != started:
            self.bad('started', 'a new session was started instead of connecting to one')
        elif how != 'any':
            self.hit('connected by name')
            if session.name != how:
                self.bad('other-session', 'connected to %s instead of %s' % (session.name, how))
            if connected[how]:
                self.hit('connection shared')
                if W.connects != connects:
                    self.bad('connected-twice', '%s was connected although it was connected already' % how)
            elif how in self.dropped:
                self.hit('connected again after it was dropped')
        else:
            self.hit('connected to any')
        smdata, _, setups = before.get(id(session), (W.template['smdata'], None, 0))
        if smdata or op['script'] is None:
            if len(session.setups) > setups:
                self.bad('set-up', 'the set-up script was run although it was not necessary')
        elif op['script'] == 'setup_lab':
            self.hit('set up')
            if not session.smdata:
                self.bad('not-set-up', 'the set-up script was not run')
        was = before.get(id(session), (None, [W.template['own']] if W.template['own'] else []))[1]
        if was and was[0] != OURS:
            self.hit('other qtune on the path')
        if op['overwrite'] is False and was and was[0] != OURS:
            self.hit('other qtune kept')
            if session.path != was and not fired:
                self.bad('path', 'the path of MATLAB was changed from %s to %s' % (was, session.path))
        elif not session.path or session.path[0] != OURS:
            self.bad('path', 'MATLAB uses the scripts of %s' % session.path)
        cls = getattr(qtune.sm, op['kind'], None) or getattr(qtune.sm_tune_qqd, op['kind'])
        self.live.append((cls(m), session, []))

    def use(self, op, exp, session, views):
        qqd = type(exp).__name__ == 'SMTuneQQD'
        if qqd:
            self.hit('QQD')
        others = [s for s in self.sessions() if s is not session]
        others_before = [(dict(s.volts), len(s.requested), len(s.scans)) for s in others]
        volts, nset, nscan = dict(session.volts), len(session.requested), len(session.scans)
        op_name = op['op']
        usable = session.smdata and bool(session.path)
        m = copied = None
        if op_name == 'set':
            base = session.volts if not op['exact'] else {g: 0. for g in volts}
            new = pd.Series({g: base.get(g, 0.) + x for g, x in op['dv'].items()})
            copied = new.copy()
            f = lambda: exp.set_gate_voltages(new)                                                 # noqa
        elif op_name == 'read':
            f = lambda: (exp.read_gate_voltages(), exp.gate_voltage_names() if callable(exp.gate_voltage_names) else exp.gate_voltage_names)   # noqa
        else:
            if qqd:
                op = dict(op, name=op['qqd'])
                if self.measured.get((qqd, op['name'])) is not None and op['again']:
                    # the same measurement once more
                    m = self.measured[qqd, op['name']]
                else:
                    options = dict(op['pairs'], index=op['index'])
                    keys = sorted(options)
                    random.Random(repr(keys)).shuffle(keys)
                    m = self.measured[qqd, op['name']] = Measurement(op['name'], **{k: number(options[k]) for k in keys})
            else:
                if self.measured.get((qqd, op['name'])) is not None and op['again']:
                    self.hit('measured again')
                    m = self.measured[qqd, op['name']]
                else:
                    m = self.measured[qqd, op['name']] = Measurement(op['name'], **{k: number(v) for k, v in op['options'].items()})
            copied = copy.deepcopy(m.options)
            f = lambda: exp.measure(m)                                                             # noqa
        out, exc = self.attempt(f, [session], op.get('faults'))
        fired = list(session.fired)
        for s, b in zip(others, others_before):
            if (s.volts, len(s.requested), len(s.scans)) != b:
                self.bad('other-session-used', 'another session was used')
        name = type(exc).__name__ if exc is not None else None
        self.hash.update(repr((op_name, name, fired, sorted(session.volts.items()), len(session.scans))).encode())
        self.res.abstract.add((op_name, op.get('name'), name, tuple(fired), qqd, usable))
        requested, scans = session.requested[nset:], session.scans[nscan:]
        # every error reaches the caller
        if fired:
            self.errors = True
            if qqd and op_name == 'measure':
                self.hit('error while tuning')
            if exc is None:
                self.bad('swallowed', 'the error of MATLAB (%s) in %s did not reach the caller' % (fired[0][0], op_name))
            elif not isinstance(exc, fm.ERRORS[fired[0][0]]):
                self.bad('other-error', 'the error of MATLAB (%s) reached the caller as %s: %s' % (fired[0][0], name, exc))
        if m is not None and not same_options(m.options, copied, types=not qqd):
            self.bad('settings-changed', 'measuring changed the settings from %s to %s' % (copied, m.options))
        if op_name == 'set' and not new.equals(copied):
            self.bad('argument-changed', 'setting voltages changed its argument')
        if op_name != 'set' and (requested or session.volts != volts):
            self.bad('voltages-changed', '%s set voltages' % op_name)
        if op_name != 'measure' and scans:
            self.bad('scan', '%s made a scan' % op_name)
        if not usable and not fired:
            if exc is None:
                self.bad('silent', '%s returned %s although MATLAB is not set up' % (op_name, out))
            return
        if op_name == 'set':
            unknown = [g for g in new.index if g not in volts]
            if unknown:
                self.hit('unknown gate')
                if exc is None:
                    self.bad('unknown-gate', 'setting the unknown gate %s did not raise' % unknown)
                if requested:
                    self.bad('unknown-gate-set', 'voltages were set although %s is unknown' % unknown)
                return
            want = dict(volts, **{g: float(new[g]) for g in new.index})
            if len(requested) > 1:
                self.bad('set-twice', 'the voltages were set %d times' % len(requested))
            for r in requested:
                r = dict(volts, **r)
                if r != want:
                    self.bad('set-wrong', 'requested were %s at %s, MATLAB was told %s' % (dict(new), volts, r))
            if fired:
                return
            refused = any(abs(session.pretuned[g] - x) > session.far for g, x in want.items())
            if refused:
                self.hit('set refused by MATLAB')
                self.errors = True
                if not isinstance(exc, fm.MatlabExecutionError):
                    self.bad('refusal-swallowed', 'MATLAB refused the voltages, the caller got %s' % (name or 'a result'))
                return
            if exc is not None:
                self.bad('exception', 'setting %s raised %s: %s (%s)' % (dict(new), name, exc, where(exc)))
                return
            if not requested:
                self.bad('not-set', 'MATLAB was not told to set %s' % dict(new))
            self.hit('set')
            if len(new) < len(volts):
                self.hit('set some gates')
            if session.quantum:
                self.hit('rounded voltages')
            got = dict(out)
            if {g: got[g] for g in got if g in new.index} != {g: session.volts[g] for g in new.index} or any(session.volts.get(g) != x for g, x in got.items()):
                self.bad('set-result', 'set returned %s, the voltages are %s' % (got, session.volts))
        elif fired:
            return
        elif op_name == 'read':
            if exc is not None:
                self.bad('exception', 'reading raised %s: %s (%s)' % (name, exc, where(exc)))
                return
            if dict(out[0]) != session.volts:
                self.bad('read', 'read %s, the voltages are %s' % (dict(out[0]), session.volts))
            if set(out[1]) != set(session.volts) or len(out[1]) != len(session.volts):
                self.bad('names', 'the names of the gates are %s' % (out[1],))
        else:
            if op['name'] not in (QQD if qqd else SCAN):
                self.hit('unknown measurement')
                if not isinstance(exc, ValueError):
                    self.bad('unknown-measurement', 'the unknown measurement %s yields %s' % (op['name'], name or out))
                if scans:
                    self.bad('unknown-scan', 'a scan was made for the unknown measurement %s' % op['name'])
                return
            if exc is not None:
                self.bad('exception', 'measuring %s with %s raised %s: %s (%s)' % (op['name'], copied, name, exc, where(exc)))
                return
            self.hit(op['name'])
            if qqd:
                self.tuned(op['name'], copied, out, scans, session, views)
                if self.errors and not self.res.violations:
                    self.hit('worked after an error')
                return
            if any(isinstance(x, np.ndarray) for x in copied.values()):
                self.hit('array setting')
            if [s[0] for s in scans] != [SCAN[op['name']]]:
                self.bad('scans', '%s made the scans %s' % (op['name'], [s[0] for s in scans]))
                return
            got = dict(scans[0][1])
            file = got.pop('file_name', None)
            want = {k: plain(v) for k, v in copied.items()}
            got = {k: plain(v) for k, v in got.items()}
            if got != want:
                diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
                self.bad('settings', 'the settings (seen by MATLAB, requested) of %s differ: %s' % (op['name'], diff))
            if not isinstance(file, str) or not file or file in self.files:
                self.bad('file-name', 'the scan is stored as %r, which %s' % (file, 'was used before' if file in self.files else 'is no name'))
            self.files.add(file)
            data = session.data[nscan + 1]
            if not isinstance(out, np.ndarray) or out.shape != data.shape or not np.array_equal(out, data):
                self.bad('data', 'the data of the scan were not returned unchanged')
        if self.errors and not self.res.violations:
            self.hit('worked after an error')

    def tuned(self, name, options, out, scans, session, views):
        """The tune script was called once with the name, the index and the other settings, and its data came back."""
        if len(scans) != 1 or scans[0][0] != 'tune':
            self.bad('scans', '%s made the scans %s' % (name, scans))
            return
        got = scans[0][1]
        pairs = dict(zip(got['pairs'][::2], map(plain, got['pairs'][1::2])))
        want = {k: float(v) if isinstance(v, bool) else plain(v) for k, v in options.items() if k != 'index'}
        pairs = {k: float(v) if isinstance(v, bool) else v for k, v in pairs.items()}
        if got['name'] != name or got['index'] != float(options['index']) or pairs != want or len(got['pairs']) != 2 * len(want):
            self.bad('settings', 'MATLAB was told to tune %s, requested were %s with %s' % (got, name, options))
            return
        data = session.data[len(session.scans)]
        if name in ('stp', 'tl'):
            x = 'STp' if name == 'stp' else 'Tp'
            if not isinstance(out, np.ndarray) or out.tolist() != [data['ana'][x + '_x'], data['ana'][x + '_y']]:
                self.bad('data', '%s returned %s, its analysis is %s' % (name, out, data['ana']))
            return
        views.append((name, out, data))
        del views[:-3]
        for k, (n, view, data) in enumerate(views):
            v = view['data']
            if not np.array_equal(np.asarray(v.data), data['data'].a) or v.args.fullFile != data['args']['fullFile'] or v.ana.width != data['ana']['width']:
                self.bad('data', 'the data of %s (%d measurements ago) are %s of %s, but should be %s of %s' % (
                    n, len(views) - 1 - k, np.asarray(v.data).tolist(), v.args.fullFile, data['data'].a.tolist(), data['args']['fullFile']))
            elif len(views) > 1:
                self.hit('earlier data looked at again')


def same_options(a, b, types=True):
    if list(a) != list(b):
        return False
    return all((type(a[k]) is type(b[k]) or not types) and plain(a[k]) == plain(b[k]) for k in a)
