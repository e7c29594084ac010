"""C29: the plots of the history and the plot windows of the GUI (real Qt without screen) show what was recorded."""
import hashlib
import importlib.util
import math
import os
import random
import shutil
import sys
import time
import types

import numpy as np

import qtune.gui
import qtune.history

from .. import boot, gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..runner import ddmin
from ..sched import Scheduler
from ..world import snapshot
from .hist import PARAMS, rename

KNOWN = ['position_RFA', 'position_RFB', 'parameter_tunnel_coupling', 'parameter_time_load', 'current_signal', 'optimal_signal', 'position_SDB1', 'position_SDB2']
SETTLE = 4.
REAL = {}


def real():
    """A second copy of the GUI module which uses the real Qt (offscreen), and the modules it needs."""
    if not REAL:
        os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
        os.environ.setdefault('XDG_RUNTIME_DIR', os.getcwd())
        swap = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'pyqtgraph' or n.startswith('pyqtgraph.')}
        ipython = sys.modules['IPython']
        asked = ipython.get_ipython
        magic = types.SimpleNamespace(magic=lambda *a: None, run_line_magic=lambda *a: None, enable_gui=lambda *a: None)
        import pyqtgraph as pg
        app = pg.mkQApp()
        ipython.get_ipython = lambda: magic
        try:
            spec = importlib.util.spec_from_file_location('qtune._gui_with_qt', qtune.gui.__file__)
            gui = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(gui)
        finally:
            ipython.get_ipython = asked
        mine = {n: m for n, m in sys.modules.items() if n == 'pyqtgraph' or n.startswith('pyqtgraph.')}
        REAL.update(gui=gui, app=app, pg=pg, modules=mine)
        for n in mine:
            del sys.modules[n]
        sys.modules.update(swap)
    return REAL


class Swapped:
    def __enter__(self):
        r = real()
        self.fake = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'pyqtgraph' or n.startswith('pyqtgraph.')}
        sys.modules.update(r['modules'])
        return r

    def __exit__(self, *a):
        for n in [n for n in sys.modules if n == 'pyqtgraph' or n.startswith('pyqtgraph.')]:
            REAL['modules'][n] = sys.modules.pop(n)
        sys.modules.update(self.fake)


def same(a, b, tol=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)))))


class Module:
    SECONDS = dict(quick=32, thorough=900, shrink=60)
    PROBES = {'C29': ['parameter window', 'gradient window', 'plot window', 'evaluator window', 'window closed', 'opened before the first iteration', 'refreshed by an iteration', 'missing value',
                      'unknown gradient', 'known gradient', 'only one gradient', 'parameter without gradient', 'name without description', 'error bars', 'removed from the plot',
                      'several rows', 'raw data shown', 'raw data missing', 'number corrected', 'plot of the history', 'raw data of several evaluators', 'row continued']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C29-%d' % seed)
        o = dict(sharesrc=0., easy=rng.random() < 0.5, sensing=rng.choice([0, 0.3, 0.6, 1.0]), noise=0.3, n=1, groups=rng.choice([1, 2, 2]),
                 p=dict(exc=0, nan=0.4, manual=0, retarget=0, resume=0, old=0))
        if rng.random() < 0.4:
            o['kinds'] = rng.choice([['fd', 'fds'], ['self', 'selfs'], ['fd', 'kalman']])
        cfg = gen.gen_cfg(rng, o)
        weights = dict(step=8, open=2, close=0.5, select=3, raw=2.5, number=1, draw=2, together=1, manual=1, retarget=0.5)
        for k in ('close', 'raw', 'draw', 'manual'):
            if rng.random() < 0.3:
                weights[k] = 0
        kinds, w = list(weights), list(weights.values())
        nrate = rng.choice([0, 0.2, 0.4])
        ops = [{'op': 'step'} for _ in range(rng.choice([0, 1, 1, 3]))]
        for _ in range(rng.choice([6, 10, 16])):
            k = rng.choices(kinds, w)[0]
            op = {'op': k, 'x': rng.randrange(1000), 'y': rng.randrange(1000)}
            if k == 'step':
                op = {'op': k}
                if rng.random() < nrate:
                    op['nans'] = gen.gen_nans(rng, cfg)
                if rng.random() < 0.05:
                    op['faults'] = [gen.gen_fault(rng)]
            elif k == 'open':
                op['kind'] = rng.choice(['parameter', 'gradient', 'plot', 'evaluator'])
            elif k == 'number':
                op['text'] = rng.choice([str(rng.randint(0, 4)), str(rng.randint(0, 2)), '-1', '100', 'x', ''])
            elif k == 'draw':
                op['mode'] = ' '.join(rng.sample(['all_voltages', 'all_parameters', 'all_gradients'], rng.choice([1, 2, 3])) + rng.sample(
                    ['with_grad_covariances', 'with_par_variances'], rng.choice([0, 1, 2])))
            elif k == 'manual':
                op['dv'] = {g: gen.r3(rng.uniform(-.1, .1)) for g in rng.sample(cfg['gates'], min(2, len(cfg['gates'])))}
            elif k == 'retarget':
                op['changes'] = gen.gen_retarget(rng, cfg)['changes']
            ops.append(op)
            if k == 'step':
                ops += [{'op': 'step'} for _ in range(rng.choice([0, 0, 1, 3]))]
        sc = dict(cfg=cfg, ops=ops)
        pool = KNOWN + [p for p in PARAMS if p not in qtune.history.parameter_information]
        if len(cfg['params']) <= len(pool):
            sc = rename(sc, dict(zip(sorted(cfg['params']), rng.sample(pool, len(cfg['params'])))))
        return sc

    def execute(self, sc):
        res = Result()
        res.extra = {}
        log = boot.log_capture(True)
        s = Scheduler(policy={'kind': 'coop'}, lines=False, max_points=10 ** 7)
        try:
            with Swapped() as r:
                s.run(lambda: Run(sc, res, log, r).run())
        finally:
            boot.log_capture(False)
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return bool(res.extra.get('rows') and res.extra.get('looks'))

    def shrink(self, sc):
        yield from ddmin(sc['ops'], lambda o: dict(sc, ops=o))
        for i, op in enumerate(sc['ops']):
            for key in ('faults', 'nans'):
                if op.get(key):
                    yield dict(sc, ops=sc['ops'][:i] + [{k: v for k, v in op.items() if k != key}] + sc['ops'][i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a tuning which is stepped by the GUI, with failing measurements and errors, while the user opens and closes plot windows, selects curves, enters row '
                 'numbers, looks at raw data and plots the history, in random order; runs are distinct if the sequence of shown data differs; non-trivial if something was shown',
            measure='(operation, windows, rows) combinations',
            real=['qtune.gui (all plot windows, worker, signals)', 'qtune.history', 'Qt (offscreen), pyqtgraph, matplotlib', 'qtune.autotuner and the tuning below it'],
            stub=['IPython', 'experiment and evaluators', 'thread scheduling (cooperative)', 'clock', 'drawing functions of single evaluators (recorded)'],
            assumptions=['what Qt and matplotlib paint from the data they are given is right', 'sampled, not exhaustive'])


class Run:
    def __init__(self, sc, res, log, r):
        self.sc, self.res, self.log = sc, res, log
        self.qt, self.app, self.pg = r['gui'], r['app'], r['pg']
        self.hash = hashlib.blake2b(digest_size=8)
        self.windows = []               # [kind, window, selection]
        self.looks = 0
        self.seen = []
        self.i = 'first'

    def bad(self, kind, msg):
        if len(self.res.violations) < 5:
            self.res.violations.append(('C29', kind, 'operation %s: %s' % (self.i, msg)))

    def hit(self, p):
        self.res.probes[p] = self.res.probes.get(p, 0) + 1

    def run(self):
        sc, res = self.sc, self.res
        self.d = d = Driver(sc['cfg'], shadow=False)
        self.h = qtune.history.History(None, d.exp)
        self.shown = []
        matching = qtune.history.plot_function_matching
        mine = []
        for t in d.at.tuning_hierarchy:
            for e in t.evaluators:
                if e.name not in matching:
                    matching[e.name] = lambda ax, evaluator_hdf5, **k: self.shown.append(evaluator_hdf5)
                    mine.append(e.name)
        import matplotlib.pyplot as plt
        self.plt = plt
        self.gui = self.qt.GUI(d.at, self.h)
        try:
            for self.i, op in enumerate(sc['ops']):
                n = len(self.log)
                kind = op['op']
                getattr(self, kind)(op)
                self.app.processEvents()
                errors = [r for r in self.log[n:] if r[0] in ('ERROR', 'CRITICAL') and r[2] and not r[2].startswith(('Instrument', 'User'))]
                if errors and self.rows():
                    self.bad('error', 'after %s: %s' % (kind, errors[0]))
                self.look()
                self.hash.update(repr(sorted(self.seen)).encode())
                del self.seen[:]
                res.steps += 1
                res.abstract.add((kind, tuple(sorted(w[0] for w in self.windows)), min(self.rows(), 4)))
                if res.violations:
                    break
        except Exception as e:
            if type(e).__name__.startswith('Sim') or harness_error(e):
                raise
            self.bad('exception:' + type(e).__name__, '%s: %s (%s)' % (type(e).__name__, e, where(e)))
        finally:
            for name in mine:
                del matching[name]
            for kind, w, _ in self.windows:
                w.close()
            self.gui.close()
            self.app.processEvents()
            plt.close('all')
        self.hash.update(repr(res.key()).encode())
        res.digest = self.hash.hexdigest()
        res.extra.update(rows=self.rows(), looks=self.looks)

    def clean(self):
        self.app.processEvents()
        self.app.sendPostedEvents(None, 52)            # deferred deletion
        self.app.processEvents()

    def rows(self):
        return self.h.number_of_stored_iterations

    # -- operations ------------------------------------------------------------------------------------------------------
    def step(self, op):
        d = self.d
        d.snap = snapshot(d.at, {})
        if d.snap['complete']:
            return
        d._allow()
        d.exp.arm(op.get('faults'), op.get('nans'))
        before = self.rows()
        self.gui.step()
        time.sleep(SETTLE)
        for what, when in d.exp.fired:
            f = 'nan' if what == 'nan' else 'instrument error %s' % when
            self.res.faults[f] = self.res.faults.get(f, 0) + 1
        d.snap = snapshot(d.at, {})
        self.app.processEvents()
        if self.rows() == before:
            self.hit('row continued')
        if self.windows:
            self.hit('refreshed by an iteration')
        if self.rows() > 1:
            self.hit('several rows')

    def manual(self, op):
        self.d.step(self.i, {k: v for k, v in op.items() if k not in 'xy'})

    retarget = manual

    def open(self, op):
        kind = op['kind']
        if not self.rows():
            self.hit('opened before the first iteration')
            if kind in ('plot', 'evaluator'):
                return                  # their choices are those of the moment when they are opened
        name = dict(parameter='ParameterWidget', gradient='GradientWidget', plot='PlotOrganizer', evaluator='EvaluatorWidget')[kind]
        cls = getattr(self.qt, name)
        have = list(self.app.topLevelWidgets())
        slot = dict(parameter='spawn_parameter_window', gradient='spawn_gradient_window', plot='spawn_plot_window', evaluator=None)[kind]
        if slot is None:
            slot = next(n for n in dir(self.gui) if n.startswith('spawn') and ('eval' in n or 'raw' in n))
        getattr(self.gui, slot)()
        new = [w for w in self.app.topLevelWidgets() if isinstance(w, cls) and not any(w is o for o in have)]
        if len(new) != 1:
            self.bad('window', '%d windows %s were opened: %s' % (len(new), kind, self.log[-1:]))
            return
        self.windows.append([kind, new[0], {} if kind != 'evaluator' else set(self.h.evaluator_names)])
        self.hit(kind + ' window')

    def close(self, op):
        if self.windows:
            kind, w, _ = self.windows.pop(op['x'] % len(self.windows))
            w.close()
            self.clean()
            self.hit('window closed')

    def of(self, kind, op):
        found = [w for w in self.windows if w[0] == kind]
        if not found:
            if not self.rows():
                return None
            self.open({'kind': kind})
            found = [w for w in self.windows if w[0] == kind]
        return found[op['x'] % len(found)] if found else None

    def select(self, op):
        w = self.of('plot', op)
        if w is None:
            return
        _, win, selection = w
        kinds = [('Gate Voltages', g) for g in sorted(self.h.gate_names)] + [('Parameters', p) for p in sorted(self.h.parameter_names)]
        grads = []
        for p, gates in sorted(self.h.gradient_controlled_parameter_names.items()):
            grads += [('Gradients', p)] * len(gates)
            grads += [('Gradients', p, g) for g in sorted(gates)]
        rng = random.Random('%d %d' % (op['x'], op['y']))
        for _ in range(rng.choice([1, 2, 4])):
            used = sorted(k for k, v in selection.items() if v)
            path = rng.choice(used if used and rng.random() < 0.35 else grads if grads and rng.random() < 0.4 else kinds)
            value = rng.random() < 0.7 if path[0] == 'Gate Voltages' else rng.choice(['', 'plot', 'plot + error', 'plot + error'])
            if win.parameter.child(*path).value() == value:
                continue                    # nothing changes
            if selection.get(path) and not value:
                self.hit('removed from the plot')
            win.parameter.child(*path).setValue(value)
            selection[path] = value
            if len(path) == 2 and path[0] == 'Gradients':
                for g in self.h.gradient_controlled_parameter_names[path[1]]:
                    selection[path + (g,)] = value

    def number(self, op):
        w = self.of('evaluator', op)
        if w is None:
            return
        self.enter(w, op['text'])

    def line(self, win):
        return [x for x in win.findChildren(self.qt.QtWidgets.QLineEdit)][-1]

    def enter(self, w, text):
        line = self.line(w[1])
        line.setText(text)
        line.editingFinished.emit()
        n = self.rows()
        try:
            x = int(text)
        except ValueError:
            x = 0
        want = min(max(x, 0), n - 1)
        if want != x:
            self.hit('number corrected')
        if line.text() != str(want):
            self.bad('number', 'after entering %r with %d rows the evaluator window shows %r' % (text, n, line.text()))

    def raw(self, op):
        w = self.of('evaluator', op)
        if w is None or self.res.violations:
            return
        names = sorted(w[2])
        if not names:
            return
        name = names[op['x'] % len(names)]
        table = self.h.evaluator_data
        later = [(k, n) for n in names for k in range(self.rows()) if isinstance(table.iloc[k][n], dict)
                 and not all(isinstance(x, dict) for x in table[n].iloc[:k])]
        if op['y'] % 4:
            k = op['y'] % (self.rows() + 1)
            if later and op['y'] % 4 > 1:
                k, name = later[op['x'] % len(later)]
            self.enter(w, str(k))
            if self.res.violations:
                return
        button = [b for b in w[1].findChildren(self.qt.QtWidgets.QPushButton) if b.text() == name]
        if not button:
            self.bad('button', 'the evaluator window has no button for %s' % name)
            return
        del self.shown[:]
        k = int(self.line(w[1]).text())
        button[-1].click()
        data = self.h.evaluator_data.iloc[k][name]
        if not isinstance(data, dict):
            self.hit('raw data missing')
            if self.shown:
                self.bad('raw', 'the raw data of another row were shown for %s in row %d' % (name, k))
            return
        self.hit('raw data shown')
        if len(self.shown) != 1 or self.shown[0] is not data:
            which = [i for i in range(self.rows()) if self.shown and self.h.evaluator_data.iloc[i][name] is self.shown[0]]
            self.bad('raw', 'the raw data of %s in row %s were shown, the window says row %d' % (name, which, k))

    def draw(self, op):
        if not self.rows():
            return
        h, mode = self.h, op['mode']
        grads = sorted(h.gradient_controlled_parameter_names)
        if 'all_gradients' in mode and not grads:
            mode = mode.replace('all_gradients', '')
        figures, axes = h.plot_tuning(mode=mode)
        self.hit('plot of the history')
        for what, f in zip(('all_voltages', 'all_parameters', 'all_gradients'), figures):
            if (what in mode) != (f is not None):
                self.bad('figure', 'mode %r: %s was %splotted' % (mode, what, 'not ' if f is None else ''))
                return
        if figures[0] is not None:
            lines, names = figures[0].axes[0].lines, sorted(h.gate_names)
            labels = [t.get_text() for t in figures[0].axes[0].get_legend().get_texts()]
            if labels != names or len(lines) != len(names):
                self.bad('voltages', 'the gates %s are plotted as %s' % (names, labels))
            else:
                for g, line in zip(names, lines):
                    self.curve('the voltage of %s' % g, (line.get_xdata(), line.get_ydata()), h.get_gate_values(g))
        if figures[1] is not None:
            self.parameters(figures[1], sorted(h.parameter_names), 'with_par_variances' in mode, 'plot_tuning')
        if figures[2] is not None:
            self.gradients(figures[2], grads, 'with_grad_covariances' in mode, 'plot_tuning')
        self.plt.close('all')

    def together(self, op):
        """the raw data of several evaluators and rows in figures of the history"""
        if not self.rows():
            return
        rng = random.Random('%d %d' % (op['x'], op['y']))
        every = list(self.h.evaluator_names)
        names = None if rng.random() < 0.3 else rng.sample(sorted(every), rng.randint(0, len(every)))
        asked = list(every if names is None else names)
        if names is not None and rng.random() < 0.4:
            for unknown in ['unknown 1', 'unknown 2'][:rng.choice([1, 2])]:
                names.insert(rng.randint(0, len(names)), unknown)
        start = rng.randrange(self.rows())
        end = rng.choice([None, start + 1, self.rows()])
        given = None if names is None else list(names)
        del self.shown[:]
        if end is None and start == 0 and names is None and rng.random() < 0.5:
            figures, axes = self.h.plot_evaluator_data()
        else:
            figures, axes = self.h.plot_evaluator_data(start, end, names)
        self.hit('raw data of several evaluators')
        table = self.h.evaluator_data
        want = [table.iloc[k][n] for k in range(start, start + 1 if end is None else end) for n in asked if isinstance(table.iloc[k][n], dict)]
        if len(self.shown) != len(want) or any(a is not b for a, b in zip(self.shown, want)):
            self.bad('raw', 'the raw data of %s from row %d to %s are not what was plotted (%d plots for %d measurements)' % (given, start, end, len(self.shown), len(want)))
        if names != given:
            self.bad('names', 'the list of evaluators given by the caller was changed from %s to %s' % (given, names))
        if len(figures) != (1 if end is None else end - start):
            self.bad('figures', '%d figures for rows %s to %s' % (len(figures), start, end))
        self.plt.close('all')

    # -- what is shown -----------------------------------------------------------------------------------------------------
    def look(self):
        if not self.rows():
            return
        for kind, w, selection in self.windows:
            if self.res.violations:
                return
            if kind == 'parameter':
                self.parameters(w.getFigure(), sorted(self.h.parameter_names), True, 'the parameter window')
            elif kind == 'gradient':
                names = sorted(self.h.gradient_controlled_parameter_names)
                if names:
                    self.gradients(w.getFigure(), names, True, 'the gradient window')
                else:
                    self.hit('no gradients')
            elif kind == 'plot':
                self.curves(w, selection)
            self.looks += 1

    def curve(self, what, xy, values):
        x, y = xy
        if not same(y, values) or not same(x, np.arange(len(values))):
            self.bad('curve', '%s shows %s, recorded is %s' % (what, list(zip(np.asarray(x), np.asarray(y))), list(values)))
        if np.isnan(np.asarray(values, dtype=float)).any():
            self.hit('missing value')
        self.seen.append('%s %s' % (what, np.asarray(y, dtype=float).tolist()))

    def segments(self, container):
        segments = container.lines[2][0].get_segments() if container.lines[2] else []
        return {float(s[0][0]): (float(s[0][1]), float(s[1][1])) for s in segments if len(s) == 2 and not np.isnan(np.asarray(s, dtype=float)).any()}

    def bars(self, what, container, values, std):
        have = self.segments(container)
        for x, (y, e) in enumerate(zip(values, std)):
            if math.isnan(y) or math.isnan(e):
                continue
            lo, hi = have.get(float(x), (math.nan, math.nan))
            if not (math.isclose(lo, y - e, rel_tol=1e-9, abs_tol=1e-300) and math.isclose(hi, y + e, rel_tol=1e-9, abs_tol=1e-300)):
                self.bad('error', '%s has the error bar %s to %s in row %d instead of %s +- %s' % (what, lo, hi, x, y, e))
                return
            self.hit('error bars')

    def lines(self, ax):
        """label -> line or error bar container"""
        return dict(zip(*reversed(ax.get_legend_handles_labels())))

    def describe(self, name):
        return qtune.history.parameter_information.get(name)

    def parameters(self, figure, names, with_errors, what):
        axes = figure.axes
        if len(axes) != len(names):
            self.bad('axes', '%s has %d plots for the parameters %s' % (what, len(axes), names))
            return
        left = list(names)
        for ax in axes:
            title = ax.get_title()
            name = [n for n in left if title == (self.describe(n) or {}).get('name', n)]
            if not name:
                self.bad('title', '%s has a plot %r, parameters are %s' % (what, title, names))
                return
            name = name[0]
            left.remove(name)
            info = self.describe(name)
            if info is None:
                self.hit('name without description')
            elif ax.get_ylabel() != info['entity_unit']:
                self.bad('title', '%s: the axis of %s is %r' % (what, name, ax.get_ylabel()))
            values, std = self.h.get_parameter_values(name), self.h.get_parameter_std(name)
            data = [l for l in ax.lines if not (l.get_label() or '').startswith('_no') and len(l.get_xdata()) == len(values)] or list(ax.lines)
            if not data:
                self.bad('curve', '%s: %s is not plotted' % (what, name))
                return
            if len(ax.containers) + len([l for l in ax.lines if not ax.containers]) != 1:
                self.bad('curve', '%s: %d curves of %s' % (what, max(len(ax.containers), len(ax.lines)), name))
            line = ax.containers[0].lines[0] if ax.containers else data[0]
            self.curve('%s: %s' % (what, name), (line.get_xdata(), line.get_ydata()), values)
            if with_errors:
                if ax.containers:
                    self.bars('%s: %s' % (what, name), ax.containers[0], values, std)
                elif not std.isna().all():
                    self.bad('error', '%s: %s is plotted without errors' % (what, name))
            elif ax.containers and self.segments(ax.containers[0]):
                self.bad('error', '%s: %s is plotted with errors' % (what, name))

    def gradients(self, figure, names, with_errors, what):
        axes = figure.axes
        if len(axes) != len(names):
            self.bad('axes', '%s has %d plots for the gradients of %s' % (what, len(axes), names))
            return
        if len(names) == 1:
            self.hit('only one gradient')
        if set(names) < set(self.h.parameter_names):
            self.hit('parameter without gradient')
        left = list(names)
        for ax in axes:
            label = ax.get_ylabel()
            name = [n for n in left if label == (self.describe(n) or {}).get('gradient_unit', 'Gradient ' + n)]
            if not name:
                self.bad('title', '%s has a plot %r, parameters are %s' % (what, label, names))
                return
            name = name[0]
            left.remove(name)
            grads, var = self.h.get_gradients(name), self.h.get_gradient_variances(name)
            lines = self.lines(ax)
            if set(lines) != set(grads.columns):
                self.bad('curve', '%s: the gradient of %s is shown for %s instead of %s' % (what, name, sorted(lines), sorted(grads.columns)))
                return
            self.hit('known gradient' if lines else 'unknown gradient')
            for gate, handle in lines.items():
                t = '%s: gradient of %s with respect to %s' % (what, name, gate)
                bars = hasattr(handle, 'lines')
                line = handle.lines[0] if bars else handle
                self.curve(t, (line.get_xdata(), line.get_ydata()), grads[gate])
                if with_errors and gate in var:
                    if bars:
                        self.bars(t, handle, grads[gate], var[gate].apply(np.sqrt))
                    elif not var[gate].isna().all():
                        self.bad('error', '%s is plotted without errors' % t)
                elif bars:
                    self.bad('error', '%s is plotted with errors' % t)

    def curves(self, win, selection):
        item = win.plot.getPlotItem()
        want, bars = {}, []
        for path, value in selection.items():
            if not value:
                continue
            if path[0] == 'Gate Voltages':
                want[path[1]] = (self.h.get_gate_values(path[1]), None)
            elif path[0] == 'Parameters':
                want[path[1]] = (self.h.get_parameter_values(path[1]), self.h.get_parameter_std(path[1]) if value == 'plot + error' else None)
            elif len(path) == 3:
                g, v = self.h.get_gradients(path[1]), self.h.get_gradient_variances(path[1])
                if path[2] in g:
                    want[path[1] + '#' + path[2]] = (g[path[2]], v[path[2]].apply(np.sqrt) if value == 'plot + error' and path[2] in v else None)
        have = {}
        for c in item.listDataItems():
            have.setdefault(c.name(), []).append(c)
        if sorted(have) != sorted(want) or any(len(c) != 1 for c in have.values()):
            self.bad('curves', 'the plot window shows %s, selected are %s' % (sorted(have), sorted(want)))
            return
        errors = [x for x in item.items if isinstance(x, self.pg.ErrorBarItem)]
        for name, (values, std) in want.items():
            x, y = have[name][0].getOriginalDataset()
            self.curve('the plot window: %s' % name, (x, y), values)
            if std is not None:
                ok = [e for e in errors if same(e.opts['y'], values) and same(e.opts['height'], 2 * std, 1e-12) and same(e.opts['x'], np.arange(len(values)))]
                if not ok:
                    self.bad('error', 'the plot window: no error bars for %s' % name)
                else:
                    errors = [e for e in errors if e is not ok[0]]
                    self.hit('error bars')
        if errors:
            self.bad('error', 'the plot window: %d error bars too many' % len(errors))
