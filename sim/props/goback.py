"""C28: the reload window of the GUI (Qt replaced by stand-ins): going back to the voltages or the state of an earlier row of the history."""
import hashlib
import os
import random
import shutil
import threading
import time

import qtune.autotuner
import qtune.gui
import qtune.history

from .. import boot, gen, peek
from ..boot import FakeQt
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, load, store, where
from ..runner import ddmin
from ..sched import Scheduler
from ..shadow import diff_snapshots
from ..world import INSTRUMENT, snapshot
from .writer import gen_sched, run_scheduled, shrink_sched

VOLTAGES, STATE = 'Reload Voltages', 'Reload Entire State!'
SETTLE = 4.


class Module:
    SECONDS = dict(quick=25, thorough=900, shrink=60)
    PROBES = {'C28': ['voltages reloaded', 'state reloaded', 'number corrected', 'not a number', 'number not edited', 'two windows', 'window opened before an exchange', 'reloaded again',
                      'row of an exchanged tuning', 'error while reloading', 'reloaded after an error', 'file damaged', 'file not written yet', 'continued', 'completed', 'no tuning',
                      'nothing to reload', 'window closed', 'refused within an iteration', 'reloaded while running', 'iteration delayed by reloading', 'reloaded after running', 'iterated after reloading']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C28-%d' % seed)
        if rng.random() < 0.35:
            return self.running(rng)
        o = dict(easy=rng.random() < 0.5, sharesrc=0., sensing=0.3, n=1, p=dict(exc=0, nan=0.3, manual=0, retarget=0, resume=0, old=0))
        cfg = gen.gen_cfg(rng, o)
        frate = rng.choice([0, 0.2, 0.4])
        damage = rng.choice([0, 0.1, 0.4])
        nrate = rng.choice([0, 0.15, 0.3])
        weights = dict(step=10, voltages=3, state=3, number=4, window=1, close=0.5, manual=0.5, retarget=0.5, join=2)
        for k in ('voltages', 'state', 'join'):
            if rng.random() < 0.2:
                weights[k] = 0
        kinds, w = list(weights), list(weights.values())
        ops = []
        for _ in range(rng.choice([8, 15, 25])):
            k = rng.choices(kinds, w)[0]
            op = {'op': k}
            if k in ('voltages', 'state', 'number', 'close'):
                op['w'] = rng.randrange(3)
            if k in ('step', 'voltages', 'state') and rng.random() < frate * (0.5 if k == 'step' else 1):
                f = gen.gen_fault(rng)
                if k != 'step':
                    f['n'] = rng.choice([1, 1, 2, 3])
                op['faults'] = [f]
            if k == 'step' and rng.random() < nrate:
                op['nans'] = gen.gen_nans(rng, cfg)
            if k == 'state' and rng.random() < damage:
                op['damage'] = rng.choice(['short', 'empty', 'garbage', 'missing'])
            if k == 'number':
                op['text'] = rng.choice([str(rng.randint(0, 12)), str(rng.randint(0, 4)), str(rng.randint(0, 4)), '-1', '-7', '1000', '', 'x', '2.5', ' 1 ', '007'])
            if k == 'manual':
                op['dv'] = {g: gen.r3(rng.uniform(-.1, .1)) for g in rng.sample(cfg['gates'], min(2, len(cfg['gates'])))}
            if k == 'retarget':
                op['changes'] = gen.gen_retarget(rng, cfg)['changes']
            ops.append(op)
            if k == 'step':
                ops += [dict({'op': 'step'}, **({'nans': op['nans']} if 'nans' in op and rng.random() < 0.7 else {})) for _ in range(rng.choice([0, 0, 1, 3]))]
        return dict(cfg=cfg, ops=ops, none=rng.random() < 0.04, start=rng.random() < 0.5)

    def running(self, rng):
        """The windows are used while the tuning runs."""
        o = dict(easy=rng.random() < 0.7, sharesrc=0., groups=1, ngates=[1, 1, 2], sensing=0.1, noise=0.2, nl=0, n=1, p=dict(exc=0, nan=0, manual=0, retarget=0, resume=0, old=0))
        cfg = gen.gen_cfg(rng, o)
        weights = rng.choice([dict(start=2, pause=1, wait=6, voltages=3, state=3, number=2, window=1, settle=1), dict(step=4, wait=2, voltages=3, state=3, number=2, settle=2),
                              dict(step=3, settle=3, voltages=2, state=2, number=1, close=1)])
        frate = rng.choice([0, 0, 0.2])
        kinds, w = list(weights), list(weights.values())
        ops = [{'op': rng.choice(['step', 'start'])}, {'op': 'wait', 's': 0.5}]
        for _ in range(rng.choice([4, 8, 14])):
            k = rng.choices(kinds, w)[0]
            op = {'op': k}
            if k == 'wait':
                op['s'] = rng.choice([0, 0.01, 0.05, 0.0501, 0.1, 0.2, 0.5, 1.0])
            if k in ('voltages', 'state', 'number', 'close'):
                op['w'] = rng.randrange(3)
            if k == 'number':
                op['text'] = str(rng.randint(0, 5))
            if k == 'step' and rng.random() < frate:
                op['faults'] = [gen.gen_fault(rng)]
            ops.append(op)
        durations = [rng.choice([0, 0.01, 0.05, 0.1, 0.3]) for _ in range(5)]
        sched = gen_sched(rng, victims=[rng.choice([0, 1])])
        if sched['policy']['kind'] == 'coop' or rng.random() < 0.4:
            sched['policy'] = {'kind': 'random', 'p': rng.choice([0.05, 0.2, 0.5])}
        elif sched['policy']['kind'] == 'pct':
            sched['policy'].update(depth=rng.randint(2, 12), length=rng.choice([100, 300, 1000]))
        if rng.random() < 0.7:
            sched['policy']['slow'] = rng.choice([0.003, 0.02, 0.1, 0.4])
        return dict(cfg=cfg, ops=ops, none=False, start=False, running=True, durations=durations, sched=sched, lines='gui.py', final=rng.choice(['voltages', 'state']))

    def execute(self, sc):
        res = Result()
        res.extra = {}
        path = os.path.abspath('tuning')
        shutil.rmtree(path, ignore_errors=True)
        log = boot.log_capture(True)
        FakeQt.deliver, FakeQt.created = True, []
        try:
            if sc.get('running'):
                s = run_scheduled(sc, res, lambda s: Busy(sc, res, log, path, s).run(), 'C28', max_points=400000)
                res.digest = '%s-%x' % (res.digest, s.sig & 0xffffffffffffffff)
            else:
                s = Scheduler(policy={'kind': 'coop'}, lines=False, max_points=10 ** 7)
                s.run(lambda: Run(sc, res, log, path).run())
        finally:
            FakeQt.deliver, FakeQt.created, FakeQt.current = False, None, None
            boot.log_capture(False)
            shutil.rmtree(path, ignore_errors=True)
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return bool(res.probes.get('voltages reloaded') or res.probes.get('state reloaded'))

    def shrink(self, sc):
        yield from ddmin(sc['ops'], lambda o: dict(sc, ops=o))
        if 'sched' in sc:
            if sc['durations'] != [0]:
                yield dict(sc, durations=[0])
                yield dict(sc, durations=[0.1])
            yield from shrink_sched(self, sc)
        for i, op in enumerate(sc['ops']):
            for key in ('faults', 'damage', 'nans'):
                if op.get(key):
                    yield dict(sc, ops=sc['ops'][:i] + [{k: v for k, v in op.items() if k != key}] + sc['ops'][i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a tuning which is stepped by the GUI and stored, with a user who opens reload windows, enters row numbers, and reloads voltages or states in random '
                 'order, with instrument errors, damaged, missing and not yet written files, manual changes and new targets in between, either between the iterations or at any '
                 'line of the GUI while its worker iterates (seeded scheduler); runs are distinct if the sequence of '
                 'states differs; non-trivial if something was reloaded',
            measure='(operation, windows, exchanged, error, complete) combinations',
            real=['qtune.gui.GUI and ReloadWidget', 'qtune.history', 'qtune.autotuner and the tuning below it', 'qtune.storage incl. the background writer', 'h5py', 'file system'],
            stub=['Qt and pyqtgraph widgets and signals (delivered at once)', 'IPython', 'experiment and evaluators', 'thread scheduler', 'clock'],
            assumptions=['slots run one after another in the GUI thread', 'sampled, not exhaustive'])


class Run:
    def __init__(self, sc, res, log, path, sched=None):
        self.sched = sched
        self.sc, self.res, self.log, self.path = sc, res, log, path
        self.hash = hashlib.blake2b(digest_size=8)
        self.rows = []                  # snapshot, path, voltages and tuning of the last iteration in each row
        self.windows = []
        self.numbers = []
        self.opened = []                # number of exchanges when the window was opened
        self.exchanges = 0
        self.damaged = set()
        self.owing = None               # voltages to reload again after an error
        self.failed = False

    def bad(self, kind, msg):
        if len(self.res.violations) < 5:
            self.res.violations.append(('C28', kind, 'operation %s: %s' % (self.i, msg)))

    def hit(self, p):
        self.res.probes[p] = self.res.probes.get(p, 0) + 1

    def count(self, f):
        self.res.faults[f] = self.res.faults.get(f, 0) + 1

    @property
    def at(self):
        return self.gui.auto_tuner

    def snapshot(self):
        return snapshot(self.at, {})

    def prepare(self):
        pass

    def finish(self):
        pass

    # -- the run -------------------------------------------------------------------------------------------------------
    def run(self):
        sc, res = self.sc, self.res
        self.d = d = Driver(sc['cfg'], shadow=False, path=self.path)
        self.exp = d.exp
        self.i = 'first'
        history = qtune.history.History(None, d.exp)
        append = history.append_autotuner

        def entering(at, *a, **k):
            append(at, *a, **k)
            if at is not self.at:
                self.bad('wrong-tuning', 'an iteration was made by a tuning which was exchanged before')
            n = history.number_of_stored_iterations
            snap = snapshot(at, {})
            row = dict(snap=snap, path=at.last_save_file, v={g: float(x) for g, x in snap['groups'][0]['last_v'].items()}, at=at)
            if n > len(self.rows):
                self.rows.append(row)
            else:
                self.rows[-1] = row
        history.append_autotuner = entering
        self.history = history
        if sc['none']:
            self.hit('no tuning')
        self.gui = qtune.gui.GUI(None if sc['none'] else d.at, history)
        tunings = [d.at]
        try:
            self.prepare()
            if sc['start'] and not sc['none']:
                self.step({'op': 'step'})
            for self.i, op in enumerate(sc['ops']):
                if self.owing and op['op'] not in ('number', 'window', 'join', 'close'):
                    self.press(self.owing, VOLTAGES, None, None)
                getattr(self, op['op'], None)(op)
                if self.at not in tunings:
                    tunings.append(self.at)
                res.steps += 1
                self.hash.update(repr((op['op'], sorted(self.exp.v.items()), len(self.rows), self.exchanges)).encode())
                res.abstract.add((op['op'], len(self.windows), bool(self.exchanges), self.failed, bool(self.at and d.snap['complete'])))
                if res.violations:
                    break
            if not res.violations:
                self.finish()
            self.gui.close()
        except Exception as e:
            if type(e).__name__.startswith('Sim') or harness_error(e):
                raise
            self.bad('exception:' + type(e).__name__, '%s: %s (%s)' % (type(e).__name__, e, where(e)))
            peek.thread(self.gui).is_alive() and self.gui.close()
        for at in tunings:
            w = peek.writer(at) if at is not None else None
            if w is not None:
                w.join()
        self.hash.update(repr(res.key()).encode())
        res.digest = self.hash.hexdigest()
        res.extra.update(rows=len(self.rows), exchanges=self.exchanges)

    def settle(self):
        import time
        time.sleep(SETTLE)

    def errors(self, n):
        return [r for r in self.log[n:] if r[0] in ('ERROR', 'CRITICAL') and r[2]]

    def step(self, op):
        d = self.d
        if self.at is not None:
            d.snap = self.snapshot()
            if d.snap['complete']:
                self.hit('completed')
                return
            d._allow()
        n = self.exp.total_measures
        self.exp.arm(op.get('faults'), op.get('nans'))
        entries = len(self.rows) and self.rows[-1]
        self.gui.step()
        self.settle()
        for what, when in self.exp.fired:
            self.count('nan' if what == 'nan' else 'instrument error %s' % when)
        if self.at is not None:
            d.snap = self.snapshot()
        if self.exchanges and self.rows and self.rows[-1] is not entries:
            self.hit('continued')

    def manual(self, op):
        if self.at is None:
            return
        d = self.d
        d.at, d.snap = self.at, self.snapshot()
        d.step(self.i, dict(op))
        self.count('manual change')

    def retarget(self, op):
        if self.at is None:
            return
        d = self.d
        d.at, d.snap = self.at, self.snapshot()
        d.step(self.i, op)

    def join(self, op):
        if self.at is not None and peek.writer(self.at) is not None:
            self.at.asynchrone_writer.join()

    # -- reload windows -------------------------------------------------------------------------------------------------
    def window(self, op):
        before = len(FakeQt.created)
        self.gui.spawn_reload_window()
        new = [w for w in FakeQt.created[before:] if isinstance(w, qtune.gui.ReloadWidget)]
        if len(new) != 1:
            self.bad('window', '%d reload windows were opened: %s' % (len(new), [r[1] for r in self.log[-1:]]))
            return
        self.windows.append(new[0])
        self.numbers.append(None)
        self.opened.append(self.exchanges)
        if len(self.windows) > 1:
            self.hit('two windows')

    def close(self, op):
        if not self.windows:
            return
        k = op['w'] % len(self.windows)
        w = self.windows.pop(k)
        self.numbers.pop(k)
        self.opened.pop(k)
        w.closeEvent(FakeQt.Widget())
        self.hit('window closed')

    def pick(self, op):
        if not self.windows:
            self.window(op)
            if self.res.violations:
                return None
        return op['w'] % len(self.windows)

    def line(self, k):
        return next(a[0] for a in self.windows[k]._children if isinstance(a[0], qtune.gui.QtWidgets.QLineEdit))

    def number(self, op):
        k = self.pick(op)
        if k is None:
            return
        n = self.history.number_of_stored_iterations
        if not n:
            return
        line = self.line(k)
        line.setText(op['text'])
        line.editingFinished.emit()
        try:
            x = int(op['text'])
            if not 0 <= x < n:
                self.hit('number corrected')
        except ValueError:
            x = 0
            self.hit('not a number')
        m = self.history.number_of_stored_iterations          # a row may be entered meanwhile
        self.numbers[k] = x
        if line.text().strip() not in [str(min(max(x, 0), i - 1)) for i in range(n, m + 1)]:
            self.bad('number', 'after entering %r with %d rows the window shows %r' % (op['text'], n, line.text()))

    def chosen(self, k):
        """The number which the window shows."""
        n = self.history.number_of_stored_iterations
        if self.numbers[k] is None:
            self.hit('number not edited')
        try:
            x = int(self.line(k).text())
        except ValueError:
            self.bad('number', 'the window shows %r' % self.line(k).text())
            return None
        return x if 0 <= x < n else None

    def voltages(self, op):
        k = self.pick(op)
        if k is not None:
            self.press(k, VOLTAGES, op.get('faults'), None)

    def state(self, op):
        k = self.pick(op)
        if k is not None:
            self.press(k, STATE, op.get('faults'), op.get('damage'))

    def press(self, k, label, faults, damage):
        res, exp = self.res, self.exp
        k %= len(self.windows) or 1
        if not self.windows:
            self.window(None)
        button = [a[0] for a in self.windows[k]._children if isinstance(a[0], qtune.gui.QtWidgets.QPushButton) and a[0].text() == label]
        if len(button) != 1:
            self.bad('window', 'there are %d buttons %r' % (len(button), label))
            return
        r = self.chosen(k)
        if res.violations:
            return
        if r is None and self.at is not None:
            # nothing can be reloaded
            self.hit('nothing to reload')
        row = self.rows[r] if r is not None else None
        old, before, v0 = self.at, self.snapshot() if self.at is not None else None, dict(exp.v)
        readable = row is not None and os.path.exists(row['path']) and row['path'] not in self.damaged
        if damage and label == STATE and row is not None and os.path.exists(row['path']):
            self.hurt(row['path'], damage)
            readable = False
        fresh = None
        if self.at is not None:
            # what restarting means, computed with copies
            if label == VOLTAGES:
                fresh = load(store(self.at, exp), exp)
            elif readable:
                exp.arm()
                fresh = qtune.autotuner.load_auto_tuner(row['path'], {'experiment': exp})
                diff = diff_snapshots(row['snap'], snapshot(fresh, {}))
                if diff:
                    self.bad('stored', 'the file of row %d holds another state than this row had: %s' % (r, diff))
                    return
        n = len(self.log)
        exp.arm(faults)
        died = None
        try:
            button[0].clicked.emit()
        except KeyboardInterrupt as e:
            died = e
        except INSTRUMENT as e:
            died = e
        calls, fired = list(exp.log), list(exp.fired)
        exp.arm()
        errors = self.errors(n)
        what = '%s of row %s' % (label, r)
        if self.at is None:
            if errors and row is not None or calls:
                self.bad('no-tuning', '%s without tuning: %s, calls %s' % (what, errors, calls))
            return
        if any(c[0] == 'measure' for c in calls):
            self.bad('measured', '%s made a measurement' % what)
        if row is None:
            if self.at is not old or diff_snapshots(before, self.snapshot()) or exp.v != v0:
                if not (label == VOLTAGES and exp.v == v0):
                    self.bad('nothing', '%s changed something though there is no such row' % what)
            return
        if fired:
            self.count('instrument error while reloading (%s)' % fired[0][1])
            self.hit('error while reloading')
            self.failed = True
            if not errors and died is None:
                self.bad('swallowed', '%s: the instrument error was not reported' % what)
                return
        elif errors and (label == VOLTAGES or readable):
            self.bad('failed', '%s failed: %s' % (what, errors[-1]))
            return
        if label == VOLTAGES:
            if self.at is not old:
                self.bad('exchanged', '%s exchanged the tuning' % what)
            if fired:
                # to be repeated before anything else
                self.owing = k
                return
            self.owing = None
            if exp.v != row['v']:
                self.bad('voltages', '%s: the voltages are %s, in this row they were %s' % (what, exp.v, row['v']))
                return
            fresh.restart()
            diff = diff_snapshots(snapshot(fresh, {}), self.snapshot())
            if diff:
                self.bad('restarted', '%s: the tuning (second) is not restarted at these voltages (first): %s' % (what, diff))
                return
            self.restarted(what, before)
            self.hit('voltages reloaded')
        else:
            if exp.v != v0:
                self.bad('voltages', '%s changed the voltages' % what)
            if fired or not readable:
                # nothing may have happened
                if not readable:
                    self.hit('file damaged' if row['path'] in self.damaged else 'file not written yet')
                    if not errors and died is None:
                        self.bad('unreported', '%s: the file cannot be read, which was not reported' % what)
                if self.at is old and diff_snapshots(before, self.snapshot()):
                    self.bad('changed', '%s failed and changed the tuning: %s' % (what, diff_snapshots(before, self.snapshot())))
                if self.at is old:
                    return
                if not readable:
                    self.bad('exchanged', '%s exchanged the tuning though the file cannot be read' % what)
                    return
            if self.at is old:
                self.bad('not-exchanged', '%s: the old tuning is still in use' % what)
                return
            fresh.restart()
            diff = diff_snapshots(snapshot(fresh, {}), self.snapshot())
            if diff:
                self.bad('restored', '%s: the tuning (second) is not that of the row, restarted (first): %s' % (what, diff))
                return
            self.restarted(what, row['snap'])
            self.exchanges += 1
            self.count('state exchanged')
            self.hit('state reloaded')
            if row['at'] is not self.rows[-1]['at']:
                self.hit('row of an exchanged tuning')
        if self.failed and not fired:
            self.hit('reloaded after an error')
            self.failed = False
        if self.exchanges > 1:
            self.hit('reloaded again')
        if self.opened[k] < self.exchanges - (label == STATE):
            self.hit('window opened before an exchange')

    def restarted(self, what, before):
        """A restarted tuning begins with its first group at the present voltages and knows what it knew before."""
        now = self.snapshot()
        if now['index'] or now['status'] or now['pending'] is not None:
            self.bad('restarted', '%s: the tuning goes on in group %d (%s, voltages to set %s)' % (what, now['index'], now['status'], now['pending']))
        for i, (a, b) in enumerate(zip(before['groups'], now['groups'])):
            v = {g: float(x) for g, x in b['last_v'].items()}
            if v != self.exp.v or any(x != self.exp.v[g] for g, x in b['pos'].items()):
                self.bad('restarted', '%s: group %d goes on at %s (position %s), the voltages are %s' % (what, i, v, dict(b['pos']), self.exp.v))
            for key in ('values', 'variances', 'failed', 'target', 'tuned', 'good'):
                diff = diff_snapshots(a[key], b[key])
                if diff:
                    self.bad('forgotten', '%s: group %d has other %s than before: %s' % (what, i, key, diff))

    def hurt(self, path, how):
        self.count('file ' + how)
        self.damaged.add(path)
        if how == 'missing':
            os.remove(path)
            return
        with open(path, 'rb') as f:
            data = f.read()
        with open(path, 'wb') as f:
            f.write({'short': data[:len(data) // 2], 'empty': b'', 'garbage': b'\0' * len(data)}[how])


class Busy(Run):
    """The worker iterates while the user presses the buttons; at the end a press is judged as between iterations."""

    def run(self):
        self.main = threading.get_ident()
        self.inside = 0
        self.moved = []                 # voltages after each change made by the user
        self.pressing = False
        self.refused = 0
        iterate = qtune.autotuner.Autotuner.iterate

        def it(at):
            if not self.main or threading.get_ident() == self.main:
                return iterate(at)
            if self.pressing:
                self.hit('iteration delayed by reloading')
            self.d.snap = snapshot(at, {})
            self.d._allow()
            self.inside += 1
            before = len(self.moved)
            try:
                if (self.fresh or at is not self.iterated) and self.iterated is not None and not self.broken:
                    self.hit('iterated after reloading')
                    snap = self.d.snap
                    if snap['index'] or snap['status'] or snap['pending'] is not None or any({a: float(x) for a, x in g['last_v'].items()} != self.exp.v for g in snap['groups']):
                        self.bad('between', 'the first iteration after reloading begins at the voltages %s, but the tuning is not restarted there' % self.exp.v)
                self.fresh = False
                self.iterated = at
                iterate(at)
            except BaseException:
                self.broken = True
                raise
            finally:
                self.inside -= 1
                if len(self.moved) > before:
                    self.bad('interfered', 'the voltages were changed by reloading while an iteration was in progress')
                if at is not self.at:
                    self.bad('interfered', 'the tuning was exchanged by reloading while it was iterating')
        self.fresh = self.broken = False
        self.iterated = None
        qtune.autotuner.Autotuner.iterate = it
        try:
            super().run()
        finally:
            qtune.autotuner.Autotuner.iterate = iterate
            self.main = None

    def prepare(self):
        exp, sc = self.exp, self.sc
        measure, set_v = exp.measure, exp.set_gate_voltages

        def slow(measurement):
            time.sleep(sc['durations'][exp.total_measures % len(sc['durations'])])
            return measure(measurement)

        def moving(new_gate_voltages):
            try:
                return set_v(new_gate_voltages)
            finally:
                if threading.get_ident() == self.main:
                    self.moved.append(dict(exp.v))
                    self.fresh = True
        exp.measure, exp.set_gate_voltages = slow, moving
        fault = exp._fault
        # errors happen in the iterations
        exp._fault = lambda *what: None if threading.get_ident() == self.main and self.i != 'last' else fault(*what)

    def step(self, op):
        if not self.inside:
            self.exp.arm(op.get('faults'))
        self.gui.step()

    def start(self, op):
        self.gui.start()

    def pause(self, op):
        self.gui.pause()

    def wait(self, op):
        time.sleep(op['s'])

    def settle(self, op=None):
        """Waits until nothing happens any more."""
        if peek.running(self.gui) and op is not None:
            self.gui.pause()
        n, jumps, self.sched.jumps = None, self.sched.jumps, False
        while n != (self.exp.total_measures, self.exp.calls) or self.inside:
            n = self.exp.total_measures, self.exp.calls
            time.sleep(SETTLE)
        self.sched.jumps = jumps
        self.exp.arm()

    def press(self, k, label, faults, damage):
        if self.i == 'last':
            return super().press(k, label, faults, damage)
        button = next(a[0] for a in self.windows[k]._children if isinstance(a[0], qtune.gui.QtWidgets.QPushButton) and a[0].text() == label)
        r = self.chosen(k)
        if self.res.violations:
            return
        row = self.rows[r] if r is not None and r < len(self.rows) else None
        old, n, moved = self.at, len(self.log), len(self.moved)
        written = row is not None and os.path.exists(row['path'])
        within = self.inside
        self.pressing = True
        try:
            button.clicked.emit()
        except INSTRUMENT:
            self.broken = True
        finally:
            self.pressing = False
        if row is None:
            # the first row may have been entered meanwhile
            r = self.chosen(k)
            row = self.rows[r] if r is not None and r < len(self.rows) else None
        what = '%s of row %s' % (label, r)
        said = [x for x in self.log[n:] if x[0] in ('WARNING', 'ERROR', 'CRITICAL')]
        errors = self.errors(n)
        if any(x[2].startswith(('Instrument', 'UserInterrupt')) for x in errors):
            self.broken = True
            return
        done = len(self.moved) > moved, self.at is not old
        if within:
            # it may have ended in the meantime
            self.hit('reloaded while running' if any(done) else 'refused within an iteration')
        if not any(done) and not said and not self.broken:
            self.bad('silent', '%s did nothing and said nothing' % what)
        if row is None:
            if any(done):
                self.bad('nothing', '%s changed something though there is no such row' % what)
            return
        if any(done):
            self.hit('reloaded while running')
            if errors and not self.broken:
                self.bad('failed', '%s failed: %s' % (what, errors[-1]))
        if label == VOLTAGES:
            if done[1]:
                self.bad('exchanged', '%s exchanged the tuning' % what)
            if done[0]:
                if self.moved[-1] != row['v']:
                    self.bad('voltages', '%s: the voltages became %s, in this row they were %s' % (what, self.moved[-1], row['v']))
        else:
            if done[0]:
                self.bad('voltages', '%s changed the voltages' % what)
            if row is not None and not written:
                self.hit('file not written yet')
            if done[1]:
                self.exchanges += 1
            elif written and errors and not self.broken and self.rows[r] is row:
                self.bad('failed', '%s failed: %s' % (what, errors[-1]))

    def finish(self):
        self.gui.pause()
        self.settle({})
        if not self.rows:
            return
        for at in {id(r['at']): r['at'] for r in self.rows}.values():
            peek.writer(at).join()
        self.i = 'last'
        self.hit('reloaded after running')
        getattr(self, self.sc['final'])({'w': 0})
