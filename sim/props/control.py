"""C23: the real worker thread and slots of the GUI (Qt replaced by stand-ins) under a seeded scheduler which switches at every line."""
import hashlib
import os
import random
import shutil
import types

import qtune.gui
import qtune.history

from .. import boot, gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..runner import ddmin
from ..world import snapshot
from .writer import gen_sched, run_scheduled, shrink_sched

SETTLE = 4.0             # simulated seconds after which a single iteration is certainly over
CAP = 14                 # iterations of one continuous stretch that are waited for


class HistoryBroken(RuntimeError):
    pass


class QueryBroken(RuntimeError):
    pass


class Module:
    SECONDS = dict(quick=32, thorough=1200, shrink=60)
    PROBES = {'C23': ['step while idle', 'ran to completion', 'stopped by an error', 'paused within an iteration', 'paused before the iteration', 'restarted', 'restarted while running',
                      'closed', 'closed while running', 'started after closing', 'stepped after closing', 'worker died', 'history failed', 'exchanged while iterating',
                      'already complete', 'no tuning', 'start while stepping', 'step while stepping', 'continued after new targets', 'error while the user acts',
                      'completed while the user acts', 'button pressed while disabled', 'stored']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C23-%d' % seed)
        o = dict(easy=True, sensing=0.1, groups=1, ngates=[1, 1, 2], noise=0.2, nl=0, n=1, p=dict(exc=0, nan=0, manual=0, retarget=0, resume=0, old=0))
        if rng.random() < 0.3:
            o['easy'] = False
        cfg = gen.gen_cfg(rng, o)
        ops = []
        weights = rng.choice([
            dict(step=5, settle=5, start=1, pause=1),
            dict(start=3, pause=3, step=2, wait=4),
            dict(start=2, pause=2, step=2, settle=3, wait=3, finish=2, restart=1, close=1, retarget=1, swap=1),
            dict(start=2, pause=1, step=2, settle=2, wait=2, restart=2, close=2),
            dict(start=3, finish=3, retarget=2, step=1, settle=1, pause=1),
        ])
        kinds = [k for k in weights for _ in range(weights[k])]
        for _ in range(rng.choice([2, 4, 8, 14])):
            k = rng.choice(kinds)
            op = {'op': k}
            if k == 'wait':
                op['s'] = rng.choice([0, 0.01, 0.05, 0.0501, 0.1, 0.2, 0.5, 1.0])
            elif k == 'retarget':
                op['changes'] = gen.gen_retarget(rng, cfg)['changes']
            ops.append(op)
        faults = {}
        rate = rng.choice([0, 0, 0.1, 0.3])
        for n in range(60):
            if rng.random() < rate:
                faults[str(n)] = rng.choice([dict(gen.gen_fault(rng), at='instrument'), {'at': 'history'}, {'at': 'query'}, {'at': 'death'}])
        durations = [rng.choice([0, 0, 0.01, 0.05, 0.1, 0.3]) for _ in range(5)]
        return dict(cfg=cfg, ops=ops, faults=faults, durations=durations, buttons=rng.random() < 0.4, stored=rng.random() < 0.15, none=rng.random() < 0.04,
                    history=rng.random() < 0.9, lines=rng.choice(['gui.py', 'gui.py', 'gui.py', True]), end=rng.choice(['close', 'close', 'pause, close', 'finish, close']),
                    sched=self.gen_sched(rng))

    def gen_sched(self, rng):
        s = gen_sched(rng, victims=[rng.choice([0, 1])])
        if s['policy']['kind'] == 'coop' or rng.random() < 0.4:
            # short runs: more switches than for the writer
            s['policy'] = {'kind': 'random', 'p': rng.choice([0.05, 0.2, 0.5])}
        elif s['policy']['kind'] == 'pct':
            s['policy'].update(depth=rng.randint(2, 12), length=rng.choice([100, 300, 1000]))
        if s['policy']['kind'] != 'coop' and rng.random() < 0.7:
            s['policy']['slow'] = rng.choice([0.003, 0.02, 0.1, 0.4])
        return s

    def hit(self, res, p):
        res.probes[p] = res.probes.get(p, 0) + 1

    def execute(self, sc):
        res = Result()
        res.extra = {}
        self.hash = hashlib.blake2b(digest_size=8)
        path = os.path.abspath('tuning')
        shutil.rmtree(path, ignore_errors=True)
        log = boot.log_capture(True)
        try:
            s = run_scheduled(sc, res, lambda s: Control(self, sc, s, res, log, path).run(), 'C23', max_points=400000)
        finally:
            boot.log_capture(False)
            shutil.rmtree(path, ignore_errors=True)
        self.hash.update(repr((s.sig, res.key())).encode())
        res.digest = self.hash.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return res.extra.get('iterations', 0) > 0

    def shrink(self, sc):
        yield from ddmin(sc['ops'], lambda o: dict(sc, ops=o))
        for k in list(sc['faults']):
            yield dict(sc, faults={a: b for a, b in sc['faults'].items() if a != k})
        for k, v in (('durations', [0]), ('durations', [0.1]), ('stored', False), ('buttons', False), ('lines', 'gui.py'), ('history', True), ('end', 'close')):
            if sc[k] != v and (k != 'durations' or len(sc[k]) > 1):
                yield dict(sc, **{k: v})
        yield from shrink_sched(self, sc)

    def info(self, prop):
        return dict(
            rule='a run is a user who starts, steps, pauses, closes and restarts the GUI, changes targets, exchanges the tuning and waits in random order, with random '
                 'errors (instruments, history, death of the worker) and iteration times; worker and user are switched by a seeded scheduler before any source line '
                 'of the GUI; runs are distinct if the interleaving or the sequence of events differs; non-trivial if there was an iteration',
            measure='(action, worker alive, iterating, running, complete) and interleaving signatures',
            real=['qtune.gui.GUI (worker thread and slots)', 'qtune.autotuner and the tuning below it', 'qtune.history', 'qtune.storage writer (in some runs)', 'threading'],
            stub=['Qt and pyqtgraph widgets and signals', 'IPython', 'experiment and evaluators', 'thread scheduler', 'clock'],
            assumptions=['slots run one after another in the GUI thread', 'plots are not drawn', 'sampled, not exhaustive'])


class Control:
    def __init__(self, mod, sc, s, res, log, path):
        self.mod, self.sc, self.s, self.res, self.log, self.path = mod, sc, s, res, log, path
        self.seq = 0
        self.events = []                 # (seq, what, ...)
        self.inside = 0
        self.iterations = 0
        self.begun = []                  # event numbers
        self.entered = []                # tunings in the order of their entry
        self.owed = []                   # completed iterations which are not entered yet
        self.errors = []                 # (event number, exception type name)
        self.stopped = None              # event after which the worker has to pause because of an error
        self.user = None                 # what the user does just now

    def note(self, *what):
        self.seq += 1
        self.events.append((self.seq,) + what)
        return self.seq

    def bad(self, kind, msg):
        if len(self.res.violations) < 5:
            self.res.violations.append(('C23', kind, msg))

    def hit(self, p):
        self.mod.hit(self.res, p)

    def wrap(self, d):
        import time
        at, exp = d.at, d.exp
        measure = exp.measure
        iterate = at.iterate
        complete = at.is_tuning_complete
        sc = self.sc

        def slow(measurement):
            time.sleep(sc['durations'][exp.total_measures % len(sc['durations'])])
            return measure(measurement)

        def query():
            if self.inside:
                return complete()
            since = self.seq
            f = sc['faults'].get(str(self.iterations))
            if f and f['at'] == 'query' and ('query', self.iterations) not in self.used and not self.harness:
                self.used.add(('query', self.iterations))
                self.count('completion query failed')
                self.errors.append((self.note('error', 'QueryBroken'), 'QueryBroken'))
                self.stopped = since
                raise QueryBroken('query')
            r = complete()
            if r and not self.harness:
                self.note('complete')
                if self.user:
                    self.hit('completed while the user acts')
                if self.entered_since_start == 0:
                    self.hit('already complete')
            return r

        def it():
            n = self.iterations
            self.iterations += 1
            self.begun.append(self.note('begin', n))
            self.entered_since_start += 1
            if self.stopped is not None and self.user not in ('start', 'step') and not any(e[1] == 'user' and e[2] in ('start', 'step', 'start done', 'step done') and e[0] > self.stopped for e in self.events):
                self.bad('runs-on', 'iteration %d begins after an error although nobody wanted to continue' % n)
            if self.inside:
                self.bad('overlap', 'iteration %d begins while another one is in progress' % n)
            if self.owed:
                self.bad('not-entered', 'iteration %d begins although the one before was not entered into the history' % n)
            self.inside += 1
            d._allow()
            f = sc['faults'].get(str(n)) or {}
            exp.arm([f] if f.get('at') == 'instrument' else None)
            try:
                if f.get('at') == 'death':
                    raise KeyboardInterrupt()
                if n > 60:
                    time.sleep(0.3)         # bounds the length of the run
                iterate()
                d.snap = snapshot(at, d.cache)
            except BaseException as e:
                if type(e).__name__.startswith('Sim'):
                    raise
                if isinstance(e, Exception) and harness_error(e):
                    self.broken = e
                name = type(e).__name__
                self.count('death of the worker' if not isinstance(e, Exception) else 'instrument error')
                if self.user:
                    self.hit('error while the user acts')
                if not isinstance(e, Exception):
                    self.hit('worker died')
                    self.deaths += 1
                self.inside -= 1
                self.errors.append((self.note('error', name), name))
                self.stopped = self.begun[-1]
                raise
            self.inside -= 1
            self.note('end', n)
            if self.sc['history']:
                self.owed.append((n, at))
        exp.measure = slow
        at.iterate = it
        at.is_tuning_complete = query
        d.complete = complete

    def count(self, kind):
        self.res.faults[kind] = self.res.faults.get(kind, 0) + 1

    # -- the run ---------------------------------------------------------------------------------------------------
    def run(self):
        sc, res = self.sc, self.res
        self.used = set()
        self.harness = False
        self.broken = None
        self.deaths = 0
        self.entered_since_start = 0
        self.ds = [Driver(sc['cfg'], shadow=False, path=self.path if sc['stored'] else None) for _ in range(2)]
        for d in self.ds:
            self.wrap(d)
        self.which = 0
        if sc['stored']:
            self.hit('stored')
        history = None
        if sc['history']:
            history = qtune.history.History(None)
            append = history.append_autotuner

            def entering(at, *a, **k):
                f = sc['faults'].get(str(self.iterations - 1)) or {}
                if not self.owed:
                    self.bad('entered-twice', 'a tuning is entered into the history without a new iteration')
                    return
                n, owner = self.owed.pop()
                if f.get('at') == 'history':
                    self.count('history error')
                    self.hit('history failed')
                    self.errors.append((self.note('error', 'HistoryBroken'), 'HistoryBroken'))
                    self.stopped = self.begun[-1]
                    raise HistoryBroken('history')
                if at is not owner:
                    self.bad('wrong-entry', 'after iteration %d another tuning was entered into the history' % n)
                append(at, *a, **k)
                self.note('entered', n)
            history.append_autotuner = entering
        try:
            self.gui = gui = qtune.gui.GUI(None if sc['none'] else self.ds[0].at, history)
            gui.sender = lambda: types.SimpleNamespace(auto_tuner=self.ds[self.which].at)
            if sc['none']:
                self.hit('no tuning')
            self.closed = False
            self.disturbed = False         # the worker died or was restarted: the buttons are not judged
            self.released = None           # event number after which the worker may not begin another iteration
            self.allowed = 0
            self.inflight_at_pause = False
            self.settled = True
            for i, op in enumerate(sc['ops']):
                self.i = i
                self.act(op)
                res.steps += 1
                if res.violations:
                    break
            for kind in sc['end'].split(', '):
                self.i = 'last'
                if not res.violations:
                    self.act({'op': kind})
            if not res.violations:
                self.quiet('close', self.close_seq, 0)
        except Exception as e:
            if type(e).__name__.startswith('Sim') or harness_error(e):
                raise
            self.bad('exception:' + type(e).__name__, 'operation %s: %s: %s (%s)' % (self.i, type(e).__name__, e, where(e)))
        if self.broken is not None:
            raise self.broken
        # every error is logged
        logged = [r[2] for r in self.log if r[0] in ('ERROR', 'CRITICAL') and r[2]]
        expected = [n for _, n in self.errors if n not in ('KeyboardInterrupt', 'UserInterrupt')]
        if not res.violations:
            for n in set(expected):
                if logged.count(n) < expected.count(n):
                    self.bad('not-logged', '%d errors %s in iterations, but %d of them are logged' % (expected.count(n), n, logged.count(n)))
        for d in self.ds:
            w = peek.writer(d.at)
            if w is not None:
                w.join()
        dead = [x for x in self.s.thread_exceptions if x[1] not in ('KeyboardInterrupt', 'UserInterrupt')]
        for name, kind, msg in dead:
            res.violations.append(('C23', 'worker:' + kind, 'the worker ended with %s: %s' % (kind, msg)))
        res.extra.update(iterations=self.iterations)
        self.mod.hash.update(repr([e[1:] for e in self.events]).encode())

    def settle(self):
        """The user waits until the worker has done what it can do."""
        import time
        jumps, self.s.jumps = self.s.jumps, False
        time.sleep(SETTLE)
        self.s.jumps = jumps

    def complete(self):
        self.harness = True
        try:
            return self.ds[self.which].complete()
        finally:
            self.harness = False

    def begun_since(self, seq):
        return sum(1 for b in self.begun if b > seq)

    def errors_since(self, seq):
        return [n for s, n in self.errors if s > seq]

    def quiet(self, why, seq, allowed):
        """Not more than the allowed number of iterations begin after the event, until the user wants some."""
        import time
        self.settle()
        n = self.begun_since(seq)
        if n > allowed:
            self.bad('runs-on', 'operation %s: %d iterations begin after %s (at most %d may)' % (self.i, n, why, allowed))

    def alive(self):
        return peek.thread(self.gui).is_alive()

    def idle(self):
        """True after the worker was left alone and nothing happened any more."""
        import time
        n = self.iterations
        self.settle()
        return self.iterations == n and not self.inside

    def act(self, op):
        import time
        gui, res, kind = self.gui, self.res, op['op']
        alive = self.alive()
        running = peek.running(gui)
        errors = len(self.errors)
        inside = self.inside
        seq = self.seq
        try:
            if kind in ('start', 'step', 'pause'):
                button = peek.button(gui, kind.capitalize())
                if not button.isEnabled():
                    if self.sc['buttons']:
                        return
                    self.hit('button pressed while disabled')
            self.user = kind
            seq = self.note('user', kind)
            if kind == 'start':
                self.entered_since_start = 0
                if inside:
                    self.hit('start while stepping')
                gui.start()
                self.note('user', 'start done')
                self.check_worker('start', alive)
                self.wanted = ('start', seq)
                self.settled = False
            elif kind == 'step':
                self.entered_since_start = 0
                if inside:
                    self.hit('step while stepping')
                fresh = self.settled
                gui.step()
                self.note('user', 'step done')
                self.check_worker('step', alive)
                if fresh:
                    # exactly one, unless there is nothing to do
                    self.user = None
                    complete = self.complete() if self.begun_since(seq) == 0 else False
                    self.settle()
                    n = self.begun_since(seq)
                    failed = self.errors_since(seq)
                    if n > 1:
                        self.bad('too-many-steps', 'operation %s: %d iterations after one press of step' % (self.i, n))
                    elif n == 0 and not complete and not failed and not self.sc['none'] and not self.complete():
                        self.bad('step-lost', 'operation %s: no iteration after a press of step' % self.i)
                    elif n == 1:
                        self.hit('step while idle')
                    self.settled = True
                    self.check_idle()
                else:
                    self.settled = False
            elif kind == 'pause':
                gui.pause()
                end = self.note('user', 'paused')
                within = self.inside
                self.user = None
                if within:
                    self.hit('paused within an iteration')
                if alive:
                    # a worker which waits for orders has not begun anything
                    waiting = any(t.state == 'blocked' for t in self.s.tasks if t.ident == peek.thread(gui).ident)
                    self.quiet('pause', end, 0 if within or waiting else 1)
                    if self.begun_since(end):
                        self.hit('paused before the iteration')
                self.settled = True
                if self.alive():
                    self.check_idle()
            elif kind == 'wait':
                self.user = None
                time.sleep(op['s'])
            elif kind == 'settle':
                self.user = None
                self.finish(1, seq)
            elif kind == 'finish':
                self.user = None
                self.finish(CAP, seq)
            elif kind == 'restart':
                self.hit('restarted')
                if running and alive:
                    self.hit('restarted while running')
                gui.restart_thread()
                end = self.note('user', 'restarted')
                if not self.alive():
                    self.bad('no-worker', 'operation %s: no worker after a restart' % self.i)
                self.closed = False
                self.user = None
                self.quiet('restart', end, 0)
                self.settled = True
                self.check_idle()
            elif kind == 'close':
                self.hit('closed')
                if inside or running:
                    self.hit('closed while running')
                gui.close()
                self.close_seq = self.note('user', 'closed')
                self.closed = True
                if self.alive():
                    self.bad('worker-left', 'operation %s: the worker is alive after closing' % self.i)
                self.settled = True
            elif kind == 'retarget':
                if not self.settled or self.sc['none'] or not self.idle() or not self.alive() and not self.closed:
                    return
                self.harness = True
                try:
                    self.ds[self.which].step(self.i, op)
                finally:
                    self.harness = False
                if not self.complete():
                    self.hit('continued after new targets')
            elif kind == 'swap':
                if self.sc['none']:
                    return
                if inside:
                    self.hit('exchanged while iterating')
                self.which = 1 - self.which
                gui.load_auto_tuner_from_reload_widget()
        finally:
            self.user = None
        if self.owed and not self.inside and self.settled and not res.violations:
            self.bad('not-entered', 'operation %s: iteration %d was not entered into the history' % (self.i, self.owed[-1][0]))
        res.abstract.add((kind, alive, bool(inside), running, self.closed, len(self.errors) > errors))

    def check_worker(self, kind, alive):
        if not alive:
            self.hit('%s after closing' % dict(start='started', step='stepped')[kind])
        self.closed = False

    def shown(self):
        return [peek.button(self.gui, b).isEnabled() for b in ('Start', 'Step', 'Pause')]

    def check_idle(self):
        """The buttons of an idle GUI invite to start and to step."""
        if self.sc['none'] or not self.alive():
            return
        shown = self.shown()
        if shown != [True, True, False]:
            self.bad('buttons', 'operation %s: nothing runs, but start %s, step %s, pause %s' % ((self.i,) + tuple(
                'enabled' if b else 'disabled' for b in shown)))

    def finish(self, cap, seq):
        """Waits for the worker to come to rest; then there has to be a reason for it."""
        import time
        gui = self.gui
        n = self.iterations
        while True:
            before = self.iterations
            self.settle()
            if self.iterations == before and not self.inside:
                break
            if self.iterations - n >= cap and cap > 1:
                break
            if cap == 1 and self.iterations - n > 0:
                break
        rest = self.iterations == before and not self.inside
        started = [e for e in self.events if e[1] == 'user' and e[2] in ('start', 'step', 'pause', 'paused', 'restarted', 'closed')]
        last = started[-1] if started else None
        self.settled = rest
        if last is not None and last[2] == 'start' and not self.closed and not self.sc['none']:
            if rest:
                failed = self.errors_since(self.start_reference(last[0]))
                if not failed and not self.complete() and not any(e[1] == 'complete' and e[0] > last[0] for e in self.events):
                    self.bad('stopped', 'operation %s: the continuous tuning stopped although it is not complete, not paused and no error occurred' % self.i)
                elif failed:
                    self.hit('stopped by an error')
                else:
                    self.hit('ran to completion')
                if self.alive():
                    self.check_idle()
            elif self.alive():
                now = self.note('look')
                shown = self.shown()
                self.settle()
                # whatever begins now without the user was running then
                if self.begun_since(now) and shown != [False, False, True]:
                    self.bad('buttons', 'operation %s: the tuning runs, but start %s, step %s, pause %s' % ((self.i,) + tuple(
                        'enabled' if b else 'disabled' for b in shown)))

    def start_reference(self, seq):
        """An error shortly before the press of start may still stop the tuning: the worker is on its way to pause."""
        k = [e[0] for e in self.events if e[0] < seq and e[1] in ('begin', 'user')]
        b = [e[0] for e in self.events if e[0] < seq and e[1] == 'begin']
        return (b[-1] if b else seq) - 1
