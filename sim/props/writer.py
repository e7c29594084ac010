"""C16 and C19: the real background writer of qtune under a seeded scheduler which interleaves it with its clients at every line."""
import copy
import gc
import hashlib
import os
import random
import resource
import shutil
import weakref

import numpy as np
import pandas as pd

import qtune.autotuner
import qtune.storage
from qtune.experiment import Measurement
from qtune.kalman_gradient import KalmanGradient

from .. import boot, deep, gen
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..sched import Scheduler, SimDeadlock, SimStepLimit
from ..shadow import diff_snapshots
from ..world import INSTRUMENT, SimEvaluator, SimExperiment, snapshot
from .core import shrink as core_shrink


def gen_sched(rng, victims=(1, 2)):
    kind = rng.choice(['random', 'random', 'pct', 'pct', 'stall', 'stall', 'coop'])
    policy = {'kind': kind}
    if kind == 'random':
        policy['p'] = rng.choice([0.002, 0.02, 0.1, 0.3])
    elif kind == 'pct':
        policy.update(depth=rng.randint(1, 6), length=rng.choice([300, 2000, 10000]))
    elif kind == 'stall':
        policy.update(p=rng.choice([0.0005, 0.005]), victims=list(victims))
    return {'seed': rng.randrange(1 << 30), 'policy': policy}


def scheduler(sched, **kw):
    return Scheduler(seed=sched.get('seed', 0), policy=sched.get('policy'), switches=sched.get('switches'), **kw)


def run_scheduled(sc, res, body, prop, max_points=1500000):
    """Runs body under the scheduler of the scenario; deadlocks and lack of progress become violations."""
    s = scheduler(sc['sched'], max_points=max_points, lines=sc.get('lines', True))
    try:
        s.run(lambda: body(s))
    except SimDeadlock as e:
        res.violations.append((prop, 'deadlock', str(e)))
    except SimStepLimit as e:
        res.violations.append((prop, 'no-progress', str(e)))
    res.switches = s.switches
    res.extra = dict(getattr(res, 'extra', {}), scheduling_points=s.point, context_switches=s.n_switches)
    res.abstract.add(('interleaving', s.sig))
    return s


def shrink_sched(mod, sc):
    """Candidates with a simpler schedule: the recorded deviations from the default one, then fewer of them."""
    from ..runner import run_one
    sched = sc['sched']
    slow = sched['policy'].get('slow') if 'policy' in sched else None

    def replay(switches):
        d = {'switches': switches}
        if slow:
            # the points at which a slow task could be overtaken are counted, too
            d['policy'] = {'kind': 'replay', 'slow': slow}
        return dict(sc, sched=d)
    if 'switches' not in sched:
        if sched['policy']['kind'] != 'coop':
            yield dict(sc, sched={'switches': []})
            r = run_one(mod, sc)
            if getattr(r, 'switches', None) is not None and len(r.switches) < 20000:
                yield replay(r.switches)
        return
    sw = sched['switches']
    n = len(sw)
    size = max(1, n // 2)
    while n:
        for start in range(0, n, size):
            yield replay(sw[:start] + sw[start + size:])
        if size == 1:
            break
        size //= 2


class SimTag(metaclass=qtune.storage.HDF5Serializable):
    """Notes when it is written."""
    written = []

    def __init__(self, tag, data=None, seconds=0):
        self.tag = str(tag)
        self.data = data
        self.seconds = float(seconds)

    def to_hdf5(self):
        import time
        if self.seconds:
            time.sleep(self.seconds)         # the disk is slow
        SimTag.written.append(self.tag)
        return dict(tag=self.tag, data=self.data, seconds=self.seconds)


class Unstorable:
    """No class which can be stored."""


class Module:
    SECONDS = dict(quick=32, thorough=1200, shrink=40)
    PROBES = {'C16': ['written while the tuning went on', 'three saves waiting', 'changed before written', 'process mode', 'objects', 'autotuner restarted before written',
                      'retargeted before written'],
              'C19': ['process mode', 'thread mode', 'exit without join', 'joined twice', 'restarted', 'failed write', 'refused',
                      'restarted after a failure', 'disk full', 'slow write', 'dropped', 'two clients', 'two writers', 'joined with waiting saves', 'several objects in one file']}

    def __init__(self, prop):
        self.prop = prop

    # -- generation ------------------------------------------------------------------------------------------------
    def generate(self, seed):
        rng = random.Random('%s-%d' % (self.prop, seed))
        sched = gen_sched(rng)
        if self.prop == 'C19':
            return self.generate_jobs(rng, sched)
        if rng.random() < 0.4:
            n = rng.randint(1, 6)
            ops = []
            for _ in range(n):
                ops.append({'op': 'save', 'parts': sorted(rng.sample(range(8), rng.randint(1, 5)))})
                for _ in range(rng.randint(0, 3)):
                    ops.append({'op': 'mutate', 'part': rng.randrange(8), 'x': rng.randrange(1000)})
                if rng.random() < 0.2:
                    ops.append({'op': 'sleep'})
            return dict(family='objects', mode=rng.choice(['thread', 'process']), ops=ops, sched=sched)
        o = dict(easy=rng.random() < 0.4, sensing=0.3, groups=rng.choice([1, 1, 2]), ngates=[1, 2], noise=0.3,
                 p=dict(exc=0.3, nan=0.4, manual=0.5, retarget=0.5, resume=0, old=0))
        cfg = gen.gen_cfg(rng, o)
        cfg['reuse'] = rng.random() < 0.4
        o['n'] = rng.choice([3, 6, 10])
        ops = gen.gen_ops(rng, cfg, o)
        for op in ops:
            if rng.random() < 0.1:
                op['sleep'] = True
        return dict(family='tuning', mode=rng.choice(['own', 'own', 'thread', 'process']), cfg=cfg, ops=ops, sched=sched)

    def generate_jobs(self, rng, sched):
        ops = []
        failing = rng.random() < 0.4
        slow = rng.choice([0, 0, 0.2, 0.6])
        k = 0
        for _ in range(rng.choice([3, 6, 12])):
            x = rng.random()
            op = {}
            if x < 0.6:
                op = {'op': 'write', 'size': rng.choice([1, 10, 3000])}
                if rng.random() < slow:
                    op['seconds'] = rng.choice([0.1, 5, 20, 100, 700])
                if rng.random() < 0.15 and k:
                    op['same'] = True                # another object in the file of the last save
                if failing and rng.random() < 0.25:
                    op['bad'] = rng.choice(['directory', 'object', 'nested object'])
                k += 1
            elif x < 0.7:
                op = {'op': 'join'}
            elif x < 0.8:
                op = {'op': 'restart'}
            elif x < 0.92:
                op = {'op': 'sleep'}
            elif failing:
                op = {'op': rng.choice(['full', 'full', 'free']), 'bytes': rng.choice([0, 700, 20000])}
            else:
                op = {'op': 'sleep'}
            op['w'] = 0
            ops.append(op)
        two = rng.random() < 0.25
        if two:
            for op in ops:
                op['w'] = rng.randrange(2)
        return dict(family='jobs', modes=[rng.choice(['thread', 'process']) for _ in range(2 if two else 1)], ops=ops, sched=sched,
                    end=rng.choice(['exit', 'exit', 'join', 'drop', 'join, exit']), clients=2 if rng.random() < 0.2 else 1)

    # -- execution -------------------------------------------------------------------------------------------------
    def execute(self, sc):
        res = Result()
        res.extra = {}
        self.hash = hashlib.blake2b(digest_size=8)
        shutil.rmtree(os.path.abspath('files'), ignore_errors=True)
        os.mkdir(os.path.abspath('files'))
        log = boot.log_capture(True)
        SimTag.written = []
        soft = resource.getrlimit(resource.RLIMIT_FSIZE)
        try:
            s = run_scheduled(sc, res, lambda s: getattr(self, 'run_' + sc['family'])(sc, s, res, log), self.prop)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, soft)
            boot.log_capture(False)
            shutil.rmtree(os.path.abspath('files'), ignore_errors=True)
        self.hash.update(repr((s.sig, res.key())).encode())
        res.digest = self.hash.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        res.completed = True
        return res

    def hit(self, res, p):
        res.probes[p] = res.probes.get(p, 0) + 1

    def run_tuning(self, sc, s, res, log):
        import time
        path = os.path.abspath('files')
        own = sc['mode'] == 'own'
        d = Driver(sc['cfg'], shadow=False, path=path if own else None)
        w = None if own else qtune.storage.AsynchronousHDF5Writer(reserved=d.at.reserved, multiprocess=sc['mode'] == 'process')
        if sc['mode'] == 'process':
            self.hit(res, 'process mode')
        saves = []
        waiting = []
        for i, op in enumerate(sc['ops']):
            n = d.iterations
            d.step(i, {k: v for k, v in op.items() if k != 'sleep'})
            if d.dead:
                break
            waiting = [f for f in waiting if not os.path.exists(f)]
            if waiting:
                self.hit(res, 'written while the tuning went on')
                if op['op'] in ('manual', 'restart'):
                    self.hit(res, 'autotuner restarted before written')
                if op['op'] == 'retarget':
                    self.hit(res, 'retargeted before written')
            if own:
                if d.iterations > n:
                    saves.append((i, d.at.last_save_file, d.snap, copy.deepcopy(d.at, {id(d.exp): d.exp})))
                    waiting.append(d.at.last_save_file)
            else:
                file = os.path.join(path, '%03d.hdf5' % i)
                then = copy.deepcopy(d.at, {id(d.exp): d.exp})
                w.write(d.at, file_name=file, name='autotuner')
                saves.append((i, file, d.snap, then))
                waiting.append(file)
            if len(waiting) > 2:
                self.hit(res, 'three saves waiting')
            if op.get('sleep'):
                time.sleep(1000)
        res.steps = d.res.steps
        res.faults.update(d.res.faults)
        res.violations += d.res.violations
        try:
            (d.at.asynchrone_writer if own else w).join()
        except Exception as e:
            if harness_error(e):
                raise
            res.violations.append(('*', 'exception:' + type(e).__name__, 'join raised %s: %s (%s)' % (type(e).__name__, e, where(e))))
        self.trouble(res, s, log)
        self.hash.update(repr([(i, x['index'], x['status']) for i, _, x, _ in saves]).encode())
        for i, file, snap, then in saves:
            try:
                got = qtune.autotuner.load_auto_tuner(file, {'experiment': d.exp})
            except Exception as e:
                res.violations.append(('C16', 'unreadable', 'loading the save after operation %d raised %s: %s (%s)' % (
                    i, type(e).__name__, e, where(e))))
                break
            diff = diff_snapshots(snap, snapshot(got)) or deep.compare(then, got, [d.exp])[0]
            if diff:
                res.violations.append(('C16', 'not-the-moment', 'the save requested after operation %d differs from the state then (first): %s' % (
                    i, diff)))
                break

    def parts(self, exp):
        s = pd.Series([1., 2., np.nan], index=['a', 'b', 'c'])
        m = Measurement('scan', center=1., gates=['x', 'y'], n=3)
        e = SimEvaluator(exp, (m,), ('p',), 'ev')
        k = KalmanGradient(2, 1, initial_gradient=[1., 2.], initial_covariance_matrix=np.eye(2), measurement_covariance_matrix=np.eye(1))
        return [s, pd.DataFrame({'u': [1., 2.], 'v': [3., 4.]}, index=['r', 's']), np.arange(6.).reshape(2, 3), [1., 'text', None, [s]],
                {'k': 1., 'n': {'m': m}}, m, e, k]

    def mutate(self, parts, part, x):
        p = parts[part]
        x = float(x)
        if isinstance(p, pd.Series):
            p.iloc[int(x) % len(p)] = x
        elif isinstance(p, pd.DataFrame):
            p.iloc[0, int(x) % 2] = x
        elif isinstance(p, np.ndarray):
            p[0, int(x) % 3] = x
        elif isinstance(p, list):
            if int(x) % 2:
                p.append(x)
            else:
                p[0] = x
        elif isinstance(p, dict):
            p['k'] = x
            if int(x) % 3 == 0:
                p['new%d' % x] = x
        elif isinstance(p, Measurement):
            p.options['center'] = x
        elif isinstance(p, SimEvaluator):
            p.n_evaluations = int(x)
            p._raw_y_data = (np.array([x]),)
        else:
            p.update(np.array([x / 100., 1.]), np.array([x]))

    def run_objects(self, sc, s, res, log):
        import time
        exp = SimExperiment(dict(gates=['g'], v0={'g': 0.}))
        parts = self.parts(exp)
        w = qtune.storage.AsynchronousHDF5Writer(reserved={'experiment': exp}, multiprocess=sc['mode'] == 'process')
        self.hit(res, 'objects')
        if sc['mode'] == 'process':
            self.hit(res, 'process mode')
        saves = []
        for i, op in enumerate(sc['ops']):
            res.steps += 1
            if op['op'] == 'save':
                obj = {'p%d' % k: parts[k] for k in op['parts']}
                want, _ = copy.deepcopy((obj, exp), {id(exp): exp})
                file = os.path.abspath('files/%d.hdf5' % i)
                w.write(obj, file_name=file, name='state')
                saves.append((i, file, want))
            elif op['op'] == 'mutate':
                if saves and not os.path.exists(saves[-1][1]):
                    self.hit(res, 'changed before written')
                self.mutate(parts, op['part'], op['x'])
            else:
                time.sleep(1000)
        w.join()
        self.trouble(res, s, log)
        for i, file, want in saves:
            try:
                got = qtune.storage.from_hdf5(file, {'experiment': exp})['state']
            except Exception as e:
                res.violations.append(('C16', 'unreadable', 'loading the save of operation %d raised %s: %s (%s)' % (i, type(e).__name__, e, where(e))))
                break
            diff, _ = deep.compare(want, got, [exp])
            if diff:
                res.violations.append(('C16', 'not-the-moment', 'the save requested by operation %d differs from the objects then: %s' % (i, diff)))
                break
        self.hash.update(repr(sc['ops']).encode())

    def trouble(self, res, s, log):
        for name, kind, msg in s.thread_exceptions:
            res.violations.append(('*', 'worker:' + kind, 'the worker ended with %s: %s' % (kind, msg)))

    # -- C19 -------------------------------------------------------------------------------------------------------
    def run_jobs(self, sc, s, res, log):
        import threading
        import time
        ws = [qtune.storage.AsynchronousHDF5Writer(reserved={}, multiprocess=m == 'process') for m in sc['modes']]
        for m in sc['modes']:
            self.hit(res, m + ' mode')
        if len(ws) > 1:
            self.hit(res, 'two writers')
        accepted = [[] for _ in ws]         # dict(tag, file, name, reason, gen)
        gen_no = [0] * len(ws)
        stopped = [False] * len(ws)         # joined and not restarted
        dead = [False] * len(ws)            # known to be dead because of a failed write
        limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        full = [False]
        ever_full = [False] * len(ws)
        counter = [0]
        inf = resource.RLIM_INFINITY

        def bad(kind, msg):
            res.violations.append(('C19', kind, msg))

        def complete(a):
            try:
                got = qtune.storage.from_hdf5(a['file'], {})
            except (OSError, KeyError):
                return False
            x = got.get(a['name'])
            return isinstance(x, SimTag) and x.tag == a['tag'] and len(x.data) == a['size']

        def done(a):
            return a['tag'] in SimTag.written and os.path.exists(a['file'])

        def failed(k):
            """The first save of the generation which was not written although it could have failed."""
            return any(not complete(a) for a in accepted[k] if a['gen'] == gen_no[k])

        def settle(k, what):
            """After a join: everything accepted is written or the worker died for a reason."""
            todo = [a for a in accepted[k] if a['gen'] == gen_no[k]]
            missing = [i for i, a in enumerate(todo) if not complete(a)]
            if missing:
                a = todo[missing[0]]
                if sc['clients'] > 1:
                    # the order of saves of different clients is not known
                    a = next((todo[i] for i in missing if todo[i]['reason'] or todo[i]['full']), a)
                if not a['reason'] and not a['full']:
                    bad('lost', '%s returned, but the accepted save %s was never written (accepted %s, written %s)' % (
                        what, a['tag'], [x['tag'] for x in todo], SimTag.written))
                elif sc['clients'] == 1 and len(missing) != len(todo) - missing[0]:
                    bad('written-after-failure', 'save %s failed but a later one was written' % a['tag'])
                else:
                    self.hit(res, 'failed write')
                    if a['full'] and not a['reason']:
                        self.hit(res, 'disk full')
                    if not any(level == 'ERROR' and exc for level, msg, exc in log):
                        bad('error-hidden', 'the write of %s failed but nothing was logged' % a['tag'])
                    dead[k] = True
            return not missing

        def write(k, op, client):
            counter[0] += 1
            n = counter[0]
            tag = '%d-%d' % (client, n)
            prev = [a for a in accepted[k] if a['client'] == client and not a['reason'] and a['gen'] == gen_no[k]]
            file = os.path.abspath('files/w%d-%d-%03d.hdf5' % (k, client, n))
            if op.get('same') and prev:
                file = prev[-1]['file']
                self.hit(res, 'several objects in one file')
            reason = op.get('bad')
            size = op['size']
            obj = SimTag(tag, np.arange(size, dtype=float) + n, op.get('seconds', 0))
            if op.get('seconds'):
                res.faults['slow write'] = res.faults.get('slow write', 0) + 1
                self.hit(res, 'slow write')
            if reason == 'directory':
                file = os.path.abspath('files/none/x%d.hdf5' % n)
            elif reason == 'object':
                obj = Unstorable()
            elif reason == 'nested object':
                obj = SimTag(tag, [1., Unstorable()])
            expect_refusal = stopped[k] or dead[k]
            try:
                ws[k].write(obj, file_name=file, name='t' + tag)
            except Exception as e:
                if harness_error(e):
                    raise
                if not expect_refusal and not any(a['reason'] or a['full'] for a in accepted[k] if a['gen'] == gen_no[k]):
                    bad('refused', 'write raised %s: %s although the writer was neither joined nor failed before' % (type(e).__name__, e))
                self.hit(res, 'refused')
                return
            if expect_refusal:
                bad('not-refused', 'a save was accepted although the worker was %s' % ('joined' if stopped[k] else 'dead after a failed write'))
                return
            accepted[k].append(dict(tag=tag, file=file, name='t' + tag, reason=reason, size=size, gen=gen_no[k], full=full[0], client=client))

        def check_order(k):
            for g in range(gen_no[k] + 1):
                for c in (0, 1):
                    seq = [a for a in accepted[k] if a['gen'] == g and a['client'] == c]
                    tags = [a['tag'] for a in seq]
                    got = [t for t in SimTag.written if t in tags]
                    if len(set(got)) != len(got):
                        bad('twice', 'saves were written several times: %s' % got)
                    elif got != tags[:len(got)] and not any(a['reason'] for a in seq):
                        bad('order', 'the saves %s were written in the order %s' % (tags, got))
                    ready = [os.path.exists(a['file']) for a in seq if not a['reason']]
                    if False in ready and True in ready[ready.index(False):]:
                        bad('order', 'a later save exists before an earlier one: %s' % list(zip(tags, ready)))

        second = None
        if sc['clients'] > 1:
            self.hit(res, 'two clients')

            def client():
                for n in range(3):
                    write(0, {'size': 5}, 1)
            second = threading.Thread(target=client)
            second.start()
        try:
            for i, op in enumerate(sc['ops']):
                res.steps += 1
                k = op['w'] % len(ws)
                kind = op['op']
                if kind in ('join', 'restart') and second is not None:
                    second.join()
                    second = None
                if kind == 'write':
                    write(k, op, 0)
                elif kind == 'sleep':
                    time.sleep(20000)
                    if failed(k) and not stopped[k]:
                        # idle, hence the worker died
                        settle(k, 'the worker was idle for 1000 s')
                elif kind == 'full':
                    resource.setrlimit(resource.RLIMIT_FSIZE, (op['bytes'], limit[1]))
                    full[0] = True
                    for x, acc in enumerate(accepted):
                        for a in acc:
                            if a['gen'] == gen_no[x] and not done(a):
                                a['full'] = True
                elif kind == 'free':
                    resource.setrlimit(resource.RLIMIT_FSIZE, limit)
                    full[0] = False
                elif kind == 'join':
                    if stopped[k]:
                        self.hit(res, 'joined twice')
                    elif any(not os.path.exists(a['file']) for a in accepted[k] if a['gen'] == gen_no[k]):
                        self.hit(res, 'joined with waiting saves')
                    ws[k].join()
                    settle(k, 'join')
                    stopped[k] = True
                elif kind == 'restart':
                    self.hit(res, 'restarted')
                    ok = dead[k]
                    ws[k].restart()
                    if not settle(k, 'restart') or ok:
                        self.hit(res, 'restarted after a failure')
                    gen_no[k] += 1
                    stopped[k] = dead[k] = False
                check_order(k)
                if res.violations:
                    return
            if second is not None:
                second.join()
            end = sc['end']
            if 'join' in end:
                for k, w in enumerate(ws):
                    w.join()
                    settle(k, 'join')
            if end == 'drop':
                self.hit(res, 'dropped')
                w = None
                refs = [weakref.ref(x) for x in ws]
                while ws:
                    del ws[0]
                gc.collect()
                if not any(r() is not None for r in refs):
                    for k in range(len(sc['modes'])):
                        settle(k, 'deleting the writer')
            if 'exit' in end:
                if end == 'exit':
                    self.hit(res, 'exit without join')
                for e in s.exit_process():
                    bad('exit', 'at interpreter exit %s: %s was raised' % (type(e).__name__, e))
                for k in range(len(sc['modes'])):
                    settle(k, 'the interpreter exit')
            for k in range(len(sc['modes'])):
                check_order(k)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        excused = any(a['reason'] or a['full'] for acc in accepted for a in acc)
        if s.thread_exceptions and not excused:
            bad('worker', 'a worker ended with %s' % (s.thread_exceptions[0],))
        for acc in accepted:
            for a in acc:
                if a['reason']:
                    f = 'unwritable save: ' + a['reason']
                    res.faults[f] = res.faults.get(f, 0) + 1
                if a['full']:
                    res.faults['disk full'] = res.faults.get('disk full', 0) + 1
        res.abstract.add((tuple(sc['modes']), sc['end'], tuple(dead), tuple(stopped), len(accepted[0])))
        self.hash.update(repr([[(a['tag'], complete(a)) for a in acc] for acc in accepted]).encode())
        if ws:
            # nothing may be joined outside of the simulation
            self.keep = None

    def nontrivial(self, sc, res):
        if self.prop == 'C16':
            return bool(res.probes.get('written while the tuning went on') or res.probes.get('changed before written'))
        return res.extra.get('context_switches', 0) > 4

    def shrink(self, sc):
        yield from shrink_sched(self, sc)
        if sc['family'] == 'tuning':
            yield from core_shrink(sc)
            return
        ops = sc['ops']
        for i in range(len(ops)):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
        if sc.get('clients', 1) > 1:
            yield dict(sc, clients=1)
        if sc.get('end') not in (None, 'join'):
            yield dict(sc, end='join')
        for i, op in enumerate(ops):
            if op.get('bad'):
                yield dict(sc, ops=ops[:i] + [{k: v for k, v in op.items() if k != 'bad'}] + ops[i + 1:])

    def info(self, prop):
        if prop == 'C16':
            rule = ('a run is a random tuning (failures, errors, manual changes, restarts, retargetings) which saves after every operation, or '
                    'objects which are saved and then changed in place, with the worker (thread, or process simulated by pickling) interleaved with '
                    'the client at every line of qtune; every save is loaded at the end and compared with a copy of the state when it was requested; '
                    'runs are distinct if interleaving or operations differ; non-trivial if something happened between a request and its write')
        else:
            rule = ('a run is a random sequence of saves, joins, restarts, pauses, failing saves (missing directory, object that cannot be stored, full '
                    'disk by a file size limit of the process) and an end by join, deletion or interpreter exit on one or two writers and one or two clients, interleaved '
                    'at every line of qtune; runs are distinct if interleaving or outcome differs; non-trivial if threads switched more than four times')
        return dict(rule=rule, measure='distinct interleavings (hash of all switches), and (modes, end, worker state)',
                    real=['qtune.storage.AsynchronousHDF5Writer', 'qtune.storage.to_hdf5/from_hdf5', 'qtune.autotuner', 'threading, queue (real sources on simulated locks)', 'h5py', 'file system',
                          'file size limit of the kernel'],
                    stub=['thread scheduler (seeded)', 'multiprocessing (process = task that gets pickled copies through a queue with a feeder thread)',
                          'experiment and evaluators', 'clock', 'interpreter exit (threads joined, atexit callbacks run, daemons ended)'],
                    assumptions=['switches happen between lines of qtune and at locks, queues and joins, not inside of a line or of h5py',
                                 'the simulated process dies with an exception like a real one and shares nothing but the pickled objects',
                                 'sampled, not exhaustive: a clean batch is evidence, no proof'])
