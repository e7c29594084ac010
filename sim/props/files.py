"""C20: one new file per completed iteration, named in the order of time, whatever the clock and the directories do."""
import hashlib
import os
import random
import shutil

import qtune.autotuner

from .. import boot, gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..runner import ddmin
from ..world import snapshot
from .core import shrink as core_shrink
from .writer import gen_sched, run_scheduled, shrink_sched

JUMPS = [1e-6, 0.5, 1, 59, 3600, 7200, 43200, 86400, 3e6, 4e7]


def files(path):
    out = []
    for d, _, names in os.walk(path):
        out += [os.path.join(d, n) for n in names]
    return sorted(out)


class Module:
    SECONDS = dict(quick=28, thorough=1200, shrink=40)
    PROBES = {'C20': ['no path', 'clock set back', 'clock set forward', 'long pause', 'directory removed', 'base directory removed', 'resumed', 'earlier file loaded',
                      'iteration failed', 'two tunings', 'time in the path', 'relative path', 'saved after a removal', 'saved in a sub directory', 'next year']}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C20-%d' % seed)
        two = rng.random() < 0.25
        cfgs, opss = [], []
        for _ in range(2 if two else 1):
            o = dict(easy=rng.random() < 0.5, sensing=0.3, groups=rng.choice([1, 1, 2]), ngates=[1, 2], noise=0.3,
                     n=rng.choice([3, 8, 15, 25]), p=dict(exc=0.4, nan=0.4, manual=0.4, retarget=0.4, resume=0.5, old=0.4))
            cfg = gen.gen_cfg(rng, o)
            cfgs.append(cfg)
            opss.append(gen.gen_ops(rng, cfg, o))
        ops = []
        rate = rng.choice([0.1, 0.3, 0.6])
        while any(opss):
            w = rng.choice([k for k, o in enumerate(opss) if o])
            ops.append(dict(opss[w].pop(0), w=w))
            while rng.random() < rate:
                kind = rng.choice(['jump', 'jump', 'jump', 'advance', 'advance', 'drain', 'rmdir', 'rmbase', 'load'])
                op = {'op': kind, 'w': w}
                if kind == 'jump':
                    op['s'] = rng.choice(JUMPS) * rng.choice([1, -1, -1])
                elif kind == 'advance':
                    op['s'] = rng.choice([rng.choice(JUMPS), gen.r3(10 ** rng.uniform(-6, 7.6)), gen.r3(10 ** rng.uniform(5, 7.6))])
                elif kind == 'load':
                    op['k'] = rng.choice([-1, -1, -2, 0])
                ops.append(op)
        return dict(cfgs=cfgs, ops=ops, path=[rng.choice(['abs', 'abs', 'rel', 'none']) for _ in cfgs],
                    append=[rng.random() < 0.5 for _ in cfgs], tick=rng.choice([2000, 2000, 30000, 1000000]), lines=rng.random() < 0.3, sched=gen_sched(rng))

    def execute(self, sc):
        res = Result()
        res.extra = {}
        self.hash = hashlib.blake2b(digest_size=8)
        base = os.path.abspath('tunings')
        shutil.rmtree(base, ignore_errors=True)
        boot.log_capture(True)
        try:
            s = run_scheduled(sc, res, lambda s: self.run(sc, s, res, base), 'C20', max_points=3000000)
        finally:
            boot.log_capture(False)
            shutil.rmtree(base, ignore_errors=True)
        self.hash.update(repr((s.sig, res.key())).encode())
        res.digest = self.hash.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def hit(self, res, p):
        res.probes[p] = res.probes.get(p, 0) + 1

    def run(self, sc, s, res, base):
        import time
        CLOCK.tick_ns = sc['tick']
        outside = files('.')
        ds = []
        for k, cfg in enumerate(sc['cfgs']):
            kind = sc['path'][k]
            path = {'abs': base, 'rel': 'tunings', 'none': None}[kind]
            ds.append(Driver(cfg, shadow=False, path=path, append=sc['append'][k]))
            self.hit(res, {'abs': 'absolute path', 'rel': 'relative path', 'none': 'no path'}[kind])
            if sc['append'][k] and path:
                self.hit(res, 'time in the path')
        if len(ds) == 2:
            self.hit(res, 'two tunings')
        saves = []                 # (path, tuning, operation) in the order of the requests
        gone = set()
        loadable = [[] for _ in ds]
        writers = []
        removed = False

        def bad(kind, msg):
            res.violations.append(('C20', kind, msg))

        def drain():
            for w in writers:
                for _ in range(100000):
                    if not peek.busy(w):
                        break
                    time.sleep(0.01)
            time.sleep(1000)
        for i, op in enumerate(sc['ops']):
            kind = op['op']
            d = ds[op['w']]
            if kind == 'jump':
                CLOCK.jump_wall(op['s'])
                self.hit(res, 'clock set back' if op['s'] < 0 else 'clock set forward')
                res.faults['clock jump'] = res.faults.get('clock jump', 0) + 1
            elif kind == 'advance':
                CLOCK.advance(op['s'])
                if op['s'] >= 43200:
                    self.hit(res, 'long pause')
                if op['s'] >= 4e7:
                    self.hit(res, 'next year')
            elif kind == 'drain':
                drain()
            elif kind in ('rmdir', 'rmbase'):
                # a file which is just being written fails when its directory vanishes: not the subject here
                drain()
                if not saves:
                    continue
                target = base if kind == 'rmbase' else os.path.dirname(os.path.abspath(saves[-1][0]))
                if not os.path.abspath(target).startswith(base):
                    continue
                shutil.rmtree(os.path.abspath(target), ignore_errors=True)
                gone |= {p for p, _, _ in saves if os.path.abspath(p).startswith(os.path.abspath(target) + os.sep)}
                self.hit(res, 'directory removed' if kind == 'rmdir' else 'base directory removed')
                res.faults['directory removed'] = res.faults.get('directory removed', 0) + 1
                removed = True
            elif kind == 'load':
                cands = [p for p in loadable[op['w']] if p not in gone]
                if not cands or d.dead:
                    continue
                drain()
                p = cands[op['k'] % len(cands)]
                d.exp.arm()
                try:
                    d.at = qtune.autotuner.load_auto_tuner(p, {'experiment': d.exp})
                    d.at.restart()
                except Exception as e:
                    if harness_error(e):
                        raise
                    bad('unreadable', 'operation %d: loading the save of an iteration raised %s: %s (%s)' % (i, type(e).__name__, e, where(e)))
                    d.dead = True
                    continue
                d.snap = snapshot(d.at, d.cache)
                self.hit(res, 'resumed')
                if op['k'] != -1:
                    self.hit(res, 'earlier file loaded')
                res.faults['resume'] = res.faults.get('resume', 0) + 1
            else:
                if d.dead:
                    continue
                n = d.iterations
                last = d.at.last_save_file
                reloaded = kind in ('resume', 'resume_old')
                d.step(i, {k: v for k, v in op.items() if k != 'w'})
                if d.dead:
                    continue
                if kind == 'iterate' and d.iterations == n:
                    self.hit(res, 'iteration failed')
                if reloaded:
                    self.hit(res, 'resumed')
                now = d.at.last_save_file
                if d.iterations > n and sc['path'][op['w']] != 'none':
                    w = peek.writer(d.at)
                    if w is not None and w not in writers:
                        writers.append(w)
                    if now is None:
                        bad('record', 'operation %d: the last save is not recorded after an iteration' % i)
                        break
                    if now in {p for p, _, _ in saves}:
                        bad('reused', 'operation %d: the name %s was used before' % (i, os.path.basename(now)))
                        break
                    if saves and not os.path.basename(now) > os.path.basename(saves[-1][0]):
                        bad('order', 'operation %d: %s does not sort behind %s, which was saved before' % (i, os.path.basename(now), os.path.basename(saves[-1][0])))
                        break
                    saves.append((now, op['w'], i))
                    loadable[op['w']].append(now)
                    if removed:
                        self.hit(res, 'saved after a removal')
                    if os.path.dirname(now) != os.path.dirname(saves[0][0]):
                        self.hit(res, 'saved in a sub directory')
                elif not reloaded and now != last:
                    bad('record', 'operation %d (%s) changed the record of the last save without an iteration: %s to %s' % (i, kind, last, now))
                    break
            res.steps += 1
        for d in ds:
            res.violations += d.res.violations
            for k, v in d.res.faults.items():
                res.faults[k] = res.faults.get(k, 0) + v
            res.abstract |= d.res.abstract
        for w in writers:
            w.join()
        for name, kind, msg in s.thread_exceptions:
            res.violations.append(('*', 'worker:' + kind, 'the worker ended with %s: %s' % (kind, msg)))
        t0 = os.path.abspath('.')
        found = set(os.path.abspath(p) for p in files('.'))
        found -= set(os.path.abspath(p) for p in outside)
        want = {os.path.abspath(p): (w, i) for p, w, i in saves if p not in gone}
        if not res.violations:
            for p in sorted(set(want) - found):
                bad('missing', 'the iteration of operation %d was not saved in %s' % (want[p][1], os.path.relpath(p, t0)))
                break
            for p in sorted(found - set(want)):
                bad('extra', 'the file %s was not announced by any iteration' % os.path.relpath(p, t0))
                break
        if not res.violations:
            some = sorted(want)[:2] + sorted(want)[2:][-3:]
            for p in some:
                w, i = want[p]
                try:
                    at = qtune.autotuner.load_auto_tuner(p, {'experiment': ds[w].exp})
                except Exception as e:
                    bad('unreadable', 'the save of operation %d cannot be loaded: %s: %s (%s)' % (i, type(e).__name__, e, where(e)))
                    break
                if at.last_save_file is None or os.path.abspath(at.last_save_file) != p:
                    bad('record', 'the save of operation %d records %s as the last save' % (i, at.last_save_file))
                    break
        res.extra['files'] = len(saves)
        self.hash.update(repr([(os.path.relpath(os.path.abspath(p), t0), w, i) for p, w, i in saves]).encode())
        self.hash.update(repr([d.finish().digest for d in ds]).encode())

    def nontrivial(self, sc, res):
        return bool(res.faults) and (res.extra.get('files', 0) > 0 or bool(res.probes.get('no path')))

    def shrink(self, sc):
        ops = sc['ops']
        yield from ddmin(ops, lambda o: dict(sc, ops=o))
        if len(sc['cfgs']) == 2:
            for k in (0, 1):
                yield dict(sc, cfgs=[sc['cfgs'][k]], path=[sc['path'][k]], append=[sc['append'][k]], ops=[dict(o, w=0) for o in ops if o['w'] == k])
        for i, op in enumerate(ops):
            for key in ('faults', 'nans'):
                if op.get(key):
                    yield dict(sc, ops=ops[:i] + [{k: v for k, v in op.items() if k != key}] + ops[i + 1:])
        if len(sc['cfgs']) == 1:
            for c in core_shrink(dict(cfg=sc['cfgs'][0], ops=[])):
                if len(c['cfg']['groups']) == len(sc['cfgs'][0]['groups']):
                    yield dict(sc, cfgs=[c['cfg']])
        if sc['tick'] != 2000:
            yield dict(sc, tick=2000)
        yield from shrink_sched(self, sc)

    def info(self, prop):
        return dict(
            rule='a run is one or two random tunings with storage path (absolute, relative, with and without time stamp) or without, '
                 'with failing iterations, manual changes, retargeting, resumes, loads of earlier files, jumps of the wall clock, long '
                 'pauses and removed directories, and the real writer under a seeded scheduler; runs are distinct if names, trace or '
                 'interleaving differ; non-trivial if a fault was injected',
            measure='(operation, group, status, pending, complete, exception, failed groups) and interleaving signatures',
            real=['qtune.autotuner', 'qtune.storage (writer thread, files)', 'qtune.util (time stamps)', 'qtune.parameter_tuner', 'qtune.solver',
                  'qtune.gradient', 'h5py, real files'],
            stub=['clock (virtual, monotonic and wall)', 'thread scheduler', 'experiment and evaluators (simulated)'],
            assumptions=['one process: a later process whose clock is set back is not covered',
                         'directories vanish only while no save is pending (a failed write is the subject of C19)',
                         'sampled, not exhaustive'])
