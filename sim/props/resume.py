"""C17: a tuning which is reloaded from its own files at random iterations against its twin which is never interrupted."""
import os
import random
import shutil

import h5py

import qtune.autotuner
import qtune.storage

from .. import deep, gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, load, store, where
from ..sched import Scheduler
from ..shadow import diff_snapshots
from ..world import INSTRUMENT, snapshot
from . import evals
from .core import shrink as core_shrink
from .twin import effects


def plain(x):
    """Without the order of dictionaries and the kinds of numbers, which a reload may change."""
    if isinstance(x, dict):
        return sorted((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, str):
        return x
    return float(x)


class Module:
    SECONDS = dict(quick=32, thorough=1200, shrink=40)
    PROBES = {'C17': ['resumed', 'resumed with pending voltages', 'resumed complete', 'resumed during a walk', 'resumed after a failed measurement',
                      'resumed during finite differences', 'evaluator reloaded', 'shared estimator', 'completed', 'old file']}

    def __init__(self, prop):
        self.prop = prop
        self.evals = evals.Module('C24')

    def generate(self, seed):
        rng = random.Random('C17-%d' % seed)
        if rng.random() < 0.3:
            sc = self.evals.generate(seed)
            for op in sc['ops']:
                op.pop('faults', None)
            sc['family'] = 'evaluator'
            return sc
        o = dict(easy=rng.random() < 0.4, sensing=0.35, nofloor=True, sharesrc=0.3,
                 p=dict(exc=0.3, nan=0.5, manual=0.4, retarget=0.4, resume=0, old=0))
        if rng.random() < 0.35:
            o['kinds'] = ['fd', 'fds', 'self', 'selfs']
        cfg = gen.gen_cfg(rng, o)
        cfg['reuse'] = rng.random() < 0.3
        if rng.random() < 0.4:
            cfg['raw'] = dict(n=rng.choice([4, 50, 300, 1000, 5000, 40000]), dtype=rng.choice(['float64', 'float64', 'float32', 'int32', 'int64', 'complex128', 'bool']),
                              order=rng.choice(['1d', '1d', '2d', 'F', 'T', 'strided', 'empty', '0d']))
        o['n'] = rng.choice([6, 12, 12, 25])
        ops = gen.gen_ops(rng, cfg, o)
        rate = rng.choice([0.15, 0.3, 0.7])
        for op in ops:
            if op['op'] == 'iterate' and rng.random() < rate:
                op['resume'] = True
        return {'cfg': cfg, 'ops': ops, 'family': 'tuning', 'how': rng.choice(['file', 'file', 'copy']), 'first': rng.randrange(3)}

    def execute(self, sc):
        if sc['family'] == 'evaluator':
            return self.execute_evaluator(sc)
        s = Scheduler(policy={'kind': 'coop'}, lines=False, max_points=10 ** 7)
        d = os.path.abspath('tuning')
        shutil.rmtree(d, ignore_errors=True)
        try:
            return s.run(lambda: self.execute_tuning(sc, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def execute_tuning(self, sc, path):
        a = Driver(sc['cfg'], shadow=False)
        b = Driver(sc['cfg'], shadow=False, path=path)
        probes = {}
        states = {}                  # file -> snapshot
        old = []

        def hit(p):
            probes[p] = probes.get(p, 0) + 1

        def bad(kind, msg):
            b.bad('C17', kind, 'operation %d (%s): %s' % (i, op['op'], msg))
        i, op = -1, {'op': 'start'}
        for i, op in enumerate(sc['ops']):
            plain = {k: v for k, v in op.items() if k != 'resume'}
            a.step(i, plain)
            n = b.iterations
            b.step(i, plain)
            if a.dead or b.dead:
                break
            ea, eb = effects(a.exp.log), effects(b.exp.log)
            if ea != eb:
                bad('effects', 'the resumed tuning did %s, the other one %s' % (eb, ea))
            d = diff_snapshots(a.snap, b.snap)
            if d:
                bad('state', 'the state of the resumed tuning (second) differs: %s' % d)
            if a.exp.v != b.exp.v:
                bad('voltages', 'the voltages are %s instead of %s' % (b.exp.v, a.exp.v))
            if b.res.violations:
                break
            if b.iterations == n:
                continue
            file = b.at.last_save_file
            states[file] = b.snap
            if not op.get('resume'):
                continue
            try:
                b.at.asynchrone_writer.join()
                if sc['how'] == 'copy':
                    shutil.copy(file, file + '.copy')
                    file += '.copy'
                new = qtune.autotuner.load_auto_tuner(file, {'experiment': b.exp})
            except Exception as e:
                bad('exception:' + type(e).__name__, 'loading raised %s: %s (%s)' % (type(e).__name__, e, where(e)))
                break
            hit('resumed')
            b.res.faults['resume'] = b.res.faults.get('resume', 0) + 1
            if b.snap['pending'] is not None:
                hit('resumed with pending voltages')
            if b.snap['complete']:
                hit('resumed complete')
            if any(g['failed'] for g in b.snap['groups']):
                hit('resumed after a failed measurement')
            p, n = deep.compare(b.at, new, [b.exp])
            if p:
                bad('reloaded', p)
            d = diff_snapshots(b.snap, snapshot(new))
            if d:
                bad('reloaded', 'the reloaded state (second) differs: %s' % d)
            if any(t.to_hdf5().get('number_queued_steps') for t in new.tuning_hierarchy):
                hit('resumed during a walk')
            if any('share' in e for g in sc['cfg']['groups'] for e in g.get('est', {}).values()):
                hit('shared estimator')
            if any(e['est'] is None for g in b.snap['groups'] for e in g['est']):
                hit('resumed during finite differences')
            old.append(b.at)
            b.at = new
            b.snap = snapshot(b.at, b.cache)
            if b.res.violations:
                break
        if a.snap['complete']:
            hit('completed')
        if not b.dead and not b.res.violations:
            # every file still yields the state of its moment, to a fresh process with another experiment as well
            for t in old + [b.at]:
                if peek.writer(t) is not None:
                    peek.writer(t).join()
            for file, snap in sorted(states.items())[sc.get('first', 0)::max(1, len(states) // 3)]:
                hit('old file')
                try:
                    got = snapshot(qtune.autotuner.load_auto_tuner(file, {'experiment': b.exp}))
                except Exception as e:
                    bad('exception:' + type(e).__name__, 'loading %s raised %s: %s (%s)' % (
                        os.path.basename(file), type(e).__name__, e, where(e)))
                    break
                d = diff_snapshots(snap, got)
                if d:
                    bad('file', 'the file saved by an iteration differs from the state then: %s' % d)
                    break
        for t in old + [b.at]:
            w = peek.writer(t)
            if w is not None:
                w.join()
        res = b.finish()
        res.violations += [v for v in a.res.violations if v not in res.violations]
        res.probes = probes
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    # -- evaluators --------------------------------------------------------------------------------------------------
    def execute_evaluator(self, sc):
        res = Result()
        import hashlib
        h = hashlib.blake2b(digest_size=8)
        xa, xb = evals.ScanExperiment(sc['cfg']), evals.ScanExperiment(sc['cfg'])
        a, b = evals.make(sc, xa), evals.make(sc, xb)

        def bad(kind, msg):
            res.violations.append(('C17', kind, 'operation %d (%s): %s' % (i, sc['evaluator'], msg)))
        for i, op in enumerate(sc['ops']):
            res.steps += 1
            if op['op'] == 'move':
                for x in (xa, xb):
                    for g, y in op['dv'].items():
                        x.v[g] = x._quantise(x.v[g] + y)
                continue
            if op['op'] == 'reload' or i % 2:
                try:
                    new = load(store(b, xb), xb)
                except Exception as e:
                    bad('exception:' + type(e).__name__, 'reload raised %s: %s (%s)' % (type(e).__name__, e, where(e)))
                    break
                p, n = deep.compare(b, new, [xb])
                if p:
                    bad('reloaded', p)
                b = new
                res.faults['resume'] = res.faults.get('resume', 0) + 1
                res.probes['evaluator reloaded'] = res.probes.get('evaluator reloaded', 0) + 1
            if op['op'] == 'reload':
                continue
            out = []
            for x, e in ((xa, a), (xb, b)):
                x.arm(kinds=op.get('kinds'))
                x.used = []
                try:
                    r = e.evaluate()
                    out.append((sorted((k, repr(float(v))) for k, v in r[0].items()), sorted((k, repr(float(v))) for k, v in r[1].items())))
                except Exception as ex:
                    if harness_error(ex):
                        raise
                    out.append((type(ex).__name__, str(ex)))
                out.append(repr([plain(e) for e in x.log]))
            if out[:2] != out[2:]:
                bad('evaluation', 'the reloaded evaluator yields %s, the other one %s' % (out[2:], out[:2]))
            h.update(repr(out[:2]).encode())
            res.abstract.add((sc['evaluator'], tuple(sc['average']), tuple(xa.used[:2])))
            if res.violations:
                break
        res.digest = h.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def nontrivial(self, sc, res):
        return bool(res.probes.get('resumed') or res.probes.get('evaluator reloaded'))

    def shrink(self, sc):
        if sc['family'] == 'evaluator':
            yield from self.evals.shrink(sc)
            return
        yield from core_shrink(sc)
        ops = sc['ops']
        for i, op in enumerate(ops):
            if op.get('resume'):
                yield dict(sc, ops=ops[:i] + [{k: v for k, v in op.items() if k != 'resume'}] + ops[i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a random tuning (measurement failures, instrument errors, manual changes, retargetings) executed twice in '
                 'lockstep: once without interruption and once reloaded from the file of its last iteration after random iterations '
                 '(after every one in a third of the runs); state, voltages, settings and measurements have to be identical after '
                 'every operation, reloaded objects have to agree in type, values and sharing, and all files are loaded once more at the end; '
                 'or an evaluator of qtune which is reloaded between its evaluations against one which is not. Runs are distinct if '
                 'the trace of operations, states and voltages differs; non-trivial if at least one reload happened',
            measure='(operation, group, status, pending, complete, exception, failed groups)',
            real=['qtune.autotuner incl. save_current_status and load_auto_tuner', 'qtune.storage incl. the background writer', 'qtune.parameter_tuner',
                  'qtune.solver', 'qtune.gradient', 'qtune.kalman_gradient', 'qtune.evaluator', 'filterpy', 'h5py', 'file system'],
            stub=['experiment (simulated instruments with faults)', 'evaluators of the tunings (return simulated parameters)', 'clock',
                  'thread scheduling (cooperative here; C16 and C19 vary it)'],
            assumptions=['the simulated device is deterministic', 'the tuning is resumed from the file of its last completed iteration with '
                         'the instruments left as they were', 'sampled, not exhaustive: a clean batch is evidence, no proof'])
