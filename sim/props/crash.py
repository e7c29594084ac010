"""C18: the real storage code on a file system whose every change is recorded; the files are loaded as they were at every instant at
which the process could have died, and again after changes that failed."""
import copy
import ctypes
import errno
import hashlib
import os
import random
import shutil
import struct

import h5py
import numpy as np

import qtune.autotuner
import qtune.history
import qtune.storage

from .. import boot, deep, gen, peek
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, where
from ..sched import Scheduler
from ..shadow import diff_snapshots
from ..world import SimExperiment, snapshot
from .core import shrink as core_shrink
from .writer import Module as Writer, Unstorable

ERRORS = {'no space': errno.ENOSPC, 'i/o error': errno.EIO, 'quota': errno.EDQUOT, 'read only': errno.EROFS}


class Shim:
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.shim_present()
        except AttributeError:
            raise RuntimeError('the recording library is not loaded; start with check.py')
        self.lib.shim_log.restype = ctypes.c_void_p
        self.lib.shim_log_size.restype = ctypes.c_long
        self.lib.shim_count.restype = ctypes.c_long
        self.lib.shim_failed.restype = ctypes.c_long

    def arm(self, path, at=-1, err=0, sticky=0, short=0):
        self.lib.shim_arm(os.path.join(path, '').encode(), ctypes.c_long(at), err, sticky, short)

    def disarm(self):
        self.lib.shim_disarm()

    def mark(self, k):
        self.lib.shim_mark(ctypes.c_long(k))

    def count(self):
        return self.lib.shim_count()

    def failed(self):
        return self.lib.shim_failed()

    def log(self):
        data = ctypes.string_at(self.lib.shim_log(), self.lib.shim_log_size())
        out = []
        o = 0
        while o < len(data):
            op, a, b, n1, n2 = struct.unpack_from('<5q', data, o)
            o += 40
            out.append((chr(op), a, b, data[o:o + n1], data[o + n1:o + n1 + n2]))
            o += n1 + n2
        return out


class Disk:
    """The files as the recorded changes leave them."""

    def __init__(self):
        self.files = {}             # path -> [bytearray]
        self.fds = {}

    def apply(self, e, part=None):
        """Performs one change, of a write only the first bytes if part is given; returns the paths which changed."""
        op, a, b, d1, d2 = e
        if op == 'O':
            path = d1.decode()
            new = path not in self.files
            if new and not b & os.O_CREAT:
                return []
            f = self.files.setdefault(path, [bytearray()])
            self.fds[a] = f
            if b & os.O_TRUNC:
                f[0] = bytearray()
            return [path] if new or b & os.O_TRUNC else []
        if op in 'WT':
            f = self.fds[a]
            if op == 'W':
                data = d1 if part is None else d1[:part]
                if len(f[0]) < b:
                    f[0].extend(bytes(b - len(f[0])))
                f[0][b:b + len(data)] = data
            else:
                if len(f[0]) > b:
                    del f[0][b:]
                else:
                    f[0].extend(bytes(b - len(f[0])))
            return [p for p, x in self.files.items() if x is f]
        if op == 'C':
            self.fds.pop(a, None)
        elif op == 'R':
            x = self.files.pop(d1.decode(), None)
            if x is not None:
                self.files[d2.decode()] = x
            return [d1.decode(), d2.decode()]
        elif op == 'L':
            self.files[d2.decode()] = self.files[d1.decode()]
            return [d2.decode()]
        elif op == 'U':
            self.files.pop(d1.decode(), None)
            return [d1.decode()]
        return []


class Plan:
    """What was to be saved: per file the objects in the order of their saves."""

    def __init__(self):
        self.files = {}             # file -> list of dict(name, want, done, raised, k)
        self.all = []

    def add(self, file, name, want, bad=False):
        s = dict(file=file, name=name, want=want, done=False, raised=None, k=len(self.all), bad=bad)
        self.files.setdefault(file, []).append(s)
        self.all.append(s)
        return s


class Module:
    SECONDS = dict(quick=32, thorough=1200, shrink=40)
    PROBES = {'C18': ['died while a new file was written', 'died while an object was added to a file', 'torn write', 'rejected', 'complete although interrupted',
                      'tuning', 'objects', 'history of a crashed directory', 'failed save', 'repeated after a failure', 'object that cannot be stored',
                      'saved although a change failed', 'background writer']}

    def __init__(self, prop):
        self.prop = prop
        self.objects = Writer('C16')
        self.shim = None

    # -- generation ------------------------------------------------------------------------------------------------
    def generate(self, seed):
        rng = random.Random('C18-%d' % seed)
        sc = dict(cuts=rng.randrange(1 << 30), errors=[])
        for _ in range(rng.choice([0, 1, 2, 3])):
            sc['errors'].append(dict(at=round(rng.random(), 4), error=rng.choice(sorted(ERRORS)), sticky=rng.random() < 0.5, short=rng.random() < 0.4))
        if rng.random() < 0.45:
            o = dict(easy=rng.random() < 0.4, sensing=0.3, groups=rng.choice([1, 1, 2]), ngates=[1, 2], noise=0.3,
                     p=dict(exc=0.2, nan=0.4, manual=0.3, retarget=0.3, resume=0, old=0))
            cfg = gen.gen_cfg(rng, o)
            o['n'] = rng.choice([2, 4, 7])
            sc.update(family='tuning', cfg=cfg, ops=gen.gen_ops(rng, cfg, o), history=rng.random() < 0.5)
            return sc
        ops = []
        nfiles = rng.randint(1, 3)
        for k in range(rng.randint(1, 6)):
            op = {'op': 'save', 'file': rng.randrange(nfiles), 'parts': sorted(rng.sample((0, 1, 2, 3, 4, 5, 7), rng.randint(1, 5)))}
            if rng.random() < 0.12:
                op['bad'] = rng.choice(['object', 'nested object'])
            if rng.random() < 0.1:
                op['big'] = rng.choice([3000, 40000])
            ops.append(op)
            for _ in range(rng.randint(0, 2)):
                ops.append({'op': 'mutate', 'part': rng.choice((0, 1, 2, 3, 4, 5, 7)), 'x': rng.randrange(1000)})
        sc.update(family='objects', how=rng.choice(['direct', 'direct', 'writer']), ops=ops)
        return sc

    # -- the program -----------------------------------------------------------------------------------------------
    def program(self, sc, path, shim, plan, res, probes):
        """Runs the tuning or saves the objects below path; the saves are noted in plan and marked in the log."""
        orig = qtune.storage.to_hdf5

        def to_hdf5(filename_or_handle, name, obj, reserved=None):
            if not isinstance(filename_or_handle, str):
                return orig(filename_or_handle, name, obj, reserved=reserved)
            todo = [s for s in plan.files.get(filename_or_handle, []) if s['name'] == name]
            for s in todo:
                shim.mark(2 * s['k'])
            try:
                orig(filename_or_handle, name, obj, reserved=reserved)
            except BaseException as e:
                for s in todo:
                    s['raised'] = e
                raise
            for s in todo:
                s['done'] = True
                shim.mark(2 * s['k'] + 1)
        writer = qtune.storage.AsynchronousHDF5Writer
        orig_write = writer.write

        def write(self, obj, file_name, name=None):
            # the file is known and its content fixed when the write is requested
            if sc['family'] == 'tuning':
                plan.add(file_name, name, None)
            return orig_write(self, obj, file_name, name)
        qtune.storage.to_hdf5 = to_hdf5
        writer.write = write
        try:
            s = Scheduler(policy={'kind': 'coop'}, lines=False, max_points=10 ** 7)
            return s.run(lambda: getattr(self, 'program_' + sc['family'])(sc, path, plan, res, to_hdf5, probes))
        finally:
            qtune.storage.to_hdf5 = orig
            writer.write = orig_write

    def program_tuning(self, sc, path, plan, res, to_hdf5, probes):
        d = Driver(sc['cfg'], shadow=False, path=path)
        self.exp = d.exp
        probes.add('tuning')
        for i, op in enumerate(sc['ops']):
            n = d.iterations
            d.step(i, op)
            if d.iterations > n and plan.all:
                plan.all[-1]['want'] = d.snap
            if d.dead:
                break
        w = peek.writer(d.at)
        if w is not None:
            w.join()
        if res is not None:
            res.steps += d.res.steps
            res.faults.update(d.res.faults)
            res.violations += [v for v in d.res.violations if v[0] == '*']
            res.digest = d.hash.hexdigest()
            res.abstract |= d.res.abstract

    def program_objects(self, sc, path, plan, res, to_hdf5, probes):
        exp = SimExperiment(dict(gates=['g'], v0={'g': 0.}))
        self.exp = exp
        parts = self.objects.parts(exp)
        w = None
        probes.add('objects')
        if sc['how'] == 'writer':
            w = qtune.storage.AsynchronousHDF5Writer(reserved={}, multiprocess=False)
            probes.add('background writer')
        for i, op in enumerate(sc['ops']):
            if res is not None:
                res.steps += 1
            if op['op'] == 'mutate':
                self.objects.mutate(parts, op['part'], op['x'])
                continue
            obj = {'p%d' % k: parts[k] for k in op['parts']}
            if op.get('big'):
                obj['big'] = np.arange(op['big'] + 0.) + i
            if op.get('bad'):
                probes.add('object that cannot be stored')
                obj['z'] = Unstorable() if op['bad'] == 'object' else [{'z': Unstorable()}]
            file = os.path.join(path, 'file%d.hdf5' % op['file'])
            name = 'state%d' % i
            s = plan.add(file, name, None if op.get('bad') else copy.deepcopy(obj), bad=bool(op.get('bad')))
            if w is None:
                try:
                    to_hdf5(file, name, obj)
                except Exception as e:
                    s['raised'] = e
            else:
                try:
                    w.write(obj, file_name=file, name=name)
                except Exception as e:
                    s['raised'] = e
                    continue
                if i % 2:
                    import time
                    for _ in range(100000):
                        if s['done'] or s['raised'] or not peek.alive(w):
                            break
                        time.sleep(1)
        if w is not None:
            w.join()

    # -- loading ---------------------------------------------------------------------------------------------------
    def outcome(self, sc, plan, file, data):
        """How the saves to this file load from these bytes: {name: None if exact, else the difference}, error."""
        img = os.path.abspath('image.hdf5')
        with open(img, 'wb') as f:
            f.write(data)
        try:
            valid = True
            try:
                with h5py.File(img, 'r') as h:
                    list(h)
            except Exception:
                valid = False
            out = {}
            try:
                if sc['family'] == 'tuning':
                    got = {'autotuner': qtune.autotuner.load_auto_tuner(img, {'experiment': self.exp})}
                else:
                    got = qtune.storage.from_hdf5(img, {})
            except Exception as e:
                return out, '%s: %s' % (type(e).__name__, str(e)[:200])
            if not valid:
                out['#'] = 'it is no valid file but was loaded as %r' % (got,)
            for s in plan.files[file]:
                if not isinstance(got, dict) or s['name'] not in got:
                    continue
                x = got[s['name']]
                if s['bad']:
                    out[s['name']] = 'the object could not be stored but %r was loaded' % (x,)
                    continue
                if sc['family'] == 'tuning':
                    try:
                        diff = diff_snapshots(s['want'], snapshot(x)) if s['want'] is not None else 'a save of an iteration which failed'
                    except Exception as e:
                        diff = 'the loaded state is unusable: %s: %s' % (type(e).__name__, e)
                else:
                    diff, _ = deep.compare(s['want'], x, [self.exp])
                out[s['name']] = diff
            return out, None
        finally:
            os.unlink(img)

    # -- execution -------------------------------------------------------------------------------------------------
    def execute(self, sc):
        from ..runner import forked
        res = Result()
        res.extra = dict(crash_points=0, images_loaded=0, recorded_changes=0, failing_runs=0)
        probes = set()
        if self.shim is None:
            self.shim = Shim()
        path = os.path.abspath('disk')
        shutil.rmtree(path, ignore_errors=True)
        os.mkdir(path)
        boot.log_capture(True)
        plan = Plan()
        h = hashlib.blake2b(digest_size=8)
        try:
            self.shim.arm(path)
            self.program(sc, path, self.shim, plan, res, probes)
            self.shim.disarm()
            log = self.shim.log()
            total = self.shim.count()
            disk = Disk()
            for e in log:
                disk.apply(e)
            real = {}
            for d, _, names in os.walk(path):
                for n in names:
                    with open(os.path.join(d, n), 'rb') as f:
                        real[os.path.join(d, n)] = f.read()
            if {k: bytes(v[0]) for k, v in disk.files.items()} != real:
                raise RuntimeError('the recorded changes do not yield the files: %s, %s' % (
                    sorted((k, len(v[0])) for k, v in disk.files.items()), sorted((k, len(v)) for k, v in real.items())))
            h.update(repr([(e[0], e[2] if e[0] == 'W' else 0, len(e[3])) for e in log if e[0] != 'M']).encode())
            if not res.violations:
                self.crashes(sc, path, plan, log, res, probes)
        finally:
            self.shim.disarm()
            boot.log_capture(False)
            shutil.rmtree(path, ignore_errors=True)
        for err in sc['errors']:
            if res.violations or not total:
                break
            at = min(int(err['at'] * total), total - 1)
            out = forked(lambda: self.failing(sc, at, err), 60)
            res.extra['failing_runs'] += 1
            if out is None:
                res.violations.append(('C18', 'died', 'the interpreter died because change %d of %d failed (%s)' % (at, total, err['error'])))
            elif out == 'hang':
                res.violations.append(('C18', 'hang', 'no end after change %d of %d failed (%s)' % (at, total, err['error'])))
            else:
                if out['failed']:
                    f = err['error'] + (', short write' if err['short'] else '') + (', lasting' if err['sticky'] else '')
                    res.faults[f] = res.faults.get(f, 0) + 1
                probes |= out['probes']
                res.violations += out['violations']
                h.update(repr(out['outcome']).encode())
        res.probes = {p: 1 for p in probes}
        h.update(repr((res.digest, res.key())).encode())
        res.digest = h.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        res.completed = True
        return res

    def expected(self, plan, path):
        """The file of the plan to which this path belongs."""
        if path in plan.files:
            return path
        best = [f for f in plan.files if os.path.basename(path).startswith(os.path.basename(f)[:-5])]
        return best[0] if best else sorted(plan.files)[0]

    def crashes(self, sc, path, plan, log, res, probes):
        rng = random.Random(sc['cuts'])
        disk = Disk()
        completed = set()
        begun = None
        memo = {}
        kinds = {}

        def bad(kind, msg):
            res.violations.append(('C18', kind, msg))

        def look(p, data, what):
            file = self.expected(plan, p)
            key = (file, hashlib.blake2b(data, digest_size=12).digest())
            if key not in memo:
                res.extra['images_loaded'] += 1
                memo[key] = self.outcome(sc, plan, file, data)
            out, err = memo[key]
            done = [s for s in plan.files[file] if s['k'] in completed] if p == file else []
            rel = os.path.relpath(p, path)
            if done and err:
                return bad('damaged', 'the process dies %s: %s with %s, which had been saved, cannot be loaded: %s' % (
                    what, rel, [s['name'] for s in done], err))
            if err:
                probes.add('rejected')
            for s in done:
                if s['name'] not in out:
                    return bad('damaged', 'the process dies %s: %s does not contain %s any more, which had been saved' % (what, rel, s['name']))
            for name, diff in out.items():
                if diff:
                    return bad('damaged' if name in [s['name'] for s in done] else 'partial',
                               'the process dies %s: %s is loaded from %s but differs from the saved state: %s' % (what, name, rel, diff))
                if name not in [s['name'] for s in done] and p == file:
                    probes.add('complete although interrupted')

        points = [i for i, e in enumerate(log) if e[0] not in 'MC']
        hist = set(rng.sample(points, min(2, len(points)))) if sc.get('history') else set()
        # of very many changes only some can be looked at
        limit = 250
        looked = set(points if len(points) <= limit else rng.sample(points, limit))
        dirty = set()
        for i, e in enumerate(log):
            if e[0] == 'M':
                k = e[1] // 2
                if e[1] % 2:
                    completed.add(k)
                    begun = None
                    for p in sorted(set(plan.files) & {plan.all[k]['file']}):
                        f = disk.files.get(p)
                        if f is None:
                            bad('damaged', 'the file of save %d does not exist after it was saved' % k)
                        else:
                            look(p, bytes(f[0]), 'right after save %d' % k)
                else:
                    begun = k
                continue
            what = 'after change %d of %d' % (i, len(log))
            if e[0] == 'W' and i in looked and len(e[3]) > 1:
                # the process dies within the write
                probes.add('torn write')
                for n in sorted({1, len(e[3]) - 1, rng.randrange(1, len(e[3])), rng.randrange(1, len(e[3]))}):
                    f = disk.fds[e[1]]
                    old = bytes(f[0])
                    res.extra['crash_points'] += 1
                    for p in disk.apply(e, n):
                        look(p, bytes(disk.files[p][0]), 'within change %d of %d (%d of %d bytes are written)' % (i, len(log), n, len(e[3])))
                    f[0] = bytearray(old)
                    if res.violations:
                        return
            dirty |= set(disk.apply(e))
            res.extra['recorded_changes'] += 1
            if begun is not None:
                s = plan.all[begun]
                probes.add('died while an object was added to a file' if any(
                    x['k'] in completed for x in plan.files[s['file']]) else 'died while a new file was written')
            if i in looked:
                res.extra['crash_points'] += 1
                for p in sorted(dirty):
                    f = disk.files.get(p)
                    if f is not None:
                        look(p, bytes(f[0]), what)
                    elif any(s['k'] in completed for s in plan.files.get(p, [])):
                        bad('damaged', 'the process dies %s: %s, which had been saved, does not exist' % (what, os.path.relpath(p, path)))
                dirty = set()
            if i in hist and not res.violations:
                self.history(sc, plan, disk, completed, what, bad, probes, memo)
            if res.violations:
                return
        res.abstract.add((sc['family'], sc.get('how'), len(plan.files), len(plan.all), len(log)))

    def history(self, sc, plan, disk, completed, what, bad, probes, memo):
        """The directory as it was left by the crash, loaded as history."""
        d = os.path.abspath('crashed')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        try:
            done = []
            suspicious = False
            for p, f in sorted(disk.files.items()):
                with open(os.path.join(d, os.path.basename(p)), 'wb') as out:
                    out.write(f[0])
                if p in plan.files and plan.files[p][0]['k'] in completed:
                    done.append(os.path.basename(p))
                elif p in plan.files:
                    suspicious = True
            if not done:
                return
            probes.add('history of a crashed directory')
            try:
                hist = qtune.history.History(d, self.exp)
                paths = [os.path.basename(hist.get_reload_path(i)) for i in range(hist.number_of_stored_iterations)]
            except Exception as e:
                if not suspicious:
                    bad('history', 'the process dies %s: the history of the complete files %s cannot be loaded: %s: %s (%s)' % (
                        what, done, type(e).__name__, e, where(e)))
                return
            if not suspicious and (set(paths) - set(done) or done[-1] not in paths):
                bad('history', 'the process dies %s: the history leads to %s, complete are %s' % (what, paths, done))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def failing(self, sc, at, err):
        """Runs the program again with failing changes (in a process of its own, which may not survive this)."""
        boot.reset()
        path = os.path.abspath('disk')
        os.mkdir(path)
        boot.log_capture(True)
        plan = Plan()
        probes = set()
        violations = []

        def bad(kind, msg):
            violations.append(('C18', kind, 'change %d fails (%s%s%s): %s' % (
                at, err['error'], ', short' if err['short'] else '', ', lasting' if err['sticky'] else '', msg)))
        self.shim.arm(path, at, ERRORS[err['error']], err['sticky'], err['short'])
        try:
            self.program(sc, path, self.shim, plan, None, probes)
        except OSError:
            pass                     # creating directories is not what this is about
        self.shim.disarm()
        failed = self.shim.failed()
        outcome = []

        def check(file, after, retried=False):
            names = [s for s in plan.files[file]]
            if not os.path.exists(file):
                out, e = {}, 'it does not exist'
            else:
                with open(file, 'rb') as f:
                    out, e = self.outcome(sc, plan, file, f.read())
            done = [s for s in names if s['done']]
            outcome.append((os.path.basename(file)[-12:], sorted(out), bool(e), [s['name'] for s in done]))
            rel = os.path.basename(file)
            if done and e:
                return bad('damaged', '%s: %s with %s, which were saved without error, cannot be loaded: %s' % (
                    after, rel, [s['name'] for s in done], e))
            for s in done:
                if s['name'] not in out:
                    return bad('damaged', '%s: %s does not contain %s, which was saved without error' % (after, rel, s['name']))
            for name, diff in out.items():
                if diff:
                    return bad('partial', '%s: %s is loaded from %s but differs from the saved state: %s' % (after, name, rel, diff))
        for file in sorted(plan.files):
            check(file, 'afterwards')
        lost = [s for s in plan.all if not s['done'] and not s['bad'] and s['raised'] is not None]
        if lost:
            probes.add('failed save')
        elif failed:
            probes.add('saved although a change failed')
        if sc['family'] == 'objects' and not violations:
            for s in lost:
                probes.add('repeated after a failure')
                try:
                    qtune.storage.to_hdf5(s['file'], s['name'], s['want'])
                except Exception as e:
                    bad('repeat', 'saving %s again, without errors of the disk, raised %s: %s (%s)' % (s['name'], type(e).__name__, e, where(e)))
                    break
                s['done'] = True
                check(s['file'], 'after saving again')
        shutil.rmtree(path, ignore_errors=True)
        return dict(violations=violations[:3], probes=probes, outcome=outcome, failed=failed)

    def nontrivial(self, sc, res):
        return res.extra['crash_points'] > 4

    def shrink(self, sc):
        if sc['errors']:
            yield dict(sc, errors=[])
            for e in sc['errors']:
                yield dict(sc, errors=[e])
        if sc.get('history'):
            yield dict(sc, history=False)
        if sc['family'] == 'tuning':
            yield from core_shrink(sc)
            return
        ops = sc['ops']
        for i in range(len(ops)):
            yield dict(sc, ops=ops[:i] + ops[i + 1:])
        if sc['how'] != 'direct':
            yield dict(sc, how='direct')
        for i, op in enumerate(ops):
            for k in op.get('parts', []):
                if len(op['parts']) > 1:
                    yield dict(sc, ops=ops[:i] + [dict(op, parts=[x for x in op['parts'] if x != k])] + ops[i + 1:])

    def info(self, prop):
        return dict(
            rule='a run is a random tuning with its own background writer, or random objects saved to new and existing files (directly or by the writer), '
                 'while a preloaded library records every change of the file system (open, write, truncate, rename, unlink). The files are '
                 'rebuilt as they were after every recorded change and within writes and loaded; then the same program runs again with '
                 'chosen changes failing (no space, i/o error, quota, short writes; once or lasting). Runs are distinct if the recorded changes or outcomes '
                 'differ; non-trivial with more than four crash points',
            measure='(family, way of saving, files, saves, recorded changes) and states of the tuning',
            real=['qtune.storage', 'qtune.autotuner (save and load)', 'qtune.history.History (loading)', 'h5py and HDF5', 'file system', 'C library'],
            stub=['death of the process (files rebuilt from the recorded changes)', 'failing system calls (wrappers of the C library)', 'experiment, evaluators', 'clock',
                  'thread scheduling (cooperative)'],
            assumptions=['the process dies, not the machine: the kernel keeps the changes in their order', 'a dying process tears at most the write it is in',
                         'files are changed through the functions wrapped (checked: the record has to yield the real files at the end)',
                         'saves through a file handle which the caller opened himself are not covered', 'sampled, not exhaustive: a clean batch is evidence, no proof'])
