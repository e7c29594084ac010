"""C22: the real parallel reader with its pools under a seeded scheduler, with damaged and missing files."""
import copy
import hashlib
import os
import random
import shutil

import h5py
import numpy as np
import pandas as pd

import qtune.storage

from .. import boot, deep, gen
from ..clock import CLOCK, MONO0
from ..driver import Driver, Result, harness_error, where
from ..runner import ddmin
from ..world import SimExperiment
from .writer import SimTag, gen_sched, run_scheduled, shrink_sched

class SlowFile(h5py.File):
    """A file on a disk which takes its time."""
    seconds = {}

    def __init__(self, name, *args, **kwargs):
        import time
        wait = SlowFile.seconds.get(os.path.abspath(name)) if isinstance(name, str) else None
        if wait:
            time.sleep(wait)
        super().__init__(name, *args, **kwargs)


class H5py:
    File = SlowFile

    def __getattr__(self, name):
        return getattr(h5py, name)


DAMAGE = ['missing', 'truncated', 'empty', 'garbage', 'directory', 'foreign', 'unknown class']


class Module:
    SECONDS = dict(quick=28, thorough=1200, shrink=40)
    PROBES = {'C22': ['thread pool', 'process pool', 'one worker', 'more workers than files', 'workers not given', 'damaged first file', 'damaged file in the middle',
                      'two damaged files', 'abandoned', 'read again', 'two readings at once', 'repeated file', 'context manager', 'dropped', 'exit', 'shut down twice',
                      'generator of names', 'autotuner files', 'no files', 'read on after an error', 'closed while reading', 'slow disk'] + DAMAGE}

    def __init__(self, prop):
        self.prop = prop

    def generate(self, seed):
        rng = random.Random('C22-%d' % seed)
        n = rng.choice([0, 1, 2, 3, 5, 8, 13])
        stock = [{'what': rng.choice(['tag', 'tag', 'data', 'experiment', 'autotuner']), 'size': rng.choice([1, 30, 3000])} for _ in range(rng.choice([1, 3, 6]))]
        files = []
        bad = rng.random() < 0.5
        slow = rng.random() < 0.4
        for i in range(n):
            f = {'stock': rng.randrange(len(stock))}
            if bad and rng.random() < 0.25:
                f['damage'] = rng.choice(DAMAGE)
                f['cut'] = rng.random()
            elif files and rng.random() < 0.1:
                f = {'same': rng.randrange(len(files))}
            if slow and rng.random() < 0.4:
                f['slow'] = rng.choice([0.01, 1, 20, 500])
            files.append(f)
        reads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            sel = list(range(n))
            if rng.random() < 0.5:
                sel = rng.sample(sel, rng.randint(0, n))
            reads.append({'files': sel, 'generator': rng.random() < 0.4, 'take': rng.choice([None, None, None, 0, 1, 2]), 'sleep': rng.random() < 0.2,
                          'on': rng.random() < 0.5})
        return dict(stock=stock, files=files, reads=reads, together=len(reads) > 1 and rng.random() < 0.4, mode=rng.choice(['thread', 'thread', 'process']),
                    workers=rng.choice([None, 1, 1, 2, 3, 8]), end=rng.choice(['with', 'with', 'shutdown', 'drop', 'exit', 'twice']), lines=rng.random() < 0.7,
                    sched=gen_sched(rng, victims=(1, 2, 3)))

    def hit(self, res, p):
        res.probes[p] = res.probes.get(p, 0) + 1

    def execute(self, sc):
        res = Result()
        res.extra = {}
        self.hash = hashlib.blake2b(digest_size=8)
        self.base = os.path.abspath('stock')
        shutil.rmtree(self.base, ignore_errors=True)
        os.mkdir(self.base)
        boot.log_capture(True)
        SlowFile.seconds = {}
        qtune.storage.h5py = H5py()
        try:
            self.prepare(sc, res)
            SlowFile.seconds = {os.path.abspath(p): f['slow'] for p, f in zip(self.paths, sc['files']) if f.get('slow')}
            if SlowFile.seconds:
                self.hit(res, 'slow disk')
                res.faults['slow disk'] = 1
            s = run_scheduled(sc, res, lambda s: self.run(sc, s, res), 'C22', max_points=3000000)
            for name, kind, msg in s.thread_exceptions:
                res.violations.append(('*', 'worker:' + kind, 'a worker ended with %s: %s' % (kind, msg)))
        finally:
            boot.log_capture(False)
            qtune.storage.h5py = h5py
            shutil.rmtree(self.base, ignore_errors=True)
        self.hash.update(repr((s.sig, res.key())).encode())
        res.digest = self.hash.hexdigest()
        res.sim_seconds = CLOCK.ns / 1e9 - MONO0
        return res

    def prepare(self, sc, res):
        self.exp = SimExperiment(dict(gates=['g'], v0={'g': 0.}))
        stock = []
        for k, s in enumerate(sc['stock']):
            rng = np.random.RandomState(k)
            exp = self.exp
            if s['what'] == 'tag':
                obj = SimTag('tag %d' % k, np.arange(float(s['size'])) + k)
            elif s['what'] == 'data':
                obj = {'s': pd.Series(rng.rand(s['size']), index=['x%d' % i for i in range(s['size'])]) if s['size'] < 100 else rng.rand(s['size']),
                       'n': [k, None, 'text'], 'd': pd.DataFrame({'a': [1., k], 'b': [3., 4.]})}
            elif s['what'] == 'experiment':
                obj = {'e': self.exp, 'k': k}
            else:
                self.hit(res, 'autotuner files')
                cfg = gen.gen_cfg(random.Random(k), dict(easy=True, groups=1, ngates=[1, 2]))
                d = Driver(cfg, shadow=False)
                d.step(0, {'op': 'iterate'})
                obj, exp = d.at, d.exp
            path = os.path.join(self.base, 'stock%d.hdf5' % k)
            qtune.storage.to_hdf5(path, 'obj', obj, reserved={'experiment': exp})
            stock.append(path)
        self.paths = []
        for i, f in enumerate(sc['files']):
            if 'same' in f:
                self.paths.append(self.paths[f['same']])
                self.hit(res, 'repeated file')
                continue
            path = os.path.join(self.base, 'file%d.hdf5' % i)
            damage = f.get('damage')
            src = stock[f['stock']]
            if damage:
                res.faults[damage] = res.faults.get(damage, 0) + 1
                self.hit(res, damage)
            if damage == 'directory':
                os.mkdir(path)
            elif damage == 'empty':
                open(path, 'w').close()
            elif damage == 'garbage':
                with open(path, 'wb') as out:
                    out.write(random.Random(i).randbytes(2000))
            elif damage == 'truncated':
                with open(src, 'rb') as inp, open(path, 'wb') as out:
                    data = inp.read()
                    out.write(data[:int(len(data) * f['cut'])])
            elif damage == 'foreign':
                # an HDF5 file which no serializer wrote
                with h5py.File(path, 'w') as out:
                    out.create_group('g').attrs['#type'] = 'No.such.class'
            elif damage == 'unknown class':
                shutil.copy(src, path)
                with h5py.File(path, 'r+') as out:
                    for name in out:
                        out[name].attrs['#type'] = 'Vanished'
            elif damage != 'missing':
                shutil.copy(src, path)
            self.paths.append(path)
        # one by one, before any pool is used
        self.one = {}
        for p in self.paths:
            if p not in self.one:
                try:
                    self.one[p] = ('value', qtune.storage.from_hdf5(p, {'experiment': self.exp}))
                except Exception as e:
                    self.one[p] = ('error', type(e), str(e))

    # -- the reading ----------------------------------------------------------------------------------------------
    def start(self, sc, reader, r, res):
        names = [self.paths[i] for i in r['files']]
        if r['generator']:
            self.hit(res, 'generator of names')
            return reader.read_iter(p for p in names), names
        return reader.read_iter(list(names)), names

    def take(self, sc, it, names, pos, res):
        """One step of the reading; returns False at the end or after an error."""
        import time
        try:
            got = next(it)
        except StopIteration:
            if pos < len(names):
                res.violations.append(('C22', 'too-few', 'the reading of %d files ended after %d' % (len(names), pos)))
            return False
        except Exception as e:
            if type(e).__name__.startswith('Sim'):
                raise
            if pos >= len(names):
                res.violations.append(('C22', 'late-error', 'after all %d files: %s: %s (%s)' % (len(names), type(e).__name__, e, where(e))))
                return False
            want = self.one[names[pos]]
            if want[0] == 'value':
                res.violations.append(('C22', 'wrong-error', 'file %d of %d can be read, but the reader raised %s: %s (%s)' % (
                    pos, len(names), type(e).__name__, e, where(e))))
            elif want[1] is not type(e):
                res.violations.append(('C22', 'other-error', 'file %d of %d: reading it alone raises %s: %s, the reader raised %s: %s' % (
                    pos, len(names), want[1].__name__, want[2], type(e).__name__, e)))
            else:
                self.hit(res, 'damaged first file' if pos == 0 else 'damaged file in the middle')
            return False
        if pos >= len(names):
            res.violations.append(('C22', 'too-many', 'more than %d results for %d files' % (pos, len(names))))
            return False
        want = self.one[names[pos]]
        if want[0] == 'error':
            res.violations.append(('C22', 'hidden-error', 'file %d of %d cannot be read (%s: %s), but the reader yielded a result for it' % (
                pos, len(names), want[1].__name__, want[2])))
            return False
        # a look at some properties changes the objects
        content = copy.deepcopy(want[1], {id(self.exp): self.exp})
        if sc['mode'] == 'thread':
            diff, _ = deep.compare(content, got, [self.exp])
        else:
            diff, _ = deep.compare(content, got, [])
        if diff:
            res.violations.append(('C22', 'content', 'result %d of %d differs from its file: %s' % (pos, len(names), diff)))
            return False
        res.steps += 1
        return True

    def run(self, sc, s, res):
        import time
        workers = sc['workers']
        kw = {} if workers is None else {'max_workers': workers}
        self.hit(res, sc['mode'] + ' pool')
        if workers is None:
            self.hit(res, 'workers not given')
        elif workers == 1:
            self.hit(res, 'one worker')
        elif workers > len(sc['files']):
            self.hit(res, 'more workers than files')
        if not sc['files']:
            self.hit(res, 'no files')
        if sum(1 for f in sc['files'] if f.get('damage')) > 1:
            self.hit(res, 'two damaged files')
        if len(sc['reads']) > 1:
            self.hit(res, 'read again')
        reader = qtune.storage.ParallelHDF5Reader({'experiment': self.exp}, multiprocess=sc['mode'] == 'process', **kw)

        def body():
            open_ = []
            if sc['together']:
                self.hit(res, 'two readings at once')
                todo = []
                for r in sc['reads']:
                    it, names = self.start(sc, reader, r, res)
                    todo.append([it, names, 0, r])
                while todo:
                    for t in list(todo):
                        if t[3]['take'] is not None and t[2] >= t[3]['take']:
                            open_.append(t[0])
                            self.hit(res, 'abandoned')
                            todo.remove(t)
                        elif self.take(sc, t[0], t[1], t[2], res):
                            t[2] += 1
                        else:
                            todo.remove(t)
            else:
                for r in sc['reads']:
                    it, names = self.start(sc, reader, r, res)
                    pos = 0
                    while r['take'] is None or pos < r['take']:
                        if r['sleep']:
                            time.sleep(1)
                        if not self.take(sc, it, names, pos, res):
                            break
                        pos += 1
                    else:
                        self.hit(res, 'abandoned')
                        open_.append(it)
                    if pos < len(names) and r['on']:
                        # whoever wants the rest asks for it again
                        self.hit(res, 'read on after an error')
                        it, names = reader.read_iter(names[pos + 1:]), names[pos + 1:]
                        pos = 0
                        while self.take(sc, it, names, pos, res):
                            pos += 1
            if open_ and sc['end'] != 'exit':
                self.hit(res, 'closed while reading')
            return open_
        open_ = None
        try:
            if sc['end'] == 'with':
                self.hit(res, 'context manager')
                with reader:
                    open_ = body()
            else:
                open_ = body()
                if sc['end'] in ('shutdown', 'twice'):
                    reader.shutdown()
                if sc['end'] == 'twice':
                    self.hit(res, 'shut down twice')
                    reader.shutdown()
            if sc['end'] == 'exit':
                self.hit(res, 'exit')
                s.exit_process()
            elif sc['end'] == 'drop':
                self.hit(res, 'dropped')
                open_ = None
                del reader
            if sc['end'] in ('with', 'shutdown', 'twice'):
                time.sleep(1000)
            running = [t for t in s.tasks[1:] if t.state != 'done' and t.name != 'feeder']
            if running and sc['end'] in ('with', 'shutdown', 'twice'):
                res.violations.append(('C22', 'workers-left', '%d workers are alive after the reader was shut down' % len(running)))
        except Exception as e:
            if harness_error(e) or type(e).__name__.startswith('Sim'):
                raise
            res.violations.append(('C22', 'exception:' + type(e).__name__, 'closing the reader (%s) raised %s: %s (%s)' % (sc['end'], type(e).__name__, e, where(e))))
        res.extra['files_read'] = res.steps
        res.abstract.add((sc['mode'], sc['workers'], len(sc['files']), sc['end'], len(sc['reads']), bool(res.faults)))
        self.hash.update(repr((sc['reads'], sc['end'])).encode())

    def nontrivial(self, sc, res):
        return res.steps > 1 or bool(res.faults)

    def shrink(self, sc):
        yield from ddmin(sc['reads'], lambda r: dict(sc, reads=r, together=sc['together'] and len(r) > 1))
        n = len(sc['files'])
        for i in reversed(range(n)):
            if any(f.get('same') == i for f in sc['files']):
                continue
            fs = [dict(f, same=f['same'] - 1) if f.get('same', -1) > i else f for k, f in enumerate(sc['files']) if k != i]
            yield dict(sc, files=fs, reads=[dict(r, files=[k - (k > i) for k in r['files'] if k != i]) for r in sc['reads']])
        for i, f in enumerate(sc['files']):
            if f.get('damage'):
                yield dict(sc, files=sc['files'][:i] + [{'stock': f['stock']}] + sc['files'][i + 1:])
        for i, f in enumerate(sc['files']):
            if f.get('slow'):
                yield dict(sc, files=sc['files'][:i] + [{k: v for k, v in f.items() if k != 'slow'}] + sc['files'][i + 1:])
        for k, v in (('together', False), ('mode', 'thread'), ('end', 'shutdown'), ('workers', 1), ('workers', 2), ('lines', False)):
            if sc[k] != v:
                yield dict(sc, **{k: v})
        yield from shrink_sched(self, sc)

    def info(self, prop):
        return dict(
            rule='a run is one parallel reader with a random number of workers, which reads random lists of up to 13 files of several kinds (some missing, '
                 'truncated, empty, garbage, foreign), completely, partly, repeatedly and interleaved, and is then closed in one of six ways; a seeded '
                 'scheduler decides every interleaving; runs are distinct if the interleaving or the reads differ; non-trivial if more than one file was '
                 'read or a file was damaged',
            measure='(pool, workers, files, end, readings, faults) and interleaving signatures',
            real=['qtune.storage.ParallelHDF5Reader', 'qtune.storage.from_hdf5', 'concurrent.futures thread pool', 'h5py, real files'],
            stub=['process pool (threads which pickle arguments and results)', 'thread scheduler', 'clock'],
            assumptions=['worker processes do not die on their own (the standard library reports that)', 'sampled, not exhaustive'])
