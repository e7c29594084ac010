"""Deterministic scheduler for real Python threads.

Every thread of the code under test is a real thread, but it is parked on its own baton and only runs when the scheduler
hands the baton over; exactly one thread runs at a time.  Locks, conditions, queues, events, thread start and join,
sleeping, executors and multiprocessing workers of the standard library are built on the primitives below.  Switches happen
when a primitive is used and (optionally) before every source line of qtune.  All choices are made by a seeded policy and
are recorded as the list of deviations from the default schedule, which is the replay format.
"""
import _thread
import atexit
import collections
import concurrent.futures
import concurrent.futures.thread
import io
import multiprocessing
import multiprocessing.connection
import pickle
import queue
import random
import sys
import threading
import traceback

from h5py._objects import phil

from . import clock
from .clock import CLOCK

_real_allocate = _thread.allocate_lock
_real = dict(Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock,
             start=threading._start_new_thread, sentinel=threading._set_sentinel, SimpleQueue=queue.SimpleQueue,
             JoinableQueue=multiprocessing.JoinableQueue, Process=multiprocessing.Process, Queue=multiprocessing.Queue,
             atexit_register=atexit.register, atexit_unregister=atexit.unregister,
             PPE=concurrent.futures.ProcessPoolExecutor, excepthook=threading.excepthook)

ACTIVE = [None]          # the scheduler of the run in progress


class SimKilled(SystemExit):
    """Ends the threads that are left over when a run is finished (or when the simulated process dies)."""


class SimDeadlock(Exception):
    pass


class SimStepLimit(Exception):
    pass


class Task:
    __slots__ = ('tid', 'sem', 'state', 'wait_on', 'wake_at', 'timed_out', 'name', 'sentinels', 'kill', 'dying', 'exc',
                 'prio', 'daemon', 'ident', 'points', 'nopreempt', 'unwind')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = 'runnable'
        self.wait_on = None
        self.wake_at = None
        self.timed_out = False
        self.sentinels = []
        self.kill = False
        self.dying = False
        self.exc = None
        self.prio = 0
        self.points = 0
        self.nopreempt = 0
        self.unwind = 0
        self.ident = None


class Scheduler:
    """policy: dict(kind='random', p=..) | dict(kind='pct', depth=.., length=..) | dict(kind='coop') | dict(kind='replay')"""

    def __init__(self, seed=0, policy=None, switches=None, max_points=200000, lines=True):
        self.policy = policy or dict(kind='coop')
        self.rng = random.Random(seed)
        self.replay = None if switches is None else {int(k): int(v) for k, v in switches}
        self.switches = []
        self.tasks = []
        self.current = None
        self.point = 0
        self.max_points = max_points
        self.lines = lines
        self.n_switches = 0
        self.sig = 0
        self.atexit = []
        self.thread_exceptions = []
        self.deadlock = None
        self.limit_hit = False
        self.killing = False
        self.mono_start = CLOCK.ns
        kind = self.policy['kind']
        self.p = self.policy.get('p', 0.0)
        # a running task may be so slow that others end their sleep meanwhile
        self.jumps = bool(self.policy.get('slow'))
        if kind == 'pct':
            length = self.policy.get('length', 2000)
            self.change_points = {self.rng.randrange(1, length) for _ in range(self.policy.get('depth', 3))}
        else:
            self.change_points = set()

    # -- run -------------------------------------------------------------------------------------------------
    def run(self, main):
        """Runs main() as task 0 on the calling thread; returns its result.  Leftover threads are ended."""
        assert ACTIVE[0] is None
        task = Task(0, 'main')
        task.ident = _thread.get_ident()
        task.prio = self.rng.random()
        self.tasks.append(task)
        self.current = task
        ACTIVE[0] = self
        _patch()
        clock._sleep_hook[0] = self._sleep
        if self.lines:
            _lines_on(self.lines if isinstance(self.lines, str) else None)
        try:
            return main()
        finally:
            if self.lines:
                _lines_off()
            self.kill_others()
            clock._sleep_hook[0] = None
            _unpatch()
            ACTIVE[0] = None

    def kill_others(self, only=None):
        """End all other tasks (or the given ones) at once, as the death of the process or the end of a run would."""
        me = self.current
        victims = [t for t in self.tasks if t is not me and t.state != 'done' and (only is None or t in only)]
        self.killer = me
        for t in victims:
            t.kill = True
        for t in victims:
            spin = 0
            while t.state != 'done':
                spin += 1
                if spin > 1000:
                    raise RuntimeError('harness: cannot end task %s' % t.name)
                t.state = 'runnable'
                t.wait_on = None
                t.wake_at = None
                self._handover(t)

    # -- switching -------------------------------------------------------------------------------------------
    def _handover(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.n_switches += 1
        self.sig = (self.sig * 1000003 + self.point * 31 + nxt.tid) & 0xffffffffffff
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()
        self._check_killed(me)

    def _check_killed(self, me):
        if me.kill and not me.dying:
            me.dying = True
            raise SimKilled()

    def runnable(self):
        return [t for t in self.tasks if t.state == 'runnable']

    def _choose(self, candidates, default, sleepers=()):
        """One decision point; returns the chosen task."""
        choice = self._pick(candidates, default, sleepers)
        if choice.state == 'blocked':
            CLOCK.ns = max(CLOCK.ns, choice.wake_at)
            for t in sleepers:
                if t.wake_at <= CLOCK.ns:
                    t.state = 'runnable'
                    t.timed_out = True
                    t.wait_on = None
        return choice

    def _pick(self, candidates, default, sleepers):
        self.point += 1
        if self.point > self.max_points:
            self.limit_hit = True
            self._abort(SimStepLimit('more than %d scheduling points' % self.max_points))
        if len(candidates) == 1 and candidates[0] is default and not sleepers:
            return default
        if self.replay is not None:
            tid = self.replay.get(self.point)
            if tid is not None:
                for t in candidates + list(sleepers):
                    if t.tid == tid:
                        if t is not default:
                            self.switches.append([self.point, t.tid])
                        return t
            return default
        kind = self.policy['kind']
        choice = default
        if sleepers and kind != 'coop' and self.rng.random() < self.policy['slow']:
            choice = sleepers[self.rng.randrange(len(sleepers))]
        elif kind == 'random':
            blocked = self.current.state != 'runnable'
            if blocked or self.rng.random() < self.p:
                choice = candidates[self.rng.randrange(len(candidates))]
        elif kind == 'pct':
            if self.point in self.change_points:
                self.current.prio = -self.rng.random()
            choice = max(candidates, key=lambda t: (t.prio, -t.tid))
        elif kind == 'stall':
            # one task is delayed for long stretches
            victims = self.policy.get('victims', [1])
            others = [t for t in candidates if t.tid not in victims]
            if self.rng.random() < self.p:
                choice = candidates[self.rng.randrange(len(candidates))]
            elif others and default not in others:
                choice = others[0]
        if choice is not default:
            self.switches.append([self.point, choice.tid])
        return choice

    def _abort(self, exc):
        """Ends the run from whatever task noticed a deadlock or limit: the exception is raised in the main task."""
        main = self.tasks[0]
        if isinstance(exc, SimDeadlock):
            self.deadlock = str(exc)
        if self.current is main:
            raise exc
        main.exc = exc
        main.state = 'runnable'
        main.wait_on = None
        me = self.current
        self.current = main
        main.sem.release()
        me.sem.acquire()
        me.dying = True
        raise SimKilled()

    def preempt(self):
        me = self.current
        if me is None or me.ident != _thread.get_ident() or me.nopreempt or me.dying:
            return
        me.points += 1
        if len(self.tasks) == 1:
            return
        if phil._is_owned():
            # h5py holds its global lock, e.g. while the items of a group are iterated: nobody else could use it
            return
        cands = self.runnable()
        sleepers = [t for t in self.tasks if t.state == 'blocked' and t.wake_at is not None] if self.jumps else []
        if len(cands) == 1 and not sleepers:
            return
        nxt = self._choose(cands, me, sleepers)
        if nxt is not me:
            self._handover(nxt)
            self._raise_pending(me)

    def _raise_pending(self, me):
        if me.exc is not None:
            exc, me.exc = me.exc, None
            raise exc

    def block(self, on, timeout=None):
        """Parks the current task until wake(on) or the timeout; returns False on timeout."""
        me = self.current
        if me.dying:
            me.unwind += 1
            if me.unwind > 50:
                raise SimKilled()
            return True
        me.state = 'blocked'
        me.wait_on = on
        me.timed_out = False
        me.wake_at = None if timeout is None or timeout < 0 else CLOCK.ns + int(timeout * 1e9)
        self._switch_away(me)
        me.wait_on = None
        me.wake_at = None
        self._raise_pending(me)
        return not me.timed_out

    def _switch_away(self, me):
        while True:
            cands = self.runnable()
            timers = [t for t in self.tasks if t.state == 'blocked' and t.wake_at is not None]
            if not cands:
                if not timers:
                    desc = ', '.join('%s waits for %s' % (t.name, t.wait_on) for t in self.tasks if t.state == 'blocked')
                    for t in self.tasks:
                        if t.state == 'blocked' and t.tid == 0:
                            t.state = 'runnable'
                    self._abort(SimDeadlock('deadlock: ' + desc))
                    return
                first = min(t.wake_at for t in timers)
                CLOCK.ns = max(CLOCK.ns, first)
            for t in timers:
                if t.wake_at <= CLOCK.ns:
                    t.state = 'runnable'
                    t.timed_out = True
                    t.wait_on = None
            cands = self.runnable()
            if cands:
                nxt = self._choose(cands, cands[0])
                self._handover(nxt)
                if me.state != 'blocked':
                    return

    def wake(self, on, n=None):
        """Makes the tasks waiting for `on` runnable."""
        for t in self.tasks:
            if t.state == 'blocked' and t.wait_on is on:
                t.state = 'runnable'
                t.wait_on = None
                t.timed_out = False
                if n is not None:
                    n -= 1
                    if n == 0:
                        break

    def _sleep(self, seconds):
        me = self.current
        if me is None or me.ident != _thread.get_ident():
            return False
        self.block('sleep', max(0.0, seconds))
        return True

    # -- threads ---------------------------------------------------------------------------------------------
    def spawn(self, fn, args=(), kwargs=None, name=None):
        task = Task(len(self.tasks), name or 'thread-%d' % len(self.tasks))
        task.prio = self.rng.random() if self.replay is None else 0
        self.tasks.append(task)

        def boot():
            task.sem.acquire()
            task.ident = _thread.get_ident()
            try:
                if task.kill:
                    task.dying = True
                    return
                fn(*args, **(kwargs or {}))
            except SimKilled:
                pass
            except BaseException as e:                           # pragma: no cover - harness trouble
                if not task.kill:
                    self.thread_exceptions.append((task.name, type(e).__name__, str(e)))
            finally:
                if isinstance(threading._active.get(task.ident), threading._DummyThread):
                    del threading._active[task.ident]
                self._finish(task)
        _real['start'](boot, ())
        return task

    def _finish(self, task):
        task.state = 'done'
        for lock in task.sentinels:
            lock._force_release()
        task.sentinels = []
        if task.kill:
            nxt = self.killer
            self.current = nxt
            nxt.sem.release()
            return
        # hand over to somebody else
        while True:
            cands = self.runnable()
            timers = [t for t in self.tasks if t.state == 'blocked' and t.wake_at is not None]
            if not cands and not timers:
                main = self.tasks[0]
                desc = ', '.join('%s waits for %s' % (t.name, t.wait_on) for t in self.tasks if t.state == 'blocked')
                self.deadlock = 'deadlock: ' + desc
                main.exc = SimDeadlock(self.deadlock)
                main.state = 'runnable'
                cands = [main]
            if not cands:
                CLOCK.ns = max(CLOCK.ns, min(t.wake_at for t in timers))
            for t in timers:
                if t.wake_at <= CLOCK.ns:
                    t.state = 'runnable'
                    t.timed_out = True
            cands = self.runnable()
            if cands:
                break
        try:
            nxt = self._choose(cands, cands[0])
        except BaseException:
            nxt = self.tasks[0]
        self.n_switches += 1
        self.sig = (self.sig * 1000003 + self.point * 31 + nxt.tid) & 0xffffffffffff
        self.current = nxt
        nxt.sem.release()

    def exit_process(self):
        """What the interpreter does at exit: joins non daemonic threads, runs the atexit callbacks, ends daemons."""
        concurrent.futures.thread._python_exit()
        for th in list(threading._active.values()):
            if th is not threading.main_thread() and getattr(th, '_sim', None) is self and not th.daemon:
                th.join()
        errors = []
        while self.atexit:
            fn, args, kwargs = self.atexit.pop()
            try:
                fn(*args, **kwargs)
            except (SimDeadlock, SimStepLimit, SimKilled):
                raise
            except BaseException as e:
                errors.append(e)
        self.kill_others()
        return errors


def _cur():
    s = ACTIVE[0]
    if s is None:
        return None
    t = s.current
    if t is None or t.ident != _thread.get_ident():
        return None
    return s


class SimLock:
    """Replacement of _thread.lock."""
    _sim_primitive = True

    def __init__(self, sched):
        self._s = sched
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = _cur()
        if s is None or s is not self._s:
            if not self._locked:
                self._locked = True
                return True
            return not blocking and False
        s.preempt()
        if self._locked and not blocking:
            return False
        while self._locked:
            if s.current.dying:
                s.block(self)
                return True
            if not s.block(self, None if timeout is None or timeout < 0 else timeout):
                if self._locked:
                    return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            s = _cur()
            if s is not None and s.current.dying:
                return
            raise RuntimeError('release unlocked lock')
        self._force_release()
        s = _cur()
        if s is not None and s is self._s:
            s.preempt()

    def _force_release(self):
        self._locked = False
        self._s.wake(self)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def __repr__(self):
        return '<lock>'


def _alloc():
    s = _cur()
    return _real_allocate() if s is None else SimLock(s)


def _rlock():
    s = _cur()
    return _real['RLock']() if s is None else threading._PyRLock()


def _sentinel():
    s = _cur()
    if s is None:
        return _real['sentinel']()
    lock = SimLock(s)
    s.current.sentinels.append(lock)
    return lock


def _start_new_thread(fn, args=(), kwargs=None):
    s = _cur()
    if s is None:
        return _real['start'](fn, args, kwargs or {})
    owner = getattr(fn, '__self__', None)
    name = owner.name if isinstance(owner, threading.Thread) else None
    if isinstance(owner, threading.Thread):
        owner._sim = s
    s.spawn(fn, args, kwargs, name='T%d' % len(s.tasks))
    return 0


def _register(fn, *args, **kwargs):
    s = _cur()
    if s is None:
        return _real['atexit_register'](fn, *args, **kwargs)
    s.atexit.append((fn, args, kwargs))
    return fn


def _unregister(fn):
    s = _cur()
    if s is None:
        return _real['atexit_unregister'](fn)
    s.atexit = [e for e in s.atexit if e[0] is not fn and e[0] != fn]


class SimMPQueue:
    """multiprocessing.JoinableQueue: a feeder thread pickles the objects some time after put() has returned."""

    def __init__(self, maxsize=0, *, ctx=None):
        s = _cur()
        if s is None:
            raise RuntimeError('harness: multiprocessing queue outside of a simulation')
        self._s = s
        self._buffer = collections.deque()
        self._pipe = collections.deque()
        self._put = 0
        self._got = 0
        self._unfinished = 0
        self._feeder = None
        self._closed = False
        self._alldone = SimLock(s)

    def put(self, obj, block=True, timeout=None):
        if self._closed:
            raise ValueError('Queue is closed')
        self._s.preempt()
        self._buffer.append(obj)
        self._unfinished += 1
        self._put += 1
        if self._feeder is None or self._feeder.state == 'done':
            self._feeder = self._s.spawn(self._feed, name='feeder')
        else:
            self._s.wake(('buffer', id(self)))
            self._wake_feeder()
        self._s.preempt()

    def _wake_feeder(self):
        if self._feeder.state == 'blocked':
            self._feeder.state = 'runnable'
            self._feeder.wait_on = None

    def _feed(self):
        s = self._s
        while True:
            while not self._buffer:
                s.block('mpqueue buffer')
            s.preempt()
            obj = self._buffer.popleft()
            try:
                data = pickle.dumps(obj)
            except SimKilled:
                raise
            except Exception as e:
                # the real feeder prints the traceback and drops the object
                s.thread_exceptions.append(('feeder', type(e).__name__, str(e)))
                self._put -= 1
                continue
            self._pipe.append(data)
            s.wake(self)

    def get(self, block=True, timeout=None):
        s = self._s
        s.preempt()
        while not self._pipe:
            if not block:
                raise queue.Empty
            if not s.block(self, timeout) and not self._pipe:
                raise queue.Empty
            if s.current.dying:
                raise SimKilled()
        data = self._pipe.popleft()
        self._got += 1
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def qsize(self):
        return self._put - self._got

    def empty(self):
        return not self._pipe

    def full(self):
        return False

    def task_done(self):
        self._unfinished -= 1
        if self._unfinished < 0:
            raise ValueError('task_done() called too many times')
        if self._unfinished == 0:
            self._s.wake('mpqueue join')

    def join(self):
        while self._unfinished > 0:
            self._s.block('mpqueue join')

    def close(self):
        self._closed = True

    def join_thread(self):
        while self._buffer and self._feeder is not None and self._feeder.state != 'done':
            self._s.block('mpqueue feeder', 0.01)

    def cancel_join_thread(self):
        pass

    def __getstate__(self):
        raise RuntimeError('Queue objects should only be shared between processes through inheritance')

    def __deepcopy__(self, memo):
        raise RuntimeError('Queue objects should only be shared between processes through inheritance')


class SimProcess:
    """multiprocessing.Process: another task which shares nothing but what it gets through (pickling) queues."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self.name = name or 'Process'
        self._task = None
        self._s = _cur()
        self.exitcode = None
        self._terminated = False

    @property
    def pid(self):
        return None if self._task is None else 1000 + self._task.tid

    ident = pid

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._task is None, 'cannot start a process twice'
        s = self._s
        done = SimLock(s)
        done._locked = True
        self._done = done

        def body():
            try:
                self.run()
                self.exitcode = 0
            except SimKilled:
                self.exitcode = -15
                raise
            except BaseException as e:
                self.exitcode = 1
                s.thread_exceptions.append((self.name, type(e).__name__, str(e)))
        self._task = s.spawn(body, name='P%d' % len(s.tasks))
        self._task.sentinels.append(done)
        if not self.daemon:
            s.atexit.insert(0, (self.join, (), {}))
        s.preempt()

    def is_alive(self):
        if self._task is None:
            return False
        self._s.preempt()
        return self._task.state != 'done'

    def join(self, timeout=None):
        assert self._task is not None, 'can only join a started process'
        if self._done.acquire(True, -1 if timeout is None else timeout):
            self._done.release()

    def terminate(self):
        if self._task is not None and self._task.state != 'done':
            self._s.kill_others(only=[self._task])

    kill = terminate

    def close(self):
        pass


class SimProcessPool(concurrent.futures.ThreadPoolExecutor):
    """Process pool stand-in: arguments and results are pickled as they would be."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **_):
        super().__init__(max_workers=max_workers)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(_pickled_call, [pickle.dumps((fn, args)) for args in zip(*iterables)], timeout=timeout)

    def submit(self, fn, *args, **kwargs):
        if fn is _pickled_call:
            return super().submit(fn, *args, **kwargs)
        return super().submit(_pickled_call, pickle.dumps((fn, args)))


def _pickled_call(data):
    fn, args = pickle.loads(data)
    try:
        result = fn(*args)
    except Exception as e:
        # without traceback, as it comes from another process
        raise pickle.loads(pickle.dumps(e)) from None
    return pickle.loads(pickle.dumps(result))


_born = [0]


def _thread_hash(self):
    # pools keep their workers in a set, which is iterated when they are joined
    n = self.__dict__.get('_sim_born')
    if n is None:
        _born[0] += 1
        n = self.__dict__['_sim_born'] = _born[0]
    return n


def _excepthook(args):
    s = ACTIVE[0]
    if args.exc_type is SimKilled or (isinstance(args.exc_type, type) and issubclass(args.exc_type, SystemExit)):
        return
    if s is not None:
        tb = args.exc_traceback
        s.thread_exceptions.append(('thread', args.exc_type.__name__, str(args.exc_value)))


_saved = {}


def _code_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == 'qtune' or n.startswith('qtune.')) and m is not None]


def _bind(names):
    """Names which the code under test imported, and locks which it created at import."""
    undo = []
    for m in _code_modules():
        spaces = [m] + [c for c in vars(m).values() if isinstance(c, type) and getattr(c, '__module__', '').startswith('qtune')]
        for space in spaces:
            for k, v in list(vars(space).items()):
                new = names.get(id(v))
                if new is None:
                    if isinstance(v, _thread.LockType):
                        new = _alloc()
                    elif isinstance(v, _thread.RLock):
                        new = threading._PyRLock()
                    elif isinstance(v, (threading.Event, threading.Condition, threading.Semaphore, queue.Queue)):
                        new = type(v)()
                if new is not None:
                    undo.append((space, k, v))
                    setattr(space, k, new)
    return undo


def _patch():
    s = ACTIVE[0]
    _born[0] = 0
    threading.Thread.__hash__ = _thread_hash
    before = {k: f() for k, f in _places.items()}
    _patch_places(s)
    _saved['bound'] = _bind({id(v): _places[k]() for k, v in before.items() if v is not _places[k]()})


_places = {
    'Lock': lambda: threading.Lock, 'RLock': lambda: threading.RLock, 'start': lambda: threading._start_new_thread,
    'SimpleQueue': lambda: queue.SimpleQueue, 'JoinableQueue': lambda: multiprocessing.JoinableQueue,
    'Queue': lambda: multiprocessing.Queue, 'Process': lambda: multiprocessing.Process,
    'PPE': lambda: concurrent.futures.ProcessPoolExecutor, 'register': lambda: atexit.register, 'unregister': lambda: atexit.unregister,
}


def _patch_places(s):
    threading._allocate_lock = _alloc
    threading.Lock = _alloc
    threading.RLock = _rlock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _sentinel
    threading.excepthook = _excepthook
    queue.SimpleQueue = queue._PySimpleQueue
    multiprocessing.JoinableQueue = SimMPQueue
    multiprocessing.Queue = SimMPQueue
    multiprocessing.Process = SimProcess
    concurrent.futures.ProcessPoolExecutor = SimProcessPool
    _saved['gsl'] = concurrent.futures.thread._global_shutdown_lock
    concurrent.futures.thread._global_shutdown_lock = SimLock(s)
    concurrent.futures.thread.queue.SimpleQueue = queue._PySimpleQueue
    atexit.register = _register
    atexit.unregister = _unregister


def _unpatch():
    for space, k, v in _saved.pop('bound', ()):
        setattr(space, k, v)
    threading.Thread.__hash__ = object.__hash__
    threading._allocate_lock = _real['alloc']
    threading.Lock = _real['Lock']
    threading.RLock = _real['RLock']
    threading._start_new_thread = _real['start']
    threading._set_sentinel = _real['sentinel']
    threading.excepthook = _real['excepthook']
    queue.SimpleQueue = _real['SimpleQueue']
    multiprocessing.JoinableQueue = _real['JoinableQueue']
    multiprocessing.Queue = _real['Queue']
    multiprocessing.Process = _real['Process']
    concurrent.futures.ProcessPoolExecutor = _real['PPE']
    concurrent.futures.thread._global_shutdown_lock = _saved['gsl']
    atexit.register = _real['atexit_register']
    atexit.unregister = _real['atexit_unregister']
    for lock in [x for x in threading._shutdown_locks if isinstance(x, SimLock)]:
        threading._shutdown_locks.discard(lock)
    for key, th in list(threading._active.items()):
        if getattr(th, '_sim', None) is not None or isinstance(th, threading._DummyThread):
            del threading._active[key]
    concurrent.futures.thread._threads_queues.clear()
    concurrent.futures.thread._shutdown = False


# -- preemption before every source line of qtune -----------------------------------------------------------------
_TOOL = 3
_codes = []


def _collect_codes(modules):
    seen = set()
    out = []

    def code(c, root):
        if c in seen or not c.co_filename.startswith(root):
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                code(k, root)

    def obj(o, root, depth=0):
        if depth > 4:
            return
        o = getattr(o, '__func__', o)
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    obj(f, root, depth + 1)
        elif isinstance(o, type):
            for v in vars(o).values():
                obj(v, root, depth + 1)
        elif hasattr(o, '__code__'):
            code(o.__code__, root)
            for cell in (o.__closure__ or ()):
                try:
                    obj(cell.cell_contents, root, depth + 1)
                except ValueError:
                    pass
            if hasattr(o, '__wrapped__'):
                obj(o.__wrapped__, root, depth + 1)
    for m, root in modules:
        for v in list(vars(m).values()):
            if isinstance(v, type) and getattr(v, '__module__', None) != m.__name__:
                continue
            obj(v, root)
    return out


def setup_lines(modules):
    """modules: list of (module, path prefix of its sources)"""
    mon = sys.monitoring
    _codes.extend(c for c in _collect_codes(modules) if c not in _codes)
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'sim')
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)


def _on_line(code, line):
    s = ACTIVE[0]
    if s is not None and s.current is not None and s.current.ident == _thread.get_ident():
        s.preempt()


def _lines_on(only=None):
    for c in _codes:
        if only and not c.co_filename.endswith(only):
            continue
        sys.monitoring.set_local_events(_TOOL, c, sys.monitoring.events.LINE)


def _lines_off():
    for c in _codes:
        sys.monitoring.set_local_events(_TOOL, c, 0)
