"""Seeded search: runs scenarios in worker processes, minimises a failing one and writes evidence and replay files."""
import collections
import gc
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import traceback

from . import clock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = clock.real['time']
HANG = 120.0           # real seconds after which a single run counts as hanging
SCRATCH = None


def scratch():
    """A directory for the files of this process; it is the working directory, too."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH')
        d = tempfile.mkdtemp(prefix='w', dir=base)
        SCRATCH = (os.getpid(), d)
        os.chdir(d)
    return SCRATCH[1]


def run_one(mod, sc):
    """A pure function of the scenario and the code under test."""
    from . import boot
    boot.reset()
    gc.disable()
    try:
        return mod.execute(sc)
    finally:
        gc.enable()


def relevant(prop, res):
    return [v for v in res.violations if v[0] == prop or v[0] == '*']


def dumps(x):
    return json.dumps(x, sort_keys=True)


def worker(mod, seeds, wfd, deadline, prop):
    out = os.fdopen(wfd, 'wb', buffering=0)

    def send(msg):
        data = pickle.dumps(msg)
        out.write(struct.pack('<I', len(data)) + data)
    try:
        scratch()
        k = 0
        for s in seeds:
            if now() > deadline:
                break
            send(('start', s))
            sc = None
            try:
                sc = mod.generate(s)
                res = run_one(mod, sc)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                send(('error', s, ''.join(traceback.format_exception(e))[-4000:]))
                continue
            viol = relevant(prop, res)
            send(('done', s, dict(viol=viol, other=[v[:2] for v in res.violations if v not in viol], probes=res.probes,
                                  faults=res.faults, digest=res.digest, steps=res.steps, abstract=res.abstract,
                                  extra=getattr(res, 'extra', {}), nontrivial=mod.nontrivial(sc, res),
                                  sim=getattr(res, 'sim_seconds', 0.0)), sc if (viol or k == 0) else None))
            k += 1
            if k % 10 == 0:
                gc.collect()
        send(('end',))
    except BaseException:
        try:
            send(('error', -1, traceback.format_exc()[-4000:]))
        except Exception:
            pass
    finally:
        try:
            os.chdir('/')
            if SCRATCH and SCRATCH[0] == os.getpid():
                shutil.rmtree(SCRATCH[1], ignore_errors=True)
        finally:
            os._exit(0)


class Search:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.faults = collections.Counter()
        self.fault_runs = 0
        self.probes = collections.Counter()
        self.digests = set()
        self.nontrivial = set()
        self.abstract = set()
        self.extra = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.sim = 0.0
        self.failing = []
        self.errors = []
        self.samples = []
        self.others = collections.Counter()
        self.hangs = []
        self.wall = 0.0
        self.max_seed = 0


def search(mod, prop, base, seconds, jobs, max_runs, stop_after=1):
    st = Search()
    t0 = now()
    deadline = t0 + seconds
    procs = {}
    for w in range(jobs):
        r, wr = os.pipe()
        seeds = range(base + w, base + max_runs, jobs)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs.values():
                os.close(p['fd'])
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            worker(mod, seeds, wr, deadline, prop)
            os._exit(0)
        os.close(wr)
        procs[pid] = dict(fd=r, buf=b'', seed=None, since=now(), done=False)
    while procs:
        ready, _, _ = select.select([p['fd'] for p in procs.values()], [], [], 1.0)
        for pid, p in list(procs.items()):
            if p['fd'] in ready:
                data = os.read(p['fd'], 1 << 20)
                p['buf'] += data
                while len(p['buf']) >= 4:
                    n, = struct.unpack('<I', p['buf'][:4])
                    if len(p['buf']) < 4 + n:
                        break
                    msg = pickle.loads(p['buf'][4:4 + n])
                    p['buf'] = p['buf'][4 + n:]
                    _message(st, p, msg)
                if not data:
                    os.close(p['fd'])
                    os.waitpid(pid, 0)
                    if not p['done'] and p['seed'] is not None and not p.get('killed'):
                        st.errors.append((p['seed'], 'a worker process died'))
                    del procs[pid]
                    continue
            if p['seed'] is not None and now() - p['since'] > HANG and not p.get('killed'):
                st.hangs.append(p['seed'])
                p['killed'] = True
                os.kill(pid, signal.SIGKILL)
        if (len(st.failing) >= stop_after or st.hangs) and not st.__dict__.get('stopping'):
            st.stopping = now()
        if st.__dict__.get('stopping') and now() - st.stopping > (0.5 if st.failing else 0):
            for pid, p in procs.items():
                if not p.get('killed'):
                    p['killed'] = True
                    os.kill(pid, signal.SIGKILL)
    st.wall = now() - t0
    return st


def _message(st, p, msg):
    if msg[0] == 'start':
        p['seed'], p['since'] = msg[1], now()
    elif msg[0] == 'end':
        p['done'] = True
        p['seed'] = None
    elif msg[0] == 'error':
        st.errors.append((msg[1], msg[2]))
        p['seed'] = None
    else:
        _, seed, d, sc = msg
        p['seed'] = None
        st.runs += 1
        st.max_seed = max(st.max_seed, seed)
        st.steps += d['steps']
        st.faults.update(d['faults'])
        st.fault_runs += bool(d['faults'])
        st.probes.update(d['probes'])
        st.digests.add(d['digest'])
        if d['nontrivial']:
            st.nontrivial.add(d['digest'])
        st.abstract |= d['abstract']
        st.sim += d['sim']
        st.others.update(d['other'])
        for k, v in d['extra'].items():
            if isinstance(v, (set, frozenset)):
                st.sets[k] |= v
            else:
                st.extra[k] += v
        if d['viol']:
            st.failing.append((seed, sc, d['viol']))
        elif sc is not None and len(st.samples) < 2:
            st.samples.append((seed, sc))


# -- minimisation ---------------------------------------------------------------------------------------------------
def forked(fn, timeout):
    """fn() in a child process; returns its (pickled) result, 'hang' or None if the child failed."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            scratch()
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                os.chdir('/')
                if SCRATCH and SCRATCH[0] == os.getpid():
                    shutil.rmtree(SCRATCH[1], ignore_errors=True)
            finally:
                os._exit(0)
    os.close(w)
    buf = b''
    end = now() + timeout
    hang = False
    while True:
        left = end - now()
        if left <= 0:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], min(left, 1.0))
        if ready:
            data = os.read(r, 1 << 20)
            if not data:
                break
            buf += data
    os.close(r)
    os.waitpid(pid, 0)
    if hang:
        return 'hang'
    return pickle.loads(buf) if buf else None


def minimise(mod, prop, sc, kind, seconds):
    """Greedy reduction while a violation of the same kind remains; runs in one child per batch for isolation."""
    def work():
        best = sc
        end = now() + seconds
        tried = 0
        improved = True
        while improved and now() < end:
            improved = False
            for cand in mod.shrink(best):
                if now() > end:
                    break
                tried += 1
                try:
                    res = run_one(mod, cand)
                except Exception:
                    continue
                if any(v[1] == kind for v in relevant(prop, res)):
                    best = cand
                    improved = True
                    break
            if tried % 20 == 0:
                gc.collect()
        return best, tried
    out = forked(work, seconds + 60)
    if out is None or out == 'hang':
        return sc, 0
    return out


def ddmin(ops, make):
    """Candidates with chunks of operations removed, large chunks first."""
    n = len(ops)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            rest = ops[:start] + ops[start + size:]
            if len(rest) < n:
                yield make(rest)
        size //= 2


def replay_file(path, quiet=False):
    """Runs the scenario of a replay file; returns (property, violations)."""
    from . import registry
    with open(path) as f:
        doc = json.load(f)
    mod = registry.module(doc['property'])
    timeout = HANG
    out = forked(lambda: relevant(doc['property'], run_one(mod, doc['scenario'])), timeout)
    if out == 'hang':
        out = [('*', 'hang', 'the run does not end')]
    return doc, out


# -- command ----------------------------------------------------------------------------------------------------------
def known_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: '):
                    fields = dict(x.split('=', 1) for x in line.split()[1:3])
                    out.append((fields['property'], fields['kind'], line.strip()))
    return out


def main(prop, tier, seed, seconds=None, jobs=None, max_runs=None):
    from . import registry
    mod = registry.module(prop)
    if seconds is None:
        seconds = float(os.environ.get('VERIF_SECONDS') or mod.SECONDS.get(tier, 25 if tier == 'quick' else 600))
    jobs = jobs or int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    max_runs = max_runs or int(os.environ.get('VERIF_MAX_RUNS') or 10 ** 7)
    base = (seed * 10 ** 8)
    t0 = now()
    print('seed %d: property %s, tier %s, scenarios %d.., %d workers, %.0f s' % (seed, prop, tier, base, jobs, seconds))
    sys.stdout.flush()
    tmp = tempfile.mkdtemp(prefix='verif_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['VERIF_SCRATCH'] = tmp
    try:
        return _main(mod, prop, tier, seed, base, seconds, jobs, max_runs, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


def _main(mod, prop, tier, seed, base, seconds, jobs, max_runs, t0):
    known = [k for k in known_findings() if k[0] == prop]
    st = search(mod, prop, base, seconds, jobs, max_runs, stop_after=1 if not known else 10 ** 9)
    listed = collections.Counter()
    new = []
    for s, sc, viol in sorted(st.failing, key=lambda x: x[0]):
        for v in viol:
            hits = [k for k in known if k[1] == v[1]]
            if hits:
                listed[hits[0][2]] += 1
            else:
                new.append((s, sc, v))
                break
    for s in st.hangs:
        new.append((s, None, ('*', 'hang', 'the run does not end')))
    rc = 0
    lines = []
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s (%d times)' % (prop, k[2], listed[k[2]]))
    if new:
        s, sc, v = new[0]
        if sc is None:
            sc = mod.generate(s)
            best, tried = sc, 0
        else:
            best, tried = minimise(mod, prop, sc, v[1], mod.SECONDS.get('shrink', 45))
        doc = dict(property=prop, kind=v[1], seed=s, verif_seed=seed, scenario=best, tried=tried, message=v[2])
        outdir = os.path.join(VERIF, 'replays')
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, '%s-%s.json' % (prop, hashlib.blake2b(dumps(best).encode(), digest_size=5).hexdigest()))

        def write():
            with open(path, 'w') as f:
                json.dump(doc, f, indent=1)
        write()
        out = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SCRATCH=os.environ['VERIF_SCRATCH']))
        again = out.returncode == 1
        if not again and best is not sc:
            doc['scenario'] = sc
            write()
            out = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True)
            again = out.returncode == 1
        for line in out.stdout.splitlines():
            if line.startswith('  '):
                lines.append(line)
        if not again and v[1] == 'hang':
            print('scenario %d took long while the machine was busy, but ends' % s)
            new = []
        elif not again:
            lines.append('  (the replay in a fresh process did not fail: %s)' % out.stdout[-500:])
        if new:
            lines.append('  scenario %d, reduced from %d to %d bytes by %d runs: %s' % (
                s, len(dumps(sc)), len(dumps(doc['scenario'])), tried, v[2]))
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
    elif st.errors:
        rc = 2
    wall = now() - t0
    write_evidence(mod, prop, tier, seed, base, st, wall, len(new), jobs)
    for e in st.errors[:3]:
        print('HARNESS ERROR in scenario %d: %s' % e)
    print('%d runs, %d steps, %d distinct, %d distinct and non-trivial, %d abstract states, faults %s' % (
        st.runs, st.steps, len(st.digests), len(st.nontrivial), len(st.abstract), dict(st.faults)))
    zero = [p for p in getattr(mod, 'PROBES', {}).get(prop, []) if not st.probes.get(p)]
    if zero:
        print('probes which were never hit: %s' % zero)
    for line in lines:
        print(line)
    sys.stdout.flush()
    return rc


def write_evidence(mod, prop, tier, seed, base, st, wall, violations, jobs):
    info = mod.info(prop)
    hours = max(st.wall, 1e-3) / 3600
    cov = dict(
        evaluations=st.runs,
        distinct_nontrivial=len(st.nontrivial),
        rule=info['rule'],
        samples=[dict(scenario_seed=s, scenario=sc) for s, sc in st.samples[:1]] or [dict(note='no run was completed')],
        distinct_executions=len(st.digests),
        steps=st.steps,
        runs_per_hour=int(st.runs / hours),
        seeds='%d .. %d' % (base, st.max_seed),
        workers=jobs,
        simulated_seconds=round(st.sim, 3),
        faults_injected=dict(sorted(st.faults.items())),
        runs_with_faults=st.fault_runs,
        rare_conditions_hit=dict(sorted(st.probes.items())),
        distinct_abstract_states=len(st.abstract),
        abstract_state_measure=info.get('measure', ''),
        real_components=info['real'],
        stubbed_components=info['stub'],
        other_properties_seen_broken={'%s/%s' % k: n for k, n in sorted(st.others.items())},
    )
    for k, v in st.sets.items():
        cov['distinct_' + k] = len(v)
    for k, v in st.extra.items():
        cov[k] = v
    doc = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
               assumptions=info['assumptions'], wall_s=round(wall, 3), violations=violations)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, path)
