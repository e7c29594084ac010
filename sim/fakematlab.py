"""A simulated MATLAB: shared sessions with a special-measure set-up, and the part of matlab.engine which qtune uses.

Arguments are accepted and converted like the engine does (no numpy arrays, no generators); arrays are column-major and have at least
two dimensions.  Every call of a function can fail before or after it took effect."""
import copy
import re
import sys
import types
import weakref

import numpy as np

GATES = ('SB', 'BB', 'T', 'N', 'SA', 'BA', 'RFA', 'RFB', 'SDB1', 'SDB2')
SCANS = ('PythonChargeLineScan', 'PythonLineScan', 'LeadScan', 'LoadScan', 'PythonQPCScan2D')


class EngineError(Exception):
    pass


class MatlabExecutionError(Exception):
    pass


class RejectedExecutionError(Exception):
    pass


ERRORS = dict(matlab=MatlabExecutionError, rejected=RejectedExecutionError, system=SystemError, interrupt=KeyboardInterrupt)
ALL_ERRORS = tuple(ERRORS.values())


class Array:
    """Like matlab.double"""

    def __init__(self, a, kind):
        a = np.asarray(a)
        self.a = a if a.ndim > 1 else a.reshape(1, -1)
        self.kind = kind

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    @property
    def size(self):
        return tuple(self.a.shape)

    def __len__(self):
        return len(self.a)

    def __getitem__(self, k):
        return self.a[k].tolist()


def accept(x):
    """The value MATLAB sees."""
    if isinstance(x, (bool, int, float, str, bytes)) and not (isinstance(x, np.generic) and not isinstance(x, np.float64)):
        return float(x) if isinstance(x, np.float64) else x
    if isinstance(x, Array):
        return Array(x.a.copy(), x.kind)
    if isinstance(x, dict):
        if not all(isinstance(k, str) and k.isidentifier() for k in x):
            raise ValueError('invalid field for MATLAB struct')
        return {k: accept(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [accept(v) for v in x]
    raise TypeError('unsupported Python data type: %s' % type(x).__name__)


class Session:
    """One MATLAB process"""
    number = 1000

    def __init__(self, name=None, volts=None, quantum=0., far=1e9, own=None, smdata=True, ours=None):
        Session.number += 1
        self.pid = Session.number
        self.name = name
        self.volts = dict(volts or {g: 0. for g in GATES})
        self.pretuned = dict(self.volts)
        self.quantum = quantum
        self.far = far
        self.path = [own] if own else []
        self.smdata = smdata
        self.requested = []          # what was set
        self.scans = []              # (function, arguments)
        self.setups = []
        self.calls = 0
        self.faults = []
        self.fired = []
        self.engine = None
        self.data = {}
        self.variables = {}
        self.model = None            # analysis of tune

    def arm(self, faults=()):
        self.calls = 0
        self.faults = [dict(f) for f in faults or ()]
        self.fired = []

    def fault(self, when):
        for f in self.faults:
            if f['n'] == self.calls and f['when'] == when:
                self.fired.append((f['kind'], when))
                raise ERRORS[f['kind']]('simulated')

    def call(self, name, args):
        args = [accept(a) for a in args]
        if name in ('eval', 'util.py.my_eval') and args and str(args[0]).startswith(('functions(', 'numel(', 'size(')):
            # asking what a name is may fail for good reasons; numpy asks for lengths which it does not need
            return self.run(name, args)
        self.calls += 1
        self.fault('before')
        r = self.run(name, args)
        self.fault('after')
        return r

    def assign(self, name, value):
        if not name.isidentifier():
            raise ValueError('invalid variable name')
        value = accept(value)
        self.calls += 1
        self.fault('before')
        self.variables[name] = value
        self.fault('after')

    def tune(self, name, index, *pairs):
        """The tune script of the QQD set-up"""
        self.need()
        if not isinstance(name, str) or not isinstance(index, float) or len(pairs) % 2 or not all(isinstance(k, str) for k in pairs[::2]):
            raise MatlabExecutionError('tune: wrong arguments')
        n = len(self.scans) + 1
        options = dict(zip(pairs[::2], pairs[1::2]))
        self.scans.append(('tune', dict(name=name, index=index, pairs=list(pairs))))
        d = dict(args=dict(options, operation=name, index=index, fullFile='sm_%s_%d_%d' % (name.replace(' ', '_'), self.pid, n)),
                 data=Array(np.sin(np.arange(6.) * n).reshape(2, 3), 'double'),
                 ana=dict(STp_x=0.5 * n, STp_y=-0.25 * n, Tp_x=1.5 * n, Tp_y=3. * n, width=1. / n), successful=True)
        if self.model is not None:
            d['ana'] = self.model(name, int(index), self.volts, options)
        self.data[n] = d
        return d

    def run(self, name, args):
        if name in ('qtune.read_gate_voltages', 'qtune.read_qqd_gate_voltages'):
            self.need()
            return dict(self.volts)
        if name in ('qtune.set_gates_v_pretuned', 'qtune.set_qqd_gate_voltages'):
            self.need()
            return self.set(args[0], complete=name == 'qtune.set_gates_v_pretuned')
        if name.startswith('qtune.') and name[6:] in SCANS:
            self.need()
            self.scans.append((name[6:], args[0]))
            n = len(self.scans)
            a = np.sin(np.arange(12.) * n) if n % 3 else np.cos(np.arange(12.) * n).reshape(3, 4)
            self.data[n] = Array(a, 'double').a.copy()
            return Array(a, 'double')
        if name == 'qtune.find_qtune':
            if not self.path:
                raise MatlabExecutionError("Unable to resolve the name 'qtune.find_qtune'.")
            return self.path[0]
        if name == 'addpath':
            self.path.insert(0, args[0])
            return ''
        if name == 'exist':
            return float(args[0] == 'smdata' and self.smdata or args[0] in self.variables)
        if name == 'struct' and not args:
            return {}
        if name in ('eval', 'util.py.my_eval'):
            return Interpreter(self).run(args[0])
        if name == 'feature' and args == ['getpid']:
            return float(self.pid)
        if name == 'matlab.engine.engineName':
            return self.name or ''
        if name == 'setup_lab':
            self.setups.append(name)
            self.smdata = True
            return None
        if name == 'setup_nothing':
            self.setups.append(name)
            return None
        if name == 'typecast':
            kinds = {'double': 'float64', 'single': 'float32', 'int32': 'int32', 'uint64': 'uint64'}
            if not isinstance(args[0], bytes) or args[1] not in kinds:
                raise MatlabExecutionError('typecast')
            return Array(np.frombuffer(args[0], dtype=kinds[args[1]]), args[1])
        if name == 'reshape':
            dims = [int(x) for x in args[1:]]
            if len(dims) < 2 or int(np.prod(dims)) != args[0].a.size:
                raise MatlabExecutionError('reshape')
            return Array(args[0].a.reshape(dims, order='F'), args[0].kind)
        if name == 'transpose':
            if args[0].a.ndim != 2:
                raise MatlabExecutionError('Transpose on ND array is not defined.')
            return Array(args[0].a.T, args[0].kind)
        raise MatlabExecutionError("Unrecognized function '%s'" % name)

    def need(self):
        if not self.path:
            raise MatlabExecutionError('qtune is not on the path')
        if not self.smdata:
            raise MatlabExecutionError('smdata is not defined')

    def set(self, new, complete):
        if complete and set(GATES) - set(new):
            raise MatlabExecutionError('Reference to non-existent field')
        if set(new) - set(GATES) and not complete:
            raise MatlabExecutionError('no such channel')
        if not all(isinstance(x, float) for x in new.values()):
            raise MatlabExecutionError('cell2mat')
        new = {g: new[g] for g in new if g in GATES}
        self.requested.append(new)
        if any(abs(self.pretuned[g] - x) > self.far for g, x in new.items()):
            self.volts = dict(self.pretuned)
            raise MatlabExecutionError('The dot is too far away from pretuned point!')
        for g, x in new.items():
            self.volts[g] = round(x / self.quantum) * self.quantum if self.quantum else x
        return dict(self.volts)


END = (None, None)


class Interpreter:
    """The little MATLAB which the views of qtune evaluate: assignments to variables, fields and cells, calls, literals."""
    TOKEN = re.compile(r"\s*(?:(\d+\.?\d*)|([A-Za-z_]\w*)|('(?:[^']|'')*')|(.))")

    def __init__(self, session):
        self.s = session

    def run(self, code):
        code = code.strip().rstrip(';')
        self.t = []
        for num, ident, text, other in self.TOKEN.findall(code):
            self.t.append(('n', float(num)) if num else ('i', ident) if ident else ('s', text[1:-1].replace("''", "'")) if text else ('o', other))
        self.k = 0
        depth = 0
        for k, (kind, x) in enumerate(self.t):
            if kind == 'o' and x in '({[':
                depth += 1
            elif kind == 'o' and x in ')}]':
                depth -= 1
            elif kind == 'o' and x == '=' and not depth:
                left, self.t = self.t[:k], self.t[k + 1:]
                # a variable which replaces itself does not have to be copied
                self.store(left, self.whole(), code.startswith('%s = subsasgn(%s,' % (left[0][1], left[0][1])))
                return None
        return copy.deepcopy(self.whole())

    def whole(self):
        v = self.sum()
        if self.k != len(self.t):
            raise SyntaxError('unexpected MATLAB expression')
        return v

    def peek(self, x=None):
        t = self.t[self.k] if self.k < len(self.t) else END
        return t if x is None else t[1] == x and t[0] == 'o'

    def take(self, x=None):
        t = self.peek()
        if t[0] is None or x is not None and t != ('o', x):
            raise SyntaxError('unexpected MATLAB expression')
        self.k += 1
        return t

    def store(self, left, value, own=False):
        names = [left[0][1]]
        k = 1
        if left[0][0] != 'i':
            raise SyntaxError('unexpected MATLAB expression')
        while k < len(left) and left[k] == ('o', '.'):
            names.append(left[k + 1][1])
            k += 2
        rest = left[k:]
        value = value if own else copy.deepcopy(value)
        home = self.s.variables
        for n in names[:-1]:
            home = home.setdefault(n, {})
        if not rest:
            home[names[-1]] = value
        elif rest == [('o', '{'), ('i', 'end'), ('o', '+'), ('n', 1.), ('o', '}')]:
            home[names[-1]] = list(home.get(names[-1]) or []) + [value]
        else:
            raise SyntaxError('unexpected MATLAB expression')

    def sum(self):
        v = self.value()
        while self.peek('+') or self.peek('-'):
            op = self.take()[1]
            w = self.value()
            v = v + w if op == '+' else v - w
        return v

    def items(self, end):
        out = []
        while not self.peek(end):
            v = self.sum()
            out += v.values if isinstance(v, Expanded) else [v]
            if self.peek(','):
                self.take()
        self.take(end)
        return out

    def value(self):
        kind, x = self.take()
        if kind in 'ns':
            return x
        if (kind, x) == ('o', '-'):
            return -self.value()
        if (kind, x) == ('o', '{'):
            return self.items('}')
        if (kind, x) == ('o', '['):
            v = self.items(']')
            return Array(np.array(v, dtype=float), 'double') if v else None
        if (kind, x) == ('o', '@'):
            names = [self.take()[1]]
            while self.peek('.'):
                self.take()
                names.append(self.take()[1])
            return Handle('.'.join(names))
        if kind != 'i':
            raise SyntaxError('unexpected MATLAB expression')
        if x in self.s.variables:
            v = self.s.variables[x]
        else:
            while self.peek('.'):
                self.take()
                x += '.' + self.take()[1]
            args = []
            if self.peek('('):
                self.take()
                args = self.items(')')
            v = self.function(x, args)
        while True:
            if self.peek('.'):
                self.take()
                v = field(v, self.take()[1])
            elif self.peek('{'):
                self.take()
                if self.peek(':'):
                    self.take()
                    self.take('}')
                    return Expanded(v)
                v = cell(v, self.items('}'))
            elif self.peek('('):
                self.take()
                v = element(v, self.items(')'))
            else:
                return v

    def function(self, name, args):
        if name == 'struct':
            if not args:
                return {}
            v = args[1::2]
            if any(isinstance(x, list) and len(x) != 1 for x in v):
                raise MatlabExecutionError('only single structs')
            return {k: x[0] if isinstance(x, list) else x for k, x in zip(args[::2], v)}
        if name == 'subsref':
            return {'.': field, '{}': cell, '()': element}[args[1]['type']](args[0], args[1]['subs'])
        if name == 'subsasgn' and args[1]['type'] == '.':
            return dict(args[0], **{args[1]['subs']: args[2]})
        if name == 'functions' and isinstance(args[0], Handle):
            return dict(function=args[0].name, type='simple', file='tune.m' if args[0].name == 'tune.tune' else '')
        if name == 'isstruct':
            return isinstance(args[0], dict) or isinstance(args[0], Structs)
        if name == 'iscell':
            return isinstance(args[0], list) and not isinstance(args[0], Structs)
        if name == 'istable':
            return False
        if name == 'isscalar':
            return not isinstance(args[0], (list, Array)) or numel(args[0]) == 1
        if name == 'numel':
            return float(numel(args[0]))
        if name == 'fieldnames':
            return list(args[0])
        if name == 'isfield':
            return isinstance(args[0], dict) and args[1] in args[0]
        if name == 'rmfield':
            return {k: v for k, v in args[0].items() if k != args[1]}
        if name == 'clear':
            for a in args:
                self.s.variables.pop(a, None)
            return None
        if name == 'exist':
            return float(args[0] in self.s.variables)
        if name == 'tune.tune':
            return self.s.tune(*args)
        raise MatlabExecutionError("Unrecognized function or variable '%s'" % name)


class Expanded:
    def __init__(self, values):
        self.values = list(values or [])


class Handle:
    def __init__(self, name):
        self.name = name


class Structs(list):
    """A struct array"""


def numel(x):
    return x.a.size if isinstance(x, Array) else len(x) if isinstance(x, (list, str)) else 1


def field(x, name):
    if isinstance(x, Structs) and len(x) == 1:
        x = x[0]
    if not isinstance(x, dict) or name not in x:
        raise MatlabExecutionError("Unrecognized field name '%s'" % name)
    return x[name]


def index(i):
    i = [int(k) for k in (i if isinstance(i, list) else [i])]
    if any(k < 1 for k in i):
        raise MatlabExecutionError('Index must be a positive integer')
    return [k - 1 for k in i]


def element(x, i):
    i = index(i)
    if isinstance(x, Structs):
        if i[0] >= len(x):
            raise MatlabExecutionError('Index exceeds the number of array elements')
        return x[i[0]]
    if isinstance(x, Array):
        return float(x.a.flatten(order='F')[i[0]] if len(i) == 1 else x.a[tuple(i)])
    if i != [0]:
        raise MatlabExecutionError('Index exceeds the number of array elements')
    return x


def cell(x, i):
    if not isinstance(x, list) or isinstance(i, str):
        raise MatlabExecutionError('Brace indexing is not supported')
    return x[index(i)[0]]


class Workspace:
    def __init__(self, session):
        self._session = session

    def __getitem__(self, name):
        return copy.deepcopy(self._session.variables[name])

    def __setitem__(self, name, value):
        self._session.assign(name, value)


class Function:
    def __init__(self, engine, name):
        self._engine, self._name = engine, name

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Function(self._engine, self._name + '.' + name)

    def __call__(self, *args, stdout=None, stderr=None, nargout=1):
        return self._engine._session.call(self._name, args)


class MatlabEngine:
    def __init__(self, session):
        self._session = session
        self.workspace = Workspace(session)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return Function(self, name)


class World:
    """All sessions; what start_matlab and connect_matlab do."""

    def __init__(self):
        self.reset()

    def reset(self):
        Session.number = 1000
        self.shared = {}
        self.started = []
        self.connects = []
        self.refused = 0
        self.template = {}

    def start(self, args):
        s = Session(**self.template)
        self.started.append((s, args))
        e = MatlabEngine(s)
        s.engine = weakref.ref(e)
        return e

    def connect(self, name=None):
        if name is None:
            free = [n for n, s in self.shared.items() if not (s.engine and s.engine() is not None)]
            if not free:
                self.refused += 1
                raise EngineError('all shared sessions are connected already')
            name = free[0]
        if not isinstance(name, str) or name not in self.shared:
            raise EngineError('no such session: %r' % (name,))
        s = self.shared[name]
        if s.engine and s.engine() is not None:
            self.refused += 1
            raise EngineError('%s is already connected' % name)
        self.connects.append(name)
        e = MatlabEngine(s)
        s.engine = weakref.ref(e)
        return e


WORLD = World()


def install():
    if 'matlab.engine' in sys.modules:
        return
    m, e = types.ModuleType('matlab'), types.ModuleType('matlab.engine')
    m.engine = e
    e.MatlabEngine, e.MatlabExecutionError, e.EngineError, e.RejectedExecutionError = MatlabEngine, MatlabExecutionError, EngineError, \
        RejectedExecutionError
    e.start_matlab = lambda args='-nodesktop': WORLD.start(args)
    e.connect_matlab = lambda name=None: WORLD.connect(name)
    sys.modules['matlab'], sys.modules['matlab.engine'] = m, e
