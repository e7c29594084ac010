"""Imports the code under test from /repo behind the simulated clock, deterministically."""
import json
import os
import sys
import gc
import random
import types
import warnings
import logging

REPO = os.environ.get('VERIF_REPO', '/repo')
THREAD_ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen',
                  OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
_done = False


def ensure_env(argv):
    """Re-executes the interpreter with a fixed environment if necessary."""
    want = dict(THREAD_ENV)
    if os.environ.get('VERIF_HASHSEED'):
        want['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
    mpl = '/opt/vp/mpl'
    if 'MPLCONFIGDIR' not in os.environ and os.path.isdir(mpl):
        pass
    shim = needs_shim(argv) and not os.environ.get('VERIF_SHIM')
    if any(os.environ.get(k) != v for k, v in want.items()) or not os.environ.get('VERIF_BOOT') or shim:
        import tempfile
        env = dict(os.environ, **want)
        env['VERIF_BOOT'] = '1'
        env.pop('VERIF_TMP', None)
        if 'MPLCONFIGDIR' not in env or shim:
            tmp = tempfile.mkdtemp(prefix='verif_tmp_')
            env['VERIF_TMP'] = '%d:%s' % (os.getpid(), tmp)
            env.setdefault('MPLCONFIGDIR', tmp)
            if shim:
                build_shim(tmp, env)
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = sys.executable
        os.execve(py, [py] + argv, env)


def needs_shim(argv):
    if '--selftest' in argv or 'C18' in argv:
        return True
    if '--replay' in argv:
        try:
            with open(argv[argv.index('--replay') + 1]) as f:
                return json.load(f).get('property') == 'C18'
        except (OSError, ValueError, IndexError):
            return False
    return False


def build_shim(tmp, env):
    """Compiles the library which records and fails file operations; it is preloaded by the new interpreter."""
    import subprocess
    so = os.path.join(tmp, 'ioshim.so')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'ioshim.c')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl'], check=True)
    env['VERIF_SHIM'] = so
    env['LD_PRELOAD'] = so + (' ' + env['LD_PRELOAD'] if env.get('LD_PRELOAD') else '')


def remove_tmp():
    """Removes the temporary directory of this process, not the one of a parent."""
    import shutil
    pid, _, tmp = os.environ.get('VERIF_TMP', '').partition(':')
    if pid == str(os.getpid()) and os.path.basename(tmp).startswith('verif_tmp_'):
        shutil.rmtree(tmp, ignore_errors=True)


class FakeQt:
    """Minimal stand-ins for Qt and pyqtgraph; only what a GUI object without event loop needs."""
    deliver = False          # signals reach their slots at once
    current = None           # whose signal is delivered
    created = None           # list of all widgets

    class Signal:
        def __init__(self, *a, **k):
            self.slots = []

        def __get__(self, obj, cls=None):
            if obj is None:
                return self
            store = obj.__dict__.setdefault('_sim_signals', {})
            if id(self) not in store:
                store[id(self)] = FakeQt.Bound(obj)
            return store[id(self)]

    class Bound:
        def __init__(self, owner=None):
            self.slots = []
            self.emitted = 0
            self.owner = owner

        def connect(self, f, *a):
            self.slots.append(f)

        def disconnect(self, *a):
            raise TypeError('not connected')

        def emit(self, *a):
            self.emitted += 1
            if FakeQt.deliver:
                before, FakeQt.current = FakeQt.current, self.owner
                try:
                    for f in list(self.slots):
                        f(*a)
                finally:
                    FakeQt.current = before

    class Widget:
        def __init__(self, *a, **k):
            self._children = []
            self.enabled = True
            self._items = []
            self._index = 0
            self.text_ = a[0] if a and isinstance(a[0], str) else ''
            self.clicked = FakeQt.Bound(self)
            self.editingFinished = FakeQt.Bound(self)
            self.currentIndexChanged = FakeQt.Bound(self)
            if FakeQt.created is not None:
                FakeQt.created.append(self)

        def setEnabled(self, v):
            self.enabled = bool(v)

        def isEnabled(self):
            return self.enabled

        def addItem(self, text, data=None):
            self._items.append((text, data))

        def itemData(self, i):
            return self._items[i][1]

        def count(self):
            return len(self._items)

        def setCurrentIndex(self, i):
            self._index = i

        def setText(self, t):
            self.text_ = t

        def text(self):
            return self.text_

        def addWidget(self, *a, **k):
            self._children.append(a)

        def close(self):
            return True

        def sender(self):
            return FakeQt.current

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *a, **k: None


def _stub_gui_modules():
    W = FakeQt.Widget

    def mod(name, **attrs):
        m = types.ModuleType(name)
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m

    class Magic:
        def magic(self, *a, **k):
            pass

        run_line_magic = magic
        enable_gui = magic
    mod('IPython', get_ipython=lambda: Magic())

    def pyqtSlot(*a, **k):
        return lambda f: f
    QtCore = mod('pyqtgraph.Qt.QtCore', QObject=type('QObject', (W,), {}), pyqtSlot=pyqtSlot, pyqtSignal=FakeQt.Signal,
                 Qt=types.SimpleNamespace(TextSelectableByKeyboard=1, TextSelectableByMouse=2, Window=1))
    widgets = {n: type(n, (W,), {}) for n in ('QMainWindow', 'QPushButton', 'QLabel', 'QLineEdit', 'QComboBox', 'QTextEdit',
                                              'QWidget')}
    QtWidgets = mod('pyqtgraph.Qt.QtWidgets', **widgets)
    QtGui = mod('pyqtgraph.Qt.QtGui', QIntValidator=type('QIntValidator', (W,), {}), QCloseEvent=object)
    Qt = mod('pyqtgraph.Qt', QtCore=QtCore, QtWidgets=QtWidgets, QtGui=QtGui)
    pt = mod('pyqtgraph.parametertree', Parameter=W, ParameterTree=W)
    mw = mod('pyqtgraph.widgets.MatplotlibWidget', MatplotlibWidget=type('MatplotlibWidget', (W,), {}))
    wid = mod('pyqtgraph.widgets', MatplotlibWidget=mw)
    mod('pyqtgraph', LayoutWidget=type('LayoutWidget', (W,), {}), PlotWidget=type('PlotWidget', (W,), {}),
        ErrorBarItem=W, intColor=lambda *a, **k: 0, parametertree=pt, Qt=Qt, widgets=wid)


def boot(gui=False):
    global _done
    if _done:
        return
    _done = True
    warnings.simplefilter('ignore')
    import numpy, pandas, h5py, scipy, scipy.optimize, scipy.ndimage, sympy, filterpy.kalman      # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot                                                                       # noqa
    import concurrent.futures.thread, multiprocessing, multiprocessing.queues, queue, threading    # noqa
    import concurrent.futures.process                                                              # noqa
    from . import clock
    clock.install()
    sys.path.insert(0, REPO)
    _stub_gui_modules()
    import qtune.storage
    import qtune.util
    # git is not asked for the version of every single file
    qtune.storage.get_version = lambda: 'sim'
    import qtune.autotuner, qtune.history, qtune.evaluator, qtune.solver, qtune.gradient, qtune.parameter_tuner  # noqa
    import qtune.kalman_gradient, qtune.experiment, qtune.basic_dqd                                # noqa
    assert os.path.abspath(qtune.storage.__file__).startswith(os.path.abspath(REPO)), qtune.storage.__file__
    import qtune.gui                                                                               # noqa
    # matplotlib asks for it, too
    sys.modules['IPython'].get_ipython = lambda: None
    sys.modules['IPython'].version_info = (8, 30)
    root = os.path.join(os.path.abspath(REPO), 'qtune')
    from . import sched
    mods = [m for n, m in sorted(sys.modules.items()) if n == 'qtune' or n.startswith('qtune.')]
    sched.setup_lines([(m, root) for m in mods])
    setup_logging()


class MemHandler(logging.Handler):
    """Collects records; has no lock of its own because exactly one simulated thread runs at a time."""
    records = []
    on = False

    def createLock(self):
        self.lock = None

    def emit(self, record):
        if MemHandler.on:
            MemHandler.records.append((record.levelname, record.getMessage(),
                                       None if record.exc_info is None else record.exc_info[0].__name__
                                       if record.exc_info[0] else None))


_handler = MemHandler()


def setup_logging():
    for name in ('qtune', 'plotting'):
        lg = logging.getLogger(name)
        lg.handlers = [_handler]
        lg.propagate = False
        lg.setLevel(logging.CRITICAL + 1)
    logging.getLogger().handlers = [_handler]
    logging.raiseExceptions = False


def log_capture(on):
    MemHandler.records = []
    MemHandler.on = on
    level = logging.INFO if on else logging.CRITICAL + 1
    for name in ('qtune', 'plotting'):
        logging.getLogger(name).setLevel(level)
        logging.getLogger(name).handlers = [_handler]
    return MemHandler.records


def reset():
    """Puts all global state a run could depend on back to its initial value."""
    import numpy as np
    from . import clock
    clock.CLOCK.reset()
    random.seed(0)
    np.random.seed(0)
    log_capture(False)
    warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    if plt.get_fignums():
        plt.close('all')
