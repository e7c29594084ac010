"""Structural comparison of an object of qtune with its reloaded counterpart, by what they show: the constructor arguments they
store, their properties and public attributes; and by which of their parts are the same object."""
import numbers

import h5py
import numpy as np
import pandas as pd

from qtune.storage import HDF5Serializable

SKIP = ('asynchrone_writer', 'hdf5_storage_path', 'logger', 'experiment')


def is_serializable(x):
    return isinstance(type(x), HDF5Serializable)


def scalar(x):
    if isinstance(x, np.ndarray) and x.shape == ():
        return x[()]
    return x


class Compare:
    def __init__(self, reserved=(), ignore=()):
        self.reserved = list(reserved)        # objects which have to be the same on both sides
        self.ignore = set(ignore) | set(SKIP)
        self.problem = None
        self.pairs = {}                       # id of a mutable object -> id of its counterpart
        self.back = {}
        self.back_data = {}
        self.alive = []
        self.objects = 0

    def fail(self, path, msg):
        if self.problem is None:
            self.problem = '%s: %s' % (path, msg)
        return False

    def share(self, a, b, path, data=False):
        """Identities have to correspond one to one; data may be copied."""
        self.alive += [a, b]
        if data:
            if self.back_data.setdefault(id(b), id(a)) != id(a):
                return self.fail(path, 'was another object than another entry with which it is the same object now')
            return True
        if id(a) in self.pairs:
            if self.pairs[id(a)][0] != id(b):
                return self.fail(path, 'was the same object as %s but is not any more' % self.pairs[id(a)][1])
            return True
        if id(b) in self.back:
            return self.fail(path, 'was another object than %s but is the same now' % self.back[id(b)])
        self.pairs[id(a)] = (id(b), path)
        self.back[id(b)] = path
        return True

    def walk(self, a, b, path='', stable=True):
        """stable: a is not a temporary object, its identity matters."""
        if self.problem is not None:
            return False
        for r in self.reserved:
            if a is r or b is r:
                return a is b or self.fail(path, 'the live object does not take the place of the stored one')
        a, b = scalar(a), scalar(b)
        if is_serializable(a) or is_serializable(b):
            if type(a) is not type(b):
                return self.fail(path, 'type %s became %s' % (type(a).__name__, type(b).__name__))
            known = id(a) in self.pairs and self.pairs[id(a)][0] == id(b)
            if not self.share(a, b, path):
                return False
            if known:
                return True
            self.objects += 1
            x, x2, y = a.to_hdf5(), a.to_hdf5(), b.to_hdf5()
            self.alive += [x, x2, y]
            if set(x) != set(y):
                return self.fail(path, 'stores %s, after reload %s' % (sorted(x), sorted(y)))
            for k in x:
                if k not in self.ignore or any(x[k] is r for r in self.reserved):
                    self.walk(x[k], y[k], '%s.%s' % (path, k), stable=x[k] is x2[k])
            for k in self.public(a):
                self.attribute(a, b, k, path)
            return self.problem is None
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(map(str, a)) != set(map(str, b)):
                return self.fail(path, '%r became %r' % (a, b))
            b = {str(k): v for k, v in b.items()}
            for k, v in a.items():
                self.walk(v, b[str(k)], '%s[%s]' % (path, k), stable)
            return self.problem is None
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple, np.ndarray)) or len(a) != len(b):
                return self.fail(path, '%r became %r' % (a, b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.walk(x, y, '%s[%d]' % (path, i), stable)
            return self.problem is None
        if isinstance(a, pd.Series) or isinstance(b, pd.Series):
            if not (isinstance(a, pd.Series) and isinstance(b, pd.Series)) or list(map(str, a.index)) != list(map(str, b.index)):
                return self.fail(path, '%s became %s' % (fmt(a), fmt(b)))
            if stable and not self.share(a, b, path, data=True):
                return False
            if len(a) and not same_array(a.values, b.values):
                return self.fail(path, '%s became %s' % (fmt(a), fmt(b)))
            return True
        if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
            if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)) or a.shape != b.shape or \
                    list(map(str, a.index)) != list(map(str, b.index)) or list(map(str, a.columns)) != list(map(str, b.columns)):
                return self.fail(path, '%s became %s' % (fmt(a), fmt(b)))
            if stable and not self.share(a, b, path, data=True):
                return False
            if a.size and not same_array(a.values, b.values):
                return self.fail(path, '%s became %s' % (fmt(a), fmt(b)))
            return True
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or not same_array(a, b):
                return self.fail(path, 'array %s became %s' % (fmt(a), fmt(b)))
            return True
        if a is None or b is None:
            return a is b or self.fail(path, '%r became %r' % (a, b))
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            if not (isinstance(a, (bool, np.bool_, numbers.Integral)) and isinstance(b, (bool, np.bool_, numbers.Integral))) or bool(a) != bool(b):
                return self.fail(path, '%r became %r' % (a, b))
            return True
        if isinstance(a, (numbers.Number, np.generic)) and isinstance(b, (numbers.Number, np.generic)):
            return same(a, b) or self.fail(path, '%r became %r' % (a, b))
        if isinstance(a, str) or isinstance(b, str):
            return a == b or self.fail(path, '%r became %r' % (a, b))
        return True                # objects which are not stored (functions, loggers, ...)

    def public(self, a):
        names = [k for k in vars(a) if not k.startswith('_')]
        for c in type(a).__mro__:
            names += [k for k, v in vars(c).items() if isinstance(v, property) and not k.startswith('_')]
        return [k for k in dict.fromkeys(names) if k not in self.ignore]

    def attribute(self, a, b, k, path):
        try:
            x, ex = getattr(a, k), None
        except Exception as e:
            x, ex = None, type(e)
        try:
            y, ey = getattr(b, k), None
        except Exception as e:
            y, ey = None, type(e)
        if ex is not ey:
            return self.fail(path + '.' + k, 'raises %s, after reload %s' % (ex, ey))
        if ex is None:
            self.alive += [x, y]
            self.walk(x, y, '%s.%s' % (path, k), stable=False)


def same(x, y):
    return bool(x == y) or (x != x and y != y)


def same_array(a, b):
    try:
        return bool(np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True))
    except (TypeError, ValueError):
        return len(a.ravel()) == len(b.ravel()) and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))


def fmt(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return '%s%s' % (type(x).__name__, x.to_dict())
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def compare(a, b, reserved=(), ignore=()):
    """None, or how the reloaded b differs from a; also the number of objects compared."""
    c = Compare(reserved, ignore)
    c.walk(a, b, type(a).__name__)
    return c.problem, c.objects
