"""Parts of the real objects which have no public name, found by what they are."""
import threading


def _find(obj, name, cond):
    d = dict(vars(obj))
    v = d.get(name)
    if v is not None and cond(v):
        return v
    seen = {id(obj)}
    level = list(d.values())
    for _ in range(3):
        below = []
        for v in level:
            if id(v) in seen:
                continue
            seen.add(id(v))
            if cond(v):
                return v
            # helpers and collections which hold it
            if isinstance(v, dict):
                below += v.values()
            elif isinstance(v, (list, tuple)):
                below += v
            elif not isinstance(v, type) and type(v).__module__.startswith('qtune') and hasattr(v, '__dict__'):
                below += vars(v).values()
        level = below
    return None


def writer(at):
    import qtune.storage
    return _find(at, '_asynchrone_writer', lambda v: isinstance(v, qtune.storage.AsynchronousHDF5Writer))


def busy(w):
    """The worker lives and has something to write.  True if this cannot be found out."""
    a, q = worker(w), queue(w)
    return (a is None or a.is_alive()) and (q is None or bool(q.qsize()))


def alive(w):
    a = worker(w)
    return a is None or a.is_alive()


def worker(w):
    return _find(w, '_worker', lambda v: not isinstance(v, type) and hasattr(v, 'is_alive') and hasattr(v, 'join'))


def queue(w):
    return _find(w, '_queue', lambda v: not isinstance(v, type) and hasattr(v, 'qsize') and hasattr(v, 'put'))


def thread(gui):
    return _find(gui, '_thread', lambda v: isinstance(v, threading.Thread))


def button(gui, label):
    from pyqtgraph.Qt import QtWidgets
    name = dict(Start='_start_btn', Pause='_stop_btn', Step='_step_btn')[label]
    return _find(gui, name, lambda v: isinstance(v, QtWidgets.QPushButton) and getattr(v, 'text_', None) == label)


def running(gui):
    """Only for the statistics."""
    return bool(getattr(gui, '_continuous', False))
