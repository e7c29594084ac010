"""Virtual clock.  Installed before qtune is imported, so that every time the code under test reads is simulated.

One monotonic counter (never goes back) and a wall clock offset (may jump, that is a fault).  Every reading advances the
clock a little, as on a real machine.  While no scheduler is active, sleeping just advances the clock.
"""
import datetime as _dt
import time as _time

real = dict(time=_time.time, sleep=_time.sleep, monotonic=_time.monotonic, perf_counter=_time.perf_counter,
            datetime=_dt.datetime, date=_dt.date)

WALL0 = 1767261600.0   # 2026-01-01 10:00:00 UTC
MONO0 = 5000.0


class Clock:
    def __init__(self):
        self.reset()

    def reset(self):
        self.ns = int(MONO0 * 1e9)
        self.wall_offset_ns = int((WALL0 - MONO0) * 1e9)
        self.tick_ns = 2000
        self.reads = 0

    def read(self):
        self.reads += 1
        self.ns += self.tick_ns
        return self.ns

    def advance(self, seconds):
        self.ns += max(0, int(seconds * 1e9))

    def jump_wall(self, seconds):
        self.wall_offset_ns += int(seconds * 1e9)

    # readings
    def mono(self):
        return self.read() / 1e9

    def mono_ns(self):
        return self.read()

    def wall(self):
        return (self.read() + self.wall_offset_ns) / 1e9

    def wall_ns(self):
        return self.read() + self.wall_offset_ns


CLOCK = Clock()
_sleep_hook = [None]


def _sleep(seconds):
    hook = _sleep_hook[0]
    if hook is None or not hook(seconds):
        CLOCK.advance(seconds)


class _SimDatetimeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real['datetime'])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real['datetime'])


class SimDatetime(real['datetime'], metaclass=_SimDatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        return real['datetime'].fromtimestamp(CLOCK.wall(), tz or _dt.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _localtime(secs=None):
    return real_gmtime(CLOCK.wall() if secs is None else secs)


real_gmtime = _time.gmtime
real_strftime = _time.strftime


def install():
    _time.time = CLOCK.wall
    _time.time_ns = CLOCK.wall_ns
    for name in ('monotonic', 'perf_counter', 'process_time'):
        setattr(_time, name, CLOCK.mono)
        setattr(_time, name + '_ns', CLOCK.mono_ns)
    _time.sleep = _sleep
    _time.localtime = _localtime
    _time.gmtime = _localtime
    _time.strftime = lambda fmt, t=None: real_strftime(fmt, _localtime() if t is None else t)
    _dt.datetime = SimDatetime
