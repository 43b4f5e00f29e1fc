"""Virtual clock.

Replaces the wall-clock functions of the ``time`` and ``datetime`` modules by ones which read a settable
clock, so that histories spanning hours run in microseconds and every run sees the same times.  Must be
imported before the code under test, because it binds functions like ``time.time`` at import.
Only the wall clock is virtual; monotonic clocks and sleeping are real.
"""
import datetime as _dt
import time as _t

_real_time = _t.time
_real_gmtime = _t.gmtime
_real_localtime = _t.localtime
_real_strftime = _t.strftime

EPOCH = 1700000000


class Clock(object):
    def __init__(self):
        self.now = float(EPOCH)
        self.virtual = True

    def time(self):
        return self.now if self.virtual else _real_time()

    def set(self, value):
        self.now = float(value)

    def advance(self, seconds):
        self.now += seconds


clock = Clock()


def _time():
    return clock.time()


def _time_ns():
    return int(clock.time() * 10 ** 9)


def _gmtime(secs=None):
    return _real_gmtime(clock.time() if secs is None else secs)


def _localtime(secs=None):
    return _real_localtime(clock.time() if secs is None else secs)


def _strftime(fmt, t=None):
    return _real_strftime(fmt, _real_localtime(clock.time()) if t is None else t)


_real_datetime = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class _datetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(clock.time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(clock.time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(clock.time())


def install():
    _t.time = _time
    _t.time_ns = _time_ns
    _t.gmtime = _gmtime
    _t.localtime = _localtime
    _t.strftime = _strftime
    _dt.datetime = _datetime


real_time = _real_time
