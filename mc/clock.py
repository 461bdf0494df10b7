"""A controlled clock. Import before the code under test; real() is the machine's clock."""
import datetime as _dt
import time as _time

_real_time, _real_gmtime, _real_localtime, _real_strftime = _time.time, _time.gmtime, _time.localtime, _time.strftime
_now = [None]


def real():
    return _real_time()


def set(t):
    """t: seconds, or None for the real clock"""
    _now[0] = t


def follow(fn):
    """take the time from fn(), or no longer"""
    _fn[0] = fn


_fn = [None]


def now():
    if _fn[0] is not None:
        return _fn[0]()
    return _real_time() if _now[0] is None else _now[0]


def _ftime():
    return now()


def _fgm(secs=None):
    return _real_gmtime(now() if secs is None else secs)


def _flocal(secs=None):
    return _real_localtime(now() if secs is None else secs)


def _fstrftime(fmt, t=None):
    return _real_strftime(fmt, _flocal() if t is None else t)


class _DateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(now(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(now())


def install():
    _time.time = _ftime
    _time.time_ns = lambda: int(now() * 1000000000)
    _time.gmtime = _fgm
    _time.localtime = _flocal
    _time.strftime = _fstrftime
    _dt.datetime = _DateTime
