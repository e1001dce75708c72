"""Virtual clock.  Must be imported before anything that imports datetime/time names.

Patches time.time / time.gmtime / time.localtime and datetime.datetime so that every
way the code under test can read the wall clock yields CLOCK.now (integer epoch seconds).
"""
import datetime as _dt
import time as _time

EPOCH0 = 1_700_000_000
real_time = _time.time
_real_gmtime = _time.gmtime
_real_localtime = _time.localtime
_real_strftime = _time.strftime
_real_datetime = _dt.datetime


class Clock:
    def __init__(self):
        self.now = EPOCH0

    def reset(self):
        self.now = EPOCH0

    def advance(self, secs):
        self.now += secs


CLOCK = Clock()


class FakeDateTime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.now, tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(CLOCK.now)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.now)


def install():
    import warnings
    warnings.simplefilter("ignore")
    # everything below uses the real ones at import time
    import cryptography.fernet  # noqa  (binds `time` module, fine)
    _time.time = lambda: float(CLOCK.now)
    _time.time_ns = lambda: CLOCK.now * 1_000_000_000
    _time.gmtime = lambda secs=None: _real_gmtime(CLOCK.now if secs is None else secs)
    _time.localtime = lambda secs=None: _real_localtime(CLOCK.now if secs is None else secs)
    _dt.datetime = FakeDateTime
