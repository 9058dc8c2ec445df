"""The clock the library reads: the real one, plus what a case lets pass at every reading.

The interpreter's clock functions are replaced before the library is imported; the harness keeps the real ones."""
import datetime
import time

real_time = time.time
DateTime = datetime.datetime
FURTHEST = 2e11  # below the year 9999
SPEEDS = [1, 61, 4000, 10**5, 10**9]
_step = 0
_passed = 0.0
readings = 0


def start(step):
    """Time stands as it is, and leaps by `step` seconds whenever it is read."""
    global _step, _passed, readings
    _step, _passed, readings = step, 0.0, 0


def _leap():
    global _passed, readings
    readings += 1
    if _step:
        _passed = min(_passed + _step, FURTHEST)
    return _passed


def _wrap(real, unit):
    return lambda *a: real(*a) + unit(_leap())


class _Meta(type(DateTime)):
    def __instancecheck__(cls, x):
        return isinstance(x, DateTime)

    def __subclasscheck__(cls, c):
        return issubclass(c, DateTime)


class _Leaping(DateTime, metaclass=_Meta):
    """datetime.datetime whose instances are plain ones and whose now is the leaping clock's."""

    def __new__(cls, *a, **kw):
        return DateTime(*a, **kw)

    now = classmethod(lambda cls, tz=None: DateTime.now(tz) + datetime.timedelta(seconds=_leap()))
    today = classmethod(lambda cls: DateTime.now() + datetime.timedelta(seconds=_leap()))
    utcnow = classmethod(lambda cls: DateTime.now(datetime.timezone.utc).replace(tzinfo=None) + datetime.timedelta(seconds=_leap()))

    @classmethod
    def fromtimestamp(cls, *a, **kw):
        return DateTime.fromtimestamp(*a, **kw)

    @classmethod
    def utcfromtimestamp(cls, *a, **kw):
        return DateTime.utcfromtimestamp(*a, **kw)

    @classmethod
    def strptime(cls, *a):
        return DateTime.strptime(*a)

    @classmethod
    def fromisoformat(cls, *a):
        return DateTime.fromisoformat(*a)

    @classmethod
    def combine(cls, *a, **kw):
        return DateTime.combine(*a, **kw)


def install():
    for name in ("time", "monotonic", "perf_counter"):
        setattr(time, name, _wrap(getattr(time, name), float))
        setattr(time, name + "_ns", _wrap(getattr(time, name + "_ns"), lambda s: int(s * 10**9)))
    datetime.datetime = _Leaping


def now():
    """What the library's clock shows, without a leap."""
    return real_time() + _passed
