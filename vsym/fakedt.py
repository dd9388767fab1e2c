"""Stand-in for the datetime module: instants and spans whose number of seconds may be symbolic."""
import datetime as _dt
from fractions import Fraction as Fr

import numpy as np

from . import term
from .term import Sym

EPOCH = _dt.datetime(2000, 1, 1)


def _s(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    return Sym.lift(x)


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = _s(seconds)
        for x, f in ((days, 86400), (microseconds, Fr(1, 1000000)), (milliseconds, Fr(1, 1000)), (minutes, 60), (hours, 3600), (weeks, 604800)):
            if not (isinstance(x, (int, float)) and x == 0):
                t = t + _s(x) * f
        self.s = t

    @classmethod
    def of(cls, s):
        t = cls()
        t.s = Sym.lift(s)
        return t

    def total_seconds(self):
        return self.s

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta.of(self.s + o.s)
        return NotImplemented

    def __sub__(self, o):
        return timedelta.of(self.s - o.s) if isinstance(o, timedelta) else NotImplemented

    def __neg__(self):
        return timedelta.of(-self.s)

    def __mul__(self, f):
        return timedelta.of(self.s * f)
    __rmul__ = __mul__

    def __truediv__(self, f):
        return self.s / f.s if isinstance(f, timedelta) else timedelta.of(self.s / f)

    def __eq__(self, o):
        return isinstance(o, timedelta) and bool(self.s == o.s)
    __hash__ = None

    def __lt__(self, o):
        return bool(self.s < o.s)

    def __le__(self, o):
        return bool(self.s <= o.s)

    def __gt__(self, o):
        return bool(self.s > o.s)

    def __ge__(self, o):
        return bool(self.s >= o.s)


class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        self.off = offset

    def utcoffset(self, t):
        return self.off


class datetime:
    """an instant: s seconds of its own wall clock since 2000-01-01T00:00, tz"""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        d = _dt.datetime(year, month, day, hour, minute, second, microsecond) - EPOCH
        self.s = Sym.lift(Fr(d.days * 86400 + d.seconds) + Fr(d.microseconds, 1000000))
        self.tzinfo = tzinfo
        self.fields = dict(year=year, month=month, day=day, hour=hour, minute=minute, second=second, microsecond=microsecond)

    @classmethod
    def at(cls, s, tz=None):
        t = cls.__new__(cls)
        t.s, t.tzinfo, t.fields = Sym.lift(s), tz, None
        return t

    @classmethod
    def of_fields(cls, tz=None, **f):
        t = cls.__new__(cls)
        t.tzinfo, t.fields = tz, f
        m = f["month"]
        y = f["year"] - 1 if m < 3 else f["year"]      # years that begin on 1 March
        dayno = 365 * y + term.sfloor(y / 4) - term.sfloor(y / 100) + term.sfloor(y / 400) + (153 * (m - 3 + (12 if m < 3 else 0)) + 2) // 5 + f["day"] - 307
        t.ordinal = dayno + 1
        t.s = (dayno - 730119) * 86400 + f["hour"] * 3600 + f["minute"] * 60 + f["second"] + f["microsecond"] * Fr(1, 1000000)
        return t

    def toordinal(self):
        if self.fields is None:
            raise term.Unsupported("calendar field of a symbolic instant")
        return self.ordinal

    @classmethod
    def fromisoformat(cls, s):
        d = _dt.datetime.fromisoformat(s)
        tz = None if d.tzinfo is None else timezone(timedelta(seconds=d.utcoffset().total_seconds()))
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tz)

    def __getattr__(self, n):
        if n in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            f = self.__dict__.get("fields")
            if f is None:
                raise term.Unsupported("calendar field of a symbolic instant")
            return f[n]
        raise AttributeError(n)

    @property
    def utc(self):
        return self.s if self.tzinfo is None else self.s - self.tzinfo.off.s

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.off

    def replace(self, **kw):
        if set(kw) == {"tzinfo"}:
            t = datetime.__new__(datetime)
            t.__dict__.update(self.__dict__, tzinfo=kw["tzinfo"])
            return t
        raise term.Unsupported("datetime.replace of fields")

    def astimezone(self, tz=None):
        if self.tzinfo is None:
            raise term.Unsupported("astimezone of a naive time (local time zone)")
        if tz is self.tzinfo:
            return self
        return datetime.at(self.utc + tz.off.s, tz)

    def __add__(self, d):
        if not isinstance(d, timedelta):
            return NotImplemented
        return datetime.at(self.s + d.s, self.tzinfo)
    __radd__ = __add__

    def __sub__(self, d):
        if isinstance(d, timedelta):
            return self + (-d)
        if isinstance(d, datetime):
            self._cmp(d)
            return timedelta.of(self.utc - d.utc)
        return NotImplemented

    def _cmp(self, o):
        if not isinstance(o, datetime):
            raise TypeError("can't compare datetime.datetime to " + type(o).__name__)
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return self.utc - o.utc

    def __lt__(self, o):
        return bool(self._cmp(o) < 0)

    def __le__(self, o):
        return bool(self._cmp(o) <= 0)

    def __gt__(self, o):
        return bool(self._cmp(o) > 0)

    def __ge__(self, o):
        return bool(self._cmp(o) >= 0)

    def __eq__(self, o):
        return isinstance(o, datetime) and bool(self._cmp(o) == 0)

    def __hash__(self):
        return 7

    def timestamp(self):
        return self.utc + 946684800


timezone.utc = timezone(timedelta())
UTC = timezone.utc
MINYEAR, MAXYEAR = 1, 9999


class Module:
    datetime, timedelta, timezone, tzinfo, UTC, MINYEAR, MAXYEAR = datetime, timedelta, timezone, tzinfo, UTC, 1, 9999
    date, time = _dt.date, _dt.time


def overrides():
    term_needed = Module()
    return {"datetime": term_needed}
