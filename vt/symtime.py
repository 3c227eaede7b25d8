"""Models of `time` and `datetime` over symbolic integers: fields, instants in microseconds, offsets."""
import builtins
import datetime as _dt
import time as _time
import types
import _strptime

import z3

from . import engine as E
from . import symstr as S
from .engine import SymInt, Unsupported

DAY = 86400 * 10 ** 6
_SI = None


def z(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise TypeError("an integer is required")


def sym(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def mdays(y, m):
    e = z3.IntVal(31)
    for k in (4, 6, 9, 11):
        e = z3.If(m == k, z3.IntVal(30), e)
    return z3.If(m == 2, z3.If(leap(y), z3.IntVal(29), z3.IntVal(28)), e)


def ordinal(y, m, d):
    """proleptic Gregorian day number, 0001-01-01 is 1"""
    p = y - 1
    before = z3.IntVal(0)
    acc = 0
    for k, n in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30], start=2):
        acc += n
        before = z3.If(m == k, z3.IntVal(acc), before)
    return p * 365 + p / 4 - p / 100 + p / 400 + before + z3.If(z3.And(m > 2, leap(y)), z3.IntVal(1), z3.IntVal(0)) + d


def within(v, lo, hi, what):
    if not E.CUR.branch(z3.And(z(v) >= lo, z(v) <= hi)):
        raise ValueError("%s must be in %s..%s" % (what, lo, hi))


class TD:
    """timedelta"""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        for x in (days, seconds, microseconds, milliseconds, minutes, hours, weeks):
            if isinstance(x, (float, S.SymDec)):
                raise Unsupported("fractional timedelta")
        self.us = z3.simplify((((z(weeks) * 7 + z(days)) * 24 + z(hours)) * 60 + z(minutes)) * 60 * 10 ** 6 + z(seconds) * 10 ** 6 + z(milliseconds) * 1000 + z(microseconds))

    @staticmethod
    def of(us):
        t = TD()
        t.us = us
        return t

    @staticmethod
    def lift(o):
        if builtins.isinstance(o, _dt.timedelta):
            return TD.of(z3.IntVal((o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds))
        return o if isinstance(o, TD) else None

    def __add__(self, o):
        if isinstance(o, DT):
            return o + self
        o = TD.lift(o)
        return NotImplemented if o is None else TD.of(self.us + o.us)

    __radd__ = __add__

    def __sub__(self, o):
        o = TD.lift(o)
        return NotImplemented if o is None else TD.of(self.us - o.us)

    def __neg__(self):
        return TD.of(-self.us)

    def __mul__(self, n):
        return TD.of(self.us * z(n))

    __rmul__ = __mul__

    def _c(self, o, f):
        o = TD.lift(o)
        return NotImplemented if o is None else E.SymBool(f(self.us, o.us))

    def __floordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return TD.of(z3.simplify(self.us / z(o)))
        o = TD.lift(o)
        return NotImplemented if o is None else sym(self.us / o.us)

    def __mod__(self, o):
        o = TD.lift(o)
        return NotImplemented if o is None else TD.of(self.us % o.us)

    def __abs__(self):
        return TD.of(z3.If(self.us < 0, -self.us, self.us))

    def __pos__(self):
        return self

    @property
    def days(self):
        return sym(self.us / DAY)

    @property
    def seconds(self):
        return sym(self.us % DAY / 10 ** 6)

    @property
    def microseconds(self):
        return sym(self.us % 10 ** 6)

    def total_seconds(self):
        if E.CUR.branch(self.us % 10 ** 6 != 0):
            raise Unsupported("total_seconds of a fraction")
        return sym(self.us / 10 ** 6)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 7

    def __bool__(self):
        return E.CUR.branch(self.us != 0)

    def __str__(self):
        return "\u27eadelta\u27eb"


class TZ:
    """tzinfo: the base class of zones defined by the code"""

    def utcoffset(self, dt):
        raise NotImplementedError

    def dst(self, dt):
        raise NotImplementedError

    def tzname(self, dt):
        raise NotImplementedError


class Fixed(TZ):
    """datetime.timezone"""

    def __init__(self, offset, name=None):
        self.o = TD.lift(offset)
        if self.o is None:
            raise TypeError("offset must be a timedelta")
        if not E.CUR.branch(z3.And(self.o.us > -DAY, self.o.us < DAY)):
            raise ValueError("offset must be strictly between -24h and 24h")

    def utcoffset(self, dt):
        return self.o

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "zone"


def _utc():
    t = Fixed.__new__(Fixed)
    t.o = TD.of(z3.IntVal(0))
    return t


Fixed.utc = _utc()


def offset(tz, dt):
    """z3 microseconds, or None"""
    if tz is None:
        return None
    o = tz.utcoffset(dt)
    if o is None:
        return None
    o = TD.lift(o)
    if not E.CUR.branch(z3.And(o.us > -DAY, o.us < DAY)):
        raise ValueError("utcoffset() must be strictly between -24h and 24h")
    return o.us


class Timed:
    def utcoffset(self):
        o = offset(self.tzinfo, self)
        return None if o is None else TD.of(o)

    def _cmp(self, o, f, eq):
        if type(o) is not type(self):
            return NotImplemented
        a, b = offset(self.tzinfo, self), offset(o.tzinfo, o)
        if (a is None) != (b is None):
            if eq is not None:
                return eq
            raise TypeError("can't compare offset-naive and offset-aware times")
        x, y = self.local(), o.local()
        if a is not None:
            x, y = x - a, y - b
        return E.SymBool(f(x, y))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, None)

    def __hash__(self):
        raise Unsupported("hash of a symbolic time")

    def __str__(self):
        return "\u27eatime\u27eb"

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("datetime attribute %s" % k)


class Date:
    def __init__(self, year, month, day):
        within(year, 1, 9999, "year")
        within(month, 1, 12, "month")
        if not E.CUR.branch(z3.And(z(day) >= 1, z(day) <= mdays(z(year), z(month)))):
            raise ValueError("day is out of range for month")
        self.year, self.month, self.day = year, month, day

    def days(self):
        return z3.simplify(ordinal(z(self.year), z(self.month), z(self.day)))

    def toordinal(self):
        return sym(self.days())

    def replace(self, year=None, month=None, day=None):
        p = lambda x, y: y if x is None else x
        return Date(p(year, self.year), p(month, self.month), p(day, self.day))

    def timetuple(self):
        return StructTime({"Y": self.year, "m": self.month, "d": self.day, "H": 0, "M": 0, "S": 0})

    def __sub__(self, o):
        if isinstance(o, Date):
            return TD.of((self.days() - o.days()) * DAY)
        return NotImplemented

    @staticmethod
    def fromisoformat(s):
        f = iso(r"(?P<Y>[0-9]{4})-(?P<m>[0-9]{2})-(?P<d>[0-9]{2})", s)
        return Date(f["Y"], f["m"], f["d"])

    def _cmp(self, o, f):
        return E.SymBool(f(self.days(), o.days())) if type(o) is type(self) else NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic date")

    def __str__(self):
        return "\u27eadate\u27eb"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("date attribute %s" % k)


class Clock(Timed):
    """datetime.time"""

    @staticmethod
    def fromisoformat(s):
        f = iso(_ISOTIME, s)
        return Clock(f["H"], f["M"], f["S"], f["f"], f["z"])

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        within(hour, 0, 23, "hour")
        within(minute, 0, 59, "minute")
        within(second, 0, 59, "second")
        within(microsecond, 0, 999999, "microsecond")
        if tzinfo is not None and not isinstance(tzinfo, TZ):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = hour, minute, second, microsecond, tzinfo

    def local(self):
        return ((z(self.hour) * 60 + z(self.minute)) * 60 + z(self.second)) * 10 ** 6 + z(self.microsecond)

    def replace(self, **k):
        d = dict(hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        d.update(k)
        return Clock(**d)


class DT(Timed):
    """datetime.datetime: fields when built from them, or the local instant alone after arithmetic"""

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        d = Date(year, month, day)
        c = Clock(hour, minute, second, microsecond, tzinfo)
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = hour, minute, second, microsecond, tzinfo
        self._loc = d.days() * DAY + c.local()

    def local(self):
        return self._loc

    @staticmethod
    def at(loc, tz):
        lo, hi = DAY, 3652060 * DAY
        if not E.CUR.branch(z3.And(loc >= lo, loc < hi)):
            raise OverflowError("date value out of range")
        r = DT.__new__(DT)
        r._loc, r.tzinfo = loc, tz
        return r

    def __add__(self, o):
        o = TD.lift(o)
        if o is None:
            return NotImplemented
        return DT.at(self._loc + o.us, self.tzinfo)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, DT):
            a, b = offset(self.tzinfo, self), offset(o.tzinfo, o)
            if (a is None) != (b is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return TD.of(self._loc - o._loc - ((a - b) if a is not None else 0))
        o = TD.lift(o)
        if o is None:
            return NotImplemented
        return DT.at(self._loc - o.us, self.tzinfo)

    def replace(self, **k):
        if set(k) == {"tzinfo"}:
            r = DT.__new__(DT)
            r.__dict__.update(self.__dict__)
            r.tzinfo = k["tzinfo"]
            return r
        d = {f: getattr(self, f) for f in ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")}
        d.update(k)
        return DT(**d)

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            raise Unsupported("astimezone with the local zone")
        o = offset(self.tzinfo, self)
        return DT.at(self._loc - o + offset(tz, self), tz)

    def date(self):
        return Date(self.year, self.month, self.day)

    def time(self):
        return Clock(self.hour, self.minute, self.second, self.microsecond)

    def timetz(self):
        return Clock(self.hour, self.minute, self.second, self.microsecond, self.tzinfo)

    @staticmethod
    def combine(d, c, tzinfo=None):
        return DT(d.year, d.month, d.day, c.hour, c.minute, c.second, c.microsecond, tzinfo or c.tzinfo)

    @staticmethod
    def fromisoformat(s):
        f = iso(r"(?P<Y>[0-9]{4})-(?P<m>[0-9]{2})-(?P<d>[0-9]{2})T" + _ISOTIME, s)
        return DT(f["Y"], f["m"], f["d"], f["H"], f["M"], f["S"], f["f"], f["z"])

    def timetuple(self):
        return StructTime({"Y": self.year, "m": self.month, "d": self.day, "H": self.hour, "M": self.minute, "S": self.second})

    @staticmethod
    def strptime(s, fmt):
        f = fields(s, fmt)
        tz = f.get("z")
        return DT(f["Y"], f["m"], f["d"], f["H"], f["M"], f["S"], f["f"], tz)


class StructTime(tuple):
    """time.struct_time; week day and day of the year are not modelled"""

    def __new__(cls, f):
        r = tuple.__new__(cls, [f[k] for k in "YmdHMS"] + [None, None, -1])
        r.tm_year, r.tm_mon, r.tm_mday, r.tm_hour, r.tm_min, r.tm_sec = r[:6]
        r.tm_isdst = -1
        return r

    def __getitem__(self, i):
        if isinstance(i, int) and i in (6, 7, -2, -3):
            raise Unsupported("week day")
        return tuple.__getitem__(self, i)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("struct_time.%s" % k)


_ISOTIME = r"(?P<H>[0-9]{2}):(?P<M>[0-9]{2})(?::(?P<S>[0-9]{2})(?:\.(?P<f>[0-9]+))?)?(?P<z>Z|[+\-][0-9]{2}:[0-9]{2})?"


def zone(s):
    """Z, +hhmm or +hh:mm"""
    if s is None:
        return None
    s = S.lift(s)
    if s == "Z":
        return Fixed.utc
    n = len(s)
    h, m = S.vint(s[1:3]), S.vint(s[n - 2:])
    t = TD(hours=h, minutes=m)
    return Fixed(-t if s[0] == "-" else t)


def iso(pat, s):
    """fromisoformat, of the extended formats; the other ones it takes are left open"""
    s = S.lift(s)
    if pat not in _RE:
        import re
        _RE[pat] = re.compile(pat)
    m = S._pat(_RE[pat]).fullmatch(s)
    if m is None:
        raise Unsupported("fromisoformat of another format")
    g = m.groupdict()
    f = {k: S.vint(v) for k, v in g.items() if k in "YmdHMS" and v is not None}
    f.setdefault("S", 0)
    f["f"] = S.vint(S.lift(g["f"])[:6].ljust(6, "0")) if g.get("f") is not None else 0
    f["z"] = zone(g.get("z"))
    if "H" in f and E.CUR.branch(z(f["H"]) == 24):
        raise Unsupported("hour 24")
    return f


_RE = {}


def fields(s, fmt):
    """The fields strptime reads, from the pattern CPython builds for the format."""
    s = S.lift(s)
    if fmt not in _RE:
        _RE[fmt] = _strptime.TimeRE().compile(fmt)
    m = S._pat(_RE[fmt]).match(s)
    if m is None:
        raise ValueError("time data does not match format %r" % fmt)
    if m.end() != len(s):
        raise ValueError("unconverted data remains")
    g = m.groupdict()
    bad = set(g) - {"Y", "m", "d", "H", "M", "S", "f", "z"}
    if bad:
        raise Unsupported("strptime directive %s" % bad)
    num = lambda k, d: S.vint(g[k]) if g.get(k) is not None else d
    f = {"Y": num("Y", 1900), "m": num("m", 1), "d": num("d", 1), "H": num("H", 0), "M": num("M", 0), "S": num("S", 0)}
    if g.get("f") is not None:
        t = S.lift(g["f"])
        f["f"] = S.vint(t.ljust(6, "0"))
    else:
        f["f"] = 0
    if g.get("z") is not None:
        if len(g["z"]) not in (1, 5, 6):
            raise Unsupported("strptime %z")
        f["z"] = zone(g["z"])
    Date(f["Y"], f["m"], f["d"])
    return f


def modules():
    t = types.ModuleType("time")
    for k in dir(_time):
        if not k.startswith("__"):
            setattr(t, k, getattr(_time, k))

    def strptime(s, fmt="%a %b %d %H:%M:%S %Y"):
        if not isinstance(s, S.SymStr):
            if not isinstance(s, str):
                raise TypeError("strptime() argument 0 must be str")
            r = _time.strptime(s, fmt)
            return r
        f = fields(s, fmt)
        return StructTime(f)

    t.strptime = strptime
    d = types.ModuleType("datetime")
    d.datetime, d.date, d.time, d.timedelta, d.tzinfo, d.timezone = DT, Date, Clock, TD, TZ, Fixed
    d.UTC = Fixed.utc
    d.MINYEAR, d.MAXYEAR = 1, 9999
    return {"time": t, "datetime": d}
