"""Symbolic models of the CPython 3.12 standard library pieces the code under
test is built on: datetime, zoneinfo, calendar.monthrange, the local time zone.

These follow the C implementation's observable behaviour (ranges, exceptions,
PEP 495 rules).  Every explored path is replayed against the real library, so
a model that disagrees with CPython on a path's witness is reported.
"""
from __future__ import annotations
import builtins
import datetime as _real
from . import core
from .core import (
    SymInt, SymBool, SymFloatBase, Unsupported, band, bor, bnot, beq, ite, is_sym, bounds,
    smin, smax,
)
from . import floats
from .strs import SymStr, OpaqueStr, digits_of, mk, chars

MINYEAR, MAXYEAR = 1, 9999
MAXORD = 3652059
DAY = 86400
US = 1_000_000
EPOCH_ORD = 719163
INT_MAX = (1 << 31) - 1


def ctx():
    return core.C


def is_int(x):
    return isinstance(x, (int, SymInt, SymBool))


def as_int(x, what="an integer is required"):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (float, SymFloatBase)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if hasattr(x, "__index__") and not isinstance(x, (str, SymStr)):
        return x.__index__()
    raise TypeError(what)


def c_int(x):
    """argument parsed by the C 'i' format"""
    x = as_int(x)
    if bool(bor(x > INT_MAX, x < -INT_MAX - 1)):
        raise OverflowError("Python int too large to convert to C int")
    return x


class HashKey:
    """A structural stand-in for a hash value: equal keys hash equal."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if not isinstance(o, HashKey):
            return keq(self.k, o)
        return keq(self.k, o.k)

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        raise Unsupported("native hash of a structural hash")

    def __xor__(self, o):
        return HashKey(("xor", self.k, o.k if isinstance(o, HashKey) else o))

    __rxor__ = __xor__

    def __add__(self, o):
        return HashKey(("add", self.k, o.k if isinstance(o, HashKey) else o))

    __radd__ = __add__

    def __mul__(self, o):
        return HashKey(("mul", self.k, o.k if isinstance(o, HashKey) else o))

    __rmul__ = __mul__

    def __str__(self):
        return f"<HashKey {self.k}>"

    __repr__ = __str__


def keq(a, b):
    if isinstance(a, HashKey):
        a = a.k
    if isinstance(b, HashKey):
        b = b.k
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[keq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if is_int(a) and is_int(b):
        r = a == b
        return r
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return a == b
    if a is b:
        return True
    r = a == b
    return False if r is NotImplemented else r


# -- calendar ----------------------------------------------------------------

_DBM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _conc(*xs):
    return all(isinstance(x, int) for x in xs)


def year_parts(y):
    """y-1 = 400a + 100b + 4c + d  (0<=b<=3, 0<=c<=24, 0<=d<=3)"""
    a, r = divmod(y - 1, 400)
    b, r = divmod(r, 100)
    c, d = divmod(r, 4)
    return a, b, c, d


def is_leap(y):
    if _conc(y):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    k = ("leap", y.key())
    r = ctx().cache.get(k)
    if r is None:
        a, b, c, d = year_parts(y)
        r = band(d == 3, bor(bnot(c == 24), b == 3))
        ctx().cache[k] = r
    return r


def days_before_year(y):
    if _conc(y):
        y1 = y - 1
        return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400
    a, b, c, d = year_parts(y)
    return 146097 * a + 36524 * b + 1461 * c + 365 * d


def days_before_month(y, m):
    if _conc(m):
        r = _DBM[m]
        return r + ite(is_leap(y), 1, 0) if m > 2 else r
    k = ("dbm", m.key())
    base = ctx().cache.get(k)
    if base is None:
        lo, hi = m.bounds()
        lo = max(1, lo or 1)
        hi = min(12, hi or 12)
        base = _DBM[hi]
        for i in range(hi - 1, lo - 1, -1):
            base = ite(m <= i, _DBM[i], base)
        ctx().cache[k] = base
    return base + ite(band(m > 2, is_leap(y)), 1, 0)


def days_in_month(y, m):
    if _conc(m):
        if m != 2:
            return _DIM[m]
        return 28 + ite(is_leap(y), 1, 0)
    ky = y if isinstance(y, int) else y.key()
    k = ("dim", ky, m.key())
    r = ctx().cache.get(k)
    if r is None:
        r = ite(
            bor(m == 4, m == 6, m == 9, m == 11),
            30,
            ite(m == 2, 28 + ite(is_leap(y), 1, 0), 31),
        )
        ctx().cache[k] = r
    return r


def ymd2ord(y, m, d):
    return days_before_year(y) + days_before_month(y, m) + d


def ord2ymd(o):
    if _conc(o):
        r = _real.date.fromordinal(o)
        return r.year, r.month, r.day
    k = ("ymd", o.key())
    r = ctx().cache.get(k)
    if r is None:
        C = ctx()
        lo, hi = o.bounds()
        a = C.fresh("ya", 0, 24)
        b = C.fresh("yb", 0, 3)
        c = C.fresh("yc", 0, 24)
        d = C.fresh("yd", 0, 3)
        m = C.fresh("mo", 1, 12)
        dd = C.fresh("da", 1, 31)
        y = 400 * a + 100 * b + 4 * c + d + 1
        C.add((y <= 9999).expr())
        # tell the year decomposition its parts directly
        leap = band(d == 3, bor(bnot(c == 24), b == 3))
        C.cache[("leap", y.key())] = leap
        e = ymd2ord(y, m, dd) == o
        C.add(e.expr())
        C.add((dd <= days_in_month(y, m)).expr())
        r = (y, m, dd)
        C.cache[k] = r
        C.cache.setdefault("dates", []).append((y, m, dd, o))
    return r


def _same(a, b):
    """do the two terms reduce to the same linear form?"""
    return core.same_linear(a, b)


def _valid_date(y, m, d):
    """raises unless the date exists.  Fields that are those of a date already
    known on this path (say after formatting and parsing it) are replaced by
    that date's terms.  Returns (y, m, d, ordinal or None)"""
    if _conc(y, m, d):
        _check_date(y, m, d)
        return y, m, d, None
    known = ctx().cache.setdefault("dates", [])
    for e in known:
        if _same(d, e[2]) and _same(m, e[1]) and _same(y, e[0]):
            return e
    _check_date(y, m, d)
    _narrow_ymd(y, m, d)
    known.append((y, m, d, None))
    return y, m, d, None


def monthrange(y, m):
    y, m = as_int(y), as_int(m)
    if not bool(band(m >= 1, m <= 12)):
        import calendar

        raise calendar.IllegalMonthError(m if isinstance(m, int) else 0)
    return _MonthRange(y, m)


class _MonthRange:
    """the (weekday, ndays) pair; the weekday is computed only when used"""

    def __init__(self, y, m):
        self.y, self.m = y, m

    def __len__(self):
        return 2

    def __getitem__(self, i):
        i = as_int(i)
        if i in (1, -1):
            return days_in_month(self.y, self.m)
        if i in (0, -2):
            if not bool(band(self.y >= 1, self.y <= 9999)):
                raise Unsupported("weekday of an out-of-range year")
            return (ymd2ord(self.y, self.m, 1) + 6) % 7
        raise IndexError

    def __iter__(self):
        return iter((self[0], self[1]))


def isleap(y):
    return is_leap(as_int(y))


def weekday(y, m, d):
    return date(y, m, d).weekday()


# -- timedelta ---------------------------------------------------------------

MAXDELTA_DAYS = 999999999


class timedelta:
    __slots__ = ("_us",)

    def __new__(
        cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0
    ):
        us = 0
        frac = False
        for v, k in (
            (days, DAY * US),
            (seconds, US),
            (microseconds, 1),
            (milliseconds, 1000),
            (minutes, 60 * US),
            (hours, 3600 * US),
            (weeks, 7 * DAY * US),
        ):
            if isinstance(v, (float, SymFloatBase)):
                n, d, e = floats.parts(v)
                if e:
                    raise Unsupported("timedelta of an inexact float")
                if d != 1:
                    q, r = divmod(n * k, d)
                    if isinstance(r, SymInt) or r:
                        raise Unsupported("timedelta of a fractional float")
                    n, k = q, 1
                v = n
            elif not is_int(v):
                raise TypeError(f"unsupported type for timedelta component: {type(v)}")
            else:
                v = as_int(v)
            us = us + v * k
        return cls._mk(core.rejoin(us), check=True)

    @classmethod
    def _mk(cls, us, check=False):
        lim_lo, lim_hi = -MAXDELTA_DAYS * DAY * US, (MAXDELTA_DAYS + 1) * DAY * US
        if check and bool(bor(us < lim_lo, us >= lim_hi)):
            raise OverflowError("days=...; must have magnitude <= 999999999")
        self = object.__new__(cls)
        self._us = us
        return self

    @property
    def days(self):
        return self._us // (DAY * US)

    @property
    def seconds(self):
        return (self._us % (DAY * US)) // US

    @property
    def microseconds(self):
        return self._us % US

    def total_seconds(self):
        return self._us / US

    def _o(self, o):
        if isinstance(o, timedelta):
            return o._us
        if isinstance(o, _real.timedelta):
            return _td_us(o)
        return None

    def __add__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._mk(self._us + u, True)

    __radd__ = __add__

    def __sub__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._mk(self._us - u, True)

    def __rsub__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._mk(u - self._us, True)

    def __neg__(self):
        return self._mk(-self._us, True)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._mk(abs(self._us), True)

    def __mul__(self, o):
        if is_int(o):
            return self._mk(self._us * as_int(o), True)
        if isinstance(o, (float, SymFloatBase)):
            raise Unsupported("timedelta * float")
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        u = self._o(o)
        if u is not None:
            return self._us // u
        if is_int(o):
            return self._mk(self._us // as_int(o))
        return NotImplemented

    def __truediv__(self, o):
        u = self._o(o)
        if u is not None:
            return self._us / u
        raise Unsupported("timedelta / number")

    def __mod__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._mk(self._us % u)

    def __divmod__(self, o):
        u = self._o(o)
        if u is None:
            return NotImplemented
        q, r = divmod(self._us, u)
        return q, self._mk(r)

    def __eq__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us == u

    def __ne__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us != u

    def __lt__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us < u

    def __le__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us <= u

    def __gt__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us > u

    def __ge__(self, o):
        u = self._o(o)
        return NotImplemented if u is None else self._us >= u

    def __bool__(self):
        r = self._us != 0
        return bool(r)

    def sx_hash(self):
        return HashKey(("td", self._us))

    def __hash__(self):
        raise Unsupported("native hash of a symbolic timedelta")

    def __str__(self):
        return "<sym timedelta>"

    __repr__ = __str__

    def sx_str(self):
        return OpaqueStr()


def _td_us(o):
    return (o.days * DAY + o.seconds) * US + o.microseconds


timedelta.min = timedelta._mk(-MAXDELTA_DAYS * DAY * US)
timedelta.max = timedelta._mk((MAXDELTA_DAYS + 1) * DAY * US - 1)
timedelta.resolution = timedelta._mk(1)


# -- tzinfo ------------------------------------------------------------------

class tzinfo:
    def utcoffset(self, dt):
        raise NotImplementedError("a tzinfo subclass must implement utcoffset()")

    def dst(self, dt):
        raise NotImplementedError

    def tzname(self, dt):
        raise NotImplementedError

    def fromutc(self, dt):
        if not isinstance(dt, datetime):
            raise TypeError("fromutc() requires a datetime argument")
        if dt.tzinfo is not self:
            raise ValueError("fromutc: dt.tzinfo is not self")
        raise Unsupported("generic tzinfo.fromutc")

    def sx_offset(self, dt):
        """UTC offset in microseconds, or None"""
        r = self.utcoffset(dt)
        if r is None:
            return None
        if not isinstance(r, (timedelta, _real.timedelta)):
            raise TypeError("tzinfo.utcoffset() must return None or a timedelta")
        us = r._us if isinstance(r, timedelta) else _td_us(r)
        if not bool(band(us > -DAY * US, us < DAY * US)):
            raise ValueError("offset must be strictly between -24h and 24h")
        return us


class timezone(tzinfo):
    __slots__ = ("_us", "_name")

    def __new__(cls, offset, name=None):
        if isinstance(offset, _real.timedelta):
            offset = timedelta._mk(_td_us(offset))
        if not isinstance(offset, timedelta):
            raise TypeError("timezone() argument 1 must be datetime.timedelta")
        us = offset._us
        if name is None and "utc" in cls.__dict__ and bool(us == 0):
            return cls.utc
        if not bool(band(us > -DAY * US, us < DAY * US)):
            raise ValueError(
                "offset must be a timedelta strictly between -timedelta(hours=24) "
                "and timedelta(hours=24)"
            )
        return cls._mk(us, name)

    @classmethod
    def _mk(cls, us, name=None):
        self = object.__new__(cls)
        self._us, self._name = us, name
        return self

    def utcoffset(self, dt):
        return timedelta._mk(self._us)

    def sx_offset(self, dt):
        return self._us

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return self._name if self._name is not None else OpaqueStr()

    def fromutc(self, dt):
        if dt.tzinfo is not self:
            raise ValueError("fromutc: dt.tzinfo is not self")
        return dt._plus_us(self._us)

    def __eq__(self, o):
        if isinstance(o, timezone):
            return self._us == o._us
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, timezone):
            return self._us != o._us
        return NotImplemented

    def sx_hash(self):
        return HashKey(("td", self._us))

    def __hash__(self):
        raise Unsupported("native hash of timezone")

    def __str__(self):
        return "<sym timezone>"

    __repr__ = __str__


timezone.utc = timezone._mk(0)
timezone.min = timezone._mk(-(DAY - 60) * US)
timezone.max = timezone._mk((DAY - 60) * US)
UTC = timezone.utc


def zite(c, a, b):
    """ite over zone data; forks in the jobs that ask for it"""
    if ctx().fork_zones:
        return a() if bool(c) else b()
    return ite(c, a(), b())


class ZoneData:
    """K transitions: utc instants (seconds since 0001-01-01, ordinal based:
    ord*86400+sod) and K+1 offsets (seconds)."""

    def __init__(self, trans, offs, name):
        self.trans, self.offs, self.name = trans, offs, name
        self.wall = [
            [t + smax(a, b) for t, a, b in zip(trans, offs, offs[1:])],
            [t + smin(a, b) for t, a, b in zip(trans, offs, offs[1:])],
        ]

    def _pick(self, arr, ts):
        """offset by bisect_right(arr, ts)"""
        if ctx().fork_zones:
            for i in range(len(arr) - 1, -1, -1):
                if bool(ts >= arr[i]):
                    return self.offs[i + 1]
            return self.offs[0]
        r = self.offs[0]
        for i, t in enumerate(arr):
            r = ite(ts >= t, self.offs[i + 1], r)
        return r

    def off_local(self, ts, fold):
        k = ("zol", id(self), _k(ts), _k(fold))
        r = ctx().cache.get(k)
        if r is None:
            if isinstance(fold, int):
                r = self._pick(self.wall[1 if fold else 0], ts)
            else:
                r = zite(
                    fold == 0, lambda: self._pick(self.wall[0], ts), lambda: self._pick(self.wall[1], ts)
                )
            ctx().cache[k] = r
        return r

    def off_utc(self, ts):
        k = ("zou", id(self), _k(ts))
        r = ctx().cache.get(k)
        if r is None:
            r = ctx().cache[k] = self._pick(self.trans, ts)
        return r

    def fold_utc(self, ts):
        """fold of the local time at utc second ts"""
        r = 0
        for i, t in enumerate(self.trans):
            shift = self.offs[i] - self.offs[i + 1]
            nxt = self.trans[i + 1] if i + 1 < len(self.trans) else None
            here = ts >= t if nxt is None else band(ts >= t, ts < nxt)
            r = ite(band(here, shift > ts - t), 1, r)
        if ctx().fork_zones and isinstance(r, SymInt):
            return 1 if bool(r == 1) else 0
        return r


def _k(x):
    return x.key() if isinstance(x, SymInt) else x


class ZoneInfoNotFoundError(KeyError):
    pass


class ZoneInfo(tzinfo):
    """zoneinfo.ZoneInfo over a registry of symbolic zones"""

    def __new__(cls, key):
        if isinstance(key, SymStr):
            reg = ctx().objs.setdefault("zones", {})
            for name in reg:
                if bool(key == name):
                    return cls(name)
            # some other text: either unknown or a malformed key
            if bool(ctx().fresh("tzerr", 0, 1) == 0):
                raise ZoneInfoNotFoundError("No time zone found")
            raise ValueError("malformed key")
        if not isinstance(key, str):
            raise TypeError(f"expected str, bytes or os.PathLike object, not {type(key).__name__}")
        cache = ctx().objs.setdefault("zi", {})
        if key in cache:
            return cache[key]
        zd = ctx().objs.setdefault("zones", {}).get(key)
        if zd is None:
            # let the real library decide which error this is
            from zoneinfo._tzpath import _validate_path  # type: ignore

            if key.startswith("/") or ".." in key or "\x00" in key or key == "":
                _validate_path(key, _base="/x")
            raise ZoneInfoNotFoundError(f"No time zone found with key {key}")
        self = object.__new__(cls)
        self.key, self._zd = key, zd
        cache[key] = self
        return self

    @classmethod
    def no_cache(cls, key):
        self = object.__new__(cls)
        z = cls(key)
        self.key, self._zd = z.key, z._zd
        return self

    @classmethod
    def clear_cache(cls, **kw):
        ctx().objs["zi"] = {}

    def sx_offset(self, dt):
        return self._zd.off_local(dt._ts, dt._fold) * US

    def utcoffset(self, dt):
        if dt is None:
            return None
        return timedelta._mk(self.sx_offset(dt))

    def dst(self, dt):
        return timedelta._mk(0)

    def tzname(self, dt):
        return OpaqueStr()

    def fromutc(self, dt):
        if not isinstance(dt, datetime):
            raise TypeError("fromutc() requires a datetime argument")
        if dt.tzinfo is not self:
            raise ValueError("fromutc: dt.tzinfo is not self")
        ts = dt._ts
        r = dt._plus_us(self._zd.off_utc(ts) * US)
        f = self._zd.fold_utc(ts)
        if not (isinstance(f, int) and f == 0):
            r = r._copy(fold=f)
        return r

    def __str__(self):
        return self.key

    def __repr__(self):
        return f"ZoneInfo(key={self.key!r})"

    def sx_hash(self):
        return HashKey(("zi", self.key))


# -- date --------------------------------------------------------------------

def _check_date(y, m, d):
    if not bool(band(y >= MINYEAR, y <= MAXYEAR)):
        raise ValueError("year is out of range")
    if not bool(band(m >= 1, m <= 12)):
        raise ValueError("month must be in 1..12")
    if not bool(band(d >= 1, d <= days_in_month(y, m))):
        raise ValueError("day is out of range for month")


def _check_time(h, mi, s, us, fold):
    if not bool(band(h >= 0, h <= 23)):
        raise ValueError("hour must be in 0..23")
    if not bool(band(mi >= 0, mi <= 59)):
        raise ValueError("minute must be in 0..59")
    if not bool(band(s >= 0, s <= 59)):
        raise ValueError("second must be in 0..59")
    if not bool(band(us >= 0, us <= 999999)):
        raise ValueError("microsecond must be in 0..999999")
    if not bool(bor(fold == 0, fold == 1)):
        raise ValueError("fold must be either 0 or 1")


def _narrow_ymd(y, m, d):
    """record the validity facts in the interval domain"""
    for v, lo, hi in ((y, 1, 9999), (m, 1, 12), (d, 1, 31)):
        _narrow(v, lo, hi)


def _narrow(v, lo, hi):
    if isinstance(v, SymInt) and len(v.t) == 1:
        (aid, k), = v.t.items()
        if k == 1:
            a = ctx().atoms[aid]
            core._tl(a, lo - v.c)
            core._th(a, hi - v.c)


class date:
    __slots__ = ("_y", "_m", "_d", "_ord")

    def __new__(cls, year, month=None, day=None):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        y, m, d = c_int(year), c_int(month), c_int(day)
        y, m, d, o = _valid_date(y, m, d)
        self = cls._ymd_(y, m, d)
        self._ord = o
        return self

    @classmethod
    def _ymd_(cls, y, m, d):
        self = object.__new__(cls)
        self._y, self._m, self._d, self._ord = y, m, d, None
        return self

    @classmethod
    def _ord_(cls, o):
        self = object.__new__(cls)
        self._y = self._m = self._d = None
        self._ord = o
        return self

    def _fill(self):
        if self._y is None:
            self._y, self._m, self._d = ord2ymd(self._ord)

    @property
    def year(self):
        self._fill()
        return self._y

    @property
    def month(self):
        self._fill()
        return self._m

    @property
    def day(self):
        self._fill()
        return self._d

    @property
    def _o(self):
        if self._ord is None:
            o = ymd2ord(self._y, self._m, self._d)
            if isinstance(o, SymInt) and isinstance(self, date):
                k = ("ymd", o.key())
                ctx().cache.setdefault(k, (self._y, self._m, self._d))
            self._ord = o
        return self._ord

    def _datekey(self):
        return self._y * 372 + self._m * 31 + self._d

    def toordinal(self):
        return self._o

    @classmethod
    def fromordinal(cls, o):
        o = as_int(o)
        if not bool(band(o >= 1, o <= MAXORD)):
            raise ValueError("ordinal must be >= 1" if bool(o < 1) else "year is out of range")
        return cls._ord_(o)

    @classmethod
    def today(cls):
        raise Unsupported("date.today()")

    def weekday(self):
        return (self._o + 6) % 7

    def isoweekday(self):
        return (self._o + 6) % 7 + 1

    def isocalendar(self):
        raise Unsupported("isocalendar")

    def isoformat(self):
        self._fill()
        return mk(
            digits_of(self._y, 4) + ["-"] + digits_of(self._m, 2) + ["-"] + digits_of(self._d, 2)
        )

    def sx_str(self):
        return self.isoformat()

    def __str__(self):
        raise Unsupported("native str of a date")

    def __repr__(self):
        return "<sym date>"

    def strftime(self, f):
        return _strftime(self, f)

    def timetuple(self):
        yday = self.toordinal() - date(self.year, 1, 1).toordinal() + 1
        return (self.year, self.month, self.day, 0, 0, 0, self.weekday(), yday, -1)

    def replace(self, year=None, month=None, day=None):
        return type(self)(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
        )

    @classmethod
    def fromisoformat(cls, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("fromisoformat: argument must be str")
        y, m, d = _parse_iso_date(s)
        return cls(y, m, d)

    def __add__(self, o):
        if isinstance(o, _real.timedelta):
            o = timedelta._mk(_td_us(o))
        if isinstance(o, timedelta):
            return self._plus_days(o.days)
        return NotImplemented

    __radd__ = __add__

    def _plus_days(self, n):
        o = self._o + n
        if not bool(band(o >= 1, o <= MAXORD)):
            raise OverflowError("date value out of range")
        return type(self)._ord_(o)

    def __sub__(self, o):
        if isinstance(o, _real.timedelta):
            o = timedelta._mk(_td_us(o))
        if isinstance(o, timedelta):
            return self._plus_days(-o.days)
        if isinstance(o, date):
            return timedelta._mk((self._o - o._o) * (DAY * US))
        return NotImplemented

    def _cmp(self, o, f):
        """f applied to two linear keys"""
        if self._ord is not None and o._ord is not None:
            return f(self._ord, o._ord)
        if self._y is not None and o._y is not None:
            return f(self._datekey(), o._datekey())
        return f(self._o, o._o)

    def _dc(self, o):
        return isinstance(o, date) and not isinstance(o, datetime)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b) if self._dc(o) else NotImplemented

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b) if self._dc(o) else NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b) if self._dc(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b) if self._dc(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b) if self._dc(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b) if self._dc(o) else NotImplemented

    def sx_hash(self):
        return HashKey(("date", self._o))

    def __hash__(self):
        raise Unsupported("native hash of a symbolic date")


# -- time --------------------------------------------------------------------

class time:
    __slots__ = ("_h", "_mi", "_s", "_us", "_tz", "_fold", "_sod_")

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        h, mi, s, us = c_int(hour), c_int(minute), c_int(second), c_int(microsecond)
        _check_time(h, mi, s, us, fold)
        _chk_tz(tzinfo)
        for v, hi in ((h, 23), (mi, 59), (s, 59), (us, 999999)):
            _narrow(v, 0, hi)
        return cls._mk(h, mi, s, us, tzinfo, fold)

    @classmethod
    def _mk(cls, h, mi, s, us, tz, fold, sod=None):
        self = object.__new__(cls)
        self._h, self._mi, self._s, self._us = h, mi, s, us
        self._tz, self._fold, self._sod_ = tz, fold, sod
        return self

    @property
    def hour(self):
        return self._h

    @property
    def minute(self):
        return self._mi

    @property
    def second(self):
        return self._s

    @property
    def microsecond(self):
        return self._us

    @property
    def tzinfo(self):
        return self._tz

    @property
    def fold(self):
        return self._fold

    @property
    def _sod(self):
        if self._sod_ is None:
            self._sod_ = self._h * 3600 + self._mi * 60 + self._s
        return self._sod_

    def replace(
        self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None
    ):
        return type(self)(
            self._h if hour is None else hour,
            self._mi if minute is None else minute,
            self._s if second is None else second,
            self._us if microsecond is None else microsecond,
            self._tz if tzinfo is True else tzinfo,
            fold=self._fold if fold is None else fold,
        )

    def isoformat(self, timespec="auto"):
        return mk(_fmt_time(self._h, self._mi, self._s, self._us, timespec) + _fmt_off(
            None if self._tz is None else self._tz.sx_offset(None)))

    def sx_str(self):
        return self.isoformat()

    def __str__(self):
        raise Unsupported("native str of a time")

    def __repr__(self):
        return "<sym time>"

    def utcoffset(self):
        return None if self._tz is None else self._tz.utcoffset(None)

    def strftime(self, f):
        return _strftime(self, f)

    @classmethod
    def fromisoformat(cls, s):
        if isinstance(s, str):
            t = _real.time.fromisoformat(s)
            if t.tzinfo is not None:
                raise Unsupported("time.fromisoformat with offset")
            return cls(t.hour, t.minute, t.second, t.microsecond)
        # HH[:MM[:SS[.fff[fff]]]]
        cs = chars(s)
        bad = ValueError("Invalid isoformat string")
        if len(cs) == 8 and bool(band(_is(cs[2], ":"), _is(cs[5], ":"))):
            h, mi, ss = (_num(cs[i:i + 2], bad) for i in (0, 3, 6))
            return cls(h, mi, ss)
        raise Unsupported("time.fromisoformat of this symbolic text")

    def _key(self):
        return self._sod * US + self._us

    def _tc(self, o):
        if not isinstance(o, time):
            return False
        if (self._tz is None) != (o._tz is None):
            raise Unsupported("comparison of naive and aware times")
        if self._tz is not None and self._tz is not o._tz:
            raise Unsupported("comparison of aware times")
        return True

    def __eq__(self, o):
        return self._key() == o._key() if self._tc(o) else NotImplemented

    def __ne__(self, o):
        return self._key() != o._key() if self._tc(o) else NotImplemented

    def __lt__(self, o):
        return self._key() < o._key() if self._tc(o) else NotImplemented

    def __le__(self, o):
        return self._key() <= o._key() if self._tc(o) else NotImplemented

    def __gt__(self, o):
        return self._key() > o._key() if self._tc(o) else NotImplemented

    def __ge__(self, o):
        return self._key() >= o._key() if self._tc(o) else NotImplemented

    def __bool__(self):
        return True

    def sx_hash(self):
        if self._tz is not None:
            raise Unsupported("hash of an aware time")
        return HashKey(("time", self._key()))

    def __hash__(self):
        raise Unsupported("native hash of a symbolic time")


def _is(c, ch):
    return (c == ch) if isinstance(c, str) else c == ord(ch)


def _num(cs, exc):
    """fixed-width ASCII digits (as C's parse_digits)"""
    v = 0
    for c in cs:
        c = ord(c) if isinstance(c, str) else c
        if not bool(band(c >= 48, c <= 57)):
            raise exc
        v = v * 10 + (c - 48)
    return v


def _chk_tz(tz):
    if tz is not None and not isinstance(tz, tzinfo):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass")


def _fmt_time(h, mi, s, us, timespec="auto"):
    base = digits_of(h, 2) + [":"] + digits_of(mi, 2)
    if timespec == "minutes":
        return base
    base += [":"] + digits_of(s, 2)
    if timespec == "seconds":
        return base
    if timespec == "milliseconds":
        return base + ["."] + digits_of(us // 1000, 3)
    if timespec == "microseconds" or (timespec == "auto" and bool(us != 0)):
        return base + ["."] + digits_of(us, 6)
    if timespec != "auto":
        raise ValueError("Unknown timespec value")
    return base


def _fmt_off(us):
    if us is None:
        return []
    neg = bool(us < 0)
    a = -us if neg else us
    secs, micro = divmod(a, US)
    h, r = divmod(secs, 3600)
    m, s = divmod(r, 60)
    out = ["-" if neg else "+"] + digits_of(h, 2) + [":"] + digits_of(m, 2)
    hasus = bool(micro != 0)
    if hasus or bool(s != 0):
        out += [":"] + digits_of(s, 2)
    if hasus:
        out += ["."] + digits_of(micro, 6)
    return out


_WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
_MN = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def _strftime(x, f):
    raise Unsupported("strftime")


def _parse_iso_date(s):
    """C parse_isoformat_date for YYYY-MM-DD, YYYYMMDD and week forms"""
    cs = chars(s)
    bad = ValueError("Invalid isoformat string")
    if isinstance(s, str):
        d = _real.date.fromisoformat(s)
        return d.year, d.month, d.day
    if len(cs) not in (7, 8, 10):
        raise bad
    year = _num(cs[:4], bad)
    i = 4
    sep = bool(_is(cs[4], "-"))
    if sep:
        i += 1
    if bool(_is(cs[i], "W")):
        i += 1
        week = _num(cs[i:i + 2], bad) if i + 2 <= len(cs) else _raise(bad)
        i += 2
        day = 1
        if i < len(cs):
            if sep:
                if not bool(_is(cs[i], "-")):
                    raise bad
                i += 1
            if i + 1 > len(cs):
                raise bad
            day = _num(cs[i:i + 1], bad)
            i += 1
        if i != len(cs):
            raise bad
        return _iso_to_ymd(year, week, day)
    if i + 2 > len(cs):
        raise bad
    month = _num(cs[i:i + 2], bad)
    i += 2
    if sep:
        if i >= len(cs) or not bool(_is(cs[i], "-")):
            raise bad
        i += 1
    if i + 2 > len(cs):
        raise bad
    day = _num(cs[i:i + 2], bad)
    i += 2
    if i != len(cs):
        raise bad
    return year, month, day


def _raise(e):
    raise e


def _iso_to_ymd(year, week, day):
    bad = ValueError("Invalid ISO week date")
    if not bool(band(year >= 1, year <= 9999)):
        raise bad
    # weekday of Jan 1st / iso week-1 monday
    first = ymd2ord(year, 1, 1)
    fw = (first + 6) % 7
    if not bool(band(week >= 1, week < 53)):
        ok = False
        if bool(week == 53):
            ok = bool(bor(fw == 3, band(fw == 2, is_leap(year))))
        if not ok:
            raise bad
    if not bool(band(day >= 1, day <= 7)):
        raise bad
    monday = first - fw + ite(fw > 3, 7, 0)
    o = monday + (week - 1) * 7 + day - 1
    if not bool(band(o >= 1, o <= MAXORD)):
        raise bad
    return ord2ymd(o)


# -- datetime ----------------------------------------------------------------

class datetime(date):
    __slots__ = ("_h", "_mi", "_s", "_us", "_tz", "_fold", "_sod_")

    def __new__(
        cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0,
        tzinfo=None, *, fold=0
    ):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        y, m, d = c_int(year), c_int(month), c_int(day)
        h, mi, s, us = c_int(hour), c_int(minute), c_int(second), c_int(microsecond)
        fold = as_int(fold)
        y, m, d, o = _valid_date(y, m, d)
        _check_time(h, mi, s, us, fold)
        _chk_tz(tzinfo)
        for v, hi in ((h, 23), (mi, 59), (s, 59), (us, 999999), (fold, 1)):
            _narrow(v, 0, hi)
        self = object.__new__(cls)
        self._y, self._m, self._d, self._ord = y, m, d, o
        self._h, self._mi, self._s, self._us = h, mi, s, us
        self._tz, self._fold, self._sod_ = tzinfo, fold, None
        return self

    @classmethod
    def _new(cls, dt_like, h, mi, s, sod, us, tz, fold):
        self = object.__new__(cls)
        self._y, self._m, self._d, self._ord = dt_like
        self._h, self._mi, self._s, self._sod_ = h, mi, s, sod
        self._us, self._tz, self._fold = us, tz, fold
        return self

    def _copy(self, **kw):
        """copy without validation; keys: tz, fold, us"""
        return type(self)._new(
            (self._y, self._m, self._d, self._ord), self._h, self._mi, self._s, self._sod_,
            kw.get("us", self._us), kw.get("tz", self._tz), kw.get("fold", self._fold),
        )

    @classmethod
    def _copy_of(cls, x):
        return cls._new((x._y, x._m, x._d, x._ord), x._h, x._mi, x._s, x._sod_, x._us, x._tz, x._fold)

    def _fillt(self):
        if self._h is None:
            self._h, r = divmod(self._sod_, 3600)
            self._mi, self._s = divmod(r, 60)

    @property
    def hour(self):
        self._fillt()
        return self._h

    @property
    def minute(self):
        self._fillt()
        return self._mi

    @property
    def second(self):
        self._fillt()
        return self._s

    @property
    def microsecond(self):
        return self._us

    @property
    def tzinfo(self):
        return self._tz

    @property
    def fold(self):
        return self._fold

    @property
    def _sod(self):
        if self._sod_ is None:
            self._sod_ = self._h * 3600 + self._mi * 60 + self._s
        return self._sod_

    @property
    def _ts(self):
        """local seconds since ordinal 0"""
        return self._o * DAY + self._sod

    @classmethod
    def _from_ts(cls, ts, us, tz, fold=0):
        """raises OverflowError outside year 1..9999"""
        o, sod = divmod(ts, DAY)
        if not bool(band(o >= 1, o <= MAXORD)):
            raise OverflowError("date value out of range")
        return cls._new((None, None, None, o), None, None, None, sod, us, tz, fold)

    # constructors
    @classmethod
    def combine(cls, date_, time_, tzinfo=True):
        if not isinstance(date_, date):
            raise TypeError("combine() argument 1 must be datetime.date")
        if not isinstance(time_, time):
            raise TypeError("combine() argument 2 must be datetime.time")
        tz = time_._tz if tzinfo is True else tzinfo
        _chk_tz(tz)
        return cls._new(
            (date_._y, date_._m, date_._d, date_._ord),
            time_._h, time_._mi, time_._s, time_._sod_, time_._us, tz, time_._fold,
        )

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if isinstance(ts, (float, SymFloatBase)):
            n, d, e = floats.parts(ts)
            if e:
                raise Unsupported("fromtimestamp of an inexact float")
            # round-half-even to microseconds
            us_total = _round_half_even(n * US, d)
        else:
            us_total = as_int(ts) * US
        secs, us = divmod(us_total, US)
        if bool(bor(secs > (1 << 62), secs < -(1 << 62))):
            raise OverflowError("timestamp out of range for platform time_t")
        if bool(bor(secs > 67_000_000_000_000_000, secs < -67_000_000_000_000_000)):
            raise OSError(75, "Value too large for defined data type")
        loc = secs + EPOCH_ORD * DAY
        if tz is None:
            sz = system_zone()
            loc = loc + sz.off_utc(loc)
        o = loc // DAY
        if not bool(band(o >= 1, o <= MAXORD)):
            raise ValueError("year is out of range")
        r = cls._from_ts(loc, us, tz)
        if tz is None:
            f = system_zone().fold_utc(secs + EPOCH_ORD * DAY)
            return r._copy(fold=f)
        _chk_tz(tz)
        return tz.fromutc(r)

    @classmethod
    def utcfromtimestamp(cls, ts):
        return cls.fromtimestamp(ts, UTC)._copy(tz=None)

    @classmethod
    def fromordinal(cls, o):
        d = date.fromordinal(o)
        return cls._new((None, None, None, d._ord), 0, 0, 0, 0, 0, None, 0)

    @classmethod
    def now(cls, tz=None):
        ns = clock_ns()
        r = cls.fromtimestamp(ns // 1_000_000_000, tz)
        return r._copy(us=ns % 1_000_000_000 // 1000)

    @classmethod
    def utcnow(cls):
        return cls.now(UTC)._copy(tz=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def strptime(cls, s, fmt):
        return _strptime(cls, s, fmt)

    @classmethod
    def fromisoformat(cls, s):
        if isinstance(s, str):
            d = _real.datetime.fromisoformat(s)
            tz = None
            if d.tzinfo is not None:
                tz = timezone(timedelta._mk(_td_us(d.utcoffset())))
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tz)
        cs = chars(s)
        bad = ValueError("Invalid isoformat string")
        if len(cs) == 19:
            seps = band(_is(cs[4], "-"), _is(cs[7], "-"), _is(cs[13], ":"), _is(cs[16], ":"))
            if bool(seps):
                # the separator at 10 may be anything
                v = [_num(cs[a:b], bad) for a, b in
                     ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
                return cls(*v)
            raise Unsupported("datetime.fromisoformat of this symbolic text")
        if len(cs) == 10:
            y, m, d = _parse_iso_date(s)
            return cls(y, m, d)
        raise Unsupported("datetime.fromisoformat of this symbolic text")

    # parts
    def date(self):
        if self._y is not None:
            r = date._ymd_(self._y, self._m, self._d)
            r._ord = self._ord
            return r
        return date._ord_(self._ord)

    def time(self):
        self._fillt()
        return time._mk(
            self._h, self._mi, self._s, self._us, None, self._fold, self._sod_
        )

    def timetz(self):
        r = self.time()
        r._tz = self._tz
        return r

    def timetuple(self):
        return _TimeTuple(self)

    def utctimetuple(self):
        return _TimeTuple(self.astimezone(UTC) if self._tz is not None else self, 0)

    def replace(
        self, year=None, month=None, day=None, hour=None, minute=None, second=None,
        microsecond=None, tzinfo=True, *, fold=None
    ):
        if year is None and month is None and day is None and hour is None and (
            minute is None and second is None
        ):
            # only fields that keep the calendar part
            us = self._us if microsecond is None else c_int(microsecond)
            f = self._fold if fold is None else _foldint(fold)
            tz = self._tz if tzinfo is True else tzinfo
            if not bool(band(us >= 0, us <= 999999)):
                raise ValueError("microsecond must be in 0..999999")
            if not bool(bor(f == 0, f == 1)):
                raise ValueError("fold must be either 0 or 1")
            _chk_tz(tz)
            return self._copy(us=us, fold=f, tz=tz)
        return type(self)(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
            self.hour if hour is None else hour,
            self.minute if minute is None else minute,
            self.second if second is None else second,
            self._us if microsecond is None else microsecond,
            self._tz if tzinfo is True else tzinfo,
            fold=self._fold if fold is None else _foldint(fold),
        )

    def isoformat(self, sep="T", timespec="auto"):
        self._fill()
        self._fillt()
        return mk(
            date.isoformat_chars(self) + chars(sep)
            + _fmt_time(self._h, self._mi, self._s, self._us, timespec)
            + _fmt_off(None if self._tz is None else self._tz.sx_offset(self))
        )

    def sx_str(self):
        return self.isoformat(" ")

    def utcoffset(self):
        return None if self._tz is None else self._tz.utcoffset(self)

    def dst(self):
        return None if self._tz is None else self._tz.dst(self)

    def tzname(self):
        return None if self._tz is None else self._tz.tzname(self)

    def timestamp(self):
        if self._tz is None:
            ts = local_to_seconds(self._ts, self._fold)
            return floats.make((ts - EPOCH_ORD * DAY) * US + self._us, US)
        u = self._utc_us()
        return floats.make(u - EPOCH_ORD * DAY * US, US)

    def _utc_us(self):
        off = self._tz.sx_offset(self)
        return self._ts * US + self._us - off

    def _plus_us(self, us):
        """self + us microseconds, keeping tzinfo, fold=0"""
        tot = self._us + us
        secs, us2 = divmod(tot, US)
        if isinstance(secs, int) and secs == 0:
            r = self._copy(fold=0)
            r._us = us2
            return r
        r = type(self)._from_ts(self._ts + secs, us2, self._tz)
        return r

    def __add__(self, o):
        if isinstance(o, _real.timedelta):
            o = timedelta._mk(_td_us(o))
        if isinstance(o, timedelta):
            return self._plus_us(o._us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _real.timedelta):
            o = timedelta._mk(_td_us(o))
        if isinstance(o, timedelta):
            return self._plus_us(-o._us)
        if not isinstance(o, datetime):
            return NotImplemented
        if self._tz is o._tz:
            return timedelta._mk((self._ts - o._ts) * US + self._us - o._us)
        oa = None if self._tz is None else self._tz.sx_offset(self)
        ob = None if o._tz is None else o._tz.sx_offset(o)
        if (oa is None) != (ob is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        d = (self._ts - o._ts) * US + self._us - o._us
        if oa is not None:
            d = d - (oa - ob)
        return timedelta._mk(d)

    def astimezone(self, tz=None):
        if tz is not None and not isinstance(tz, tzinfo):
            raise TypeError("tz argument must be an instance of tzinfo")
        own = self._tz
        if own is None:
            own = local_timezone_from_local(self)
        if own is tz:
            return self
        off = own.sx_offset(self)
        if off is None:
            own = local_timezone_from_local(self)
            off = own.sx_offset(self)
        r = self._plus_us(-off)
        if self._tz is None and type(self) is not datetime:
            r = datetime._copy_of(r)
        r = r._copy(tz=UTC, fold=0)
        if tz is None:
            tz = local_timezone(r)
        r = r._copy(tz=tz)
        return tz.fromutc(r)

    def sx_hash(self):
        if self._tz is None:
            return HashKey(("dt", self._ts * US + self._us))
        s = self if isinstance(self._fold, int) and self._fold == 0 else self._copy(fold=0)
        off = self._tz.sx_offset(s)
        return HashKey(("td", s._ts * US + s._us - off))

    def __hash__(self):
        raise Unsupported("native hash of a symbolic datetime")

    def __repr__(self):
        return "<sym datetime>"

    # comparison
    def _exception(self):
        """pep495_eq_exception for one operand"""
        if self._tz is None or isinstance(self._tz, timezone):
            return False
        a = self._tz.sx_offset(self._copy(fold=1 - self._fold))
        return a != self._tz.sx_offset(self)

    def _cmpk(self, o):
        """(kind, a, b)"""
        if self._tz is o._tz:
            if (self._y is not None and o._y is not None and self._ord is None
                    and o._ord is None):
                f = lambda x: (x._datekey() * DAY + x._sod) * US + x._us
                return "base", f(self), f(o)
            return "base", self._ts * US + self._us, o._ts * US + o._us
        oa = None if self._tz is None else self._tz.sx_offset(self)
        ob = None if o._tz is None else o._tz.sx_offset(o)
        if (oa is None) != (ob is None):
            return "naive", None, None
        oa, ob = oa or 0, ob or 0
        return (
            "utc",
            self._ts * US + self._us - oa,
            o._ts * US + o._us - ob,
        )

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return False if isinstance(o, date) else NotImplemented
        kind, a, b = self._cmpk(o)
        if kind == "naive":
            return False
        r = a == b
        if kind == "utc":
            # pep495: a "problematic" operand never compares equal
            r = band(r, bnot(self._exception()), bnot(o._exception()))
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def _rel(self, o, f):
        if not isinstance(o, datetime):
            if isinstance(o, date):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return NotImplemented
        kind, a, b = self._cmpk(o)
        if kind == "naive":
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return f(a, b)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)


def _isochars(self):
    self._fill()
    return digits_of(self._y, 4) + ["-"] + digits_of(self._m, 2) + ["-"] + digits_of(self._d, 2)


date.isoformat_chars = _isochars


def _foldint(f):
    if isinstance(f, SymBool):
        return f._i()
    if isinstance(f, bool):
        return int(f)
    return as_int(f)


class _Unmodelled:
    """a value that may be passed around, but not looked at"""

    def __init__(self, what):
        self._what = what

    def _stop(self, *_):
        raise Unsupported(self._what)

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __bool__ = _stop
    __index__ = __int__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __str__ = _stop


class _TimeTuple:
    def __init__(self, d, isdst=None):
        self._dt, self._isdst = d, isdst

    def _seq(self):
        d = self._dt
        return (d.year, d.month, d.day, d.hour, d.minute, d.second)

    tm_year = property(lambda s: s._dt.year)
    tm_mon = property(lambda s: s._dt.month)
    tm_mday = property(lambda s: s._dt.day)
    tm_hour = property(lambda s: s._dt.hour)
    tm_min = property(lambda s: s._dt.minute)
    tm_sec = property(lambda s: s._dt.second)
    tm_wday = property(lambda s: s._dt.weekday())

    @property
    def tm_yday(self):
        d = self._dt
        return d.toordinal() - date(d.year, 1, 1).toordinal() + 1

    @property
    def tm_isdst(self):
        if self._isdst is not None:
            return self._isdst
        if self._dt.tzinfo is None or isinstance(self._dt.tzinfo, timezone):
            return -1
        return _Unmodelled("tm_isdst of a zone")

    def _at(self, k):
        if k < 6:
            return self._seq()[k]
        return getattr(self, ("tm_wday", "tm_yday", "tm_isdst")[k - 6])

    def __len__(self):
        return 9

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self._at(k) for k in range(*i.indices(9)))
        if not -9 <= i < 9:
            raise IndexError("tuple index out of range")
        return self._at(i % 9)

    def __iter__(self):
        return iter([self._at(k) for k in range(9)])


def _round_half_even(n, d):
    if d == 1:
        return n
    q, r = divmod(n, d)
    up = bor(2 * r > d, band(2 * r == d, q % 2 == 1))
    return q + ite(up, 1, 0)


# -- local time --------------------------------------------------------------

def system_zone():
    z = ctx().objs.get("system")
    if z is None:
        # the harness declared none: any constant offset
        c = ctx()
        o = c.inputs.get("anysys.o0")
        if o is None:
            o = c.inputs["anysys.o0"] = c.var("anysys.o0", -DAY + 1, DAY - 1)
        z = c.objs["system"] = ZoneData([], [o], "anysys")
    return z


def clock_ns():
    f = ctx().objs.get("clock")
    if f is None:
        raise Unsupported("clock used but the harness declared none")
    return f()


def _local(u):
    """C local(): local seconds for a utc second, with the year range check"""
    sz = system_zone()
    t = u + sz.off_utc(u)
    if not bool(band(t >= DAY, t < (MAXORD + 1) * DAY)):
        raise ValueError("year is out of range")
    return t


MAX_FOLD = 24 * 3600


def local_to_seconds(t, fold):
    """port of CPython's local_to_seconds (t: local seconds)"""
    k = ("l2s", id(system_zone()), _k(t), _k(fold))
    r = ctx().cache.get(k)
    if r is not None:
        return r
    lt = _local(t)
    a = lt - t
    u1 = t - a
    t1 = _local(u1)
    if bool(t1 == t):
        if isinstance(fold, int):
            u2 = u1 + MAX_FOLD if fold else u1 - MAX_FOLD
        else:
            u2 = u1 + ite(fold == 1, MAX_FOLD, -MAX_FOLD)
        lt = _local(u2)
        b = lt - u2
        if bool(a == b):
            ctx().cache[k] = u1
            return u1
    else:
        b = t1 - u1
    u2 = t - b
    t2 = _local(u2)
    if bool(t2 == t):
        r = u2
    elif bool(t1 == t):
        r = u1
    else:
        r = ite(fold == 1, smin(u1, u2), smax(u1, u2))
    ctx().cache[k] = r
    return r


def local_timezone_from_local(dt):
    fold = dt._fold
    ts = local_to_seconds(dt._ts, fold)
    ts2 = local_to_seconds(dt._ts, (0 if fold else 1) if isinstance(fold, int) else 1 - fold)
    # in a gap the two come out reversed (cpython#83861, fixed in 3.12)
    ts = ite(band(ts2 != ts, beq(ts2 > ts, fold == 1)), ts2, ts)
    return _ltz(ts)


def local_timezone(utc_dt):
    return _ltz(utc_dt._ts)


def _ltz(ts):
    off = system_zone().off_utc(ts)
    return timezone._mk(off * US, "SYS")


date.min = date._ymd_(1, 1, 1)
date.max = date._ymd_(9999, 12, 31)
date.resolution = timedelta._mk(DAY * US)
time.min = time._mk(0, 0, 0, 0, None, 0)
time.max = time._mk(23, 59, 59, 999999, None, 0)
datetime.min = datetime._new((1, 1, 1, None), 0, 0, 0, None, 0, None, 0)
datetime.max = datetime._new((9999, 12, 31, None), 23, 59, 59, None, 999999, None, 0)


def _strptime(cls, s, fmt):
    """_strptime.py of CPython 3.12, for formats of numeric directives"""
    import re
    import _strptime as real_impl
    from . import strs

    if not isinstance(s, (str, SymStr)):
        raise TypeError("strptime() argument 1 must be str")
    if not isinstance(fmt, str):
        raise Unsupported("symbolic format")
    dirs = set(re.findall("%(:?.)", fmt))
    lits = re.sub("%:?.", "", fmt)
    if not dirs <= set("YmdHMSfz") or any(c.isalpha() for c in lits):
        raise Unsupported("strptime format " + fmt)
    pat = real_impl.TimeRE().pattern(fmt).replace("(?-i:Z)", "Z")
    m = strs.Pattern(pat).match(s)
    bad = ValueError("time data does not match format")
    if m is None:
        raise bad
    if m.end() != len(s):
        raise ValueError("unconverted data remains")
    g = {k: m.group(k) for k in m.re.groupindex}

    def dig(cs):
        v = 0
        for i, c in enumerate(cs):
            c = ord(c) if isinstance(c, str) else c
            if i == 0 and bool(c == 32):
                continue
            if not bool(band(c >= 48, c <= 57)):
                raise Unsupported("strptime: other digits")
            v = v * 10 + (c - 48)
        return v

    def num(k, dflt):
        return dig(strs.chars(g[k])) if g.get(k) is not None else dflt

    y, mo, d = num("Y", 1900), num("m", 1), num("d", 1)
    h, mi, sec = num("H", 0), num("M", 0), num("S", 0)
    us = 0
    if g.get("f") is not None:
        f = strs.chars(g["f"])
        us = dig(f) * 10 ** (6 - len(f))
    if "Y" not in dirs and "m" in dirs and "d" in dirs:
        raise Unsupported("strptime without a year")
    date(y, mo, d)                      # the weekday is computed first
    tz = None
    if g.get("z") is not None:
        z = strs.chars(g["z"])
        if len(z) == 1:
            off, fr, neg = 0, 0, False
        else:
            if bool(_is(z[3], ":")):
                z = z[:3] + z[4:]
                if len(z) > 5:
                    if not bool(_is(z[5], ":")):
                        raise ValueError("Inconsistent use of :")
                    z = z[:5] + z[6:]
            off = dig(z[1:3]) * 3600 + dig(z[3:5]) * 60
            if len(z) > 5:
                off = off + dig(z[5:7])
            fr = z[8:]
            fr = dig(fr) * 10 ** (6 - len(fr)) if fr else 0
            neg = bool(_is(z[0], "-"))
        if neg:
            off, fr = -off, -fr
        tz = timezone(timedelta(seconds=off, microseconds=fr))
    return cls(y, mo, d, h, mi, sec, us, tz)
