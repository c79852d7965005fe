"""Reading ISO 8601 text: exactly the documented forms, and the value they state."""
from sx.runner import Prop, cross

PROP = Prop(
    "C18",
    functions=["Date/YearMonth/MonthDay/Time/LocalDateTime/Instant/OffsetDateTime/ZonedDateTime/"
               "SystemDateTime.parse_common_iso", "_match_* regular expressions",
               "_adjust_fold_to_offset", "_check_utc_bounds"],
    bounds="every text of 0..11 characters (Date, YearMonth, MonthDay, Time; thorough: 0..19); texts "
           "of 19..40 characters with every fixed-width part free: all digits symbolic, or any 3 "
           "neighbouring characters arbitrary; characters U+0000..U+00FF and U+0660..U+0669; zones "
           "with any 2 (thorough: 3) transitions",
    outside="long texts with several damaged places far apart; time zone keys other than the ones "
            "used; characters outside the stated set",
    stubs=["datetime/zoneinfo, re: models of CPython 3.12"],
)
NS = 10**9
RANGE = (ValueError, OverflowError)
CHARS = ((0, 255), (0x660, 0x669))


def isdig(w, c):
    return w.band(c >= 48, c <= 57)


def num(cs):
    n = 0
    for c in cs:
        n = n * 10 + (c - 48)
    return n


class Text:
    """recognizer over code points: collects the conditions for the text to be
    well formed and the numbers it states"""

    def __init__(self, w, cs):
        self.w, self.cs, self.i, self.conds, self.bad = w, cs, 0, [], False

    def left(self):
        return len(self.cs) - self.i

    def digits(self, n):
        part = self.cs[self.i:self.i + n]
        self.i += n
        if len(part) < n:
            self.bad = True
            return 0
        self.conds += [isdig(self.w, c) for c in part]
        return num(part)

    def lit(self, s):
        for a in s:
            if self.i >= len(self.cs):
                self.bad = True
                return
            self.conds.append(self.cs[self.i] == ord(a))
            self.i += 1

    def oneof(self, s):
        if self.i >= len(self.cs):
            self.bad = True
            return
        c = self.cs[self.i]
        self.conds.append(self.w.bor(*[c == ord(a) for a in s]))
        self.i += 1

    def date(self):
        y = self.digits(4)
        self.lit("-")
        m = self.digits(2)
        self.lit("-")
        d = self.digits(2)
        return y, m, d

    def hms(self):
        h = self.digits(2)
        self.lit(":")
        m = self.digits(2)
        self.lit(":")
        s = self.digits(2)
        return h, m, s

    def formed(self, *more):
        """True when the text has the form; decides it (forks)"""
        if self.bad or self.i != len(self.cs):
            return False
        return bool(self.w.band(*self.conds, *more))


def valid_date(w, y, m, d):
    """is (y, m, d) a date?  (forks)"""
    if not w.band(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1):
        return False
    return bool(d <= w.dim(y, m))


def frac(t):
    """optional fraction: every remaining character up to the tail is a digit"""
    def go(tail):
        n = t.left() - tail
        if n == 0:
            return 0
        if n < 2 or n > 10:
            t.bad = True
            return 0
        t.lit(".")
        return t.digits(n - 1) * 10**(10 - n)
    return go


FREE = {"Date": 10, "YearMonth": 7, "MonthDay": 7, "Time": 8}


def read(w, cls, cs):
    """what the text states: None (not well formed), or the fields"""
    t = Text(w, cs)
    if cls == "Date":
        y, m, d = t.date()
        if t.formed() and valid_date(w, y, m, d):
            return (y, m, d)
    elif cls == "YearMonth":
        y = t.digits(4)
        t.lit("-")
        m = t.digits(2)
        if t.formed(y >= 1, m >= 1, m <= 12):
            return (y, m)
    elif cls == "MonthDay":
        t.lit("--")
        m = t.digits(2)
        t.lit("-")
        d = t.digits(2)
        if t.formed() and valid_date(w, 2000, m, d):
            return (m, d)
    elif cls == "Time":
        h, mi, s = t.hms()
        n = frac(t)(0)
        if t.formed(h <= 23, mi <= 59, s <= 59):
            return (h, mi, s, n)
    return None


def fields(cls, x):
    return {"Date": lambda: (x.year, x.month, x.day),
            "YearMonth": lambda: (x.year, x.month),
            "MonthDay": lambda: (x.month, x.day),
            "Time": lambda: (x.hour, x.minute, x.second, x.nanosecond)}[cls]()


@PROP.job(cross(cls=list(FREE), n=range(12)) + cross(cls=["Time"], n=[12, 18, 19]),
          thorough=cross(cls=list(FREE), n=range(12, 20)))
def free(w, cls, n):
    """any text at all of n characters"""
    s = w.symstr("t", n, CHARS)
    r = w.attempt(getattr(w.m, cls).parse_common_iso, s)
    want = read(w, cls, w.chars(s))
    if want is None:
        w.check("other text raises ValueError", r.raised(ValueError))
    else:
        w.check("well-formed text accepted", r.ok)
        w.check("the value stated", w.band(*[a == b for a, b in zip(fields(cls, r.value), want)]))


# --- longer forms -------------------------------------------------------------
BASE = "2###-##-##T##:##:##"


def damaged(w, like, at, k):
    """the template with k arbitrary characters from position `at`"""
    if at == "all":
        return w.symstr("t", len(like), CHARS)
    if at is None:
        return w.symstr("t", len(like), CHARS, like=like)
    k = min(k, len(like) - at)
    return w.symstr("t", len(like), CHARS, like=like[:at] + "?" * k + like[at + k:])


def datetime_of(w, t, sep, tail):
    y, m, d = t.date()
    t.oneof(sep)
    h, mi, s = t.hms()
    return y, m, d, h, mi, s, frac(t)(tail)


def ok_fields(w, f):
    y, m, d, h, mi, s, n = f
    return valid_date(w, y, m, d) and bool(w.band(h <= 23, mi <= 59, s <= 59))


def secs_of(w, f):
    y, m, d, h, mi, s, n = f
    return w.ordinal(y, m, d) * 86400 + h * 3600 + mi * 60 + s


FR = ["", ".#", ".###", ".#########", ".##########"]
PLACES = [None] + list(range(0, 20, 2))


@PROP.job(cross(fr=FR, at=[None, "all"]) + cross(fr=["", ".##"], at=PLACES[1:]),
          thorough=cross(fr=[".", ".#####"], at=[None]) + cross(fr=FR, at=range(0, 19)))
def local(w, fr, at):
    like = BASE.replace("2###", "####") + fr
    s = damaged(w, like, at, 3)
    r = w.attempt(w.m.LocalDateTime.parse_common_iso, s)
    t = Text(w, w.chars(s))
    f = datetime_of(w, t, "T", 0)
    if t.formed() and ok_fields(w, f):
        w.check("well-formed text accepted", r.ok)
        x = r.value
        w.check("the value stated", w.band(w.loc_s(x) == secs_of(w, f), x.nanosecond == f[6]))
    else:
        w.check("other text raises ValueError", r.raised(ValueError))


@PROP.job(cross(fr=FR, end=["Z", "+00:00"], at=[None, "all"]) + cross(fr=["", ".##"], end=["Z"], at=PLACES[1:])
          + cross(fr=["", ".#"], end=["+00:00", "-00:00", "+##:##", "z", "", "??????", "???"], at=[None]),
          thorough=cross(fr=FR, end=["Z", "+00:00"], at=range(0, 19)))
def instant(w, fr, end, at):
    like = BASE.replace("2###", "####") + fr + end
    s = damaged(w, like, at, 3)
    r = w.attempt(w.m.Instant.parse_common_iso, s)
    cs = w.chars(s)
    # 'Z', or the equivalent '+00:00'
    f = None
    t = Text(w, cs)
    g = datetime_of(w, t, "T", 1)
    t.lit("Z")
    if t.formed():
        f = g
    else:
        t = Text(w, cs)
        g = datetime_of(w, t, "T", 6)
        t.lit("+00:00")
        if t.formed():
            f = g
    if f is not None and ok_fields(w, f):
        w.check("well-formed text accepted", r.ok)
        u, ns = w.inst_s(r.value)
        w.check("the moment stated", u == secs_of(w, f))
        w.check("to the nanosecond", ns == (u - 719163 * 86400) * NS + f[6])
    else:
        w.check("other text raises ValueError", r.raised(ValueError))


def offset_of(w, cs):
    """(fields, offset) of a date and time followed by an offset, or None"""
    n = len(cs)
    for tail, form in ((1, "Z"), (6, "hm"), (9, "hms")):
        if n < 19 + tail:
            continue
        t = Text(w, cs)
        f = datetime_of(w, t, "T", tail)
        if t.bad:
            continue
        if form == "Z":
            t.lit("Z")
            if t.formed():
                return f, 0
            continue
        sg = cs[t.i]
        t.oneof("+-")
        h = t.digits(2)
        t.lit(":")
        m = t.digits(2)
        s = 0
        if form == "hms":
            t.lit(":")
            s = t.digits(2)
        if t.formed(h <= 23, m <= 59, s <= 59):
            o = h * 3600 + m * 60 + s
            return f, w.ite(sg == 45, -o, o)
    return None


ENDS = ["+##:##", "-##:##", "+##:##:##", "-##:##:##", "Z", "z", "", "+####", "+##", "??????", "?##:##",
        "+##:#", "+##:##:#", "+##:##:##:", "+##?##?##"]


@PROP.job(cross(cls=["OffsetDateTime", "SystemDateTime"], fr=["", ".#"], end=ENDS, at=[None])
          + cross(cls=["OffsetDateTime"], fr=["", ".##"], end=["+01:##"], at=range(0, 26, 2))
          + cross(cls=["OffsetDateTime"], fr=FR, end=["Z", "+##:##", "+##:##:##"], at=["all"]),
          thorough=cross(cls=["OffsetDateTime", "SystemDateTime"], fr=FR, end=ENDS, at=[None])
          + cross(cls=["OffsetDateTime"], fr=["", ".##"], end=["+01:##", "-##:30:##", "Z"],
                  at=range(0, 26)))
def offset(w, cls, fr, end, at):
    """OffsetDateTime, and SystemDateTime which reads the same form and keeps the offset"""
    like = (BASE if at is not None else BASE.replace("2###", "####")) + fr + end
    s = damaged(w, like, at, 3)
    if cls == "SystemDateTime":
        w.system_zone(1)
    r = w.attempt(getattr(w.m, cls).parse_common_iso, s)
    got = offset_of(w, w.chars(s))
    if got is None or not ok_fields(w, got[0]):
        w.check("other text raises ValueError", r.raised(ValueError))
        return
    f, o = got
    u = secs_of(w, f) - o
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
        return
    w.check("well-formed text accepted", r.ok)
    x = r.value
    w.check("the local time stated", w.band(w.loc_s(x) == u + o, x.nanosecond == f[6]))
    w.check("the offset stated", w.off_s(x) == o)
    w.check("the moment stated", w.band(w.inst_s(x)[0] == u))


@PROP.job(cross(end=["+##:##", "-##:##", "+##:##:##", "-##:##:##", "Z"], K=[2]),
          thorough=cross(end=["+##:##:##", "-##:##:##"], K=[3]), fork=True)
def zoned(w, end, K):
    """any local time, any offset: accepted exactly when the zone has that
    offset at that moment"""
    z = w.zone("Z/A", K)
    s = w.symstr("t", len(BASE + end) + 5, like=BASE + end + "[Z/A]")
    r = w.attempt(w.m.ZonedDateTime.parse_common_iso, s)
    cs = w.chars(s)
    got = offset_of(w, cs[:-5])
    if got is None or not ok_fields(w, got[0]):
        w.check("other text raises ValueError", r.raised(ValueError))
        return
    f, o = got
    l = secs_of(w, f)
    u = l - o
    if z.off_utc(u) != o:
        w.check("wrong offset raises InvalidOffset", r.raised(w.m.InvalidOffset))
        return
    w.check("well-formed text accepted", r.ok)
    x = r.value
    w.check("the local time stated", w.band(w.loc_s(x) == l, x.nanosecond == f[6]))
    w.check("the offset stated", w.off_s(x) == o)
    w.check("the moment stated", w.inst_s(x)[0] == u)
    w.check("the zone stated", x.tz == "Z/A")


@PROP.job(cross(text=["0001-01-01T##:##:##", "9999-12-31T##:##:##"], sign="+-"), fork=True)
def zoned_edge(w, text, sign):
    """near the range limits: the stated value, or an error"""
    z = w.zone("Z/A", 1, lo=86400, hi=3652060 * 86400 - 1)
    s = w.symstr("t", 30, like=text + sign + "##:##[Z/A]")
    r = w.attempt(w.m.ZonedDateTime.parse_common_iso, s)
    got = offset_of(w, w.chars(s)[:-5])
    if got is None or not ok_fields(w, got[0]):
        w.check("other text raises ValueError", r.raised(ValueError))
        return
    f, o = got
    l = secs_of(w, f)
    u = l - o
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
    elif z.off_utc(u) != o:
        w.check("wrong offset raises InvalidOffset", r.raised(*RANGE))
    else:
        w.check("well-formed text accepted", r.ok)
        w.check("the value stated", w.band(w.loc_s(r.value) == l, w.off_s(r.value) == o))


@PROP.job(cross(at=range(0, 30, 2), fr=["", ".#"]), thorough=cross(at=range(0, 30), fr=["", ".###"]),
          fork=True)
def zoned_damaged(w, at, fr):
    z = w.zone("Z/A", 1)
    like = "2###-##-##T10:##:##" + fr + "+01:00[Z/A]"
    k = min(3, len(like) - at)
    s = damaged(w, like, at, k)
    cs = w.chars(s)
    n = len(cs)
    keyed = w.band(cs[n - 5] == ord("["), cs[n - 4] == ord("Z"), cs[n - 3] == ord("/"),
                   cs[n - 2] == ord("A"), cs[n - 1] == ord("]"))
    w.assume(w.band(*[c != ord("[") for c in cs[:n - 5]]))
    if not keyed:
        # other brackets or another key: outside (keys are looked up in the tz database)
        w.assume(w.bor(cs[n - 5] != ord("["), cs[n - 1] != ord("]"),
                       *[c == ord("]") for c in cs[n - 4:n - 1]]))
        w.must_raise("damaged key raises", ValueError, w.m.ZonedDateTime.parse_common_iso, s)
        return
    r = w.attempt(w.m.ZonedDateTime.parse_common_iso, s)
    got = offset_of(w, cs[:-5])
    if got is None or not ok_fields(w, got[0]):
        w.check("other text raises ValueError", r.raised(ValueError))
        return
    f, o = got
    u = secs_of(w, f) - o
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
    elif z.off_utc(u) != o:
        w.check("wrong offset raises InvalidOffset", r.raised(w.m.InvalidOffset))
    else:
        w.check("well-formed text accepted", r.ok)
        w.check("the value stated", w.band(w.inst_s(r.value)[0] == u, w.off_s(r.value) == o,
                                           r.value.nanosecond == f[6]))


@PROP.job(cross(cls=list(FREE) + ["LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime",
                                  "SystemDateTime", "TimeDelta", "DateDelta", "DateTimeDelta"]))
def not_text(w, cls):
    """anything but text raises TypeError (or ValueError)"""
    v = w.int("v", -10, 10**8)
    for x in (v, None, b"2020-01-01", ("2020-01-01",)):
        w.must_raise("not a string", (TypeError, ValueError, AttributeError),
                     getattr(w.m, cls).parse_common_iso, x)
