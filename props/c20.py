"""RFC 3339 and RFC 2822 text."""
from sx.runner import Prop, cross
from props.c17 import digits, frac, frac_len, date_text, time_text, codes, same
from props.c18 import (Text, datetime_of, ok_fields, secs_of, valid_date, FR, CHARS, NS, RANGE)

PROP = Prop(
    "C20",
    functions=["Instant/OffsetDateTime.format_rfc3339/parse_rfc3339",
               "Instant/OffsetDateTime.format_rfc2822/parse_rfc2822", "_match_rfc3339",
               "_match_utc_rfc3339", "email.utils.parsedate_to_datetime (the standard library's own "
               "source, run symbolically)"],
    bounds="every value for RFC 3339; texts of 19..36 characters, all of them arbitrary (U+0000.."
           "U+00FF, U+0660..U+0669); RFC 2822: every value from year 100 on with whole-minute "
           "offsets, and well-formed texts with any field values",
    outside="RFC 2822 before year 100 and with seconds in the offset (the format cannot express "
            "them), and malformed RFC 2822 text (documented as not validated)",
    stubs=["datetime, re: models of CPython 3.12; email.utils.format_datetime: model"],
)


def off_text(w, o, sep):
    """±HH:MM, seconds dropped"""
    sign = [43]
    if o < 0:
        sign, o = [45], -o
    h, r = w.int_div(o, 3600)
    m, _ = w.int_div(r, 60)
    return sign + digits(w, h, 2) + codes(sep) + digits(w, m, 2)


def fields3339(w, x):
    d = x.date()
    return (date_text(w, d.year, d.month, d.day) + [32]
            + time_text(w, x.hour, x.minute, x.second, x.nanosecond))


@PROP.job()
def instant_3339(w):
    x, u, n = w.instant("x")
    t = x.format_rfc3339()
    same(w, "RFC 3339", t, fields3339(w, x.to_fixed_offset(0)) + [90])
    r = w.attempt(w.m.Instant.parse_rfc3339, t)
    w.check("reads back", r.ok)
    w.check("equal", r.value == x)
    r = w.attempt(w.m.OffsetDateTime.parse_rfc3339, t)
    w.check("reads as offset zero", r.ok)
    w.check("same moment", w.band(r.value == x, w.off_s(r.value) == 0))


@PROP.job(fork=True)
def offset_3339(w):
    x, u, n, o = w.offset_dt("x")
    t = x.format_rfc3339()
    same(w, "RFC 3339", t, fields3339(w, x) + off_text(w, o, ":"))
    r = w.attempt(w.m.OffsetDateTime.parse_rfc3339, t)
    if w.int_div(o, 60)[1] == 0:
        w.check("reads back", r.ok)
        w.check("exactly", r.value.exact_eq(x))


def rfc3339(w, cs):
    """(fields, offset or None for Z) when the text is an RFC 3339 date-time"""
    n = len(cs)
    for tail in (1, 6):
        t = Text(w, cs)
        f = datetime_of(w, t, "Tt _", tail)
        if t.bad or n < 19 + tail:
            continue
        if tail == 1:
            t.oneof("Zz")
            if t.formed():
                return f, None, 0
            continue
        sg = cs[t.i]
        t.oneof("+-")
        h = t.digits(2)
        t.lit(":")
        m = t.digits(2)
        if t.formed(h <= 23, m <= 59):
            o = h * 3600 + m * 60
            return f, sg, w.ite(sg == 45, -o, o)
    return None


BASE = "####-##-##?##:##:##"
ENDS = ["Z", "z", "?", "+##:##", "-##:##", "?##:##", "+##:##:##", "", "+####", "??????"]


@PROP.job(cross(cls=["Instant", "OffsetDateTime"], fr=FR, end=ENDS)
          + cross(cls=["Instant", "OffsetDateTime"], fr=FR, end=["all1", "all6", "all7"]))
def read_3339(w, cls, fr, end):
    if end.startswith("all"):
        s = w.symstr("t", 19 + len(fr) + int(end[3:]), CHARS)
    else:
        like = BASE + fr + end
        s = w.symstr("t", len(like), CHARS, like=like)
    r = w.attempt(getattr(w.m, cls).parse_rfc3339, s)
    got = rfc3339(w, w.chars(s))
    if got is None or not ok_fields(w, got[0]):
        w.check("other text raises ValueError", r.raised(ValueError))
        return
    f, sg, o = got
    u = secs_of(w, f) - o
    if cls == "Instant" and not bool(o == 0):
        w.check("nonzero offset raises ValueError", r.raised(ValueError))
        return
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
        return
    w.check("well-formed text accepted", r.ok)
    x = r.value
    w.check("the moment stated", w.inst_s(x)[0] == u)
    w.check("to the nanosecond", x.timestamp_nanos() == (u - 719163 * 86400) * NS + f[6])
    if cls == "OffsetDateTime":
        w.check("the offset stated", w.band(w.off_s(x) == o, w.loc_s(x) == u + o))


# --- RFC 2822 -------------------------------------------------------------------
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def text2822(w, d, x, zone):
    wd = w.int_div(w.ordinal(d.year, d.month, d.day) + 6, 7)[1]
    i, j = 0, 1
    while wd != i:
        i += 1
    while d.month != j:
        j += 1
    return (codes(DAYS[i] + ", ") + digits(w, d.day, 2) + codes(f" {MONTHS[j - 1]} ")
            + digits(w, d.year, 4) + [32] + digits(w, x.hour, 2) + [58] + digits(w, x.minute, 2)
            + [58] + digits(w, x.second, 2) + [32] + zone)




@PROP.job(cross(kind=["instant", "offset"]), fork=True)
def text_2822(w, kind):
    lo = w.ordinal(100, 1, 2) * 86400
    if kind == "instant":
        x, u, n = w.instant("x", lo=lo)
        o = 0
        l = x.to_fixed_offset(0)
        zone = codes("GMT")
    else:
        x, u, n, o = w.offset_dt("x")
        w.assume(w.band(w.int_div(o, 60)[1] == 0, u >= lo))
        l = x
        zone = off_text(w, o, "")
    t = x.format_rfc2822()
    same(w, "RFC 2822", t, text2822(w, l.date(), l, zone))


@PROP.job(cross(kind=["instant", "offset"], mon=range(1, 13)), fork=True)
def back_2822(w, kind, mon):
    """reading the text back gives the value, up to its fraction of a second"""
    y = w.int("y", 101, 9998)
    d = w.int("d", 1, 31)
    w.assume(d <= w.dim(y, mon))
    h, mi, s, n = w.int("h", 0, 23), w.int("mi", 0, 59), w.int("s", 0, 59), w.int("n", 0, NS - 1)
    a = (y, mon, d, h, mi, s)
    if kind == "instant":
        x = w.m.Instant.from_utc(*a, nanosecond=n)
        r = w.attempt(w.m.Instant.parse_rfc2822, x.format_rfc2822())
        w.check("reads back", r.ok)
        w.check("the moment", w.inst_s(r.value)[0] == w.ordinal(y, mon, d) * 86400
                + h * 3600 + mi * 60 + s)
        w.check("whole second", w.int_div(r.value.timestamp_nanos(), NS)[1] == 0)
    else:
        o = w.int("o", -1439, 1439)
        x = w.m.OffsetDateTime(*a, nanosecond=n, offset=w.m.minutes(o))
        r = w.attempt(w.m.OffsetDateTime.parse_rfc2822, x.format_rfc2822())
        w.check("reads back", r.ok)
        w.check("exactly", w.band(w.loc_s(r.value) == w.loc_s(x), w.off_s(r.value) == o * 60,
                                  r.value.nanosecond == 0))


ZONES = {"GMT": 0, "UT": 0, "UTC": 0, "Z": 0, "EST": -5, "EDT": -4, "CST": -6, "CDT": -5, "MST": -7,
         "MDT": -6, "PST": -8, "PDT": -7}


@PROP.job(cross(cls=["Instant", "OffsetDateTime"], zone=["+####", "-####", "-0000", "+0000"] + list(ZONES),
                mon=["Jan", "FEB", "dec"], form=["Mon, ## {} #### ##:##:## ", "# {} #### ##:##:## ",
                                                 "Tue, ## {} #### ##:## "]), fork=True)
def read_2822(w, cls, zone, mon, form):
    """well-formed text with any field values"""
    like = form.format(mon) + zone
    s = w.symstr("t", len(like), like=like)
    r = w.attempt(getattr(w.m, cls).parse_rfc2822, s)
    t = Text(w, w.chars(s))
    if form[0] in "MT":
        t.i = 5
    d = t.digits(1 if form[0] == "#" else 2)
    t.i += 5
    y = t.digits(4)
    t.i += 1
    h = t.digits(2)
    t.i += 1
    mi = t.digits(2)
    sec = 0
    if form.count(":") == 2:
        t.i += 1
        sec = t.digits(2)
    t.i += 1
    if y < 100:
        w.check("n/a: year below 100", True)
        return
    f = (y, {"JAN": 1, "FEB": 2, "DEC": 12}[mon.upper()], d, h, mi, sec, 0)
    utc = zone in ("GMT", "UT", "UTC", "Z", "+0000", "-0000")
    o = 0
    if zone in ZONES:
        o = ZONES[zone] * 3600
    elif zone[1] == "#":
        t.i += 1
        oh, om = t.digits(2), t.digits(2)
        if w.bor(oh > 23, om > 59):
            w.check("n/a: not an offset", True)
            return
        o = oh * 3600 + om * 60
        if zone[0] == "-":
            o = -o
    if not ok_fields(w, f):
        w.check("a date or time that does not exist raises ValueError", r.raised(ValueError))
        return
    if zone[0] == "-" and bool(o == 0):
        # unknown local offset: a moment, not a local time
        if cls == "OffsetDateTime":
            w.check("-0000 has no offset", r.raised(ValueError))
            return
        utc = True
    elif bool(o == 0):
        utc = True
    u = secs_of(w, f) - o
    if cls == "Instant" and not utc:
        w.check("nonzero offset raises ValueError", r.raised(ValueError))
        return
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
        return
    w.check("accepted", r.ok)
    x = r.value
    w.check("the moment stated", w.inst_s(x)[0] == u)
    w.check("whole second", w.int_div(x.timestamp_nanos(), NS)[1] == 0)
    if cls == "OffsetDateTime":
        w.check("the offset stated", w.off_s(x) == o)


@PROP.job(cross(cls=["Instant", "OffsetDateTime"]))
def no_offset_2822(w, cls):
    """without an offset there is no moment"""
    s = w.symstr("t", 25, like="Mon, 1# Jan 2### ##:##:##")
    w.must_raise("missing offset", ValueError, getattr(w.m, cls).parse_rfc2822, s)
