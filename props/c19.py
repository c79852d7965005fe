"""ISO 8601 durations: canonical text, reading it back, and reading any text."""
from sx.runner import Prop, cross
from props.c15 import make, parts, valid

PROP = Prop(
    "C19",
    functions=["TimeDelta/DateDelta/DateTimeDelta.format_common_iso/parse_common_iso/__str__",
               "_parse_timedelta_component", "_parse_datedelta_component", "_parse_seconds",
               "_match_datetimedelta and the component expressions"],
    bounds="every delta; every text of 0..6 (thorough: 0..8) characters U+0000..U+00FF and "
           "U+0660..U+0669; well-formed texts with any subset of units and 1..9 digits per unit, "
           "0..10 decimals",
    outside="units of more than 9 digits (four sample lengths up to 400 aside)",
    stubs=["re: model of CPython 3.12"],
)
NS = 10**9
KINDS = ["TimeDelta", "DateDelta", "DateTimeDelta"]
CHARS = ((0, 255), (0x660, 0x669))


def uint(w, v):
    """decimal digits of v >= 0, without leading zeros, as code points"""
    n = 1
    while v >= 10**n:
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        q, _ = w.int_div(v, 10**i)
        _, r = w.int_div(q, 10)
        out.append(r + 48)
    return out


def codes(s):
    return [ord(c) for c in s]


def date_text(w, m, d):
    y, m = w.int_div(m, 12)
    t = []
    for v, u in ((y, "Y"), (m, "M"), (d, "D")):
        if v != 0:
            t += uint(w, v) + codes(u)
    return t


def time_text(w, ns):
    h, r = w.int_div(ns, 3600 * NS)
    m, r = w.int_div(r, 60 * NS)
    s, n = w.int_div(r, NS)
    t = []
    for v, u in ((h, "H"), (m, "M")):
        if v != 0:
            t += uint(w, v) + codes(u)
    if n != 0:
        k = 9
        while w.int_div(n, 10**(10 - k))[1] == 0:
            k -= 1
        t += uint(w, s) + codes(".")
        for i in range(k):
            t.append(w.int_div(w.int_div(n, 10**(8 - i))[0], 10)[1] + 48)
        t += codes("S")
    elif s != 0:
        t += uint(w, s) + codes("S")
    return t


def canonical(w, kind, m, d, ns):
    neg = w.bor(m < 0, d < 0, ns < 0)
    sign = []
    if neg:
        m, d, ns = -m, -d, -ns
        sign = codes("-")
    da, ti = date_text(w, m, d), time_text(w, ns)
    if ti:
        ti = codes("T") + ti
    zero = "T0S" if kind == "TimeDelta" else "0D"
    return sign + codes("P") + (da + ti or codes(zero))


@PROP.job(cross(kind=KINDS, sign=[-1, 1], part=["date", "time"], how=["str", "format"]),
          thorough=cross(kind=["DateTimeDelta"], sign=[-1, 1],
                         part=[(i, j) for i in range(8) for j in range(9)], how=["format"]), fork=True)
def text(w, kind, sign, part, how):
    """the text is the documented one, and reads back as the same delta"""
    if (kind, part) in (("TimeDelta", "date"), ("DateDelta", "time")):
        w.check("n/a", True)
        return
    x, m, d, t = make(w, kind, "x")
    w.assume(w.band(m * sign >= 0, d * sign >= 0, t * sign >= 0))
    if isinstance(part, tuple):
        # every delta, by the number of digits of the days and of the hours
        i, j = part
        w.assume(w.band(d * sign < 10**i, d * sign >= 10**i // 10,
                        t * sign < 10**j * 3600 * NS, t * sign >= 10**j // 10 * 3600 * NS))
    elif kind == "DateTimeDelta":
        if part == "date":
            q = w.int("secs", 0, 9)
            w.assume(t == q * sign * NS)
        else:
            q = w.int("days", 0, 9)
            w.assume(w.band(m == 0, d == q * sign))
    if how == "str":
        s = w.str(x)
    else:
        s = x.format_common_iso()
    got, want = w.chars(s), canonical(w, kind, m, d, t)
    w.check("length", len(got) == len(want))
    w.check("text", w.band(*[a == b for a, b in zip(got, want)]))
    y = w.attempt(getattr(w.m, kind).parse_common_iso, s)
    w.check("reads back", y.ok)
    w.check("as the same delta", w.band(*[a == b for a, b in zip(parts(y.value), (m, d, t))]))
    w.check("as the same type", type(y.value).__name__ == kind)


def isdig(w, c):
    return w.band(c >= 48, c <= 57)


def recognise(w, cs, kind, maxdigits):
    """(months, days, ns) stated by the text, or None; decides character by
    character (forks)"""
    i, n = 0, len(cs)

    def at(s):
        return i < n and bool(cs[i] == ord(s))

    sign = 1
    if at("-"):
        sign, i = -1, 1
    elif at("+"):
        i = 1
    if not at("P"):
        return None
    i += 1
    tot = {"m": 0, "d": 0, "t": 0}
    some = [False]

    def units(table, frac):
        nonlocal i
        pos = 0
        while i < n:
            start, v = i, 0
            while i < n and isdig(w, cs[i]):
                v = v * 10 + (cs[i] - 48)
                i += 1
            if i == start:
                return True
            if i - start > maxdigits:
                return False
            ns, dec = 0, False
            if frac and at("."):
                i += 1
                k = 0
                while i < n and isdig(w, cs[i]):
                    ns = ns * 10 + (cs[i] - 48)
                    i, k = i + 1, k + 1
                if not 1 <= k <= 9:
                    return False
                ns, dec = ns * 10**(9 - k), True
            for j in range(pos, len(table)):
                u, key, f = table[j]
                if at(u):
                    break
            else:
                return False
            if dec and u != "S":
                return False
            i += 1
            pos = j + 1
            tot[key] = tot[key] + v * f + ns
            some[0] = True
        return True

    D = [("Y", "m", 12), ("M", "m", 1), ("W", "d", 7), ("D", "d", 1)]
    T = [("H", "t", 3600 * NS), ("M", "t", 60 * NS), ("S", "t", NS)]
    if kind != "TimeDelta" and not units(D, False):
        return None
    if kind != "DateDelta" and at("T"):
        i += 1
        some[0] = False
        if not units(T, True):
            return None
        if not some[0]:
            return None
    elif kind == "TimeDelta":
        return None
    if i != n or not some[0]:
        return None
    return tot["m"] * sign, tot["d"] * sign, tot["t"] * sign


def outcome(w, kind, s):
    r = w.attempt(getattr(w.m, kind).parse_common_iso, s)
    got = recognise(w, w.chars(s), kind, {"DateDelta": 8, "TimeDelta": 35}.get(kind, 4000))
    if got is None or not valid(w, *got):
        w.check("other text raises ValueError", r.raised(ValueError))
    else:
        w.check("well-formed text accepted", r.ok)
        w.check("the type", type(r.value).__name__ == kind)
        w.check("the duration stated", w.band(*[a == b for a, b in zip(parts(r.value), got)]))


@PROP.job(cross(kind=KINDS, n=range(7)), thorough=cross(kind=KINDS, n=[7, 8]), fork=True)
def free(w, kind, n):
    """any text at all of n characters"""
    outcome(w, kind, w.symstr("t", n, CHARS))


@PROP.job(cross(kind=["TimeDelta", "DateTimeDelta"], n=range(1, 6)),
          thorough=cross(kind=["TimeDelta", "DateTimeDelta"], n=[6, 7]), fork=True)
def free_time(w, kind, n):
    """any text after PT"""
    outcome(w, kind, w.symstr("t", n + 2, CHARS, like="PT" + "?" * n))


SHAPES = ["{}Y", "{}M", "{}W", "{}D", "{}Y{}M{}W{}D", "{}W{}Y", "{}D{}D", "{}M{}D", "{}Y{}W"]
TSHAPES = ["{}H", "{}M", "{}S", "{}H{}M{}S", "{}H{}S", "{}S{}H", "{}M{}M"]
SIGNS = ["", "-", "+"]


def like(sign, shape, n):
    return sign + "P" + shape.replace("{}", "#" * n)


@PROP.job(cross(kind=["DateDelta", "DateTimeDelta"], shape=SHAPES, n=[1, 2, 5, 7, 8, 9])
          + cross(kind=["TimeDelta"], shape=SHAPES[:4], n=[2]))
def date_units(w, kind, shape, n):
    """units with n digits each"""
    for sign in (w.choice("sign", SIGNS),):
        t = like(sign, shape, n)
        outcome(w, kind, w.symstr("t", len(t), like=t))


@PROP.job(cross(kind=["TimeDelta", "DateTimeDelta"], shape=TSHAPES, n=[1, 2, 5, 9])
          + cross(kind=["DateDelta"], shape=TSHAPES[:3], n=[2]))
def time_units(w, kind, shape, n):
    t = like(w.choice("sign", SIGNS), "T" + shape, n)
    outcome(w, kind, w.symstr("t", len(t), like=t))


@PROP.job(cross(kind=["TimeDelta", "DateTimeDelta"], n=[1, 2, 10, 12], k=range(0, 11)))
def seconds(w, kind, n, k):
    """n digits, k decimals"""
    t = w.choice("sign", SIGNS) + "PT" + "#" * n + "." + "#" * k + "S"
    outcome(w, kind, w.symstr("t", len(t), like=t))


@PROP.job(cross(shape=["{}Y{}DT{}H{}S", "{}M{}WT{}M{}.{}S", "{}DT", "T{}H{}D", "{}DT{}D", "{}TT{}H"],
                n=[1, 3]))
def mixed(w, shape, n):
    t = like(w.choice("sign", SIGNS), shape, n)
    outcome(w, "DateTimeDelta", w.symstr("t", len(t), like=t))


@PROP.job(cross(kind=KINDS, unit=["Y", "D", "H", "S"], n=[20, 34, 36, 400]))
def huge(w, kind, unit, n):
    """very long numbers: refused, never another exception"""
    d = w.symstr("d", 3, like="###")
    t = "P" + ("T" if unit in "HS" else "") + "9" * n
    r = w.attempt(getattr(w.m, kind).parse_common_iso, t + d + unit)
    w.check("refused", r.raised(ValueError))
