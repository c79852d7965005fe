"""Symbolic strings (fixed length per path, symbolic code points), bytes for
struct packing, and a regular-expression engine over them."""
from __future__ import annotations
import builtins
import re as _re
import re._parser as _sp
import re._constants as _sc
import z3
from . import core
from .core import (
    SymInt, SymBool, SymFloatBase, Unsupported, band, bor, bnot, ite, is_sym, bounds,
)

_SPACES = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def mk(chars):
    """SymStr, or plain str when everything is concrete"""
    out = []
    for c in chars:
        if isinstance(c, SymInt):
            lo, hi = c.bounds()
            if lo is not None and lo == hi:
                c = chr(lo)
        elif isinstance(c, int):
            c = chr(c)
        out.append(c)
    for c in out:
        if not isinstance(c, str):
            return SymStr(out)
    return "".join(out)


def chars(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return list(s)
    raise TypeError(f"expected str, got {type(s).__name__}")


def code(c):
    return ord(c) if isinstance(c, str) else c


def ch_eq(a, b):
    a, b = code(a), code(b)
    return a == b


def in_ranges(c, ranges):
    """c in union of (lo, hi) code ranges"""
    c = code(c)
    return bor(*[band(c >= lo, c <= hi) if lo != hi else c == lo for lo, hi in ranges])


# decimal digits outside ASCII that the explored alphabet may contain
ARABIC = (0x660, 0x669)


class SymStr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    # -- basics
    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter([mk([x]) for x in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(_ci(i.start), _ci(i.stop), _ci(i.step))
            return mk(self.c[i])
        i = _ci(i)
        if not -len(self.c) <= i < len(self.c):
            raise IndexError("string index out of range")
        return mk([self.c[i]])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.c + chars(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(chars(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, SymBool):
            return self if bool(n) else ""
        n = _ci(n)
        return mk(self.c * max(0, n))

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("% on a symbolic string")

    def _eq(self, o):
        oc = chars(o)
        if len(oc) != len(self.c):
            return False
        return band(*[ch_eq(a, b) for a, b in zip(self.c, oc)])

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return self._eq(o)
        return False

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _lt(self, o, orequal):
        oc = chars(o)
        r = len(self.c) < len(oc) or (orequal and len(self.c) == len(oc))
        for a, b in reversed(list(zip(self.c, oc))):
            a, b = code(a), code(b)
            r = bor(a < b, band(a == b, r))
        return r

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        return bnot(self._lt(o, True)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __ge__(self, o):
        return bnot(self._lt(o, False)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __contains__(self, sub):
        return bool(contains(self, sub))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        out = []
        for c in self.c:
            out.append(c if isinstance(c, str) else chr(c.concretise(40)))
        return "".join(out)

    def __str__(self):
        return "".join(c if isinstance(c, str) else "?" for c in self.c)

    def __repr__(self):
        return f"<SymStr {str(self)!r}>"

    def __bool__(self):
        return len(self.c) > 0

    # -- methods
    def isascii(self):
        return band(*[code(c) < 128 for c in self.c])

    def isdigit(self):
        if not self.c:
            return False
        return band(*[
            in_ranges(c, [(48, 57), (0xB2, 0xB3), (0xB9, 0xB9), ARABIC]) for c in self.c
        ])

    def isdecimal(self):
        if not self.c:
            return False
        return band(*[in_ranges(c, [(48, 57), ARABIC]) for c in self.c])

    isnumeric = isdigit

    def isalpha(self):
        if not self.c:
            return False
        return band(*[in_ranges(c, _pred_ranges(str.isalpha)) for c in self.c])

    def isalnum(self):
        if not self.c:
            return False
        return band(*[in_ranges(c, _pred_ranges(str.isalnum)) for c in self.c])

    def isspace(self):
        if not self.c:
            return False
        return band(*[in_ranges(c, _pred_ranges(str.isspace)) for c in self.c])

    def isupper(self):
        raise Unsupported("isupper")

    def startswith(self, p, start=0, end=None):
        return startswith(self[start:end] if (start or end is not None) else self, p)

    def endswith(self, p, start=0, end=None):
        return endswith(self[start:end] if (start or end is not None) else self, p)

    def removeprefix(self, p):
        return self[len(p):] if bool(startswith(self, p)) else self

    def removesuffix(self, p):
        return self[: len(self.c) - len(p)] if len(p) and bool(endswith(self, p)) else self

    def ljust(self, n, fill=" "):
        return mk(self.c + chars(fill) * max(0, _ci(n) - len(self.c)))

    def rjust(self, n, fill=" "):
        return mk(chars(fill) * max(0, _ci(n) - len(self.c)) + self.c)

    def zfill(self, n):
        pad = max(0, _ci(n) - len(self.c))
        if pad and self.c and bool(bor(ch_eq(self.c[0], "+"), ch_eq(self.c[0], "-"))):
            return mk(self.c[:1] + ["0"] * pad + self.c[1:])
        return mk(["0"] * pad + self.c)

    def _strip(self, cs, left, right):
        if cs is None:
            rng = [(ord(x), ord(x)) for x in _SPACES]
        else:
            if isinstance(cs, SymStr):
                raise Unsupported("strip with symbolic characters")
            rng = [(ord(x), ord(x)) for x in cs]
        i, j = 0, len(self.c)
        if left:
            while i < j and bool(in_ranges(self.c[i], rng)):
                i += 1
        if right:
            while j > i and bool(in_ranges(self.c[j - 1], rng)):
                j -= 1
        return mk(self.c[i:j])

    def strip(self, cs=None):
        return self._strip(cs, True, True)

    def lstrip(self, cs=None):
        return self._strip(cs, True, False)

    def rstrip(self, cs=None):
        return self._strip(cs, False, True)

    def _find(self, sub, start, end, rev):
        n = len(self.c)
        start, end, _ = slice(_ci(start), _ci(end)).indices(n)
        sc = chars(sub)
        pos = range(start, end - len(sc) + 1)
        for i in reversed(pos) if rev else pos:
            if bool(band(*[ch_eq(a, b) for a, b in zip(self.c[i:i + len(sc)], sc)])):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end, False)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        sc = chars(sub)
        n = i = 0
        while i <= len(self.c) - len(sc):
            if bool(band(*[ch_eq(a, b) for a, b in zip(self.c[i:i + len(sc)], sc)])):
                n += 1
                i += max(1, len(sc))
            else:
                i += 1
        return n

    def partition(self, sep):
        i = self._find(sep, None, None, False)
        if i < 0:
            return self, "", ""
        return mk(self.c[:i]), sep, mk(self.c[i + len(sep):])

    def rpartition(self, sep):
        i = self._find(sep, None, None, True)
        if i < 0:
            return "", "", self
        return mk(self.c[:i]), sep, mk(self.c[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Unsupported("limited whitespace split of a symbolic string")
            rng = [(ord(x), ord(x)) for x in _SPACES]
            words, word = [], []
            for c in self.c:
                if bool(in_ranges(c, rng)):
                    if word:
                        words.append(mk(word))
                    word = []
                else:
                    word.append(c)
            if word:
                words.append(mk(word))
            return words
        out, rest = [], self
        while maxsplit:
            i = _as(rest)._find(sep, None, None, False)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("whitespace split of a symbolic string")
        out, rest = [], self
        while maxsplit:
            i = _as(rest)._find(sep, None, None, True)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        out.insert(0, rest)
        return out

    def replace(self, old, new, count=-1):
        oc = chars(old)
        if not oc:
            raise Unsupported("replace of empty string")
        out, i = [], 0
        while i < len(self.c):
            if (
                count != 0
                and i + len(oc) <= len(self.c)
                and bool(band(*[ch_eq(a, b) for a, b in zip(self.c[i:i + len(oc)], oc)]))
            ):
                out += chars(new)
                i += len(oc)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mk(out)

    def _case(self, lo, hi, d):
        out = []
        for c in self.c:
            if isinstance(c, str):
                out.append(c.upper() if d < 0 else c.lower())
            else:
                l, h = c.bounds()
                if h is None or h > 127:
                    if not bool(c < 128):
                        raise Unsupported("case mapping of a non-ascii character")
                out.append(ite(band(c >= lo, c <= hi), c + d, c))
        return mk(out)

    def upper(self):
        return self._case(97, 122, -32)

    def lower(self):
        return self._case(65, 90, 32)

    casefold = lower

    def join(self, it):
        out, first = [], True
        for x in it:
            if not first:
                out += self.c
            out += chars(x)
            first = False
        return mk(out)

    def encode(self, *a):
        raise Unsupported("encode of a symbolic string")

    def format(self, *a, **k):
        raise Unsupported("format on symbolic format string")

    def translate(self, t):
        raise Unsupported("translate")


_PR = {}


def _pred_ranges(f):
    r = _PR.get(f)
    if r is None:
        r, cur = [], None
        for i in list(range(0x100)) + list(range(0x660, 0x66A)):
            if f(chr(i)):
                if cur and cur[1] == i - 1:
                    cur[1] = i
                else:
                    cur = [i, i]
                    r.append(cur)
        _PR[f] = r
    return r


def _as(s):
    return s if isinstance(s, SymStr) else SymStr(list(s))


def _ci(i):
    if i is None or type(i) is int:
        return i
    if isinstance(i, SymInt):
        return i.concretise(200)
    if isinstance(i, SymBool):
        return int(bool(i))
    return i.__index__()


def startswith(s, p):
    if isinstance(p, tuple):
        return bor(*[startswith(s, x) for x in p])
    sc, pc = chars(s), chars(p)
    if len(pc) > len(sc):
        return False
    return band(*[ch_eq(a, b) for a, b in zip(sc, pc)])


def endswith(s, p):
    if isinstance(p, tuple):
        return bor(*[endswith(s, x) for x in p])
    sc, pc = chars(s), chars(p)
    if len(pc) > len(sc):
        return False
    return band(*[ch_eq(a, b) for a, b in zip(sc[len(sc) - len(pc):], pc)])


def contains(s, sub):
    """sub in s"""
    sc, bc = chars(s), chars(sub)
    if not bc:
        return True
    return bor(*[
        band(*[ch_eq(a, b) for a, b in zip(sc[i:i + len(bc)], bc)])
        for i in range(len(sc) - len(bc) + 1)
    ])


class LazyStr(SymStr):
    """text that is put together when (if ever) somebody looks at it: most
    f-strings end up as the message of an exception"""

    __slots__ = ("_f", "_v")

    def __init__(self, f):
        self._f, self._v = f, None

    @property
    def c(self):
        if self._v is None:
            self._v = chars(self._f())
            self._f = None
        return self._v


class OpaqueStr(SymStr):
    """Text whose content is not modelled (error messages, repr of symbolic
    values).  It can be passed around and concatenated but not inspected."""

    __slots__ = ()

    def __init__(self, *a):
        self.c = ["\x00"]

    def _no(self, *a, **k):
        raise Unsupported("inspecting text that the encoding does not model")

    def __add__(self, o):
        return self if isinstance(o, (str, SymStr)) else NotImplemented

    __radd__ = __add__

    def __str__(self):
        return "<opaque>"

    __repr__ = __str__

    _eq = _lt = _strip = _find = _case = __len__ = __iter__ = __getitem__ = _no
    startswith = endswith = split = replace = join = concrete = _no

    def __bool__(self):
        return True


# -- numbers to text ---------------------------------------------------------

_SPEC = _re.compile(
    r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<sep>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?",
    _re.S,
)


def digits_of(n, width=None):
    """digit characters of a non-negative SymInt.  With `width`, exactly that
    many digits (n < 10**width must hold); otherwise forks on the count."""
    if isinstance(n, int):
        s = str(n)
        return list(s if width is None else s.rjust(width, "0"))
    if width is None:
        width = 1
        while not bool(n < 10**width):
            width += 1
            if width > 60:
                raise Unsupported("very long number")
    key = ("digits", n.key(), width)
    r = core.C.cache.get(key)
    if r is None:
        r = []
        rest = n
        for _ in range(width - 1):
            rest, d = divmod(rest, 10)
            r.append(d + 48)
        r.append(rest + 48)
        r.reverse()
        core.C.cache[key] = r
    return list(r)


def format_int(v, spec):
    m = _SPEC.fullmatch(spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    if m["type"] == "f":
        return format_float(v, spec)
    if m["type"] not in (None, "d") or m["sep"] or m["prec"] or m["alt"]:
        raise Unsupported(f"format spec {spec!r}")
    neg = bool(v < 0)
    av = -v if neg else v
    sign = "-" if neg else (m["sign"] if m["sign"] in ("+", " ") else "")
    width = int(m["width"] or 0)
    align = m["align"] or ("=" if m["zero"] else ">")
    fill = m["fill"] or ("0" if m["zero"] else " ")
    if width and fill == "0" and (align == "=" or (align == ">" and not sign)):
        # zero padding: one case when the number fits
        w = width - (len(sign) if align == "=" else 0)
        if w >= 1 and bool(av < 10**w):
            return mk(list(sign) + digits_of(av, w))
    body = digits_of(av)
    pad = max(0, width - len(body) - len(sign))
    if align == "=":
        out = list(sign) + [fill] * pad + body
    elif align == ">":
        out = [fill] * pad + list(sign) + body
    elif align == "<":
        out = list(sign) + body + [fill] * pad
    else:
        l = pad // 2
        out = [fill] * l + list(sign) + body + [fill] * (pad - l)
    return mk(out)


def format_float(v, spec):
    from .floats import SymFloat, to_float

    m = _SPEC.fullmatch(spec)
    if not m or m["type"] != "f" or m["sep"] or m["alt"]:
        raise Unsupported(f"format spec {spec!r} for a float")
    prec = int(m["prec"]) if m["prec"] is not None else 6
    f = to_float(v)
    if not isinstance(f, SymFloat):
        return format(f, spec)
    n = f.decimal_digits(prec)
    neg = bool(f.num < 0)
    n = -n if neg else n
    ip, fp = divmod(n, 10**prec)
    body = digits_of(ip) + (["."] + digits_of(fp, prec) if prec else [])
    sign = "-" if neg else (m["sign"] if m["sign"] in ("+", " ") else "")
    width = int(m["width"] or 0)
    pad = max(0, width - len(body) - len(sign))
    fill = m["fill"] or ("0" if m["zero"] else " ")
    align = m["align"] or ("=" if m["zero"] else ">")
    if align == "=":
        out = list(sign) + [fill] * pad + body
    elif align == "<":
        out = list(sign) + body + [fill] * pad
    else:
        out = [fill] * pad + list(sign) + body
    return mk(out)


def format_str(s, spec):
    if not spec:
        return s
    m = _SPEC.fullmatch(spec)
    if not m or m["type"] not in (None, "s") or m["prec"] or m["sep"] or m["sign"]:
        raise Unsupported(f"format spec {spec!r} for a string")
    width = int(m["width"] or 0)
    fill = m["fill"] or ("0" if m["zero"] else " ")
    pad = [fill] * max(0, width - len(s))
    a = m["align"] or "<"
    c = chars(s)
    if a == ">":
        return mk(pad + c)
    if a == "^":
        l = len(pad) // 2
        return mk(pad[:l] + c + pad[l:])
    return mk(c + pad)


# -- text to numbers ---------------------------------------------------------

def digit_value(c):
    """value of a decimal digit, or None (forks)"""
    if isinstance(c, str):
        try:
            return int(c) if c.isdecimal() else None
        except ValueError:
            return None
    if bool(band(c >= 48, c <= 57)):
        return c - 48
    if bool(in_ranges(c, [ARABIC])):
        return c - ARABIC[0]
    return None


def parse_int(s):
    cs = chars(_as(s).strip())
    bad = ValueError("invalid literal for int() with base 10")
    neg = False
    if cs:
        c0 = code(cs[0])
        if bool(c0 == 45):
            neg, cs = True, cs[1:]
        elif bool(c0 == 43):
            cs = cs[1:]
    if not cs:
        raise bad
    v, prev_us = 0, True
    for c in cs:
        if bool(code(c) == 95):
            if prev_us:
                raise bad
            prev_us = True
            continue
        d = digit_value(c)
        if d is None:
            raise bad
        v = v * 10 + d
        prev_us = False
    if prev_us:
        raise bad
    return -v if neg else v


def parse_float(s):
    from . import floats

    cs = chars(_as(s).strip())
    bad = ValueError("could not convert string to float")
    neg = False
    if cs:
        c0 = code(cs[0])
        if bool(c0 == 45):
            neg, cs = True, cs[1:]
        elif bool(c0 == 43):
            cs = cs[1:]
    num, scale, dot, nd = 0, 1, False, 0
    for c in cs:
        if not dot and bool(code(c) == 46):
            dot = True
            continue
        d = digit_value(c)
        if d is None:
            # exponents, underscores, inf, nan: outside the encoding
            if bool(bor(*[code(c) == ord(x) for x in "eE_iInN"])):
                raise Unsupported("float() of a non-decimal literal")
            raise bad
        nd += 1
        num = num * 10 + d
        if dot:
            scale *= 10
    if not nd:
        raise bad
    r = floats.make(num, scale)
    return -r if neg else r


# -- bytes for struct --------------------------------------------------------

_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


class SymBytes:
    """Result of struct.pack with symbolic fields: [(format letter, value)]."""

    def __init__(self, fmt, fields, size):
        self.fmt, self.fields, self.size = fmt, fields, size

    @classmethod
    def of(cls, bs):
        return cls("<", [("B", b) for b in bs], len(bs))

    def bytelist(self):
        out = []
        for f, v in self.fields:
            cur = [(v // (1 << (8 * i))) % 256 for i in range(_SZ[f])]
            out += cur[::-1] if self.fmt in ">!" else cur
        return out

    def __len__(self):
        return self.size

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes)):
            return False
        if len(o) != self.size:
            return False
        if isinstance(o, SymBytes) and o.fmt == self.fmt and \
                [_SZ[f] for f, _ in self.fields] == [_SZ[f] for f, _ in o.fields]:
            return band(*[
                a == b if f == g else (a - b) % (1 << 8 * _SZ[f]) == 0
                for (f, a), (g, b) in zip(self.fields, o.fields)
            ])
        bs = o.bytelist() if isinstance(o, SymBytes) else list(o)
        return band(*[a == b for a, b in zip(self.bytelist(), bs)])

    def __ne__(self, o):
        return core.bnot(self == o)

    def __hash__(self):
        raise Unsupported("hash of packed bytes")

    def __getitem__(self, i):
        bs = self.bytelist()
        return SymBytes.of(bs[i]) if isinstance(i, slice) else bs[_ci(i)]

    def __iter__(self):
        return iter(self.bytelist())

    def __add__(self, o):
        if isinstance(o, SymBytes) and o.fmt == self.fmt:
            return SymBytes(self.fmt, self.fields + o.fields, self.size + o.size)
        if isinstance(o, (SymBytes, bytes)):
            return SymBytes.of(self.bytelist() + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, bytes):
            return SymBytes.of(list(o) + self.bytelist())
        return NotImplemented


# -- regular expressions -----------------------------------------------------

class Match:
    def __init__(self, pat, s, spans, end):
        self.re, self.string, self._spans, self._end = pat, s, spans, end

    def _span(self, g):
        if isinstance(g, str):
            try:
                g = self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        g = _ci(g)
        if g == 0:
            return (self._start, self._end)
        if not 0 < g <= self.re.groups:
            raise IndexError("no such group")
        return self._spans.get(g)

    _start = 0

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def _one(self, g, default=None):
        sp = self._span(g)
        return default if sp is None else self.string[sp[0]:sp[1]]

    __getitem__ = lambda self, g: self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    def start(self, g=0):
        sp = self._span(g)
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._span(g)
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        sp = self._span(g)
        return (-1, -1) if sp is None else sp

    @property
    def lastindex(self):
        return max(self._spans) if self._spans else None

    def __bool__(self):
        return True


class Pattern:
    """re.Pattern that also accepts symbolic strings"""

    def __init__(self, pattern, flags=0):
        self._p = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, self._p.flags
        self.groups, self.groupindex = self._p.groups, self._p.groupindex
        self._tree = None

    def tree(self):
        if self._tree is None:
            self._tree = _sp.parse(self.pattern, self.flags & ~_re.UNICODE if self.flags & _re.ASCII else self.flags)
        return self._tree

    def _run(self, s, pos, endpos, full, search):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("expected string or bytes-like object")
        m = _Matcher(self, s, len(s) if endpos is None else min(endpos, len(s)))
        starts = range(pos, len(s) + 1) if search else (pos,)
        for st in starts:
            for end, spans in m.seq(list(self.tree()), st, {}):
                if full and end != m.n:
                    continue
                r = Match(self, s, spans, end)
                r._start = st
                return r
        return None

    def _conc(self, s):
        return isinstance(s, str) or not isinstance(s, SymStr)

    def fullmatch(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._p.fullmatch(s, pos, *([endpos] if endpos is not None else []))
        return self._run(s, pos, endpos, True, False)

    def match(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._p.match(s, pos, *([endpos] if endpos is not None else []))
        return self._run(s, pos, endpos, False, False)

    def search(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._p.search(s, pos, *([endpos] if endpos is not None else []))
        return self._run(s, pos, endpos, False, True)

    def findall(self, s):
        if self._conc(s):
            return self._p.findall(s)
        raise Unsupported("findall")

    def finditer(self, s):
        if self._conc(s):
            return self._p.finditer(s)
        raise Unsupported("finditer")

    def split(self, s, maxsplit=0):
        if self._conc(s):
            return self._p.split(s, maxsplit)
        raise Unsupported("regex split")

    def sub(self, repl, s, count=0):
        if self._conc(s):
            return self._p.sub(repl, s, count)
        raise Unsupported("regex sub")


class _Matcher:
    def __init__(self, pat, s, n):
        self.s, self.n = chars(s), n
        self.ascii = bool(pat.flags & _re.ASCII)
        self.icase = bool(pat.flags & _re.IGNORECASE)
        self.dotall = bool(pat.flags & _re.DOTALL)
        if pat.flags & (_re.MULTILINE | _re.LOCALE):
            raise Unsupported("regex flags")

    def cat(self, c, av):
        name = str(av)
        neg = "NOT_" in name
        name = name.replace("NOT_", "")
        if name.endswith("DIGIT"):
            r = [(48, 57)] if self.ascii else [(48, 57), ARABIC]
        elif name.endswith("SPACE"):
            r = (
                [(9, 13), (32, 32)]
                if self.ascii
                else [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)]
            )
        elif name.endswith("WORD"):
            if self.ascii:
                r = [(48, 57), (65, 90), (95, 95), (97, 122)]
            else:
                r = _pred_ranges(str.isalnum) + [[95, 95]]
        else:
            raise Unsupported(f"regex category {name}")
        t = in_ranges(c, r)
        return bnot(t) if neg else t

    def lit(self, c, v):
        t = code(c) == v
        if self.icase:
            for o in {ord(x) for x in (chr(v).lower(), chr(v).upper()) if len(x) == 1}:
                t = bor(t, code(c) == o)
        return t

    def inset(self, c, items):
        neg, ts = False, []
        for op, av in items:
            if op is _sc.NEGATE:
                neg = True
            elif op is _sc.LITERAL:
                ts.append(self.lit(c, av))
            elif op is _sc.RANGE:
                lo, hi = av
                ts.append(in_ranges(c, [(lo, hi)]))
                if self.icase:
                    for a, b, d in ((65, 90, 32), (97, 122, -32)):
                        l, h = max(lo, a), min(hi, b)
                        if l <= h:
                            ts.append(in_ranges(c, [(l + d, h + d)]))
            elif op is _sc.CATEGORY:
                ts.append(self.cat(c, av))
            else:
                raise Unsupported(f"regex set {op}")
        t = bor(*ts)
        return bnot(t) if neg else t

    def one(self, op, av, i):
        """condition that char i matches a single-character node"""
        c = self.s[i]
        if op is _sc.LITERAL:
            return self.lit(c, av)
        if op is _sc.NOT_LITERAL:
            return bnot(self.lit(c, av))
        if op is _sc.IN:
            return self.inset(c, av)
        if op is _sc.ANY:
            return True if self.dotall else bnot(code(c) == 10)
        return None

    def seq(self, nodes, i, spans):
        """generator of (end, spans) in backtracking order"""
        if not nodes:
            yield i, spans
            return
        (op, av), rest = nodes[0], nodes[1:]
        if op in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.IN, _sc.ANY):
            # take a maximal run of single-character nodes: one fork only
            k, cond = 0, []
            while k < len(nodes) and nodes[k][0] in (
                _sc.LITERAL, _sc.NOT_LITERAL, _sc.IN, _sc.ANY
            ):
                if i + k >= self.n:
                    return
                cond.append(self.one(nodes[k][0], nodes[k][1], i + k))
                k += 1
            if bool(band(*cond)):
                yield from self.seq(nodes[k:], i + k, spans)
            return
        if op is _sc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline regex flags")
            # inline the group: END marker records the span
            inner = list(sub)
            yield from self.seq(inner + [("GROUP_END", (g, i))] + rest, i, spans)
            return
        if op == "GROUP_END":
            g, st = av
            if g is not None:
                spans = dict(spans)
                spans[g] = (st, i)
            yield from self.seq(rest, i, spans)
            return
        if op is _sc.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt) + rest, i, spans)
            return
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = self.n + 1 if hi is _sc.MAXREPEAT else hi
            if op is _sc.MAX_REPEAT and len(sub) == 1 and sub[0][0] in (
                _sc.LITERAL, _sc.NOT_LITERAL, _sc.IN, _sc.ANY
            ):
                # run-length form
                k = 0
                if lo:
                    if i + lo > self.n:
                        return
                    if not bool(band(*[self.one(*sub[0], i + j) for j in range(lo)])):
                        return
                    k = lo
                while k < hi and i + k < self.n and bool(self.one(*sub[0], i + k)):
                    k += 1
                while k >= lo:
                    yield from self.seq(rest, i + k, spans)
                    k -= 1
                return
            yield from self.rep(sub, lo, hi, 0, rest, i, spans, op is _sc.MAX_REPEAT, -1)
            return
        if op == "REP":
            yield from self.rep(*av[:4], rest, i, spans, av[4], av[5])
            return
        if op is _sc.AT:
            name = str(av)
            if name in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                if i == 0:
                    yield from self.seq(rest, i, spans)
            elif name == "AT_END_STRING":
                if i == self.n:
                    yield from self.seq(rest, i, spans)
            elif name == "AT_END":
                if i == self.n or (i == self.n - 1 and bool(code(self.s[i]) == 10)):
                    yield from self.seq(rest, i, spans)
            else:
                raise Unsupported(f"regex anchor {name}")
            return
        if op in (_sc.ASSERT, _sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported("look-behind")
            hit = None
            for hit in self.seq(list(sub), i, spans):
                break
            if (hit is not None) == (op is _sc.ASSERT):
                yield from self.seq(rest, i, hit[1] if hit and op is _sc.ASSERT else spans)
            return
        raise Unsupported(f"regex node {op}")

    def rep(self, sub, lo, hi, done, rest, i, spans, greedy, last):
        if i == last and done > lo:
            return
        more = [("REP", (sub, lo, hi, done + 1, greedy, i))]
        if done < lo:
            yield from self.seq(sub + more + rest, i, spans)
            return
        if greedy:
            if done < hi:
                yield from self.seq(sub + more + rest, i, spans)
            yield from self.seq(rest, i, spans)
        else:
            yield from self.seq(rest, i, spans)
            if done < hi:
                yield from self.seq(sub + more + rest, i, spans)
