"""Symbolic floats.

A SymFloat stands for an IEEE double f with  |f - num/den| <= err.
err == 0 means the double is exactly num/den (checked for representability).
`single` marks a value that is one correct rounding of num/den.
Over-approximate by construction: whatever is derived from a float with
err > 0 is only constrained to the error interval.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd
from . import core
from .core import SymInt, SymBool, SymFloatBase, Unsupported, bounds, ite, band, bor, zexpr
import z3

EPS = Fraction(1, 1 << 53)
TWO53 = 1 << 53


def _maxabs(num, den):
    lo, hi = bounds(num)
    if lo is None or hi is None:
        raise Unsupported("float of an unbounded integer")
    m = Fraction(max(abs(lo), abs(hi)), den)
    if m > TWO53 and isinstance(num, SymInt) and _proved(num, den << 46):
        # interval arithmetic lost too much; the path condition knows better
        m = Fraction(1 << 46)
    return m


def _proved(num, lim):
    """the path condition implies |num| <= lim"""
    return core.C.implied(band(num <= lim, num >= -lim))


def _norm(num, den):
    if den < 0:
        num, den = -num, -den
    g = den
    if isinstance(num, SymInt):
        for k in num.t.values():
            g = gcd(g, k)
        g = gcd(g, num.c)
        if g > 1:
            num = SymInt({a: k // g for a, k in num.t.items()}, num.c // g)
    else:
        g = gcd(g, num)
        if g > 1:
            num //= g
    return num, den // g


def _twos(num):
    """a power of two that divides num"""
    if not isinstance(num, SymInt):
        return (num & -num) if num else 1
    g = num.c
    for k in num.t.values():
        g = gcd(g, k)
    return g & -g if g else 1


def _pow2(n):
    return n & (n - 1) == 0


def make(num, den=1, err=Fraction(0)):
    """Rounded result of the exact operation num/den (input error err)."""
    num, den = _norm(num, den)
    m = _maxabs(num, den)
    if m > Fraction(2) ** 1000:
        raise Unsupported("huge float")
    if err == 0 and _pow2(den) and m * den <= TWO53 * _twos(num):
        return _conc(num, den) or SymFloat(num, den, Fraction(0), True)
    if not isinstance(num, SymInt) and err == 0:
        return num / den
    return SymFloat(num, den, err + (m + err) * EPS, err == 0)


def _conc(num, den):
    if isinstance(num, int):
        return num / den
    return None


def parts(x):
    """-> (num, den, err) of a number"""
    if isinstance(x, SymFloat):
        return x.num, x.den, x.err
    if isinstance(x, bool):
        return int(x), 1, Fraction(0)
    if isinstance(x, SymBool):
        return x._i(), 1, Fraction(0)
    if isinstance(x, (int, SymInt)):
        # conversion int -> float rounds
        lo, hi = bounds(x)
        if lo is None or hi is None:
            raise Unsupported("unbounded int to float")
        m = max(abs(lo), abs(hi))
        if m <= TWO53:
            return x, 1, Fraction(0)
        return x, 1, Fraction(m) * EPS
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf with a symbolic float")
        n, d = x.as_integer_ratio()
        return n, d, Fraction(0)
    return None


def int_truediv(a, b):
    if isinstance(b, (SymFloat, float)) or isinstance(a, (SymFloat, float)):
        return _div(a, b)
    if isinstance(a, SymBool):
        a = a._i()
    if isinstance(b, SymBool):
        b = b._i()
    if not isinstance(b, (int, SymInt)) or not isinstance(a, (int, SymInt)):
        return NotImplemented
    if isinstance(b, SymInt):
        if bool(b == 0):
            raise ZeroDivisionError("division by zero")
        b = b.concretise(40)
    if b == 0:
        raise ZeroDivisionError("division by zero")
    # int/int true division is correctly rounded
    return make(a if b > 0 else -a, abs(int(b)))


def _div(a, b):
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return NotImplemented
    if isinstance(pb[0], SymInt):
        b0 = pb[0].concretise(40)
        pb = (b0, pb[1], pb[2])
    if pb[0] == 0:
        raise ZeroDivisionError("float division by zero")
    if pb[2]:
        raise Unsupported("division by an inexact float")
    n, d = pa[0] * pb[1], pa[1] * pb[0]
    if d < 0:
        n, d = -n, -d
    return _made(make(n, d, pa[2] * abs(Fraction(pb[1], pb[0]))), "/", a, b)


def cmp_int_float(i, f, fn):
    """relation between SymInt and concrete float: fn(a,b) <= 0"""
    if f == float("inf"):
        return fn(0, 1) <= 0
    if f == float("-inf"):
        return fn(1, 0) <= 0
    if f != f:
        return False
    n, d = f.as_integer_ratio()
    r = fn(i * d, n)
    return r <= 0


def _nearest(n):
    """the double nearest to the integer n >= 0, as an integer: forks on the
    magnitude.  None: too many cases"""
    hi = bounds(n)[1]
    a = _twos(n).bit_length() - 1
    if hi is None or hi >= TWO53 << (a + 16):
        return None
    if bool(n < TWO53 << a):
        return n
    j = a + 1
    while not bool(n < TWO53 << j):
        j += 1
    q, r = divmod(n, 1 << j)
    half = 1 << (j - 1)
    up = bor(r > half, band(r == half, q % 2 == 1))
    return (q + ite(up, 1, 0)) << j if isinstance(q, int) else (q + ite(up, 1, 0)) * (1 << j)


def _made(f, op, a, b=None):
    """note how an inexact value came about: the same steps give the same value"""
    if isinstance(f, SymFloat) and not f.single:
        f.how = (op, _how(a), _how(b))
    return f


def _how(x):
    if isinstance(x, SymFloat):
        if x.how is None:
            x.how = ("exact", _how(x.num), x.den) if x.single else object()
        return x.how
    if isinstance(x, SymInt):
        return ("int", x.key())
    if isinstance(x, SymBool):
        return object()
    return (type(x).__name__, repr(x))


class SymFloat(SymFloatBase):
    __slots__ = ("num", "den", "err", "single", "how")

    def __init__(self, num, den, err, single=False):
        self.num, self.den, self.err, self.single = num, den, err, single
        self.how = None

    # arithmetic
    def __add__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        n, d, e = p
        return _made(make(self.num * d + n * self.den, self.den * d, self.err + e), "+", self, o)

    __radd__ = __add__

    def __neg__(self):
        return _made(SymFloat(-self.num, self.den, self.err, self.single), "neg", self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        n, d, e = p
        m1, m2 = _maxabs(self.num, self.den), _maxabs(n, d)
        return _made(
            make(self.num * n, self.den * d, self.err * m2 + e * m1 + self.err * e), "*", self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def _floor(self):
        """exact floor, only when there is no error"""
        if self.err:
            raise Unsupported("floor of an inexact float")
        return self.num // self.den

    def __divmod__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        if self.err or p[2]:
            raise Unsupported("divmod of an inexact float")
        a = self.num * p[1]
        b = p[0] * self.den
        q, r = divmod(a, b)
        return make(q), make(r, self.den * p[1])

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __abs__(self):
        return SymFloat(abs(self.num), self.den, self.err, self.single)

    def _trunc(self):
        neg = bool(self.num < 0)
        n = -self.num if neg else self.num
        if self.err == 0 or (
            self.single
            and _maxabs(self.num, self.den) * EPS * self.den < 1
            and _maxabs(self.num, self.den) < TWO53
        ):
            t = n // self.den
        elif self.single and self.den == 1 and (t := _nearest(n)) is not None:
            pass
        elif self.single and _maxabs(self.num, self.den) < TWO53:
            # one correct rounding: never below the (representable) floor,
            # and above it only from close by
            w = int(self.err * self.den) + 1
            q, r = divmod(n, self.den)
            near = r >= self.den - w
            if isinstance(near, bool) and not near:
                t = q
            else:
                key = ("ftrunc1", n.key() if isinstance(n, SymInt) else n, self.den)
                k = core.C.cache.get(key)
                if k is None:
                    k = core.C.fresh("fe", 0, 1)
                    core.C.assume(bor(k == 0, near))
                    core.C.cache[key] = k
                t = q + k
        else:
            w = self.err * self.den
            w = int(w) + 1
            key = ("ftrunc", n.key() if isinstance(n, SymInt) else n, self.den, w)
            t = core.C.cache.get(key)
            if t is None:
                k = core.C.fresh("fe", -w, w)
                t = (n + k) // self.den
                if isinstance(t, SymInt) and bool(t < 0):
                    t = 0
                core.C.cache[key] = t
        return -t if neg else t

    __trunc__ = _trunc

    def __int__(self):
        raise Unsupported("native int() of a symbolic float")

    def __float__(self):
        raise Unsupported("native float() of a symbolic float")

    def is_integer(self):
        if self.err:
            raise Unsupported("is_integer of an inexact float")
        return self.num % self.den == 0

    def __round__(self, n=None):
        if self.err:
            if n is None and self.err < Fraction(1, 4) and self.den == 1:
                return self.num
            raise Unsupported("round of an inexact float")
        if n is not None:
            raise Unsupported("round(x, n)")
        q, r = divmod(self.num, self.den)
        up = bor(2 * r > self.den, band(2 * r == self.den, q % 2 == 1))
        return q + ite(up, 1, 0)

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    # comparison
    def _cmp(self, o, fn):
        p = parts(o)
        if p is None:
            return NotImplemented
        n, d, e = p
        e = e + self.err
        diff = fn(self.num * d, n * self.den)  # want diff <= 0 (scaled by den*d)
        if e == 0:
            return diff <= 0
        w = e * self.den * d
        w = int(w) + 1
        if bool(diff <= -w):
            return True
        if bool(diff > w):
            return False
        k = core.C.fresh("fc", 0, 1)
        return k == 1

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a - b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a - b + 1)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b - a)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: b - a + 1)

    def __eq__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        n, d, e = p
        if (
            isinstance(o, SymFloat)
            and self.single
            and o.single
            and isinstance(self.num * d - n * self.den, int)
            and self.num * d - n * self.den == 0
        ):
            return True
        if isinstance(o, SymFloat) and _how(self) == _how(o):
            return True
        e = e + self.err
        diff = self.num * d - n * self.den
        if e == 0:
            return diff == 0
        w = int(e * self.den * d) + 1
        if bool(diff > w) or bool(diff < -w):
            return False
        if self.single and isinstance(o, int) and bool(diff == 0):
            return True
        k = core.C.fresh("fc", 0, 1)
        return k == 1

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.bnot(r)

    def __bool__(self):
        return bool(core.bnot(self == 0))

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    def __str__(self):
        return f"<SymFloat {self.num}/{self.den}±{float(self.err)}>"

    __repr__ = __str__

    def decimal_digits(self, places):
        """integer n such that '%.{places}f' shows n / 10**places, sign apart"""
        scale = 10**places
        num, den = _norm(self.num * scale, self.den)
        if den == 1 and self.err * scale < Fraction(1, 2):
            return num
        if self.err == 0:
            q, r = divmod(num, den)
            up = bor(2 * r > den, band(2 * r == den, q % 2 == 1))
            return q + ite(up, 1, 0)
        raise Unsupported("formatting of an inexact float")


def to_float(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymBool):
        x = x._i()
    if isinstance(x, SymInt):
        return make(x, 1)
    raise Unsupported("float()")


def fmod(a, b):
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        raise TypeError("must be real number")
    n1, d1, e1 = pa
    n2, d2, e2 = pb
    if e2:
        raise Unsupported("fmod by inexact float")
    if isinstance(n2, SymInt):
        n2 = n2.concretise(40)
    x, y = n1 * d2, n2 * d1
    if y == 0:
        raise ValueError("math domain error")
    y = abs(y)
    neg = bool(x < 0)
    ax = -x if neg else x
    if e1 == 0:
        r = ax % y
    else:
        w = int(e1 * d1 * d2) + 1
        k = core.C.fresh("fm", -w, w)
        r = (ax + k) % y
    return make(-r if neg else r, d1 * d2)
