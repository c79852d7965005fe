"""Loads the code under test so that it runs on symbolic values.

The module source is read from /repo on every run and executed by CPython
itself; only the places where the interpreter would insist on concrete types
are rewritten (f-strings, `in`, string methods on literals, __bool__/__len__
results) and the standard library pieces it imports are replaced by models.
"""
from __future__ import annotations
import ast
import builtins
import math as _math
import os
import operator as _operator
import struct as _struct
import sys
import types
from . import core, floats, strs, containers, model_dt as M
from .core import SymInt, SymBool, SymFloatBase, Unsupported, band, bor, bnot, ite, is_sym
from .floats import SymFloat
from .strs import SymStr, OpaqueStr, SymBytes

STR_METHODS = {
    n for n in dir(str) if not n.startswith("_")
} - {"format_map", "maketrans"}

SYMS = (SymInt, SymBool, SymFloatBase, SymStr)


def symbolic(x):
    return isinstance(x, SYMS)


class Rewrite(ast.NodeTransformer):
    def __init__(self, file=""):
        self.fn = []
        self.scope = []
        self.file = file

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.scope.append(node.name)
        # annotations are not evaluated (from __future__ import annotations) or
        # harmless; leave them alone
        node.body = [self.visit(b) for b in node.body]
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        # measured for the evidence: which functions were executed symbolically
        mark = ast.copy_location(ast.Expr(_call(
            "__sx_enter__", ast.Constant(self.file + ":" + ".".join(self.scope)))), node.body[0])
        doc = isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
        node.body.insert(1 if doc else 0, mark)
        self.scope.pop()
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.fn.append("<lambda>")
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.fn and self.fn[-1] in ("__bool__", "__contains__") and node.value:
            node.value = _call("__sx_force__", node.value)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = (
                    self.visit(v.format_spec)
                    if v.format_spec is not None
                    else ast.Constant("")
                )
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()
                    )
                )
        return ast.copy_location(_call("__sx_join__", *parts), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            if len(node.ops) != 1:
                return node
            f = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(_call(f, node.left, node.comparators[0]), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if (
            isinstance(node.func, ast.Attribute)
            and node.func.attr in STR_METHODS
            and isinstance(node.func.ctx, ast.Load)
        ):
            c = _call("__sx_mcall__", node.func.value, ast.Constant(node.func.attr))
            c.args += node.args
            c.keywords = node.keywords
            return ast.copy_location(c, node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = [ast.Tuple([k if k is not None else ast.Name("__sx_dict__", ast.Load()), v],
                           ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call("__sx_dict__", ast.List(pairs, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("__sx_dict__", ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__sx_mod__", node.left, node.right), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def _call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


# -- helpers the rewritten code calls ----------------------------------------

def sx_force(v):
    return builtins.bool(v)


def sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        return percent(a, b)
    return a % b


def percent(f, args):
    if isinstance(f, SymStr):
        raise Unsupported("symbolic %-format")
    vals = args if isinstance(args, tuple) else (args,)
    if not any(symbolic(v) or hasattr(v, "sx_str") for v in vals):
        return f % args
    out, vi, i = [], 0, 0
    while i < len(f):
        c = f[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(f) and f[j] in "0123456789.+- #":
            j += 1
        t, flags = f[j], f[i + 1:j]
        i = j + 1
        if t == "%":
            out.append("%")
            continue
        v = vals[vi]
        vi += 1
        if t in "di":
            out.append(sx_format(c_int(v), flags + "d" if flags else ""))
        elif t == "s" and not flags:
            out.append(s_str(v))
        elif t == "r":
            out.append(s_repr(v))
        elif t == "f":
            out.append(sx_format(v, flags + "f"))
        else:
            raise Unsupported(f"%-format {flags}{t}")
    r = ""
    for p in out:
        r = r + p
    return r


def sx_in(a, b):
    if isinstance(b, containers.SxDict):
        return builtins.bool(b.__contains__(a))
    if isinstance(b, (str, SymStr)):
        if symbolic(a) or symbolic(b):
            if not isinstance(a, (str, SymStr)):
                raise TypeError("'in <string>' requires string as left operand")
            return strs.contains(b, a)
        return a in b
    if symbolic(a) and isinstance(b, (tuple, list)):
        return bor(*[_eqv(a, x) for x in b])
    if symbolic(a) and isinstance(b, (set, frozenset, dict)) and not isinstance(a, SymStr):
        return bor(*[_eqv(a, x) for x in b])
    if isinstance(a, SymStr) and isinstance(b, (set, frozenset, dict)):
        return bor(*[_eqv(a, x) for x in b])
    if isinstance(b, range) and isinstance(a, (SymInt, SymBool)):
        if isinstance(a, SymBool):
            a = a._i()
        if b.step > 0:
            return band(a >= b.start, a < b.stop, (a - b.start) % b.step == 0)
        return band(a <= b.start, a > b.stop, (b.start - a) % (-b.step) == 0)
    return a in b


def _eqv(a, b):
    r = a == b
    return False if r is NotImplemented else r


def sx_notin(a, b):
    return bnot(sx_in(a, b))


def sx_mcall(obj, name, *args, **kw):
    if isinstance(obj, str) and (
        any(symbolic(a) for a in args)
        or name in ("join", "format")
    ):
        if name == "join":
            items = list(args[0])
            if any(symbolic(x) for x in items):
                return strs._as(obj).join(items)
            return obj.join(items)
        if name == "format":
            return _str_format(obj, args, kw)
        return getattr(strs._as(obj), name)(*args, **kw)
    if isinstance(obj, str) and args and isinstance(args[0], tuple) and any(
        symbolic(x) for x in args[0]
    ):
        return getattr(strs._as(obj), name)(*args, **kw)
    return getattr(obj, name)(*args, **kw)


def _str_format(fmt, args, kw):
    import string

    auto, parts = 0, []
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        parts.append((v, ord(conv) if conv else -1, spec or ""))
    return sx_join(*parts)


def _lazy_ok(p):
    if not isinstance(p, tuple):
        return True
    v, conv, spec = p
    if spec not in ("", "02d", "03d", "04d", "06d", "09d", "02", "04", "d"):
        return False
    return builtins.type(v) in (
        SymInt, int, builtins.str, SymStr, strs.LazyStr, M.date, M.time, M.datetime
    ) and not (spec and builtins.type(v) not in (SymInt, int))


def sx_join(*parts):
    if builtins.all(_lazy_ok(p) for p in parts) and builtins.any(
        isinstance(p, tuple) and builtins.type(p[0]) is not builtins.str for p in parts
    ):
        return strs.LazyStr(lambda: _join(parts))
    return _join(parts)


def _join(parts):
    r = ""
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = s_repr(v)
            elif conv == 115:
                v = s_str(v)
            elif conv == 97:
                v = s_repr(v)
            p = sx_format(v, spec)
        r = r + p
    return r


def sx_format(v, spec=""):
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if isinstance(v, SymBool):
        if spec:
            v = v._i()
        else:
            return "True" if builtins.bool(v) else "False"
    if isinstance(v, SymInt):
        return strs.format_int(v, spec)
    if isinstance(v, SymFloat):
        return strs.format_float(v, spec or ".6f") if spec else OpaqueStr()
    if isinstance(v, OpaqueStr):
        return v
    if isinstance(v, SymStr):
        return strs.format_str(v, spec)
    t = builtins.type(v)
    if hasattr(v, "sx_str"):
        return strs.format_str(v.sx_str(), spec) if not spec else _no("format of a date")
    f = t.__format__
    if f is object.__format__ and t.__str__ is not object.__str__ and not spec:
        return s_str(v)
    if f is object.__format__ and not spec:
        return s_str(v)
    if isinstance(v, (tuple, list, dict)) and not spec:
        return s_str(v)
    return builtins.format(v, spec)


def _no(m):
    raise Unsupported(m)


# -- builtins ----------------------------------------------------------------

def _shim(name, base, syms, conv):
    class Meta(builtins.type):
        def __instancecheck__(cls, x):
            return isinstance(x, base) or isinstance(x, syms)

        def __subclasscheck__(cls, c):
            return issubclass(c, base) or c is cls

        def __call__(cls, *a, **k):
            return conv(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __repr__(cls):
            return f"<class '{name}'>"

        def __getattr__(cls, n):
            return getattr(base, n)

        def __or__(cls, o):
            return base | o

        def __ror__(cls, o):
            return o | base

    return Meta(name, (), {"__doc__": base.__doc__, "_sx_base": base})


def c_int(x=0, base=None):
    if base is not None:
        if isinstance(x, SymStr):
            if base == 10:
                return strs.parse_int(x)
            raise Unsupported("int(str, base)")
        return builtins.int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymFloat):
        return x._trunc()
    if isinstance(x, SymStr):
        return strs.parse_int(x)
    return builtins.int(x)


def c_float(x=0.0):
    if isinstance(x, SymStr):
        return strs.parse_float(x)
    if symbolic(x):
        return floats.to_float(x)
    return builtins.float(x)


def c_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymStr):
        return builtins.bool(x)
    return builtins.bool(x)


def s_str(*a):
    if not a:
        return ""
    (x,) = a[:1]
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return sx_format(x)
    if isinstance(x, SymFloat):
        return OpaqueStr()
    if hasattr(x, "sx_str"):
        return x.sx_str()
    if isinstance(x, (tuple, list, dict)):
        return OpaqueStr()
    f = builtins.type(x).__str__
    if f is object.__str__:
        return s_repr(x)
    if isinstance(x, BaseException):
        return builtins.str(x)
    return f(x)


def s_repr(x):
    if isinstance(x, SymInt):
        return sx_format(x)
    if isinstance(x, SymStr) or symbolic(x) or isinstance(x, SymBytes):
        return OpaqueStr()
    if hasattr(x, "sx_str") or isinstance(x, (tuple, list, dict)):
        return OpaqueStr()
    return builtins.type(x).__repr__(x)


INT = _shim("int", builtins.int, (SymInt, SymBool), c_int)


def _from_bytes(data, byteorder="big", *, signed=False):
    bs = data.bytelist() if isinstance(data, SymBytes) else list(data)
    if not any(symbolic(b) for b in bs):
        return builtins.int.from_bytes(builtins.bytes(bs), byteorder, signed=signed)
    v = 0
    for b in bs if byteorder == "big" else bs[::-1]:
        v = v * 256 + b
    if signed:
        v = ite(v >= 1 << 8 * len(bs) - 1, v - (1 << 8 * len(bs)), v)
    return v


INT.from_bytes = staticmethod(_from_bytes)
FLOAT = _shim("float", builtins.float, (SymFloatBase,), c_float)
BOOL = _shim("bool", builtins.bool, (SymBool,), c_bool)
STR = _shim("str", builtins.str, (SymStr,), s_str)


def c_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymInt):
            raise Unsupported("bytes of a symbolic length")
        if not isinstance(x, (builtins.int, builtins.str, builtins.bytes, bytearray, memoryview)) \
                and hasattr(builtins.type(x), "__iter__"):
            x = builtins.list(x)
            if any(symbolic(b) for b in x):
                for b in x:
                    if not 0 <= b <= 255:
                        raise ValueError("bytes must be in range(0, 256)")
                return SymBytes.of(x)
            return builtins.bytes(x)
    return builtins.bytes(*a, **k)


BYTES = _shim("bytes", builtins.bytes, (SymBytes,), c_bytes)

_TMAP = {
    builtins.int: INT, builtins.float: FLOAT, builtins.bool: BOOL, builtins.str: STR,
    SymInt: INT, SymFloat: FLOAT, SymBool: BOOL, SymStr: STR, OpaqueStr: STR, strs.LazyStr: STR,
    builtins.bytes: BYTES, SymBytes: BYTES,
}


class _TypeMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            t = builtins.type(a[0])
            return _TMAP.get(t, t)
        return builtins.type(*a, **k)

    def __getattr__(cls, n):
        return getattr(builtins.type, n)

    def __getitem__(cls, i):
        return builtins.type[i]


class TYPE(metaclass=_TypeMeta):
    pass


def s_hash(x):
    if isinstance(x, SymInt):
        return M.HashKey(x)
    if isinstance(x, SymBool):
        return M.HashKey(x._i())
    if isinstance(x, M.HashKey):
        return x
    if isinstance(x, SymStr):
        return M.HashKey(("str", x))
    if isinstance(x, SymFloat):
        raise Unsupported("hash of float")
    if isinstance(x, tuple):
        return M.HashKey(("tuple",) + tuple(s_hash(i) for i in x))
    if hasattr(x, "sx_hash"):
        return x.sx_hash()
    if isinstance(x, builtins.bool):
        return M.HashKey(int(x))
    if isinstance(x, builtins.int):
        return M.HashKey(x)
    if isinstance(x, builtins.str):
        return M.HashKey(("str", x))
    if x is None or isinstance(x, builtins.type):
        return M.HashKey(("id", id(x)))
    r = builtins.type(x).__hash__(x)
    return r if isinstance(r, M.HashKey) else M.HashKey(r)


containers._HASH.append(s_hash)


def s_min(*a, key=None, **k):
    return _mm(a, key, k, False)


def s_max(*a, key=None, **k):
    return _mm(a, key, k, True)


def _mm(a, key, k, mx):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        return (builtins.max if mx else builtins.min)(xs, **k)
    if not any(symbolic(x) for x in xs) and key is None and not any(
        hasattr(x, "sx_hash") for x in xs
    ):
        return (builtins.max if mx else builtins.min)(xs)
    if key is None and all(isinstance(x, (int, SymInt, SymBool)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x > r, x, r) if mx else ite(x < r, x, r)
        return r
    r = xs[0]
    for x in xs[1:]:
        p, q = (key(x), key(r)) if key else (x, r)
        if builtins.bool(p > q if mx else p < q):
            r = x
    return r


def s_divmod(a, b):
    return builtins.divmod(a, b)


def s_abs(x):
    if isinstance(x, SymBool):
        return x._i()
    return builtins.abs(x)


def s_round(x, n=None):
    if symbolic(x):
        return x.__round__() if n is None else x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def s_pow(a, b, m=None):
    if m is None:
        return a**b
    raise Unsupported("pow with modulus")


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_any(it):
    for x in it:
        if builtins.bool(x):
            return True
    return False


def s_all(it):
    for x in it:
        if not builtins.bool(x):
            return False
    return True


def s_range(*a):
    return builtins.range(*[x.concretise(400) if isinstance(x, SymInt) else x for x in a])


def s_ord(c):
    if isinstance(c, SymStr):
        if len(c.c) != 1:
            raise TypeError("ord() expected a character")
        return strs.code(c.c[0])
    return builtins.ord(c)


def s_chr(i):
    if isinstance(i, SymInt):
        return SymStr([i])
    return builtins.chr(i)


def s_sorted(it, *, key=None, reverse=False):
    import functools

    xs = list(it)
    if any(symbolic(x) for x in xs):
        raise Unsupported("sorting symbolic values")
    return builtins.sorted(xs, key=key, reverse=reverse)


def s_isinstance(x, t):
    # bare SymInt etc. must not be seen through stdlib ABCs
    return builtins.isinstance(x, t)


def s_len(x):
    return builtins.len(x)


def s_format(v, spec=""):
    return sx_format(v, spec)


# -- stdlib modules ----------------------------------------------------------

def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


_FMT = {
    "b": (-(1 << 7), (1 << 7) - 1, 1), "B": (0, (1 << 8) - 1, 1),
    "h": (-(1 << 15), (1 << 15) - 1, 2), "H": (0, (1 << 16) - 1, 2),
    "i": (-(1 << 31), (1 << 31) - 1, 4), "I": (0, (1 << 32) - 1, 4),
    "l": (-(1 << 31), (1 << 31) - 1, 4), "L": (0, (1 << 32) - 1, 4),
    "q": (-(1 << 63), (1 << 63) - 1, 8), "Q": (0, (1 << 64) - 1, 8),
}


def _fields(fmt):
    if fmt[:1] not in "<>!=":
        return None
    out, n = [], ""
    for c in fmt[1:]:
        if c.isdigit():
            n += c
            continue
        if c not in _FMT:
            return None
        out += [c] * (int(n) if n else 1)
        n = ""
    return out


def s_pack(fmt, *vals):
    if not any(symbolic(v) for v in vals):
        return _struct.pack(fmt, *vals)
    fs = _fields(fmt)
    if fs is None:
        raise Unsupported(f"struct format {fmt}")
    if len(fs) != len(vals):
        raise _struct.error(f"pack expected {len(fs)} items for packing (got {len(vals)})")
    out, size = [], 0
    for f, v in zip(fs, vals):
        lo, hi, sz = _FMT[f]
        if isinstance(v, SymBool):
            v = v._i()
        if not isinstance(v, (int, SymInt)):
            raise _struct.error("required argument is not an integer")
        if not builtins.bool(band(v >= lo, v <= hi)):
            raise _struct.error(f"'{f}' format requires {lo} <= number <= {hi}")
        out.append((f, v))
        size += sz
    return SymBytes(fmt[:1], out, size)


def s_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    fs = _fields(fmt)
    if fs is None:
        raise Unsupported(f"struct format {fmt}")
    size = sum(_FMT[f][2] for f in fs)
    if size != data.size:
        raise _struct.error(f"unpack requires a buffer of {size} bytes")
    order = fmt[:1] in ">!"
    # same boundaries: reinterpret signedness; otherwise go through bytes
    if order == (data.fmt in ">!") and [_FMT[f][2] for f in fs] == [_FMT[f][2] for f, _ in data.fields]:
        out = []
        for f, (g, v) in zip(fs, data.fields):
            lo, hi, sz = _FMT[f]
            if _FMT[g][0] != lo:
                m = 1 << (8 * sz)
                v = ite(v > hi, v - m, ite(v < lo, v + m, v))
            out.append(v)
        return tuple(out)
    bs = data.bytelist()
    out, i = [], 0
    for f in fs:
        lo, hi, sz = _FMT[f]
        cur = bs[i:i + sz]
        i += sz
        if order:
            cur = cur[::-1]
        v = 0
        for k, x in enumerate(cur):
            v = v + x * (1 << (8 * k))
        if lo < 0:
            v = ite(v > hi, v - (1 << (8 * sz)), v)
        out.append(v)
    return tuple(out)


def _mfun(name, symf):
    real = getattr(_math, name)

    def f(*a):
        if any(symbolic(x) for x in a):
            return symf(*a)
        return real(*a)

    f.__name__ = name
    return f


def _m_floor(x):
    return x.__floor__()


def _m_ceil(x):
    if isinstance(x, SymFloat):
        return x.__ceil__()
    return x.__ceil__()


def _m_modf(x):
    t = c_int(x)
    return x - t, floats.to_float(t) if symbolic(t) else float(t)


def _m_copysign(a, b):
    neg = builtins.bool(b < 0)
    r = abs(floats.to_float(a) if symbolic(a) else float(a))
    return -r if neg else r


MATH = _mod("math", **{k: v for k, v in vars(_math).items() if not k.startswith("__")})
MATH.fmod = _mfun("fmod", floats.fmod)
MATH.floor = _mfun("floor", _m_floor)
MATH.ceil = _mfun("ceil", _m_ceil)
MATH.trunc = _mfun("trunc", c_int)
MATH.fabs = _mfun("fabs", lambda x: abs(floats.to_float(x)))
MATH.modf = _mfun("modf", _m_modf)
MATH.copysign = _mfun("copysign", _m_copysign)

import re as _re

RE = _mod("re", **{k: v for k, v in vars(_re).items() if not k.startswith("__")})
RE.compile = lambda p, flags=0: p if isinstance(p, strs.Pattern) else strs.Pattern(p, flags)
RE.Pattern = strs.Pattern
RE.Match = strs.Match
for _n in ("match", "fullmatch", "search", "split", "sub", "findall", "finditer"):
    def _f(p, *a, _n=_n, flags=0, **k):
        return getattr(RE.compile(p, flags), _n)(*a, **k)
    setattr(RE, _n, _f)

import time as _time_mod

TIME = _mod("time", **{k: v for k, v in vars(_time_mod).items() if not k.startswith("__")})
TIME.time_ns = lambda: M.clock_ns()
TIME.time = lambda: floats.make(M.clock_ns(), 1_000_000_000)

DATETIME = _mod(
    "datetime", date=M.date, datetime=M.datetime, time=M.time, timedelta=M.timedelta,
    timezone=M.timezone, tzinfo=M.tzinfo, UTC=M.UTC, MINYEAR=1, MAXYEAR=9999,
)
ZONEINFO = _mod("zoneinfo", ZoneInfo=M.ZoneInfo, ZoneInfoNotFoundError=M.ZoneInfoNotFoundError)
import calendar as _calendar

CALENDAR = _mod(
    "calendar", **{k: v for k, v in vars(_calendar).items() if not k.startswith("__")}
)
CALENDAR.monthrange, CALENDAR.isleap, CALENDAR.weekday = M.monthrange, M.isleap, M.weekday


class Struct:
    def __init__(self, format):
        self.format, self.size = format, _struct.calcsize(format)

    def pack(self, *vals):
        return s_pack(self.format, *vals)

    def unpack(self, data):
        return s_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return s_unpack(self.format, data[offset:offset + self.size])


STRUCT = _mod("struct", pack=s_pack, unpack=s_unpack, error=_struct.error,
              calcsize=_struct.calcsize, Struct=Struct,
              unpack_from=lambda fmt, data, offset=0: Struct(fmt).unpack_from(data, offset))
OPERATOR = _mod("operator", **{k: v for k, v in vars(_operator).items() if not k.startswith("__")})


def _eu_format_datetime(dt, usegmt=False):
    """email.utils.format_datetime on the model's datetimes (same text rules)"""
    now = dt
    if usegmt:
        if dt.tzinfo is None or dt.tzinfo is not M.UTC:
            raise ValueError("usegmt option requires a UTC datetime")
        zone = "GMT"
    elif dt.tzinfo is None:
        zone = "-0000"
    else:
        # strftime("%z")
        us = dt.tzinfo.sx_offset(dt)
        neg = builtins.bool(us < 0)
        a = -us if neg else us
        secs, micro = divmod(a, M.US)
        h, r = divmod(secs, 3600)
        mi, s = divmod(r, 60)
        z = ["-" if neg else "+"] + strs.digits_of(h, 2) + strs.digits_of(mi, 2)
        if builtins.bool(bor(s != 0, micro != 0)):
            z += strs.digits_of(s, 2)
            if builtins.bool(micro != 0):
                z += ["."] + strs.digits_of(micro, 6)
        zone = strs.mk(z)
    wd = dt.weekday()
    wd = wd.concretise(8) if isinstance(wd, SymInt) else wd
    mo = dt.month
    mo = mo.concretise(13) if isinstance(mo, SymInt) else mo
    return sx_join(
        M._WD[wd], ", ", (dt.day, -1, "02d"), " ", M._MN[mo - 1], " ", (dt.year, -1, "04d"),
        " ", (dt.hour, -1, "02d"), ":", (dt.minute, -1, "02d"), ":", (dt.second, -1, "02d"),
        " ", zone,
    )


_EMAIL_CACHE = {}


def _email_parse(s):
    """parsedate_to_datetime: the stdlib's own source, run symbolically"""
    if isinstance(s, str):
        import email.utils as eu

        d = eu.parsedate_to_datetime(s)
        return real_to_model(d)
    m = _EMAIL_CACHE.get("m")
    if m is None:
        import email._parseaddr as pa

        m = load_source(pa.__file__, "sx_email_parseaddr")
        _EMAIL_CACHE["m"] = m
    parsed = m._parsedate_tz(s)
    if parsed is None:
        raise ValueError("Invalid date value or format")
    *dtuple, tz = parsed
    if tz is None:
        return M.datetime(*dtuple[:6])
    return M.datetime(*dtuple[:6], tzinfo=M.timezone(M.timedelta(seconds=tz)))


def real_to_model(d):
    import datetime as _r

    if isinstance(d, _r.datetime):
        tz = None
        if d.tzinfo is not None:
            tz = M.timezone(M.timedelta._mk(M._td_us(d.utcoffset())))
        return M.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond,
                          tz, fold=d.fold)
    raise Unsupported("conversion of a concrete value")


EMAIL_UTILS = _mod(
    "email.utils", format_datetime=_eu_format_datetime, parsedate_to_datetime=_email_parse
)
EMAIL = _mod("email", utils=EMAIL_UTILS)



import functools as _functools

FUNCTOOLS = _mod("functools", **{k: v for k, v in vars(_functools).items() if not k.startswith("__")})
FUNCTOOLS.lru_cache = FUNCTOOLS.cache = containers.Cache()

MODULES = {
    "functools": FUNCTOOLS,
    "datetime": DATETIME, "zoneinfo": ZONEINFO, "re": RE, "struct": STRUCT, "time": TIME,
    "calendar": CALENDAR, "math": MATH, "email.utils": EMAIL_UTILS, "email": EMAIL,
    "operator": OPERATOR,
}

_PASS = {
    "enum", "sys", "abc", "typing", "typing_extensions", "itertools",
    "collections", "collections.abc", "__future__", "dataclasses", "types", "warnings",
    "contextlib", "copy", "string", "numbers", "os", "copyreg",
}


ENTERED = set()


def make_builtins(extra_modules):
    b = dict(vars(builtins))

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            full = ".".join(x for x in (pkg, name) if x)
            if full in extra_modules:
                m = extra_modules[full]
                return m
            raise Unsupported(f"relative import of {full}")
        if name in extra_modules:
            return extra_modules[name] if fromlist else extra_modules[name.split(".")[0]]
        if name in MODULES:
            return MODULES[name] if fromlist or "." not in name else MODULES[name.split(".")[0]]
        if name in _PASS or name.split(".")[0] in _PASS:
            return builtins.__import__(name, globals, locals, fromlist, level)
        raise Unsupported(f"import of {name}")

    b.update(
        __import__=imp, int=INT, float=FLOAT, bool=BOOL, str=STR, bytes=BYTES, type=TYPE,
        hash=s_hash, min=s_min, max=s_max, abs=s_abs, round=s_round, sum=s_sum, any=s_any,
        all=s_all, range=s_range, ord=s_ord, chr=s_chr, format=s_format, repr=s_repr,
        pow=s_pow, sorted=s_sorted, divmod=s_divmod,
        __sx_enter__=ENTERED.add, __sx_force__=sx_force, __sx_dict__=containers.sx_dict, dict=containers.SxDict, __sx_join__=sx_join, __sx_in__=sx_in, __sx_notin__=sx_notin,
        __sx_mcall__=sx_mcall, __sx_mod__=sx_mod,
    )
    return b


_CODE = {}


def compile_source(path):
    src = open(path, encoding="utf-8").read()
    c = _CODE.get((path, src))
    if c is None:
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewrite(os.path.basename(path)).visit(tree))
        c = _CODE[(path, src)] = compile(tree, path, "exec", dont_inherit=True)
    return c


def load_source(path, name, package="", extra=None):
    code = compile_source(path)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = package
    extra = extra if extra is not None else {}
    m.__dict__["__builtins__"] = make_builtins(extra)
    # dataclasses looks its class's module up while the module runs
    names = [n for n in {name, package} if n]
    old = {n: sys.modules.get(n) for n in names}
    for n in names:
        sys.modules[n] = m
    try:
        exec(code, m.__dict__)
    finally:
        for n, o in old.items():
            if o is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = o
    return m


_FORCE_CACHE = {}
