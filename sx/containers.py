"""dict and functools.lru_cache with symbolic keys: the same lookups CPython
makes (identity, or equal hash and equal), decided by the solver."""
from __future__ import annotations
import builtins
import enum
import functools
from . import core
from .core import SymInt, SymBool, SymFloatBase, band
from .strs import SymStr, SymBytes

_HASH = []          # s_hash, set by the loader


def concrete(k):
    if isinstance(k, (SymInt, SymBool, SymFloatBase, SymStr, SymBytes)):
        return False
    if isinstance(k, (int, str, bytes, float, type(None), type, enum.Enum)):
        return True
    if isinstance(k, (tuple, frozenset)):
        return all(concrete(x) for x in k)
    # objects with identity only
    return type(k).__hash__ is object.__hash__ and not hasattr(k, "sx_hash")


def same_key(a, b):
    """would CPython's dict take these for the same key?"""
    if a is b:
        return True
    if concrete(a) and concrete(b):
        return a == b
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        r = True
        for x, y in zip(a, b):
            r = band(r, same_key(x, y))
            if r is False:
                return False
        return r
    e = a == b
    if e is NotImplemented or e is False:
        return False
    h = _HASH[0]
    return band(e, h(a) == h(b))


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.dict)


_NONE = object()


class SxDict(dict, metaclass=_Meta):
    def __init__(self, *a, **k):
        super().__init__()
        self._sym = []
        self.update(*a, **k)

    # -- lookup
    def _find(self, k):
        if concrete(k):
            if not self._sym:
                return "n", k if super().__contains__(k) else _NONE
        else:
            _HASH[0](k)  # TypeError when not hashable
        for i, (kk, _) in enumerate(self._sym):
            if bool(same_key(kk, k)):
                return "s", i
        if concrete(k):
            return "n", k if super().__contains__(k) else _NONE
        for kk in list(super().keys()):
            if bool(same_key(kk, k)):
                return "n", kk
        return "n", _NONE

    def __contains__(self, k):
        w, i = self._find(k)
        return w == "s" or i is not _NONE

    def _get(self, k):
        w, i = self._find(k)
        if w == "s":
            return self._sym[i][1]
        return _NONE if i is _NONE else super().__getitem__(i)

    def __getitem__(self, k):
        v = self._get(k)
        if v is _NONE:
            miss = getattr(type(self), "__missing__", None)
            if miss is not None:
                return miss(self, k)
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self._get(k)
        return d if v is _NONE else v

    def __setitem__(self, k, v):
        w, i = self._find(k)
        if w == "s":
            self._sym[i][1] = v
        elif i is not _NONE:
            super().__setitem__(i, v)
        elif concrete(k):
            super().__setitem__(k, v)
        else:
            self._sym.append([k, v])

    def __delitem__(self, k):
        if self.pop(k, _NONE) is _NONE:
            raise KeyError(k)

    def pop(self, k, *d):
        w, i = self._find(k)
        if w == "s":
            return self._sym.pop(i)[1]
        if i is not _NONE:
            return super().pop(i)
        if d:
            return d[0]
        raise KeyError(k)

    def popitem(self):
        if self._sym:
            return tuple(self._sym.pop())
        return super().popitem()

    def setdefault(self, k, d=None):
        v = self._get(k)
        if v is _NONE:
            self[k] = v = d
        return v

    def update(self, *a, **k):
        for src in a:
            it = src.items() if hasattr(src, "keys") else src
            for x, y in it:
                self[x] = y
        for x, y in k.items():
            self[x] = y

    def clear(self):
        self._sym = []
        super().clear()

    def copy(self):
        return SxDict(self)

    def __len__(self):
        return super().__len__() + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def keys(self):
        return list(super().keys()) + [k for k, _ in self._sym] if self._sym else super().keys()

    def values(self):
        return list(super().values()) + [v for _, v in self._sym] if self._sym else super().values()

    def items(self):
        return list(super().items()) + [(k, v) for k, v in self._sym] if self._sym \
            else super().items()

    def __iter__(self):
        return iter(self.keys()) if self._sym else super().__iter__()

    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r


def sx_dict(pairs):
    d = SxDict()
    for k, v in pairs:
        if k is sx_dict:
            d.update(v)
        else:
            d[k] = v
    return d


class Cache:
    """functools.lru_cache and functools.cache"""

    def __init__(self, deco=False):
        self.deco = deco

    def __call__(self, maxsize=128, typed=False):
        if callable(maxsize):
            return self._wrap(maxsize, False, None)
        return lambda f: self._wrap(f, typed, maxsize)

    @staticmethod
    def _wrap(f, typed, maxsize):
        entries = []

        @functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(k.items()))
            if typed:
                key += (tuple(type(x) for x in a), tuple(type(x) for x in k.values()))
            _HASH[0](key)
            for i, (kk, v) in enumerate(entries):
                if bool(same_key(kk, key)):
                    entries.append(entries.pop(i))
                    return v
            v = f(*a, **k)
            entries.append((key, v))
            if maxsize is not None and len(entries) > max(maxsize, 0):
                entries.pop(0)
            return v

        g.cache_clear = entries.clear
        g.cache_info = lambda: (0, 0, maxsize, len(entries))
        return g
