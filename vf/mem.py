"""Functional byte memories: every region's contents is an immutable chain read pointwise."""
from .terms import *


class Node:
    __slots__ = ("cache",)

    def __init__(self):
        self.cache = {}

    def read(self, o):
        r = self.cache.get(o)
        if r is None:
            r = self._read(o)
            self.cache[o] = r
        return r


class Base(Node):
    __slots__ = ("fn",)

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def _read(self, o):
        return self.fn(o)


class Dict(Node):
    __slots__ = ("prev", "d")

    def __init__(self, prev, d):
        super().__init__()
        self.prev, self.d = prev, d

    def _read(self, o):
        if isc(o):
            r = self.d.get(o.v)
            return r if r is not None else self.prev.read(o)
        r = self.prev.read(o)
        for k in sorted(self.d):
            r = ite(eq(o, C(k, 32)), self.d[k], r)
        return r


class Sto(Node):
    """store of a constant number of bytes at a symbolic offset"""
    __slots__ = ("prev", "off", "bs")

    def __init__(self, prev, off, bs):
        super().__init__()
        self.prev, self.off, self.bs = prev, off, bs

    def _read(self, o):
        d = sub(o, self.off)
        n = len(self.bs)
        if isc(d):
            return self.bs[d.v] if d.v < n else self.prev.read(o)
        r = self.prev.read(o)
        v = self.bs[n - 1]
        for k in range(n - 2, -1, -1):
            v = ite(eq(d, C(k, 32)), self.bs[k], v)
        return ite(ult(d, C(n, 32)), v, r)


class FnW(Node):
    """bytes [off, off+len) come from fn(index)"""
    __slots__ = ("prev", "off", "len", "fn")

    def __init__(self, prev, off, length, fn):
        super().__init__()
        self.prev, self.off, self.len, self.fn = prev, off, length, fn

    def _read(self, o):
        d = sub(o, self.off)
        c = ult(d, self.len)
        if c is TRUE:
            return self.fn(d)
        if c is FALSE:
            return self.prev.read(o)
        return ite(c, self.fn(d), self.prev.read(o))


class Ite(Node):
    __slots__ = ("c", "x", "y")

    def __init__(self, c, x, y):
        super().__init__()
        self.c, self.x, self.y = c, x, y

    def _read(self, o):
        return ite(self.c, self.x.read(o), self.y.read(o))


def store(node, off, bs):
    if isc(off):
        if isinstance(node, Dict):
            d = dict(node.d)
            prev = node.prev
        else:
            d, prev = {}, node
        for i, b in enumerate(bs):
            d[(off.v + i) & 0xffffffff] = b
        return Dict(prev, d)
    return Sto(node, off, list(bs))


def fnwrite(node, off, length, fn):
    if isc(length) and length.v <= 4096:
        if length.v == 0:
            return node
        return store(node, off, [fn(C(i, 32)) for i in range(length.v)])
    return FnW(node, off, length, fn)


def merge(c, x, y):
    if x is y or c is TRUE:
        return x
    if c is FALSE:
        return y
    if isinstance(x, Dict) and x.prev is y:
        y = Dict(y, {})
    elif isinstance(y, Dict) and y.prev is x:
        x = Dict(x, {})
    if isinstance(x, Dict) and isinstance(y, Dict) and x.prev is y.prev:
        d = {}
        for k in set(x.d) | set(y.d):
            o = C(k, 32)
            d[k] = ite(c, x.read(o), y.read(o))
        return Dict(x.prev, d)
    return Ite(c, x, y)


class KV:
    """ghost key/value map 256 -> 256 with functional updates"""

    def __init__(self, base, ups=()):
        self.base, self.ups = base, ups

    def read(self, k):
        r = self.base(k)
        for (c, kk, v) in self.ups:
            r = ite(And(c, eq(k, kk)), v, r)
        return r

    def write(self, k, v):
        return KV(self.base, self.ups + ((TRUE, k, v),))

    def merge(self, c, other):
        if self is other or self.ups == other.ups:
            return self
        n = 0
        while n < len(self.ups) and n < len(other.ups) and self.ups[n] == other.ups[n]:
            n += 1
        ups = self.ups[:n]
        nc = Not(c)
        ups += tuple((And(c, g), k, v) for g, k, v in self.ups[n:])
        ups += tuple((And(nc, g), k, v) for g, k, v in other.ups[n:])
        return KV(self.base, ups)
