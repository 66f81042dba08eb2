"""Sequences of symbolic length (results of comprehensions, .tolist(), dict views)."""
import z3

from pyvc import values as V
from pyvc.core import PathEnd, Unsupported, cur
from pyvc.values import Num, dim_val, mkb, num


def _int(t):
    from pyvc.arrays import I

    return I(t)


class SSeq:
    """Sequence with symbolic length n and element function item(i)."""

    _vc_sym = True

    def __init__(self, n, item, tag=None):
        from pyvc.arrays import dnorm

        self.n = dnorm(n)
        self.item = item
        self.tag = tag or {}

    def as_seq(self):
        return self

    def generic(self):
        c = cur()
        t = z3.Int(c.name("gq_"))
        saved = c.tvars
        c.tvars = c.tvars + [t]
        try:
            return self.item(t)
        finally:
            c.tvars = saved

    def length(self):
        return dim_val(self.n)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of a symbolic sequence")

    def __bool__(self):
        n = self.length()
        return bool(n > 0)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.item(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic sequence")

    def __getitem__(self, i):
        c = cur()
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        t = _int(i)
        nt = z3.IntVal(self.n) if isinstance(self.n, int) else self.n
        if not c.branch(z3.And(t < nt, t >= -nt)):
            raise IndexError("list index out of range")
        if c.branch(t >= 0):
            return self.item(t)
        return self.item(t + nt)

    def copy(self):
        return SSeq(self.n, self.item, dict(self.tag))

    def tolist(self):
        return self

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)


def seq_of(x):
    """view anything iterable with known/unknown length as (n, item)"""
    from pyvc.arrays import SArr

    if isinstance(x, SSeq):
        return x
    if isinstance(x, SArr):
        f = x.snap()
        if x.ndim == 1:
            return SSeq(x.dims[0], lambda i: f(_int(i)), tag=dict(x.tag))
        y = x.copy()
        return SSeq(x.dims[0], lambda i: y[Num(_int(i), True)], tag=dict(x.tag))
    if isinstance(x, SRange):
        return SSeq(x.n, lambda i: Num(z3.simplify(x.start + _int(i) * x.step), True))
    if isinstance(x, SDict):
        return SSeq(x.n, x.key)
    return None


def concat(a, b):
    a2, b2 = seq_of(a), seq_of(b)
    if a2 is None:
        a = list(a)
        if not a:
            return b2
        a2 = from_concrete(a)
    if b2 is None:
        b = list(b)
        if not b:
            return a2
        b2 = from_concrete(b)
    na = z3.IntVal(a2.n) if isinstance(a2.n, int) else a2.n
    nb = z3.IntVal(b2.n) if isinstance(b2.n, int) else b2.n

    def item(i):
        t = z3.simplify(_int(i))
        return merge_lazy(t < na, lambda: a2.item(t), lambda: b2.item(t - na))

    return SSeq(na + nb, item)


def merge_lazy(c, fa, fb):
    c = z3.simplify(c)
    if z3.is_true(c):
        return fa()
    if z3.is_false(c):
        return fb()
    return merge(mkb(c), fa(), fb())


def merge(c, a, b):
    """if c then a else b for structured values"""
    from pyvc.arrays import SArr, to_sarr, where
    import numpy as np

    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SArr, np.ndarray)) and isinstance(b, (SArr, np.ndarray)):
        a, b = to_sarr(a), to_sarr(b)
        if a.ndim == 0 and b.ndim == 0:
            return V.ite(c, a.get(), b.get())
        from pyvc.arrays import _dims_same

        if not _dims_same(a.dims, b.dims):
            raise Unsupported("merge of arrays with different shapes")
        fa, fb = a.snap(), b.snap()
        k = "f" if "f" in (a.k, b.k) else a.k
        return SArr(a.dims, lambda *i: V.ite(c, fa(*i), fb(*i)), k)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) == type(b):
        parts = [merge(c, x, y) for x, y in zip(a, b)]
        return type(a)(*parts) if hasattr(a, "_fields") else tuple(parts)
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return Union(c, a, b)
    if a is None and b is None:
        return None
    return V.ite(c, a, b)


def from_concrete(xs):
    xs = list(xs)

    def item(i):
        t = z3.simplify(_int(i))
        if z3.is_int_value(t):
            return xs[t.as_long()]
        out = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            out = merge(mkb(t == j), xs[j], out)
        return out

    return SSeq(len(xs), item)


class SStr:
    """an unknown string"""

    _vc_sym = True


class Union:
    """A value that is one of two alternatives of different type, by a condition."""

    _vc_sym = True

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def force(self):
        return force(self.a if bool(self.c) else self.b)


def force(x):
    return x.force() if isinstance(x, Union) else x


class SRange:
    _vc_sym = True

    def __init__(self, start, stop, step=1):
        from pyvc.arrays import I, dnorm

        if not isinstance(step, int) or step == 0:
            raise Unsupported("range with a symbolic step")
        self.start, self.stop, self.step = I(start), I(stop), step
        if step == 1:
            n = self.stop - self.start
        elif step > 0:
            n = (self.stop - self.start + step - 1) / step
        else:
            n = (self.start - self.stop + (-step) - 1) / (-step)
        self.n = dnorm(z3.If(n > 0, n, 0))
        if cur().provable(n >= 0):
            self.n = dnorm(n)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([Num(z3.simplify(self.start + i * self.step), True) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic range")


class SDict:
    """Insertion-ordered dict with symbolic number of entries: key(i), val(i).

    Keys are assumed/shown distinct by the creator; lookup by key uses `find`."""

    _vc_sym = True

    def __init__(self, n, key, val, lookup=None, has=None):
        from pyvc.arrays import dnorm

        self.n = dnorm(n)
        self.key, self.val = key, val
        self._lookup = lookup
        self._has = has

    def length(self):
        return dim_val(self.n)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len of symbolic dict")

    def __bool__(self):
        return bool(self.length() > 0)

    def keys(self):
        return SSeq(self.n, self.key)

    def values(self):
        return SSeq(self.n, self.val)

    def items(self):
        return SSeq(self.n, lambda i: (self.key(i), self.val(i)))

    def __iter__(self):
        return iter(self.keys())

    def update(self, other):
        if isinstance(other, dict):
            if not other:
                return
            other = SDict(len(other), from_concrete(list(other.keys())).item, from_concrete(list(other.values())).item)
        cur().trusted["dict.update"] = "keys of merged dicts are taken to be disjoint"
        a, b = SSeq(self.n, self.key), SSeq(other.n, other.key)
        kk = concat(a, b)
        vv = concat(SSeq(self.n, self.val), SSeq(other.n, other.val))
        self.n, self.key, self.val = kk.n, kk.item, vv.item
        self._lookup = self._has = None

    def __getitem__(self, k):
        if self._lookup is not None:
            return self._lookup(k)
        if isinstance(self.n, int):
            for i in range(self.n):
                if num(self.key(i)) == num(k):
                    return self.val(i)
            raise KeyError(k)
        c = cur()
        w = c.fresh("dkey", z3.IntSort())
        nt = z3.IntVal(self.n) if isinstance(self.n, int) else self.n
        # position of the key, if present
        eq = V.bterm(num(self.key(w)) == num(k))
        hit = z3.And(w >= 0, w < nt, eq)
        c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < nt, V.bterm(num(self.key(t)) == num(k))), hit))
        if not c.branch(hit):
            raise KeyError(k)
        return self.val(w)

    def has(self, k):
        if self._has is not None:
            return self._has(k)
        if isinstance(self.n, int):
            return mkb(z3.Or([V.bterm(num(self.key(i)) == num(k)) for i in range(self.n)] + [z3.BoolVal(False)]))
        c = cur()
        w = c.fresh("dkey", z3.IntSort())
        nt = z3.IntVal(self.n) if isinstance(self.n, int) else self.n
        hit = z3.And(w >= 0, w < nt, V.bterm(num(self.key(w)) == num(k)))
        c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < nt, V.bterm(num(self.key(t)) == num(k))), hit))
        return mkb(hit)

    def __contains__(self, k):
        return bool(self.has(k))

    def get(self, k, default=None):
        if self._has is None:
            try:
                return self[k]
            except KeyError:
                return default
        return self[k] if self.has(k) else default


def repeat_list(o, n):
    """[a] * n for a symbolic n"""
    if not n.isint:
        raise TypeError("can't multiply sequence by non-int of type 'float'")
    t = z3.simplify(n.v)
    if z3.is_int_value(t):
        return o * t.as_long()
    if not isinstance(o, list) or len(o) != 1:
        raise Unsupported("repetition of a list of several items")
    if not cur().branch(t >= 0):
        return []
    item = o[0]
    return SSeq(t, lambda i: item)
