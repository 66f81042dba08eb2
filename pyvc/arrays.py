"""Symbolic numpy arrays: shape of (symbolic) dimensions plus an element function."""
import itertools

import numpy as np
import z3

from pyvc import values as V
from pyvc.core import PathEnd, Unsupported, cur
from pyvc.values import Num, SB, band, bor, bterm, dim_term, dim_val, ite, mkb, num


def I(x):
    """z3 Int term of an index-like value"""
    if isinstance(x, Num):
        if not x.isint:
            raise Unsupported("non-integer index")
        return x.v
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"index of type {type(x)}")


def simp(t):
    return z3.simplify(t) if z3.is_expr(t) else t


def dnorm(d):
    """dimension: python int or simplified z3 term"""
    if isinstance(d, Num):
        d = d.v
    if isinstance(d, (bool,)):
        return int(d)
    if isinstance(d, (int, np.integer)):
        return int(d)
    t = z3.simplify(d)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def dterm(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def deq(a, b):
    """decide (branching if needed) whether two dimensions are equal"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    t = z3.simplify(dterm(a) == dterm(b))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    c = cur()
    counts = c.__dict__.get("mask_counts")
    if counts and _mentions(t, counts) and not c.tvars:
        # sizes of selections: an undecided comparison says nothing about the code
        if not c.provable(V.mkb(t)) and not c.provable(V.mkb(z3.Not(t))):
            raise Unsupported("the sizes of two selections cannot be compared")
    return c.branch(t)


def _mentions(t, names):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        stack.extend(x.children())
    return False


def _np_fn(name):
    from pyvc import npshim

    return npshim._FUNCS[name]


def is_arr(x):
    return isinstance(x, SArr) or (isinstance(x, np.ndarray) and x.ndim > 0)


_ids = itertools.count()


class SArr:
    _vc_sym = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, fn, k="f", base=None, name=None):
        self.dims = tuple(dnorm(d) for d in shape)
        self._fn = fn
        self.k = k
        self.base = base  # view of another array: fn is dynamic, writes are forwarded
        self.setter = None
        self.shared = False
        self.version = 0
        self.flat_src = None
        self.tag = {}
        self.uid = next(_ids)
        self.frozen_name = None

    # ------------------------------------------------------------------ basics
    def get(self, *idx):
        return self._fn(*[I(i) for i in idx])

    def snap(self):
        """element function fixed at the current contents"""
        if self.base is not None:
            return self._resolve()
        return self._fn

    def _resolve(self):
        if self.base is None:
            return self._fn
        b, mapping = self.base
        f = b._resolve()
        return lambda *idx: f(*mapping(*idx))

    def set_fn(self, fn):
        """replace the contents (mutation)"""
        if self.shared:
            raise Unsupported("write to an array that shares its data with a reshaped one")
        if self.base is not None:
            if self.setter is None:
                raise Unsupported("write to a view")
            self.setter(fn)
            return
        c = cur()
        old = (self._fn, self.version)
        if c.journal is not None:
            c.journal.append(ArrWrite(self, old, fn))
        self._fn = fn
        self.version += 1

    @property
    def shape(self):
        return tuple(dim_val(d) if not isinstance(d, int) else d for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        s = 1
        for d in self.dims:
            s = s * (d if isinstance(d, int) else Num(d, True))
        return s

    @property
    def dtype(self):
        return {"f": np.dtype(float), "i": np.dtype(int), "b": np.dtype(bool)}[self.k]

    def __len__(self):
        d = self.dims[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() of a symbolic array outside the injected builtin")

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        if self.ndim <= 1:
            return self
        inv = [axes.index(k) for k in range(self.ndim)]
        return self._view([self.dims[a] for a in axes], lambda *i: [i[inv[k]] for k in range(self.ndim)],
                          lambda *i: [i[axes[k]] for k in range(self.ndim)])

    def _view(self, dims, mapping, inverse=None, cond=None):
        """mapping: view index -> base index; inverse: base index -> view index (for
        writes), cond: base index -> is it part of the view"""
        base, bmap = self, mapping
        out = SArr(dims, None, self.k)
        out.base = (base, bmap)
        out._fn = lambda *idx: base._fn(*[I(x) for x in bmap(*idx)])
        if inverse is not None:
            def setter(fn, base=base):
                old = base.snap()

                def new(*bi):
                    vi = inverse(*bi)
                    if cond is None:
                        return fn(*vi)
                    return ite(cond(*bi), fn(*vi), old(*bi))

                base.set_fn(new)
            out.setter = setter
        return out

    def copy(self):
        return SArr(self.dims, self.snap(), self.k)

    def astype(self, t):
        f = self.snap()
        if t is int or t == "int" or t is np.int64:
            if self.k == "i":
                out = SArr(self.dims, f, "i")
                out.tag = dict(self.tag)
                return out
            return SArr(self.dims, lambda *i: V.to_int(f(*i)), "i")
        if t is float or t is np.float64 or t == "float":
            return SArr(self.dims, lambda *i: V.to_real(f(*i)), "f")
        if t is bool or t == "bool":
            return SArr(self.dims, lambda *i: V.to_bool(f(*i)), "b")
        raise Unsupported(f"astype({t})")

    def __iter__(self):
        d = self.dims[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over a symbolic array")
        return iter([self[i] for i in range(d)])

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return bool(self.get(*[0] * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return float(self.get(*[0] * self.ndim))
        raise TypeError("only length-1 arrays can be converted")

    def item(self):
        if all(isinstance(d, int) and d == 1 for d in self.dims):
            return self.get(*[0] * self.ndim)
        raise ValueError("can only convert an array of size 1 to a scalar")

    def tolist(self):
        from pyvc.seqs import SSeq

        if self.ndim != 1:
            raise Unsupported("tolist of 2d array")
        if isinstance(self.dims[0], int):
            return [self.get(i) for i in range(self.dims[0])]
        f = self.snap()
        return SSeq(self.dims[0], lambda i: f(I(i)), tag=dict(self.tag))

    def as_bool_formula(self):
        f = self.snap()
        return V.Forall(list(self.dims), lambda *i: bterm(f(*i)))

    __hash__ = object.__hash__

    # ------------------------------------------------------------------ reshape
    def reshape(self, *shape, order="C"):
        """shares its data with this array: writes to either are rejected"""
        out = self._reshape(*shape, order=order)
        if out is not self:
            out.shared = True
            self._share()
        return out

    def _share(self):
        a = self
        while a is not None:
            a.shared = True
            a = a.base[0] if a.base is not None else None

    def _reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported(f"reshape in order {order}")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dnorm(s) if not isinstance(s, int) else s for s in shape]
        f = self.snap()
        # infer -1
        if any(isinstance(s, int) and s == -1 for s in shape):
            k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
            known = [s for i, s in enumerate(shape) if i != k]
            shape[k] = _quotient(self.dims, known, self.flat_src)
        else:
            if not _same_size(self.dims, shape, self.flat_src):
                raise ValueError("cannot reshape array")
        if self.flat_src is not None:
            src = self.flat_src
            if _dims_same(src.dims, shape):
                return src.copy()
            nsrc = [d for d in src.dims if not _is1(d)]
            nnew = [d for d in shape if not _is1(d)]
            if _dims_same(nsrc, nnew):
                return src._reshape(*shape)
        a = [(i, d) for i, d in enumerate(self.dims) if not _is1(d)]
        b = [(i, d) for i, d in enumerate(shape) if not _is1(d)]
        if len(a) == len(b) and all(deq(x[1], y[1]) for x, y in zip(a, b)):
            nd = self.ndim

            def fn(*idx):
                full = [z3.IntVal(0)] * nd
                for (i, _), (j, _) in zip(a, b):
                    full[i] = idx[j]
                return f(*full)

            out = SArr(shape, fn, self.k)
            out.flat_src = self.flat_src
            return out
        # merge into one dimension
        if len(b) == 1 and len(a) > 1:
            src = SArr(self.dims, f, self.k)
            out = SArr([shape[b[0][0]]], lambda i: f(*unravel_full(i, self.dims)), self.k)
            out.flat_src = src
            return out if len(shape) == 1 else out._reshape(*shape)
        if len(a) == 1 and len(b) >= 2:
            ax = a[0][0]
            nd = self.ndim

            def fn(*idx):
                lin = ravel([idx[j] for j, _ in b], [d for _, d in b])
                full = [z3.IntVal(0)] * nd
                full[ax] = lin
                return f(*full)

            return SArr(shape, fn, self.k)
        # split one dimension, the others stay (the sizes match, so the split is exact if the others are positive)
        tail = 0
        while tail < min(len(a), len(b)) and _dims_same([a[-1 - tail][1]], [b[-1 - tail][1]]):
            tail += 1
        if tail and len(a) - tail == 1 and len(b) - tail >= 2:
            ax, nd, head = a[0][0], self.ndim, b[: len(b) - tail]

            def fn(*idx):
                full = [z3.IntVal(0)] * nd
                full[ax] = ravel([idx[j] for j, _ in head], [d for _, d in head])
                for (i, _), (j, _) in zip(a[1:], b[len(b) - tail:]):
                    full[i] = idx[j]
                return f(*full)

            return SArr(shape, fn, self.k)
        raise Unsupported(f"reshape {self.dims} -> {shape}")

    def flatten(self, order="C"):
        if self.ndim == 1:
            return self.copy()
        nontriv = [d for d in self.dims if not _is1(d)]
        if len(nontriv) <= 1:
            return self._reshape(nontriv[0] if nontriv else 1)
        total = 1
        for d in self.dims:
            total = total * Num(dterm(d), True)
        f = self.snap()
        src = SArr(self.dims, f, self.k)
        out = SArr([total.v], lambda i: f(*unravel_full(i, self.dims)), self.k)
        out.flat_src = src
        return out

    def ravel(self, order="C"):
        out = self.flatten(order)
        out.shared = True
        self._share()
        return out

    # ------------------------------------------------------------------ reductions
    def sum(self, axis=None, keepdims=False, dtype=None):
        return reduce_(self, "sum", axis)

    def mean(self, axis=None):
        return mean(self, axis)

    def min(self, axis=None):
        return reduce_(self, "min", axis)

    def max(self, axis=None):
        return reduce_(self, "max", axis)

    def clip(self, min=None, max=None):
        return _np_fn("clip")(self, min, max)

    def dot(self, o):
        return matmul(self, o)

    def var(self, axis=None, ddof=0):
        return _np_fn("var")(self, ddof=ddof, axis=axis)

    def repeat(self, repeats, axis=None):
        return _np_fn("repeat")(self, repeats, axis)

    def nonzero(self):
        return _np_fn("where")(self)

    def argsort(self, axis=-1):
        return _np_fn("argsort")(self)

    def fill(self, v):
        self[...] = v

    def any(self, axis=None):
        return reduce_(self, "any", axis)

    def all(self, axis=None):
        return reduce_(self, "all", axis)

    def argmin(self, axis=None):
        return arg_extreme(self, "min")

    def argmax(self, axis=None):
        return arg_extreme(self, "max")

    # ------------------------------------------------------------------ operators
    def _bin(self, f, o, r=False):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            if isinstance(o, (list, tuple)):
                o = to_sarr(o)
            else:
                raise TypeError(f"unsupported operand type(s): array and {type(o).__name__}")
        return elementwise(f, o, self) if r else elementwise(f, self, o)

    def __add__(self, o):
        return self._bin(V.x_add, o)

    def __radd__(self, o):
        return self._bin(V.x_add, o, True)

    def __sub__(self, o):
        return self._bin(V.x_sub, o)

    def __rsub__(self, o):
        return self._bin(V.x_sub, o, True)

    def __mul__(self, o):
        return self._bin(V.x_mul, o)

    def __rmul__(self, o):
        return self._bin(V.x_mul, o, True)

    def __truediv__(self, o):
        return self._bin(V.x_div, o)

    def __rtruediv__(self, o):
        return self._bin(V.x_div, o, True)

    def __floordiv__(self, o):
        return self._bin(V.x_floordiv, o)

    def __mod__(self, o):
        return self._bin(V.x_mod, o)

    def __pow__(self, o):
        return self._bin(V.x_pow, o)

    def __rpow__(self, o):
        return self._bin(V.x_pow, o, True)

    def __neg__(self):
        return elementwise1(V.x_neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise1(V.x_abs, self)

    def __lt__(self, o):
        return self._bin(V.x_lt, o)

    def __le__(self, o):
        return self._bin(V.x_le, o)

    def __gt__(self, o):
        return self._bin(lambda a, b: V.x_lt(b, a), o)

    def __ge__(self, o):
        return self._bin(lambda a, b: V.x_le(b, a), o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(V.x_eq, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(lambda a, b: V.bnot(V.x_eq(a, b)), o)

    def __and__(self, o):
        return elementwise(lambda a, b: band(V.to_bool(a), V.to_bool(b)), self, o, raw=True)

    __rand__ = __and__

    def __or__(self, o):
        return elementwise(lambda a, b: bor(V.to_bool(a), V.to_bool(b)), self, o, raw=True)

    __ror__ = __or__

    def __invert__(self):
        return elementwise1(lambda a: V.bnot(V.to_bool(a)), self, raw=True)

    def _inplace(self, res):
        if len(res.dims) != len(self.dims) or not all(
                deq(a, b) for a, b in zip(res.dims, self.dims)):
            raise ValueError("non-broadcastable output operand")
        if self.k == "i" and res.k == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self.set_fn(res.snap())
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # ------------------------------------------------------------------ indexing
    def __getitem__(self, key):
        from pyvc import indexing

        return indexing.getitem(self, key)

    def __setitem__(self, key, val):
        from pyvc import indexing

        indexing.setitem(self, key, val)

    def __repr__(self):
        return f"SArr({self.dims}, {self.k})"


class ArrWrite:
    """journal entry"""

    def __init__(self, arr, old, new):
        self.obj, self.old, self.new = arr, old, new

    def undo(self):
        self.obj._fn, self.obj.version = self.old


def _is1(d):
    return isinstance(d, int) and d == 1


def _dims_same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif not z3.is_true(z3.simplify(dterm(x) == dterm(y))):
            if not cur().provable(dterm(x) == dterm(y)):
                return False
    return True


def _factors(dims):
    out = []
    for d in dims:
        if isinstance(d, int):
            if d != 1:
                out.append(d)
        elif z3.is_mul(d):
            out.extend(_factors([dnorm(c) for c in d.children()]))
        else:
            out.append(d)
    return out


def _quotient(dims, known, flat_src):
    fs = _factors(flat_src.dims if flat_src is not None else dims)
    for k in _factors(known):
        for i, f in enumerate(fs):
            if (isinstance(f, int) and isinstance(k, int) and f == k) or (
                    not isinstance(f, int) and not isinstance(k, int)
                    and z3.is_true(z3.simplify(f == k))):
                del fs[i]
                break
        else:
            for i, f in enumerate(fs):
                if cur().provable(dterm(f) == dterm(k)):
                    del fs[i]
                    break
            else:
                raise Unsupported(f"reshape of size {dims} with known {known}")
    if not fs:
        return 1
    out = dterm(fs[0])
    for f in fs[1:]:
        out = out * dterm(f)
    return dnorm(out)


def _same_size(dims, shape, flat_src):
    a = [d for d in dims if not _is1(d)]
    b = [d for d in shape if not _is1(d)]
    if len(a) == len(b) and all(z3.is_true(simp(dterm(x) == dterm(y))) for x, y in zip(a, b)):
        return True
    if flat_src is not None and _dims_same([d for d in flat_src.dims if not _is1(d)], b):
        return True
    pa, pb = z3.IntVal(1), z3.IntVal(1)
    for d in a:
        pa = pa * dterm(d)
    for d in b:
        pb = pb * dterm(d)
    if cur().provable(pa == pb):
        return True
    return cur().branch(pa == pb)


def ravel(idx, dims):
    lin = I(idx[0])
    for i, d in zip(idx[1:], dims[1:]):
        lin = lin * dterm(d) + I(i)
    return lin


def unravel_full(i, dims):
    """index tuple of a flat index (only meaningful through flat_src or for reading)"""
    nontriv = [d for d in dims if not _is1(d)]
    out = []
    rest = I(i)
    for k, d in enumerate(dims):
        if _is1(d):
            out.append(z3.IntVal(0))
            continue
        tail = 1
        for e in dims[k + 1:]:
            tail = tail * (e if isinstance(e, int) else Num(e, True))
        t = tail if isinstance(tail, int) else tail.v
        t = z3.IntVal(t) if isinstance(t, int) else t
        out.append(rest / t)
        rest = rest % t
    return out


# --------------------------------------------------------------------------- conversion
def to_sarr(x):
    from pyvc.seqs import SSeq

    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple, SSeq)):
        return from_list(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            v = num(x.item())
            return SArr((), lambda: v, "f")
        k = {"f": "f", "i": "i", "u": "i", "b": "b"}[x.dtype.kind]
        xc = x.copy()

        def fn(*idx):
            vals = [simp(I(t)) for t in idx]
            if all(z3.is_int_value(t) for t in vals):
                e = xc[tuple(t.as_long() for t in vals)]
                return bool(e) if k == "b" else num(e)
            out = None
            for pos in itertools.product(*[range(n) for n in xc.shape]):
                e = xc[pos]
                e = bool(e) if k == "b" else num(e)
                if out is None:
                    out = e
                    continue
                c = mkb(z3.And([t == p for t, p in zip(vals, pos)]))
                out = ite(c, e, out)
            return out if out is not None else num(0)

        if xc.size > 1 and (xc == xc.flat[0]).all():
            e0 = xc.flat[0]
            e0 = bool(e0) if k == "b" else num(e0)
            return SArr(x.shape, lambda *i: e0, k)
        return SArr(x.shape, fn, k)
    v = num(x) if not isinstance(x, (SB, bool)) else x
    if v is NotImplemented:
        raise Unsupported(f"array from {type(x)}")
    return SArr((), lambda: v, "b" if isinstance(v, (SB, bool)) else ("i" if v.isint else "f"))


def kind_of(v):
    if isinstance(v, (bool, SB, np.bool_)):
        return "b"
    n = num(v)
    if n is NotImplemented:
        raise Unsupported(f"element of type {type(v)}")
    return "i" if n.isint else "f"


def from_list(xs):
    """np.array(list)"""
    from pyvc.seqs import SSeq

    if isinstance(xs, SSeq) or getattr(xs, "sym", None) is not None:
        seq = xs if isinstance(xs, SSeq) else xs.sym
        seq = seq.as_seq()
        n = seq.n
        probe = seq.generic()
        if isinstance(probe, SArr):
            inner = probe.dims

            def fn(i, *rest):
                return seq.item(i).get(*rest)

            out = SArr((n,) + tuple(inner), fn, probe.k)
            return out
        k = kind_of(probe)
        out = SArr((n,), lambda i: seq.item(i), k)
        out.tag = dict(seq.tag)
        return out
    xs = list(xs)
    if not any(V.is_sym(x) or isinstance(x, (list, tuple)) for x in xs):
        return to_sarr(np.array(xs))
    items = [to_sarr(x) if isinstance(x, (SArr, np.ndarray, list, tuple)) else x for x in xs]
    if all(isinstance(x, SArr) for x in items) and items:
        d0 = items[0].dims
        for x in items[1:]:
            if not (len(x.dims) == len(d0) and all(deq(a, b) for a, b in zip(x.dims, d0))):
                raise ValueError("inhomogeneous shape")
        fs = [x.snap() for x in items]
        k = "f" if any(x.k == "f" for x in items) else items[0].k

        def fn(i, *rest):
            i = simp(I(i))
            if z3.is_int_value(i):
                return fs[i.as_long()](*rest)
            out = fs[0](*rest)
            for j in range(1, len(fs)):
                out = ite(mkb(i == j), fs[j](*rest), out)
            return out

        return SArr((len(items),) + d0, fn, k)
    k = "f" if any(kind_of(x) == "f" for x in items) else (
        "b" if items and all(kind_of(x) == "b" for x in items) else "i")
    vals = [x if k == "b" else num(x) for x in items]

    def fn1(i):
        i = simp(I(i))
        if z3.is_int_value(i):
            return vals[i.as_long()]
        out = vals[0]
        for j in range(1, len(vals)):
            out = ite(mkb(i == j), vals[j], out)
        return out

    return SArr((len(vals),), fn1, k)


# --------------------------------------------------------------------------- elementwise
def broadcast_dims(*dimss):
    nd = max(len(d) for d in dimss)
    out = []
    for k in range(nd):
        cand = 1
        for d in dimss:
            j = k - (nd - len(d))
            if j < 0 or _is1(d[j]):
                continue
            if _is1(cand):
                cand = d[j]
            elif deq(cand, d[j]):
                pass
            else:
                # one of the symbolic dimensions could be one
                for x, y in ((cand, d[j]), (d[j], cand)):
                    if not isinstance(x, int) and cur().branch(dterm(x) == 1):
                        raise Unsupported("broadcast over a symbolic dimension equal to one")
                raise ValueError("operands could not be broadcast together")
        out.append(cand)
    return tuple(out)


def bindex(arr_dims, nd, idx):
    """index of an operand for a broadcast result index"""
    off = nd - len(arr_dims)
    return [z3.IntVal(0) if _is1(d) else idx[off + k] for k, d in enumerate(arr_dims)]


def elementwise(f, a, b, raw=False):
    a, b = to_sarr(a), to_sarr(b)
    dims = broadcast_dims(a.dims, b.dims)
    nd = len(dims)
    fa, fb = a.snap(), b.snap()
    da, db = a.dims, b.dims
    if f is V.x_div and not raw and nd and b.k == "f" and not cur().rounding and _nonzero(fb, db):
        f = _div_nonzero

    def fn(*idx):
        x = fa(*bindex(da, nd, idx))
        y = fb(*bindex(db, nd, idx))
        if not raw:
            x, y = num(x), num(y)
        return f(x, y)

    if nd == 0:
        return fn()
    out = SArr(dims, fn, "f")
    out.k = _probe_kind(f, a.k, b.k)
    return out


def _nonzero(fb, dims):
    """no element of a divisor is zero, decided once for all elements"""
    c = cur()
    tv = [z3.Int(c.name("dz_")) for _ in dims]
    y = num(_eval_body(fb, tv))
    if not V.fin(y) or V._isconst(z3.simplify(V.real(y))):
        return False
    rng = [z3.And(t >= 0, t < dterm(d)) for t, d in zip(tv, dims)]
    c.skolems.extend(tv)
    return c.provable(z3.Implies(z3.And(rng + [z3.BoolVal(True)]), V.real(y) != 0))


def _div_nonzero(x, y):
    if V.fin(x) and V.fin(y):
        return Num(V.real(x) / V.real(y), False)
    return V.x_div(x, y)


def _probe_kind(f, ka, kb):
    mkv = {"f": lambda: Num(z3.Real("probe_x"), False), "i": lambda: Num(z3.Int("probe_i"), True),
           "b": lambda: SB(z3.Bool("probe_b"))}
    if f in (V.x_lt, V.x_le, V.x_eq):
        return "b"
    if f in (V.x_add, V.x_sub, V.x_mul, V.np_max, V.np_min):
        return "f" if "f" in (ka, kb) else "i"
    if f in (V.x_div, _div_nonzero):
        return "f"
    if f in (V.x_pow,):
        return "f" if "f" in (ka, kb) else "i"
    try:
        r = f(num(mkv[ka]()) if ka != "b" else mkv[ka](), num(mkv[kb]()) if kb != "b" else mkv[kb]())
        return kind_of(r)
    except Exception:
        return "f"


def elementwise1(f, a, raw=False, k=None):
    a = to_sarr(a)
    fa = a.snap()
    if a.ndim == 0:
        return f(fa() if raw else num(fa()))
    out = SArr(a.dims, lambda *i: f(fa(*i) if raw else num(fa(*i))), k or a.k)
    return out


def where(c, a, b):
    c, a, b = to_sarr(c), to_sarr(a), to_sarr(b)
    dims = broadcast_dims(c.dims, a.dims, b.dims)
    nd = len(dims)
    fc, fa, fb = c.snap(), a.snap(), b.snap()
    k = "f" if "f" in (a.k, b.k) else ("b" if a.k == b.k == "b" else "i")

    def fn(*idx):
        cc = V.to_bool(fc(*bindex(c.dims, nd, idx)))
        x, y = fa(*bindex(a.dims, nd, idx)), fb(*bindex(b.dims, nd, idx))
        if k == "b":
            return ite(cc, x, y)
        return ite(cc, num(x), num(y))

    if nd == 0:
        return fn()
    return SArr(dims, fn, k)


# --------------------------------------------------------------------------- reductions
def _formals(n):
    c = cur()
    return [z3.Int(c.name("p_")) for _ in range(n)]


def _eval_body(fn, formals):
    """evaluate an element function at formal indices (registered as template variables so
    that everything created on the way depends on them)"""
    c = cur()
    c.tvars = c.tvars + list(formals)
    try:
        return fn(*formals)
    finally:
        c.tvars = c.tvars[:len(c.tvars) - len(formals)]


def make_reduction(op, n, body, nparams, isbool=False):
    """Reduction over index b in [0,n) of body(params..., b) as an uninterpreted function of
    the parameters; returns fn(*params) -> Num | SB."""
    c = cur()
    formals = _formals(nparams)
    b = _formals(1)[0]
    val = _eval_body(body, formals + [b])
    outer = list(c.tvars)
    allp = outer + formals
    nt = dterm(n)
    # the bound may depend on the parameters too
    from pyvc import sums

    def subst(t, args, bt=None):
        m = list(zip(allp, args))
        if bt is not None:
            m.append((b, bt))
        return z3.substitute(t, *m) if m else t

    def app(f, params):
        args = outer + [I(p) for p in params]
        return f(*args) if args else f

    isorts = [z3.IntSort()] * len(allp)
    nm = c.name(op.upper() + "_")
    if op == "sum":
        v = val.num() if isinstance(val, SB) else num(val)
        if not V.fin(v):
            return _sum_extended(c, nm, v, nt, allp, b, outer, isorts, subst)
        isint = v.isint
        rsort = z3.IntSort() if isint and z3.is_int(v.v) else z3.RealSort()
        f = z3.Function(nm, *isorts, rsort) if allp else z3.Const(nm, rsort)
        isbool = isbool or isinstance(val, SB)
        sums.register(c, nm, allp, b, nt, v.v, rsort, count=isbool)
        nonneg = z3.is_app(v.v) and isbool

        def lem(args):
            s = f(*args) if allp else f
            out = []
            n_ = subst(nt, args)
            out.append(z3.Implies(n_ <= 0, s == 0))
            if c.__dict__.get("sum_signs") and not isbool:
                # a sum is negative (positive) only if some term is
                wn, wp = [z3.Function(nm + g, *isorts, z3.IntSort())(*args) if allp else z3.Int(nm + g) for g in ("wn", "wp")]
                at = lambda t: subst(v.v, args, t)
                neg, pos = z3.And(wn >= 0, wn < n_, at(wn) < 0), z3.And(wp >= 0, wp < n_, at(wp) > 0)
                out += [z3.Implies(s < 0, neg), z3.Implies(s > 0, pos)]
                out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, at(t) > 0), z3.Or(s > 0, neg))))
                out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, at(t) < 0), z3.Or(s < 0, pos))))
            if isbool:
                out.append(s >= 0)
                out.append(z3.Implies(n_ >= 0, s <= n_))
                w = z3.Function(nm + "w", *isorts, z3.IntSort())(*args) if allp else z3.Int(nm + "w")
                out.append(z3.Implies(s > 0, z3.And(w >= 0, w < n_, subst(v.v, args, w) > 0)))
                w2 = z3.Function(nm + "w2", *isorts, z3.IntSort())(*args) if allp else z3.Int(nm + "w2")
                out.append(z3.Implies(z3.And(s < n_, n_ >= 0),
                                      z3.And(w2 >= 0, w2 < n_, subst(v.v, args, w2) == 0)))
                out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, subst(v.v, args, t) > 0), s > 0)))
                out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, subst(v.v, args, t) == 0), s < n_)))
            return out

        _reg(c, nm, lem, allp)
        return lambda *params: Num(app(f, params), isint)
    if op in ("min", "max"):
        v = num(val)
        if c.provable(nt > 0):
            pass
        elif c.branch(nt > 0) is False:
            raise ValueError("zero-size array to reduction operation")
        return _extreme(c, nm, op, v, nt, allp, b, outer, isorts, subst)
    if op in ("any", "all"):
        t0 = bterm(V.to_bool(val))
        if op == "all":
            t0 = z3.Not(t0)
        f = z3.Function(nm, *isorts, z3.BoolSort()) if allp else z3.Bool(nm)
        w = z3.Function(nm + "w", *isorts, z3.IntSort()) if allp else None

        def lem(args):
            s = f(*args) if allp else f
            n_ = subst(nt, args)
            wt = w(*args) if allp else z3.Int(nm + "w")
            return [z3.Implies(s, z3.And(wt >= 0, wt < n_, subst(t0, args, wt))),
                    (1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, subst(t0, args, t)), s))]

        _reg(c, nm, lem, allp)
        if op == "all":
            return lambda *params: mkb(z3.Not(app(f, params)))
        return lambda *params: mkb(app(f, params))
    raise Unsupported(op)


def _reg(c, nm, lem, allp):
    if allp:
        c.lemma(nm, lem)
    else:
        # constants: add the facts right away
        for x in lem([]):
            if isinstance(x, tuple):
                c.add_schema(*x)
            else:
                c.add_fact(x)


def _sum_extended(c, nm, v, nt, allp, b, outer, isorts, subst):
    """sum of possibly infinite values: finite iff all entries are finite; the sign of an
    infinite result is known when all infinite entries agree."""
    # the value of a finite sum is the plain sum of the values; equal kind patterns share
    # one kind function
    from pyvc import sums

    fv = z3.Function(nm, *isorts, z3.RealSort()) if allp else z3.Real(nm)
    sums.register(c, nm, allp, b, nt, V.real(v), z3.RealSort())
    canon = [z3.Int(f"canon!{i}") for i in range(len(allp) + 1)]
    kkey = z3.simplify(z3.substitute(V.kterm(v.kind), *zip(list(allp) + [b], canon)))
    nkey = z3.simplify(z3.substitute(nt, *zip(list(allp) + [b], canon)))
    cache = c.__dict__.setdefault("ext_sum_cache", {})
    key = (kkey.get_id(), nkey.get_id(), len(allp))
    if key in cache and cache[key][3] == c.n_paths:
        fk = cache[key][0]
        if allp:
            return lambda *params: V.mk(fk(*(outer + [I(p) for p in params])), fv(*(outer + [I(p) for p in params])))
        return lambda: V.mk(fk, fv)
    fk = z3.Function(nm + "k", *isorts, z3.IntSort()) if allp else z3.Int(nm + "k")
    cache[key] = (fk, kkey, nkey, c.n_paths)  # the terms are kept so that their ids stay valid
    kt = V.kterm(v.kind)

    def wit(tag, args):
        return z3.Function(nm + tag, *isorts, z3.IntSort())(*args) if allp else z3.Int(nm + tag)

    def lem(args):
        k = fk(*args) if allp else fk
        n_ = subst(nt, args)
        kk = lambda t: subst(kt, args, t)
        out = [z3.And(k >= 0, k <= 3)]
        inr = lambda t: z3.And(t >= 0, t < n_)
        w1, w2, w3 = wit("w1", args), wit("w2", args), wit("w3", args)
        # finite -> every entry finite; not finite -> some entry not finite
        out.append((1, lambda t: z3.Implies(z3.And(k == V.FIN, inr(t)), kk(t) == V.FIN)))
        out.append(z3.Implies(k != V.FIN, z3.And(inr(w1), kk(w1) != V.FIN)))
        # +inf: some +inf, no -inf/nan
        out.append(z3.Implies(k == V.PINF, z3.And(inr(w2), kk(w2) == V.PINF)))
        out.append((1, lambda t: z3.Implies(z3.And(k == V.PINF, inr(t)),
                                            z3.Or(kk(t) == V.FIN, kk(t) == V.PINF))))
        out.append(z3.Implies(k == V.NINF, z3.And(inr(w2), kk(w2) == V.NINF)))
        out.append((1, lambda t: z3.Implies(z3.And(k == V.NINF, inr(t)),
                                            z3.Or(kk(t) == V.FIN, kk(t) == V.NINF))))
        # nan: a nan entry or infinities of both signs
        out.append(z3.Implies(k == V.NAN, z3.Or(
            z3.And(inr(w3), kk(w3) == V.NAN),
            z3.And(inr(w2), kk(w2) == V.PINF, inr(w3), kk(w3) == V.NINF))))
        return out

    if allp:
        c.lemma(nm + "k", lem)
        g = lambda *params: V.mk(fk(*(outer + [I(p) for p in params])), fv(*(outer + [I(p) for p in params])))
        return g
    for x in lem([]):
        if isinstance(x, tuple):
            c.add_schema(*x)
        else:
            c.add_fact(x)
    return lambda: V.mk(fk, fv)


def _extreme(c, nm, op, v, nt, allp, b, outer, isorts, subst, guard=None, initial=None):
    """min / max over possibly infinite (not nan) values."""
    isint = v.isint
    rsort = z3.IntSort() if z3.is_int(v.v) and initial is None else z3.RealSort()
    vv = v.v if rsort == v.v.sort() else V.real(v)
    f = z3.Function(nm, *isorts, rsort) if allp else z3.Const(nm, rsort)
    simple = V.fin(v)
    fk = None
    if not simple:
        fk = z3.Function(nm + "k", *isorts, z3.IntSort()) if allp else z3.Int(nm + "k")
    w = z3.Function(nm + "w", *isorts, z3.IntSort()) if allp else None
    kt = V.kterm(v.kind)
    gt = z3.BoolVal(True) if guard is None else guard
    if not simple:
        q = Num(b, True)
        # nan entries are outside the supported domain
        tv = list(allp) + [b]
        if not c.provable(V.Forall([dterm(10 ** 9)] * 0 or [nt],
                                   lambda t: z3.Implies(z3.substitute(gt, (b, t)),
                                                        z3.substitute(kt, (b, t)) != V.NAN))
                          if not allp else z3.BoolVal(False)):
            if allp:
                # parameters are universally quantified as well
                def allq(*ts):
                    m = list(zip(tv, ts))
                    return z3.substitute(z3.Implies(gt, kt != V.NAN), *m)
                ok = c.provable(_ForallRaw(len(tv), allq, [(0, None)] * len(allp) + [(0, nt)], tv))
                if not ok:
                    raise Unsupported("min/max over values that may be nan")
            else:
                raise Unsupported("min/max over values that may be nan")

    def val_at(args, t):
        return Num(subst(vv, args, t), isint, FINK(subst(kt, args, t)) if not simple else V.FIN)

    def res(args):
        return Num(f(*args) if allp else f, isint and rsort == z3.IntSort(),
                   V.FIN if simple else (fk(*args) if allp else fk))

    cmp = (lambda m, x: bterm(V.x_le(m, x))) if op == "min" else (lambda m, x: bterm(V.x_le(x, m)))

    def lem(args):
        m = res(args)
        n_ = subst(nt, args)
        wt = w(*args) if allp else z3.Int(nm + "w")
        out = []
        if not simple:
            k = fk(*args) if allp else fk
            out.append(z3.And(k >= 0, k <= 2))
        g = lambda t: subst(gt, args, t)
        hit = z3.And(wt >= 0, wt < n_, g(wt), bterm(V.same(m, val_at(args, wt))))
        if initial is None:
            out.append(z3.Implies(n_ > 0, hit))
        else:
            ini = num(initial)
            out.append(z3.Or(hit, bterm(V.same(m, ini))))
            out.append(cmp(m, ini))
        out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_, g(t)), cmp(m, val_at(args, t)))))
        return out

    _reg(c, nm, lem, allp)
    if allp and not simple:
        c.lemma(nm + "k", lem)
    return lambda *params: res(outer + [I(p) for p in params])


def FINK(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


class _ForallRaw(V.Forall):
    """Forall with explicit variables (parameters unbounded)"""

    def __init__(self, nvars, fn, ranges, tv):
        big = z3.IntVal(10 ** 12)
        self.nvars = nvars
        self.fn = fn
        self.dims = []
        for (lo, hi), t in zip(ranges, tv):
            self.dims.append(big if hi is None else hi)


def reduce_(a, op, axis=None):
    a = to_sarr(a)
    isb = a.k == "b"
    if a.ndim == 0:
        return a.get()
    if axis is not None and axis < 0:
        axis += a.ndim
    f = a.snap()
    if axis is None:
        # reduce all axes, last first
        out = a
        if op == "mean":
            raise Unsupported("mean all")
        for _ in range(a.ndim - 1):
            out = reduce_(out, op, out.ndim - 1)
        return reduce_(out, op, 0) if out.ndim == 1 and a.ndim > 1 else _reduce1(out, op, isb)
    n = a.dims[axis]
    rest = [d for k, d in enumerate(a.dims) if k != axis]
    if a.ndim == 1:
        return _reduce1(a, op, isb)

    def body(*pb):
        ps, b = list(pb[:-1]), pb[-1]
        ps.insert(axis, b)
        return f(*ps)

    if isinstance(n, int) and n <= 6:
        def fn(*idx):
            vals = []
            for b in range(n):
                ps = list(idx)
                ps.insert(axis, z3.IntVal(b))
                vals.append(f(*ps))
            return fold(op, vals)

        if n == 0 and op in ("min", "max"):
            raise ValueError("zero-size array")
        return SArr(rest, fn, _rk(op, a.k))
    g = make_reduction(op, n, body, len(rest), isbool=isb)
    return SArr(rest, lambda *idx: g(*idx), _rk(op, a.k))


def _rk(op, k):
    if op in ("any", "all"):
        return "b"
    if op == "sum":
        return "i" if k in ("i", "b") else "f"
    return k


def _reduce1(a, op, isb):
    n = a.dims[0]
    f = a.snap()
    if isinstance(n, int) and n <= 6:
        if n == 0 and op in ("min", "max"):
            raise ValueError("zero-size array to reduction operation")
        return fold(op, [f(z3.IntVal(b)) for b in range(n)])
    return make_reduction(op, n, f, 0, isbool=isb)()


def fold(op, vals):
    if op == "sum":
        out = num(0)
        for v in vals:
            out = out + (v.num() if isinstance(v, SB) else num(v))
        return out
    if op == "min":
        out = num(vals[0])
        for v in vals[1:]:
            out = V.np_min(out, v)
        return out
    if op == "max":
        out = num(vals[0])
        for v in vals[1:]:
            out = V.np_max(out, v)
        return out
    if op == "any":
        return bor(*[V.to_bool(v) for v in vals]) if vals else False
    if op == "all":
        return band(*[V.to_bool(v) for v in vals]) if vals else True
    raise Unsupported(op)


def mean(a, axis=None):
    a = to_sarr(a)
    if a.ndim == 0:
        return a.get()
    if axis is None:
        s = reduce_(a, "sum")
        n = a.size
    else:
        if axis < 0:
            axis += a.ndim
        s = reduce_(a, "sum", axis)
        d = a.dims[axis]
        n = d if isinstance(d, int) else Num(d, True)
    if isinstance(n, Num):
        n = V.to_real(n)
    if isinstance(s, (SArr, Num)):
        return s / n
    return num(s) / n


def masked_extreme(a, op, axis, mask, initial):
    """np.min/np.max(a, axis=axis, where=mask, initial=initial)"""
    a, mask = to_sarr(a), to_sarr(mask)
    c = cur()
    dims = a.dims
    rest = [d for k, d in enumerate(dims) if k != axis]
    fa, fm = a.snap(), mask.snap()

    def full(ps, b):
        ps = list(ps)
        ps.insert(axis, b)
        return ps

    formals = _formals(len(rest))
    b = _formals(1)[0]
    v = num(_eval_body(lambda *p: fa(*full(p[:-1], p[-1])), formals + [b]))
    g = bterm(V.to_bool(_eval_body(
        lambda *p: fm(*[z3.IntVal(0) if _is1(d) else x for d, x in zip(mask.dims, full(p[:-1], p[-1]))]),
        formals + [b])))
    # entries selected by the mask must be finite
    guard_fin = z3.Implies(g, V.kterm(v.kind) == V.FIN)
    if not V.fin(v):
        rng = [z3.And(p >= 0, p < dterm(d)) for p, d in zip(formals, rest)]
        rng.append(z3.And(b >= 0, b < dterm(dims[axis])))
        if not c.provable(z3.Implies(z3.And(rng), guard_fin)):
            raise Unsupported("masked reduction over non-finite entries")
        v = Num(V.real(v), False)
    outer = list(c.tvars)
    allp = outer + formals

    def subst(t, args, bt=None):
        m = list(zip(allp, args))
        if bt is not None:
            m.append((b, bt))
        return z3.substitute(t, *m) if m else t

    nm = c.name("M" + op.upper() + "_")
    r = _extreme(c, nm, op, v, dterm(dims[axis]), allp, b, outer, [z3.IntSort()] * len(allp), subst,
                 guard=g, initial=initial)
    return SArr(rest, lambda *idx: r(*idx), "f") if rest else r()


def arg_extreme(a, op):
    """np.argmin/np.argmax of a 1d array (first extreme index)."""
    a = to_sarr(a)
    c = cur()
    if a.ndim != 1:
        return arg_extreme_flat(a, op)
    n = a.dims[0]
    nt = dterm(n)
    if not c.branch(nt > 0):
        raise ValueError("attempt to get argmin of an empty sequence")
    f = a.snap()
    w = c.fresh("arg" + op, z3.IntSort())
    c.add_fact(z3.And(w >= 0, w < nt))
    m = num(f(w))
    if not V.fin(m):
        if not c.provable(V.Forall([nt], lambda t: V.bnot(V.isnan(f(t))))):
            raise Unsupported("argmin/argmax over values that may be nan")
    le = (lambda x, y: bterm(V.x_le(x, y))) if op == "min" else (lambda x, y: bterm(V.x_le(y, x)))
    lt = (lambda x, y: bterm(V.x_lt(x, y))) if op == "min" else (lambda x, y: bterm(V.x_lt(y, x)))
    if isinstance(n, int) and n <= 8 and not c.tvars:
        vals = [num(f(z3.IntVal(j))) for j in range(n)]
        for j in range(n):
            c.add_fact(z3.Implies(w == j, z3.And([le(vals[j], x) for x in vals] + [lt(vals[j], x) for x in vals[:j]])))
        if n <= 4:
            for j in range(n - 1):
                if c.branch(w == j):
                    return j
            return n - 1
        return Num(w, True)
    c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < nt), le(m, num(f(t)))))
    c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < w), lt(m, num(f(t)))))
    return Num(w, True)


class FlatArg:
    """Result of argmin over a 2d array; only np.unravel_index may consume it."""

    _vc_sym = True

    def __init__(self, idx, dims):
        self.idx, self.dims = idx, dims


def arg_extreme_flat(a, op):
    c = cur()
    f = a.snap()
    nts = [dterm(d) for d in a.dims]
    for nt in nts:
        if not c.branch(nt > 0):
            raise ValueError("attempt to get argmin of an empty sequence")
    ws = [c.fresh("arg" + op, z3.IntSort()) for _ in a.dims]
    for w, nt in zip(ws, nts):
        c.add_fact(z3.And(w >= 0, w < nt))
    m = num(f(*ws))
    if not V.fin(m) and not c.provable(V.Forall(nts, lambda *t: V.bnot(V.isnan(f(*t))))):
        raise Unsupported("argmin over values that may be nan")
    le = (lambda x, y: bterm(V.x_le(x, y))) if op == "min" else (lambda x, y: bterm(V.x_le(y, x)))
    c.add_schema(len(ws), lambda *t: z3.Implies(
        z3.And([z3.And(x >= 0, x < nt) for x, nt in zip(t, nts)]), le(m, num(f(*t)))))
    return FlatArg([Num(w, True) for w in ws], a.dims)


# --------------------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = to_sarr(a), to_sarr(b)
    fa, fb = a.snap(), b.snap()
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    if not deq(a.dims[-1], b.dims[-2] if b.ndim > 1 else b.dims[0]):
        raise ValueError("matmul: dimension mismatch")
    n = a.dims[-1]
    abatch, bbatch = a.dims[:-2], b.dims[:-2]
    ar = () if a.ndim == 1 else (a.dims[-2],)
    bc = () if b.ndim == 1 else (b.dims[-1],)
    if a.ndim <= 2 and b.ndim <= 2:
        batch = ()
    else:
        batch = broadcast_dims(abatch, bbatch) if abatch and bbatch else (abatch or bbatch)
    dims = tuple(batch) + ar + bc
    nb = len(batch)

    def body(*ps):
        k = ps[-1]
        bi = list(ps[:nb])
        rest = list(ps[nb:-1])
        i = [rest.pop(0)] if ar else []
        j = [rest.pop(0)] if bc else []
        ai = bindex(abatch, nb, bi) if abatch else []
        bbi = bindex(bbatch, nb, bi) if bbatch else []
        x = fa(*(ai + i + [k]))
        y = fb(*(bbi + ([k] + j)))
        return num(x) * num(y)

    if isinstance(n, int) and n <= cur().__dict__.get("unroll", 4):
        fn = lambda *idx: fold("sum", [body(*idx, z3.IntVal(k)) for k in range(n)])
    else:
        g = make_reduction("sum", n, body, len(dims))
        fn = lambda *idx: g(*idx)
    if not dims:
        return fn()
    return SArr(dims, fn, "f" if "f" in (a.k, b.k) else "i")
