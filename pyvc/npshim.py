"""Symbolic counterpart of the numpy functions the verified code uses.

A call with only concrete arguments goes to the real numpy.  Everything here is part of the
trusted base; tools/difftest.py compares each function with numpy on random inputs.
"""
import builtins
import itertools
import math

import numpy as real_np
import z3

from pyvc import arrays as A
from pyvc import core
from pyvc import values as V
from pyvc.arrays import (I, SArr, deq, dnorm, dterm, elementwise, elementwise1, is_arr,
                         make_reduction, reduce_, simp, to_sarr)
from pyvc.core import Unsupported, cur
from pyvc.seqs import SDict, SRange, SSeq, Union, force, from_concrete, merge, seq_of
from pyvc.values import Num, SB, ite, mkb, num


def symbolic(x, depth=0):
    if getattr(x, "_vc_sym", False):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(symbolic(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return any(symbolic(y, depth + 1) for y in x.values())
    return False


# ------------------------------------------------------------------ special functions
R = z3.RealSort()
EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
SQRT = z3.Function("SQRT", R, R)
LGAMMA = z3.Function("LGAMMA", R, R)
PPF = z3.Function("PPF", R, R)
PI = z3.Real("PI")


def _lemmas(c):
    if "EXP" in c.fun_reg:
        return
    c.lemma("EXP", lambda a: [EXP(a[0]) > 0, z3.Implies(a[0] <= 0, EXP(a[0]) <= 1),
                              z3.Implies(a[0] >= 0, EXP(a[0]) >= 1),
                              z3.Implies(a[0] < 0, EXP(a[0]) < 1),
                              z3.Implies(a[0] > 0, EXP(a[0]) > 1)])
    c.lemma("LOG", lambda a: [z3.Implies(z3.And(a[0] > 0, a[0] <= 1), LOG(a[0]) <= 0),
                              z3.Implies(a[0] >= 1, LOG(a[0]) >= 0),
                              z3.Implies(z3.And(a[0] > 0, a[0] < 1), LOG(a[0]) < 0),
                              z3.Implies(a[0] > 1, LOG(a[0]) > 0),
                              z3.Implies(a[0] > 0, EXP(LOG(a[0])) == a[0])])
    c.lemma("SQRT", lambda a: [z3.Implies(a[0] >= 0, z3.And(SQRT(a[0]) >= 0, SQRT(a[0]) * SQRT(a[0]) == a[0])),
                               z3.Implies(a[0] > 0, SQRT(a[0]) > 0)])
    c.add_fact(z3.And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))


def sym_exp(a):
    a = num(a)
    _lemmas(cur())
    if not V.fin(a):
        k = V.kterm(a.kind)
        kk = z3.If(k == V.NINF, V.FIN, k)
        return V.mk(kk, z3.If(k == V.NINF, V.RV(0), EXP(V.real(a))))
    p = _normal(V.real(a))
    if z3.is_app(p) and p.decl().name() == "LOG" and cur().provable(p.children()[0] > 0):
        return Num(p.children()[0], False)
    return Num(EXP(p), False)


def _normal(t):
    """polynomial normal form of a real term (so that equal arguments are identical)"""
    from pyvc import sums

    nz = sums._Norm(cur())
    p = nz.poly(z3.simplify(t))
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "t":
            return nz.atoms[m[0][0]]
    out = None
    for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
        f = z3.RealVal(f"{c.numerator}/{c.denominator}") if (c != 1 or not m) else None
        for k, e in m:
            for _ in range(e):
                kt = _keyterm(nz, k)
                f = kt if f is None else f * kt
        out = f if out is None else out + f
    return out if out is not None else z3.RealVal(0)


def _keyterm(nz, k):
    if k[0] == "t":
        return nz.atoms[k]
    if k[0] == "inv":
        return 1 / _keyterm(nz, k[1])
    if k[0] == "poly":
        return nz.term(nz.atoms[k])
    return nz.key_term(k)


def sym_log(a):
    a = num(a)
    c = cur()
    _lemmas(c)
    if not V.fin(a):
        if not c.provable(V.kis(a, V.FIN)):
            raise Unsupported("log of a possibly non-finite value")
    t = z3.simplify(V.real(a))
    if c.provable(t > 0):
        return Num(_log_term(t), False)
    if z3.is_false(z3.simplify(t > 0)):
        return V.mk(V.NINF if z3.is_true(z3.simplify(t == 0)) else V.NAN, V.RV(0))
    k = z3.If(t > 0, V.FIN, z3.If(t == 0, V.NINF, V.NAN))
    return V.mk(k, LOG(t))


def _log_term(t):
    """log of a positive term in normal form"""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "EXP":
        return t.children()[0]
    d = t.decl().kind()
    if z3.is_rational_value(t):
        from fractions import Fraction

        f = t.as_fraction()
        return _log_const(f)
    if d == z3.Z3_OP_MUL:
        ch = t.children()
        if all(cur().provable(x > 0) for x in ch):
            out = _log_term(ch[0])
            for x in ch[1:]:
                out = out + _log_term(x)
            return out
    if d == z3.Z3_OP_DIV:
        a, b = t.children()
        if cur().provable(z3.And(a > 0, b > 0)):
            return _log_term(a) - _log_term(b)
    return LOG(t)


def _log_const(f):
    out = z3.RealVal(0)
    for n, s in ((f.numerator, 1), (f.denominator, -1)):
        k = n
        for p in (2, 3, 5, 7):
            e = 0
            while k % p == 0 and k > 0:
                k //= p
                e += 1
            if e:
                out = out + s * e * LOG(z3.RealVal(p))
        if k != 1:
            out = out + s * LOG(z3.RealVal(k))
    return out


def sym_pow(a, b):
    c = cur()
    _lemmas(c)
    ra, rb = V.real(a), V.real(b)
    if z3.is_rational_value(simp(ra)) and z3.is_true(simp(ra > 0)):
        pass
    elif not c.provable(ra > 0):
        if c.provable(z3.And(ra >= 0, rb > 0)):
            return Num(z3.If(ra == 0, V.RV(0), EXP(_normal(rb * LOG(ra)))), False)
        raise Unsupported("power of a possibly negative base")
    lt = _log_term(simp(ra))
    p = _normal(rb * lt)
    if z3.is_app(p) and p.decl().name() == "LOG" and c.provable(p.children()[0] > 0):
        return Num(p.children()[0], False)
    return Num(EXP(p), False)


def log_equal(a, b):
    """positive terms are equal because their logarithms are (exact normal forms)"""
    la, lb = _log_term(V.real(num(a))), _log_term(V.real(num(b)))
    d = _normal(la - lb)
    return z3.is_rational_value(d) and d.as_fraction() == 0


def sym_sqrt(a):
    a = num(a)
    c = cur()
    _lemmas(c)
    t = V.real(a)
    if V.fin(a):
        if c.provable(t >= 0):
            return Num(SQRT(z3.simplify(t)), False)
        k = z3.If(t >= 0, V.FIN, V.NAN)
        return V.mk(k, SQRT(z3.simplify(t)))
    ka = V.kterm(a.kind)
    k = z3.If(ka == V.FIN, z3.If(t >= 0, V.FIN, V.NAN), z3.If(ka == V.PINF, V.PINF, V.NAN))
    return V.mk(k, SQRT(z3.simplify(t)))


def sqrt_array(x):
    """square roots of an array; roots of provably non-negative entries are known by their squares"""
    c = cur()
    f = x.snap()
    if x.ndim == 0 or all(isinstance(d, int) for d in x.dims):
        return None
    formals = A._formals(x.ndim)
    try:
        v = num(A._eval_body(lambda *i: f(*i), formals))
    except Unsupported:
        return None
    if not V.fin(v) or V._isconst(z3.simplify(V.real(v))):
        return None
    if not c.provable(V.Forall(list(x.dims), lambda *t: num(f(*t)) >= 0)):
        return None
    t = z3.simplify(V.real(v))
    outer = list(c.tvars)
    for nm, (fs, arg) in c.roots.items():
        if len(fs) == len(outer) + len(formals) and z3.eq(z3.simplify(z3.substitute(arg, *zip(fs, outer + formals))), t):
            g = z3.Function(nm, *[z3.IntSort()] * len(fs), R)
            return SArr(x.dims, lambda *i: Num(g(*outer, *[I(p) for p in i]), False), "f")
    _lemmas(c)
    allp = outer + formals
    nm = c.name("ROOT_")
    g = z3.Function(nm, *[z3.IntSort()] * len(allp), R)
    c.roots[nm] = (allp, t)

    def lem(args):
        r, a = g(*args), z3.substitute(t, *zip(allp, args))
        rng = [z3.And(q >= 0, q < dterm(d)) for q, d in zip(args[len(outer):], x.dims)]
        return [z3.Implies(z3.And(rng), z3.And(r >= 0, r * r == a, a >= 0, z3.Implies(a > 0, r > 0), r == SQRT(a)))]

    A._reg(c, nm, lem, allp)
    return SArr(x.dims, lambda *i: Num(g(*outer, *[I(p) for p in i]), False), "f")


def sym_loggamma(a):
    a = num(a)
    _lemmas(cur())
    return Num(LGAMMA(_normal(V.real(a))), False)


def sym_gamma(a):
    a = num(a)
    c = cur()
    _lemmas(c)
    if not c.provable(V.real(a) > 0):
        raise Unsupported("gamma of a possibly non-positive value")
    return Num(EXP(LGAMMA(_normal(V.real(a)))), False)


def map1(f, x, **kw):
    if is_arr(x) or isinstance(x, (list, tuple, SSeq)):
        return elementwise1(lambda v: f(v), to_sarr(x), **kw)
    return f(num(x) if not isinstance(x, (SB, bool)) else x)


def ceil_(a):
    a = num(a)
    if a.isint:
        return V.to_real(a)
    v = -z3.ToReal(z3.ToInt(-a.v))
    return V.mk(a.kind, v) if not V.fin(a) else Num(v, False)


def floor_(a):
    a = num(a)
    if a.isint:
        return V.to_real(a)
    v = z3.ToReal(z3.ToInt(a.v))
    return V.mk(a.kind, v) if not V.fin(a) else Num(v, False)


def sign_(a):
    a = num(a)
    if V.fin(a):
        return Num(z3.If(a.v > 0, 1, z3.If(a.v < 0, -1, 0)) if a.isint else
                   z3.If(a.v > 0, V.RV(1), z3.If(a.v < 0, V.RV(-1), V.RV(0))), a.isint)
    one, m = num(1.0), num(-1.0)
    return ite(V.isnan(a), num(float("nan")), ite(a > 0, one, ite(a < 0, m, num(0.0))))


# ------------------------------------------------------------------ shapes
def shape_tuple(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(dnorm(d) for d in shape)
    return (dnorm(shape),)


def const_array(shape, v, k):
    c = cur()
    sh = shape_tuple(shape)
    for d in sh:
        if isinstance(d, int):
            if d < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not c.provable(d >= 0):
            if not c.branch(d >= 0):
                raise ValueError("negative dimensions are not allowed")
    return SArr(sh, lambda *i: v, k)


def kdtype(dtype, default):
    if dtype is None:
        return default
    if dtype in (float, real_np.float64, "float", "float64") or dtype == real_np.dtype(float):
        return "f"
    if dtype in (int, real_np.int64, "int") or dtype == real_np.dtype(int):
        return "i"
    if dtype in (bool, real_np.bool_) or dtype == real_np.dtype(bool):
        return "b"
    raise Unsupported(f"dtype {dtype}")


def concat_axis(parts, axis):
    parts = [to_sarr(p) for p in parts]
    if len(parts) == 1:
        return parts[0].copy()
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        raise ValueError("all the input array dimensions must match")
    if axis < 0:
        axis += nd
    for k in range(nd):
        if k == axis:
            continue
        for p in parts[1:]:
            if not deq(p.dims[k], parts[0].dims[k]):
                raise ValueError("all the input array dimensions must match exactly")
    fs = [p.snap() for p in parts]
    offs = [z3.IntVal(0)]
    for p in parts:
        offs.append(simp(offs[-1] + dterm(p.dims[axis])))
    dims = list(parts[0].dims)
    dims[axis] = dnorm(offs[-1])
    kk = "f" if any(p.k == "f" for p in parts) else ("i" if any(p.k == "i" for p in parts) else "b")

    def fn(*idx):
        i = simp(I(idx[axis]))
        out = None
        for j in range(len(parts) - 1, -1, -1):
            if z3.is_int_value(i) and z3.is_int_value(offs[j]) and z3.is_int_value(offs[j + 1]):
                if not offs[j].as_long() <= i.as_long() < offs[j + 1].as_long():
                    continue
            ii = list(idx)
            ii[axis] = simp(i - offs[j])
            v = fs[j](*ii)
            if out is None:
                out = v
            else:
                out = ite(mkb(i < offs[j + 1]), v, out)
        return out

    out = SArr(dims, fn, kk)
    return out


def atleast_nd(x, n):
    if x is None:
        raise Unsupported("None array")
    x = to_sarr(x)
    if x.ndim >= n:
        return x
    if n == 1:
        v = x.get()
        return SArr((1,), lambda i: v, x.k)
    if x.ndim == 0:
        v = x.get()
        return SArr((1, 1), lambda i, j: v, x.k)
    # view, so that writes are shared as in numpy
    return x._view((1,) + x.dims, lambda i, j: [j], lambda j: [z3.IntVal(0), j])


# ------------------------------------------------------------------ linear algebra
def _rounded_norm(body, n, nparams, val, formals, b):
    """a computed Euclidean norm is only known to be at least every entry's absolute value"""
    c = cur()
    c.trusted["the computed Euclidean norm is at least every entry's absolute value"] = "numpy.linalg.norm, floating point"
    allp = list(c.tvars) + formals
    nm = c.name("NORMF_")
    f = z3.Function(nm, *[z3.IntSort()] * len(allp), R) if allp else z3.Real(nm)
    nt, vr, known = dterm(n), V.real(val), V.fin(val)

    def lem(args):
        N = f(*args) if allp else f
        m = list(zip(allp, args))

        def sub(t, bt=None):
            mm = m + ([(b, bt)] if bt is not None else [])
            return z3.substitute(t, *mm) if mm else t

        n_ = sub(nt)
        if not known:
            return [N >= 0]
        return [N >= 0, (1, lambda t: z3.Implies(z3.And(t >= 0, t < n_), z3.And(sub(vr, t) <= N, sub(vr, t) >= -N)))]

    A._reg(c, nm, lem, allp)
    outer = list(c.tvars)
    kind = V.FIN
    if not known:
        # of possibly infinite entries: nothing is known
        kind = z3.Int(c.name("NORMF_kind"))
    return lambda *p: V.mk(kind, f(*(outer + [I(x) for x in p])) if allp else f)


def norm_fn(body, n, nparams, pdims=None):
    """(params)->euclidean norm of body(params, .)"""
    c = cur()
    formals = A._formals(nparams)
    b = A._formals(1)[0]
    val = num(A._eval_body(body, formals + [b]))
    if c.rounding:
        return _rounded_norm(body, n, nparams, val, formals, b)
    if not V.fin(val):
        if pdims is None or not c.provable(V.Forall(list(pdims) + [n], lambda *t: V.isfinite(num(body(*[getattr(x, "v", x) for x in t]))))):
            raise Unsupported("norm of possibly non-finite entries")
        inner = body

        def body(*p):
            return Num(V.real(num(inner(*p))), False)

        val = num(A._eval_body(body, formals + [b]))
    s = make_reduction("sum", n, lambda *p: num(body(*p)) * num(body(*p)), nparams)
    outer = list(c.tvars)
    allp = outer + formals
    nm = c.name("NORM_")
    f = z3.Function(nm, *[z3.IntSort()] * len(allp), R) if allp else z3.Real(nm)
    nt = dterm(n)
    saved = c.tvars
    c.tvars = allp
    try:
        sv = V.real(num(s(*formals))) if nparams or True else None
    finally:
        c.tvars = saved
    # s(...) prepends the outer template variables itself
    sv = V.real(num(s(*formals)))

    def sub(t, args, bt=None):
        m = list(zip(allp, args))
        if bt is not None:
            m.append((b, bt))
        return z3.substitute(t, *m) if m else t

    vr = V.real(val)

    def lem(args):
        N = f(*args) if allp else f
        out = [N >= 0, N * N == sub(sv, args)]
        n_ = sub(nt, args)
        out.append((1, lambda t: z3.Implies(z3.And(t >= 0, t < n_),
                                            z3.And(sub(vr, args, t) <= N, sub(vr, args, t) >= -N))))
        return out

    A._reg(c, nm, lem, allp)
    if not allp:
        c.fun_reg.setdefault("__consts__", None)
    c.__dict__.setdefault("norm_info", {})[nm] = (allp, b, nt, vr)
    return lambda *params: Num(f(*(outer + [I(p) for p in params])) if allp else f, False)


def norm_(x, ord=None, axis=None):
    x = to_sarr(x)
    f = x.snap()
    if x.ndim == 0:
        return abs(num(x.get()))
    if axis is None and x.ndim == 2:
        if ord not in (None, "fro"):
            raise Unsupported("matrix norm")
        flat = [i for i in range(2) if not A._is1(x.dims[i])]
        if all(isinstance(d, int) for d in x.dims):
            s = num(0.0)
            for i in range(x.dims[0]):
                for j in range(x.dims[1]):
                    e = num(f(z3.IntVal(i), z3.IntVal(j)))
                    s = s + e * e
            return sym_sqrt(s)
        raise Unsupported("frobenius norm")
    if axis is None:
        axis = 0
    if axis < 0:
        axis += x.ndim
    if isinstance(ord, Num):
        raise Unsupported("symbolic norm order")
    rest = [d for k, d in enumerate(x.dims) if k != axis]

    def body(*p):
        ps = list(p[:-1])
        ps.insert(axis, p[-1])
        return f(*ps)

    n = x.dims[axis]
    if ord is not None and ord == real_np.inf:
        g = elementwise1(V.x_abs, SArr(x.dims, f, "f"))
        return reduce_(g, "max", axis)
    if ord is not None and ord not in (2, 2.0):
        if ord == 1:
            return reduce_(elementwise1(V.x_abs, SArr(x.dims, f, "f")), "sum", axis)
        raise Unsupported(f"norm of order {ord}")
    if isinstance(n, int) and n <= 6 and not cur().rounding:
        def fn(*idx):
            s = num(0.0)
            for b in range(n):
                e = num(body(*idx, z3.IntVal(b)))
                s = s + e * e
            return sym_sqrt(s)

        return SArr(rest, fn, "f") if rest else fn()
    g = norm_fn(body, n, len(rest), rest)
    return SArr(rest, lambda *i: g(*i), "f") if rest else g()


def pdist_squareform(x):
    """pairwise euclidean distances as a symmetric matrix"""
    x = to_sarr(x)
    f = x.snap()
    m, n = x.dims
    if isinstance(n, int) and n <= 6:
        def fn(i, j):
            s = num(0.0)
            for b in range(n):
                e = num(f(i, z3.IntVal(b))) - num(f(j, z3.IntVal(b)))
                s = s + e * e
            return sym_sqrt(s)
        return SArr((m, m), fn, "f")
    g = norm_fn(lambda i, j, b: num(f(i, b)) - num(f(j, b)), n, 2)
    return SArr((m, m), lambda i, j: g(i, j), "f")


class Linalg:
    LinAlgError = real_np.linalg.LinAlgError

    def __init__(self):
        self.hooks = {}

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not symbolic(x):
            return real_np.linalg.norm(x, ord=ord, axis=axis)
        return norm_(x, ord, axis)

    def det(self, a):
        if not symbolic(a):
            return real_np.linalg.det(a)
        a = to_sarr(a)
        if not isinstance(a.dims[0], int) or a.dims[0] > 3:
            c = cur()
            return Num(c.fresh("det", R), False)
        n = a.dims[0]
        f = a.snap()
        e = lambda i, j: num(f(z3.IntVal(i), z3.IntVal(j)))
        out = num(0)
        for p in itertools.permutations(range(n)):
            sgn = 1
            for i in range(n):
                for j in range(i + 1, n):
                    if p[i] > p[j]:
                        sgn = -sgn
            t = num(sgn)
            for i in range(n):
                t = t * e(i, p[i])
            out = out + t
        return out

    def lstsq(self, a, b, rcond=None):
        if not symbolic(a) and not symbolic(b):
            return real_np.linalg.lstsq(a, b, rcond=rcond)
        a, b = to_sarr(a), to_sarr(b)
        if a.ndim != 2 or not deq(a.dims[0], b.dims[0]):
            raise real_np.linalg.LinAlgError("Incompatible dimensions")
        c = cur()
        c.trusted["numpy.linalg.lstsq"] = "returns a minimiser of the sum of squared residuals"
        log = c.__dict__.setdefault("lstsq_calls", [])
        if b.ndim == 1:
            f, nm = c.fresh_fun("lstsq", z3.IntSort(), R)
            out = SArr((a.dims[1],), lambda i: Num(f(i), False), "f")
        else:
            f, nm = c.fresh_fun("lstsq", z3.IntSort(), z3.IntSort(), R)
            out = SArr((a.dims[1], b.dims[1]), lambda i, j: Num(f(i, j), False), "f")
        log.append((SArr(a.dims, a.snap(), "f"), SArr(b.dims, b.snap(), "f"), out))
        return out, None, None, None

    def pinv(self, a):
        if not symbolic(a):
            return real_np.linalg.pinv(a)
        a = to_sarr(a)
        c = cur()
        f, nm = c.fresh_fun("pinv", z3.IntSort(), z3.IntSort(), R)
        return SArr((a.dims[1], a.dims[0]), lambda i, j: Num(f(i, j), False), "f")

    def inv(self, a):
        return self.pinv(a)


class Random:
    Generator = real_np.random.Generator

    def default_rng(self, seed=None):
        if symbolic(seed):
            raise Unsupported("symbolic seed")
        if seed is None and core.active():
            global_random("default_rng without a seed")
        return real_np.random.default_rng(seed)

    def __getattr__(self, name):
        v = getattr(real_np.random, name)
        if not core.active() or isinstance(v, type) and name != "RandomState":
            return v

        def f(*a, **kw):
            if name == "RandomState" and (a or kw) and not symbolic(a) and not symbolic(kw):
                return v(*a, **kw)
            global_random(f"np.random.{name}")
        return f


def global_random(what):
    """a use of random state that is not passed in"""
    c = cur()
    name = getattr(c, "global_random", None)
    if name is None:
        raise Unsupported(f"{what}: global random state")
    c.check(name, False)
    c.obligations[-1].detail = what
    raise core.PathEnd()


class NP:
    """the object the verified modules see as `np`"""

    def __init__(self):
        self.linalg = Linalg()
        self.random = Random()
        self._cache = {}

    pi_term = PI
    inf = real_np.inf
    Inf = real_np.inf
    nan = real_np.nan
    pi = real_np.pi
    newaxis = None
    ndarray = real_np.ndarray
    float64 = real_np.float64
    integer = real_np.integer
    floating = real_np.floating
    int64 = real_np.int64
    bool_ = real_np.bool_
    number = real_np.number

    def __getattr__(self, name):
        f = _FUNCS.get(name)
        r = getattr(real_np, name)
        if not callable(r):
            return r
        if isinstance(r, type):
            return r

        def wrapper(*args, **kw):
            if core.active():
                args = tuple(force(a) for a in args)
                if symbolic(args) or symbolic(kw) or name in _CREATE:
                    if f is None:
                        raise Unsupported(f"numpy.{name}")
                    return f(*args, **kw)
            return r(*args, **kw)

        wrapper.__name__ = name
        return wrapper


_FUNCS = {}
_CREATE = {"log"}  # also symbolic on constants, so that log(c) keeps its normal form


def fn(name=None, create=False):
    def deco(f):
        nm = name or f.__name__.rstrip("_")
        _FUNCS[nm] = f
        if create:
            _CREATE.add(nm)
        return f
    return deco


@fn(create=True)
def zeros(shape, dtype=None):
    k = kdtype(dtype, "f")
    return const_array(shape, False if k == "b" else num(0 if k == "i" else 0.0), k)


@fn(create=True)
def ones(shape, dtype=None):
    k = kdtype(dtype, "f")
    return const_array(shape, True if k == "b" else num(1 if k == "i" else 1.0), k)


@fn(create=True)
def empty(shape, dtype=None):
    c = cur()
    k = kdtype(dtype, "f")
    sh = shape_tuple(shape)
    f, nm = c.fresh_fun("uninit", *[z3.IntSort()] * len(sh), R if k == "f" else z3.IntSort())
    return const_array_fn(sh, lambda *i: Num(f(*i), k == "i"), k)


def const_array_fn(sh, f, k):
    base = const_array(sh, num(0.0), k)
    return SArr(base.dims, f, k)


@fn(create=True)
def full(shape, v, dtype=None):
    v = v if isinstance(v, (SB, bool)) else num(force(v))
    k = "b" if isinstance(v, (SB, bool)) else ("i" if v.isint else "f")
    return const_array(shape, v, kdtype(dtype, k))


@fn()
def zeros_like(x):
    x = to_sarr(x)
    return zeros(x.dims, {"f": float, "i": int, "b": bool}[x.k])


@fn()
def ones_like(x):
    x = to_sarr(x)
    return ones(x.dims, {"f": float, "i": int, "b": bool}[x.k])


@fn(create=True)
def eye(n, dtype=None):
    c = const_array((n, n), num(0.0), "f")
    return SArr(c.dims, lambda i, j: ite(mkb(i == j), num(1.0), num(0.0)), "f")


@fn(create=True)
def arange(*a, dtype=None):
    a = list(a)
    if len(a) == 1:
        a = [0, a[0]]
    step = a[2] if len(a) > 2 else 1
    r = SRange(a[0], a[1], step)
    k = kdtype(dtype, "i")
    start = r.start
    out = SArr((r.n,), lambda i: (V.to_real if k == "f" else (lambda z: z))(
        Num(simp(start + I(i) * step), True)), k)
    if step == 1:
        out.tag["strict"] = True
        if cur().provable(start >= 0):
            out.tag["nonneg"] = True
            out.tag["below"] = dnorm(r.stop)
        if z3.is_int_value(simp(start)) and simp(start).as_long() == 0:
            out.tag["iota"] = True
    return out


@fn()
def array(x, dtype=None):
    if isinstance(x, (SArr, real_np.ndarray)):
        out = to_sarr(x).copy()
    elif isinstance(x, (Num, SB)):
        return x
    else:
        out = to_sarr(x)
        out = SArr(out.dims, out.snap(), out.k)
    if dtype is not None:
        out = out.astype({"f": float, "i": int, "b": bool}[kdtype(dtype, "f")])
    return out


@fn()
def asarray(x, dtype=None):
    if isinstance(x, SArr) and (dtype is None or kdtype(dtype, "f") == x.k):
        return x
    return array(x, dtype)


@fn()
def copy(x):
    return to_sarr(x).copy()


@fn()
def atleast_1d(x):
    return atleast_nd(x, 1)


@fn()
def atleast_2d(x):
    return atleast_nd(x, 2)


@fn()
def ndim(x):
    if isinstance(x, (Num, SB)):
        return 0
    return to_sarr(x).ndim


@fn()
def shape(x):
    if isinstance(x, (Num, SB)):
        return ()
    return to_sarr(x).shape


@fn()
def isscalar(x):
    return isinstance(x, (Num, SB))


@fn()
def reshape(x, shp, order="C"):
    return to_sarr(x).reshape(shp)


@fn()
def ravel(x):
    return to_sarr(x).ravel()


@fn()
def transpose(x, axes=None):
    return to_sarr(x).transpose(axes) if axes is not None else to_sarr(x).T


@fn()
def concatenate(xs, axis=0):
    return concat_axis(list(xs), axis)


@fn()
def vstack(xs):
    if isinstance(xs, SSeq):
        return vstack_seq(xs)
    return concat_axis([atleast_nd(x, 2) for x in xs], 0)


_FUNCS["row_stack"] = vstack


@fn()
def hstack(xs):
    xs = [atleast_nd(x, 1) for x in xs]
    return concat_axis(xs, 0 if xs[0].ndim == 1 else 1)


def vstack_seq(xs):
    raise Unsupported("vstack of a symbolic sequence")


@fn()
def repeat(x, reps, axis=None):
    """np.repeat with a per-entry count (array/sequence) or a scalar"""
    c = cur()
    x = to_sarr(x)
    if x.ndim > 1 and axis is None:
        raise Unsupported("repeat of a flattened array")
    ax = 0 if axis is None else axis
    if ax != 0:
        raise Unsupported("repeat along another axis")
    n = x.dims[0]
    rs = seq_of(reps)
    if rs is None:
        if isinstance(reps, (list, tuple, real_np.ndarray)):
            rs = from_concrete([num(r) for r in reps])
        else:
            r0 = num(reps)
            rs = SSeq(n, lambda i: r0)
    if rs.n == 1 and not (isinstance(n, int) and n == 1):
        r1 = num(rs.item(z3.IntVal(0)))
        rs = SSeq(n, lambda i: r1)
    if not deq(rs.n, n):
        raise ValueError("operands could not be broadcast together")
    nt = dterm(n)
    if not c.provable(V.Forall([nt], lambda t: I(num(rs.item(t))) >= 0)):
        raise Unsupported("repeat with possibly negative counts")
    # offsets: off(0)=0, off(i+1)=off(i)+rep(i); own(j)= entry of output row j
    if isinstance(n, int) and n <= 6:
        offs = [z3.IntVal(0)]
        for i in range(n):
            offs.append(simp(offs[-1] + I(num(rs.item(z3.IntVal(i))))))
        total = offs[-1]
        f = x.snap()

        def own(j):
            out = z3.IntVal(n - 1)
            for i in range(n - 2, -1, -1):
                out = z3.If(j < offs[i + 1], z3.IntVal(i), out)
            return simp(out)
        return SArr((total,) + x.dims[1:], lambda j, *r: f(own(simp(I(j))), *r), x.k)
    key = ("repeat", tuple(sorted((str(k), str(v)) for k, v in {}.items())))
    rep_t = lambda t: I(num(rs.item(t)))
    info = c.__dict__.setdefault("repeat_info", {})
    t0 = z3.Int("rq__")
    sig = (simp(rep_t(t0)).sexpr(), simp(nt).sexpr())
    if sig in info and info[sig][0] is c.pc:
        _, off, own, total = info[sig]
    else:
        off = z3.Function(c.name("off"), z3.IntSort(), z3.IntSort())
        own = z3.Function(c.name("own"), z3.IntSort(), z3.IntSort())
        total = off(nt)
        c.add_fact(off(z3.IntVal(0)) == 0)
        c.add_fact(off(nt) >= 0)
        c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < nt), z3.And(
            off(t + 1) == off(t) + rep_t(t), off(t) >= 0, off(t) <= total, off(t + 1) <= total)))
        c.add_schema(2, lambda s, t: z3.Implies(z3.And(s >= 0, s < t, t <= nt), off(s + 1) <= off(t)))
        c.add_schema(1, lambda j: z3.Implies(z3.And(j >= 0, j < total), z3.And(
            own(j) >= 0, own(j) < nt, off(own(j)) <= j, j < off(own(j)) + rep_t(own(j)))))
        info[sig] = (c.pc, off, own, total)
    f = x.snap()
    out = SArr((simp(total),) + x.dims[1:], lambda j, *r: f(own(I(j)), *r), x.k)
    out.tag["repeat_own"] = own
    return out


@fn()
def where(c, a=None, b=None):
    if a is None:
        m = to_sarr(c)
        if m.k != "b" or m.ndim != 1:
            raise Unsupported("np.where with one argument, not a one-dimensional mask")
        from pyvc.indexing import mask_positions

        return (mask_positions(m),)
    if isinstance(c, (SB, bool)) and not is_arr(a) and not is_arr(b):
        return merge(c, num(a), num(b))
    return A.where(c, a, b)


@fn()
def union1d(a, b):
    # of the positions of two masks: the positions where either holds, in increasing order
    pa, pb = (getattr(v, "tag", {}).get("positions") for v in (a, b))
    if pa is None or pb is None or not deq(pa[0], pb[0]):
        raise Unsupported("np.union1d")
    from pyvc.indexing import mask_positions

    return mask_positions(SArr((pa[0],), lambda i: V.bor(V.to_bool(pa[1](i)), V.to_bool(pb[1](i))), "b"))


def _dispatch2(f):
    def g(a, b, **kw):
        if is_arr(a) or is_arr(b) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return elementwise(f, to_sarr(a), to_sarr(b))
        return f(num(a), num(b))
    return g


_FUNCS["maximum"] = _dispatch2(V.np_max)
_FUNCS["minimum"] = _dispatch2(V.np_min)
_FUNCS["add"] = _dispatch2(V.x_add)
_FUNCS["subtract"] = _dispatch2(V.x_sub)
_FUNCS["multiply"] = _dispatch2(V.x_mul)
_FUNCS["divide"] = _dispatch2(V.x_div)
_FUNCS["power"] = _dispatch2(V.x_pow)
_FUNCS["less"] = _dispatch2(V.x_lt)
_FUNCS["less_equal"] = _dispatch2(V.x_le)
_FUNCS["greater"] = _dispatch2(lambda a, b: V.x_lt(b, a))
_FUNCS["greater_equal"] = _dispatch2(lambda a, b: V.x_le(b, a))
_FUNCS["equal"] = _dispatch2(V.x_eq)


@fn()
def logical_and(a, b):
    return elementwise(lambda x, y: V.band(V.to_bool(x), V.to_bool(y)), a, b, raw=True)


@fn()
def logical_or(a, b):
    return elementwise(lambda x, y: V.bor(V.to_bool(x), V.to_bool(y)), a, b, raw=True)


@fn()
def logical_not(a):
    return elementwise1(lambda x: V.bnot(V.to_bool(x)), a, raw=True)


@fn()
def clip(a, a_min=None, a_max=None):
    out = a if not isinstance(a, (list, tuple)) else to_sarr(a)
    if a_min is not None:
        out = _FUNCS["maximum"](out, a_min)
    if a_max is not None:
        out = _FUNCS["minimum"](out, a_max)
    return out


for _n, _f in (("abs", V.x_abs), ("absolute", V.x_abs), ("fabs", V.x_abs), ("exp", sym_exp),
               ("log", sym_log), ("sqrt", sym_sqrt), ("ceil", ceil_), ("floor", floor_),
               ("sign", sign_), ("square", lambda v: v * v), ("negative", V.x_neg)):
    def _mk(f, n):
        def g(x):
            k = None
            if n in ("exp", "log", "sqrt", "ceil", "floor"):
                k = "f"
            if is_arr(x) or isinstance(x, (list, tuple, SSeq)):
                x = to_sarr(x)
                out = sqrt_array(x) if n == "sqrt" else None
                return elementwise1(f, x, k=k) if out is None else out
            return f(num(x))
        return g
    _FUNCS[_n] = _mk(_f, _n)


@fn()
def isfinite(x):
    if is_arr(x):
        return elementwise1(V.isfinite, x, k="b")
    return V.isfinite(x)


@fn()
def isnan(x):
    if is_arr(x):
        return elementwise1(V.isnan, x, k="b")
    return V.isnan(x)


@fn()
def isinf(x):
    if is_arr(x):
        return elementwise1(V.isinf, x, k="b")
    return V.isinf(x)


@fn()
def isposinf(x):
    return elementwise1(lambda v: mkb(V.kis(num(v), V.PINF)), x, k="b") if is_arr(x) else mkb(V.kis(num(x), V.PINF))


@fn()
def isneginf(x):
    return elementwise1(lambda v: mkb(V.kis(num(v), V.NINF)), x, k="b") if is_arr(x) else mkb(V.kis(num(x), V.NINF))


@fn()
def count_nonzero(x, axis=None):
    x = to_sarr(x)
    return reduce_(x if x.k == "b" else x != 0, "sum", axis)


@fn()
def flatnonzero(x):
    x = to_sarr(x)
    if x.ndim != 1:
        raise Unsupported("np.flatnonzero of a matrix")
    return _FUNCS["where"](x if x.k == "b" else x != 0)[0]


@fn()
def column_stack(xs):
    xs = [to_sarr(x) for x in xs]
    return concat_axis([x if x.ndim > 1 else x.reshape(-1, 1) for x in xs], 1)


@fn()
def array_equal(a, b):
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim != b.ndim or not builtins.all(deq(x, y) for x, y in zip(a.dims, b.dims)):
        return False
    return reduce_(a == b, "all", None)


def _isclose1(rtol, atol):
    def f(a, b):
        a, b = num(a), num(b)
        d = abs(V.x_sub(V.to_real(a), V.to_real(b)))
        lim = num(atol) + num(rtol) * abs(V.to_real(b))
        if V.fin(a) and V.fin(b):
            return d <= lim
        return V.bor(V.band(V.isfinite(a), V.isfinite(b), d <= lim), V.x_eq(a, b))
    return f


@fn()
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = _isclose1(rtol, atol)
    if is_arr(a) or is_arr(b):
        out = elementwise(f, to_sarr(a), to_sarr(b))
        out.k = "b"
        return out
    return f(a, b)


@fn()
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SArr) else r


def _red(op):
    def g(a, axis=None, where=None, initial=None, keepdims=False, dtype=None):
        if isinstance(a, SSeq) or isinstance(a, (list, tuple)):
            a = to_sarr(a)
        if isinstance(a, (Num, SB)):
            return a
        if where is not None:
            return A.masked_extreme(a, op, axis, where, initial)
        if initial is not None:
            raise Unsupported("initial without where")
        out = reduce_(to_sarr(a), op, axis)
        if keepdims:
            raise Unsupported("keepdims")
        return out
    return g


for _n in ("sum", "min", "max", "any", "all"):
    _FUNCS[_n] = _red(_n)
_FUNCS["amin"], _FUNCS["amax"] = _FUNCS["min"], _FUNCS["max"]


@fn()
def mean(a, axis=None):
    if isinstance(a, (Num, SB)):
        return a
    return A.mean(a, axis)


@fn()
def var(a, ddof=0, axis=None):
    a = to_sarr(a)
    if a.ndim != 1:
        raise Unsupported("var of 2d array")
    m = A.mean(a)
    d = a - m
    s = reduce_(d * d, "sum")
    n = a.dims[0]
    den = V.to_real(num(n) - ddof) if isinstance(n, int) else V.to_real(Num(n, True) - ddof)
    return s / den


@fn()
def std(a, ddof=0, axis=None):
    return _FUNCS["sqrt"](var(a, ddof, axis))


@fn()
def argmin(a, axis=None):
    return A.arg_extreme(to_sarr(a), "min")


@fn()
def argmax(a, axis=None):
    return A.arg_extreme(to_sarr(a), "max")


@fn()
def unravel_index(i, shape):
    if isinstance(i, A.FlatArg):
        return tuple(i.idx)
    raise Unsupported("unravel_index")


@fn()
def delete(a, idx, axis=None):
    a = to_sarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("delete flattened")
        axis = 0
    from pyvc.indexing import norm_index

    if is_arr(idx) or isinstance(idx, (list, tuple)):
        raise Unsupported("delete with several indices")
    n = a.dims[axis]
    k = norm_index(idx, n)
    f = a.snap()

    def fnn(*i):
        i = list(i)
        i[axis] = simp(z3.If(I(i[axis]) < k, I(i[axis]), I(i[axis]) + 1))
        return f(*i)

    dims = list(a.dims)
    dims[axis] = dnorm(dterm(n) - 1)
    out = SArr(dims, fnn, a.k)
    out.tag["deleted"] = k
    return out


@fn()
def dot(a, b):
    if not is_arr(a) or not is_arr(b):
        return a * b
    return A.matmul(a, b)


_FUNCS["matmul"] = dot


@fn()
def outer(a, b):
    a, b = to_sarr(a), to_sarr(b)
    fa, fb = a.snap(), b.snap()
    return SArr((a.dims[0], b.dims[0]), lambda i, j: num(fa(i)) * num(fb(j)), "f")


@fn()
def diag(a):
    a = to_sarr(a)
    f = a.snap()
    if a.ndim == 1:
        n = a.dims[0]
        zero = num(0.0)
        return SArr((n, n), lambda i, j: ite(mkb(I(i) == I(j)), num(f(i)), zero), a.k)
    if not deq(a.dims[0], a.dims[1]):
        raise Unsupported("diag of a non-square matrix")
    return SArr((a.dims[0],), lambda i: f(i, i), a.k)


@fn()
def diag_indices_from(a):
    a = to_sarr(a)
    r = arange(Num(dterm(a.dims[0]), True))
    return (r, r)


@fn()
def triu(a, k=0):
    a = to_sarr(a)
    f = a.snap()
    nd = a.ndim
    zero = num(0.0)
    return SArr(a.dims, lambda *i: ite(mkb(I(i[nd - 2]) + k <= I(i[nd - 1])), num(f(*i)), zero), a.k)


@fn()
def tril(a, k=0):
    a = to_sarr(a)
    f = a.snap()
    nd = a.ndim
    zero = num(0.0)
    return SArr(a.dims, lambda *i: ite(mkb(I(i[nd - 2]) + k >= I(i[nd - 1])), num(f(*i)), zero), a.k)


@fn()
def split(a, sections, axis=0):
    a = to_sarr(a)
    if axis < 0:
        axis += a.ndim
    if not isinstance(sections, (tuple, list)):
        raise Unsupported("split into equal parts")
    cuts = list(sections)
    out = []
    prev = 0
    for s in cuts + [None]:
        key = [slice(None)] * a.ndim
        key[axis] = slice(prev, s)
        out.append(a[tuple(key)])
        prev = s
    return out


@fn()
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if posinf is None or neginf is None:
        raise Unsupported("nan_to_num defaults")
    if not is_arr(x):
        v = num(x)
        return ite(V.isnan(v), num(nan), ite(mkb(V.kis(v, V.PINF)), num(posinf),
                                            ite(mkb(V.kis(v, V.NINF)), num(neginf), v)))
    x = to_sarr(x)
    out = x
    pn, pp, pm = to_sarr(nan), to_sarr(posinf), to_sarr(neginf)
    f = x.snap()
    nd = x.ndim
    fs = [(p.dims, p.snap()) for p in (pn, pp, pm)]
    from pyvc.arrays import bindex

    def fnn(*i):
        v = num(f(*i))
        a, b, c = [num(g(*bindex(d, nd, list(i)))) for d, g in fs]
        return ite(V.isnan(v), a, ite(mkb(V.kis(v, V.PINF)), b, ite(mkb(V.kis(v, V.NINF)), c, v)))

    return SArr(x.dims, fnn, "f")


def _setop(name):
    def g(a, b):
        c = cur()
        m = c.fresh("n" + name, z3.IntSort())
        c.add_fact(m >= 0)
        f, _ = c.fresh_fun(name, z3.IntSort(), z3.IntSort())
        a, b = to_sarr(a), to_sarr(b)
        wa, _ = c.fresh_fun(name + "wa", z3.IntSort(), z3.IntSort())
        fa, na = a.snap(), dterm(a.dims[0])
        fb, nb = b.snap(), dterm(b.dims[0])
        # every element comes from a; sorted strictly increasing
        c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < m), z3.And(
            wa(t) >= 0, wa(t) < na, V.real(num(fa(wa(t)))) == z3.ToReal(f(t)))))
        c.add_schema(2, lambda s, t: z3.Implies(z3.And(s >= 0, s < t, t < m), f(s) < f(t)))
        if name == "setdiff1d":
            c.add_schema(2, lambda t, s: z3.Implies(z3.And(t >= 0, t < m, s >= 0, s < nb),
                                                    z3.ToReal(f(t)) != V.real(num(fb(s)))))
        return SArr((m,), lambda i: Num(f(i), True), "i")
    return g


_setdiff1d = _setop("setdiff1d")


def setdiff1d(a, b):
    pb = getattr(b, "tag", {}).get("positions")
    if pb is not None and is_arr(a) and to_sarr(a).tag.get("iota") and deq(to_sarr(a).dims[0], pb[0]):
        from pyvc.indexing import mask_positions

        return mask_positions(SArr((pb[0],), lambda i: V.bnot(V.to_bool(pb[1](i))), "b"))
    return _setdiff1d(a, b)


_FUNCS["setdiff1d"] = setdiff1d
_FUNCS["intersect1d"] = _setop("intersect1d")


@fn()
def cov(a, rowvar=True, ddof=None):
    a = to_sarr(a)
    if rowvar:
        raise Unsupported("cov rowvar")
    m = A.mean(a, 0)
    d = a - m
    n = a.dims[0]
    den = V.to_real((num(n) if isinstance(n, int) else Num(n, True)) - (1 if ddof is None else ddof))
    out = d.T @ d
    if isinstance(out, SArr) and out.ndim == 2 and out.dims[0] == 1:
        return SArr((), lambda: out.get(0, 0) / den, "f")
    return out / den


TRI = z3.Function("TRI_", *[z3.IntSort()] * 4)    # position of (i, j) in the upper triangle of an n x n matrix
TROW = z3.Function("TROW_", *[z3.IntSort()] * 3)  # row and column of the k-th entry, in row-major order
TCOL = z3.Function("TCOL_", *[z3.IntSort()] * 3)


def triu_lemmas(c):
    def pos(a):
        n, i, j = a
        return [z3.Implies(z3.And(0 <= i, i <= j, j < n), z3.And(
            2 * TRI(n, i, j) == 2 * i * n - i * i + i + 2 * (j - i), TRI(n, i, j) >= 0, 2 * TRI(n, i, j) < n * (n + 1),
            TROW(n, TRI(n, i, j)) == i, TCOL(n, TRI(n, i, j)) == j))]

    def inv(a):
        n, k = a
        r, q = TROW(n, k), TCOL(n, k)
        return [z3.Implies(z3.And(0 <= k, 2 * k < n * (n + 1)), z3.And(0 <= r, r <= q, q < n, TRI(n, r, q) == k))]

    c.lemma("TRI_", pos)
    c.lemma("TROW_", inv)
    c.lemma("TCOL_", inv)


@fn()
def triu_indices(n):
    c = cur()
    nt = I(n)
    triu_lemmas(c)
    size = num(n) * (num(n) + 1) // 2
    c.add_fact(2 * I(size) == nt * (nt + 1))
    out = []
    for role, f in (("row", TROW), ("col", TCOL)):
        a = SArr((size,), lambda k, f=f: Num(f(nt, I(k)), True), "i")
        a.tag["triu"] = (role, nt)
        out.append(a)
    return tuple(out)


@fn()
def argsort(a):
    raise Unsupported("argsort")


np = NP()
