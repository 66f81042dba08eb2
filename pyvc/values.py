"""Symbolic scalars and formulas."""
import math
import operator

import z3

from pyvc import core
from pyvc.core import Unsupported, cur

FIN, PINF, NINF, NAN = 0, 1, 2, 3

RV = z3.RealVal


def is_sym(x):
    return getattr(x, "_vc_sym", False)


# --------------------------------------------------------------------------- formulas
class Formula:
    _vc_sym = True

    def __bool__(self):
        raise Unsupported("truth value of a quantified formula")

    def __and__(self, o):
        return Conj([self, as_formula(o)])

    __rand__ = __and__


class Forall(Formula):
    """forall integer indices t_k in [0, dim_k): body(t)"""

    def __init__(self, dims, fn):
        self.dims = [None if d is None else dim_term(d) for d in dims]  # None: every integer
        self.fn = fn
        self.nvars = len(self.dims)


class Conj(Formula):
    def __init__(self, parts):
        self.parts = [as_formula(p) for p in parts]


class Imp(Formula):
    def __init__(self, cond, then):
        self.cond = cond
        self.then = as_formula(then)


def as_formula(f):
    if isinstance(f, Formula):
        return f
    if isinstance(f, SB):
        return f.t
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if z3.is_expr(f):
        return f
    try:
        import numpy as np

        if isinstance(f, np.bool_):
            return z3.BoolVal(bool(f))
    except ImportError:
        pass
    if isinstance(f, (list, tuple)):
        return Conj(f)
    if hasattr(f, "as_bool_formula"):
        return as_formula(f.as_bool_formula())
    raise Unsupported(f"not a formula: {type(f)}")


def ground(f):
    f = as_formula(f)
    if isinstance(f, Conj):
        return z3.And([ground(p) for p in f.parts])
    if isinstance(f, Imp):
        return z3.Implies(ground(f.cond), ground(f.then))
    if isinstance(f, Forall):
        raise Unsupported("nested quantifier in ground position")
    return f


def instantiate(q, ts):
    """Instance of a Forall (with range guard); nested Foralls are flattened."""
    guard = [z3.And(t >= 0, t < d) for t, d in zip(ts, q.dims) if d is not None]
    return z3.Implies(z3.And(guard), ground(q.fn(*ts)))


def split_goal(ctx, q):
    if isinstance(q, Conj):
        for p in q.parts:
            yield from split_goal(ctx, p)
    elif isinstance(q, Imp) and isinstance(q.then, (Conj, Imp)):
        for p in split_goal(ctx, q.then):
            yield Imp(q.cond, p)
    else:
        yield q


def negate_for_proof(ctx, q):
    """Ground formulas whose unsatisfiability (with the path) proves q."""
    if isinstance(q, Forall):
        sk = []
        out = []
        for d in q.dims:
            t = z3.Const(ctx.name("sk"), z3.IntSort())
            ctx.skolems.append(t)
            sk.append(t)
            if d is not None:
                out.append(z3.And(t >= 0, t < d))
        body = as_formula(q.fn(*sk))
        return out + negate_for_proof(ctx, body)
    if isinstance(q, Imp):
        c = as_formula(q.cond)
        if isinstance(c, Conj):
            cs = []
            for p in c.parts:
                cs.append(ground(p))
            return cs + negate_for_proof(ctx, q.then)
        return [ground(c)] + negate_for_proof(ctx, q.then)
    if isinstance(q, Conj):
        return [z3.Not(ground(q))]
    return [z3.Not(q)]


def forall(dims, fn):
    if not isinstance(dims, (list, tuple)):
        dims = [dims]
    return Forall(dims, lambda *ts: spec_eval(fn, [Num(t, True) for t in ts]))


def spec_eval(fn, args):
    """evaluate the body of a specification formula: indexing is total (no bounds forks)"""
    from pyvc.core import cur

    c = cur()
    old, c.spec_mode = getattr(c, "spec_mode", False), True
    try:
        return fn(*args)
    finally:
        c.spec_mode = old


def implies(c, f):
    if isinstance(c, bool):
        return as_formula(f) if c else z3.BoolVal(True)
    return Imp(c, f)


def dim_term(d):
    if isinstance(d, Num):
        return d.v
    if isinstance(d, bool):
        raise Unsupported("bool dim")
    if isinstance(d, int):
        return z3.IntVal(d)
    if z3.is_expr(d):
        return d
    import numpy as np

    if isinstance(d, np.integer):
        return z3.IntVal(int(d))
    raise Unsupported(f"dimension {type(d)}")


def dim_val(d):
    """int if concrete else Num"""
    if isinstance(d, int):
        return d
    if isinstance(d, Num):
        t = z3.simplify(d.v)
    else:
        t = z3.simplify(d)
    if z3.is_int_value(t):
        return t.as_long()
    return Num(t, True)


# --------------------------------------------------------------------------- booleans
class SB:
    _vc_sym = True
    __array_ufunc__ = None
    dtype_k = "b"

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        o = to_bool(o)
        if o is NotImplemented:
            return o
        return mkb(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        o = to_bool(o)
        if o is NotImplemented:
            return o
        return mkb(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.t, bterm(to_bool(o))))

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return mkb(self.t == bterm(o))
        if isinstance(o, (int, float, Num)):
            return self.num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SB) else (not r if r is not NotImplemented else r)

    __hash__ = None

    def num(self):
        return Num(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), True)

    def __add__(self, o):
        return self.num() + (o.num() if isinstance(o, SB) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * (o.num() if isinstance(o, SB) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def any(self, axis=None):
        return self

    def all(self, axis=None):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def astype(self, t):
        return self

    def mean(self):
        return self.num()

    def sum(self):
        return self.num()


def mkb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SB(t)


def to_bool(o):
    if isinstance(o, (bool, SB)):
        return o
    import numpy as np

    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, Num):
        return o != 0
    if isinstance(o, int) and o in (0, 1):
        return bool(o)
    return NotImplemented


def bterm(o):
    return o.t if isinstance(o, SB) else z3.BoolVal(bool(o))


def band(*xs):
    return mkb(z3.And([bterm(x) for x in xs])) if xs else True


def bor(*xs):
    return mkb(z3.Or([bterm(x) for x in xs])) if xs else False


def bnot(x):
    return (not x) if isinstance(x, bool) else ~x


# --------------------------------------------------------------------------- numbers
class Num:
    """Extended real or integer.

    v     z3 Int or Real term: the value if kind is FIN
    kind  FIN/PINF/NINF/NAN as a python int, or a z3 Int term with values 0..3
    """

    _vc_sym = True
    __array_ufunc__ = None
    __array_priority__ = 1000

    __slots__ = ("v", "isint", "kind")

    def __init__(self, v, isint=None, kind=FIN):
        self.v = v
        self.isint = z3.is_int(v) if isint is None else isint
        self.kind = kind

    # python protocol ---------------------------------------------------------
    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        t = z3.simplify(self.v)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        t = z3.simplify(self.v)
        if self.kind == FIN and z3.is_rational_value(t):
            return float(t.as_fraction())
        if self.kind == FIN and z3.is_int_value(t):
            return float(t.as_long())
        raise Unsupported("symbolic number converted to a concrete float")

    def __hash__(self):
        # symbolic numbers collide, so that look-ups in dicts and sets are decided by
        # equality (which splits the path where it is open)
        t = z3.simplify(self.v)
        if self.kind == FIN and z3.is_int_value(t):
            return hash(t.as_long())
        return 7919

    def __repr__(self):
        return f"Num({self.v}{'' if self.kind == FIN else ' kind ' + str(self.kind)})"

    def __format__(self, spec):
        return repr(self)

    # arithmetic --------------------------------------------------------------
    def __add__(self, o):
        return _arith(x_add, self, o)

    def __radd__(self, o):
        return _arith(x_add, o, self)

    def __sub__(self, o):
        return _arith(x_sub, self, o)

    def __rsub__(self, o):
        return _arith(x_sub, o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__rmul__(o)
        return _arith(x_mul, self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from pyvc.seqs import repeat_list

            return repeat_list(o, self)
        return _arith(x_mul, o, self)

    def __truediv__(self, o):
        return _arith(x_div, self, o)

    def __rtruediv__(self, o):
        return _arith(x_div, o, self)

    def __floordiv__(self, o):
        return _arith(x_floordiv, self, o)

    def __rfloordiv__(self, o):
        return _arith(x_floordiv, o, self)

    def __mod__(self, o):
        return _arith(x_mod, self, o)

    def __rmod__(self, o):
        return _arith(x_mod, o, self)

    def __pow__(self, o):
        return _arith(x_pow, self, o)

    def __rpow__(self, o):
        return _arith(x_pow, o, self)

    def __neg__(self):
        return x_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return x_abs(self)

    def __lt__(self, o):
        return _arith(x_lt, self, o)

    def __le__(self, o):
        return _arith(x_le, self, o)

    def __gt__(self, o):
        return _arith(lambda a, b: x_lt(b, a), self, o)

    def __ge__(self, o):
        return _arith(lambda a, b: x_le(b, a), self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _arith(x_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        r = _arith(x_eq, self, o)
        if r is NotImplemented:
            return r
        return bnot(r)

    # numpy scalar protocol ----------------------------------------------------
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        from pyvc.arrays import SArr

        return SArr((1,), lambda i: self, "i" if self.isint else "f")

    def sum(self, axis=None):
        return self

    def mean(self, axis=None):
        return self

    def astype(self, t):
        return to_int(self) if t is int else to_real(self)

    def reshape(self, *a):
        return self.flatten().reshape(*a)


_numpy = None


def _np():
    global _numpy
    if _numpy is None:
        import numpy

        _numpy = numpy
    return _numpy


def num(x):
    """python / numpy / symbolic scalar -> Num"""
    if isinstance(x, Num):
        return x
    if isinstance(x, SB):
        return x.num()
    if isinstance(x, bool):
        return Num(z3.IntVal(int(x)), True)
    if isinstance(x, int):
        return Num(z3.IntVal(x), True)
    np = _np()
    if isinstance(x, (np.bool_,)):
        return Num(z3.IntVal(int(x)), True)
    if isinstance(x, np.integer):
        return Num(z3.IntVal(int(x)), True)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return Num(RV(0), False, NAN)
        if math.isinf(x):
            return Num(RV(0), False, PINF if x > 0 else NINF)
        n, d = x.as_integer_ratio()
        # decimal constants in the source stand for the decimal number
        return Num(_const(x), False)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.item())
    if z3.is_expr(x) and z3.is_arith(x):
        return Num(x)
    return NotImplemented


def _const(x):
    from fractions import Fraction

    if abs(x) > 1e15 or (x != 0 and abs(x) < 1e-15):
        f = Fraction(repr(x)) if "e" in repr(x) or "." in repr(x) else Fraction(x)
    else:
        f = Fraction(repr(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def _arith(f, a, b):
    from pyvc import arrays

    if isinstance(a, arrays.SArr) or isinstance(b, arrays.SArr):
        return NotImplemented
    np = _np()
    if (isinstance(a, np.ndarray) and a.ndim > 0) or (isinstance(b, np.ndarray) and b.ndim > 0):
        return arrays.elementwise(f, a, b)
    a, b = num(a), num(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    return f(a, b)


def real(a):
    v = a.v
    return z3.ToReal(v) if z3.is_int(v) else v


def to_real(a):
    a = num(a)
    if a.isint:
        return Num(z3.ToReal(a.v) if z3.is_int(a.v) else a.v, False, a.kind)
    return a


def to_int(a):
    """int(): truncation towards zero"""
    a = num(a)
    if a.isint:
        return a
    t = z3.simplify(a.v)
    fl = z3.ToInt(a.v)
    return Num(z3.If(a.v >= 0, fl, -z3.ToInt(-a.v)), True)


def py_int(a):
    """int(x): truncates; ValueError / OverflowError for nan / infinities"""
    a = num(a)
    if not fin(a):
        k = kterm(a.kind)
        if cur().branch(z3.simplify(k == NAN)):
            raise ValueError("cannot convert float NaN to integer")
        if cur().branch(z3.simplify(k != FIN)):
            raise OverflowError("cannot convert float infinity to integer")
    return to_int(a)


def fin(a):
    return isinstance(a.kind, int) and a.kind == FIN


def kterm(k):
    return z3.IntVal(k) if isinstance(k, int) else k


def kis(a, k):
    """z3 Bool / python bool: the kind of a is k"""
    if isinstance(a.kind, int):
        return z3.BoolVal(a.kind == k)
    return a.kind == k


def mk(kind, v, isint=False):
    if not isinstance(kind, int):
        kind = z3.simplify(kind)
        if z3.is_int_value(kind):
            kind = kind.as_long()
    if isinstance(kind, int) and kind != FIN:
        v = RV(0)
    return Num(v, isint, kind)


def _round(op, *terms):
    """In rounding mode the result of an arithmetic operation is some function of the
    operands about which only correct rounding is known (see Ctx._rounding_facts)."""
    c = cur()
    f = z3.Function(f"fl_{op}", *[z3.RealSort()] * len(terms), z3.RealSort())
    return f(*terms)


def _rounding():
    return core.active() and cur().rounding


def _isconst(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def x_add(a, b):
    if fin(a) and fin(b):
        if a.isint and b.isint:
            return Num(z3.simplify(a.v + b.v), True)
        if _rounding() and not (_isconst(a.v) and _isconst(b.v)):
            return Num(_round("add", real(a), real(b)), False)
        return Num(real(a) + real(b), False)
    ka, kb = kterm(a.kind), kterm(b.kind)
    k = z3.If(z3.Or(ka == NAN, kb == NAN), NAN,
              z3.If(ka == FIN, kb, z3.If(kb == FIN, ka, z3.If(ka == kb, ka, NAN))))
    return mk(k, _round("add", real(a), real(b)) if _rounding() else real(a) + real(b))


def x_neg(a):
    if fin(a):
        return Num(-a.v, a.isint)
    ka = kterm(a.kind)
    return mk(z3.If(ka == PINF, NINF, z3.If(ka == NINF, PINF, ka)), -real(a))


def x_sub(a, b):
    if fin(a) and fin(b):
        if a.isint and b.isint:
            return Num(z3.simplify(a.v - b.v), True)
        if _rounding() and not (_isconst(a.v) and _isconst(b.v)):
            return Num(_round("sub", real(a), real(b)), False)
        return Num(real(a) - real(b), False)
    return x_add(a, x_neg(b))


def x_mul(a, b):
    if fin(a) and fin(b):
        if a.isint and b.isint:
            return Num(z3.simplify(a.v * b.v), True)
        if _rounding() and not (_isconst(a.v) and _isconst(b.v)):
            return Num(_round("mul", real(a), real(b)), False)
        return Num(real(a) * real(b), False)
    ka, kb = kterm(a.kind), kterm(b.kind)
    sa = z3.If(ka == PINF, 1, z3.If(ka == NINF, -1, z3.If(real(a) > 0, 1, z3.If(real(a) < 0, -1, 0))))
    sb = z3.If(kb == PINF, 1, z3.If(kb == NINF, -1, z3.If(real(b) > 0, 1, z3.If(real(b) < 0, -1, 0))))
    k = z3.If(z3.Or(ka == NAN, kb == NAN), NAN,
              z3.If(z3.And(ka == FIN, kb == FIN), FIN,
                    z3.If(sa * sb == 0, NAN, z3.If(sa * sb > 0, PINF, NINF))))
    return mk(k, _round("mul", real(a), real(b)) if _rounding() else real(a) * real(b))


def x_div(a, b):
    """IEEE division: x/0 is +-inf (sign of the zero unknown) or nan."""
    ra, rb = real(a), real(b)
    if fin(a) and fin(b):
        if _isconst(z3.simplify(rb)) and not z3.is_true(z3.simplify(rb == 0)):
            if _rounding() and not _isconst(ra):
                return Num(_round("div", ra, rb), False)
            return Num(ra / rb, False)
        if cur().provable(rb != 0):
            if _rounding():
                return Num(_round("div", ra, rb), False)
            return Num(ra / rb, False)
    zs = z3.Function("zerosign", z3.RealSort(), z3.BoolSort())(rb)  # sign of a zero
    ka, kb = kterm(a.kind), kterm(b.kind)
    k = z3.If(z3.Or(ka == NAN, kb == NAN), NAN,
              z3.If(z3.And(ka == FIN, kb == FIN),
                    z3.If(rb != 0, FIN,
                          z3.If(ra == 0, NAN,
                                z3.If((ra > 0) == zs, PINF, NINF))),
                    z3.If(kb != FIN, z3.If(ka == FIN, FIN, NAN),
                          # a infinite, b finite
                          z3.If((ka == PINF) == z3.If(rb == 0, zs, rb > 0), PINF, NINF))))
    v = z3.If(kb != FIN, RV(0), _round("div", ra, rb) if _rounding() else ra / rb)
    return mk(k, v)


def x_floordiv(a, b):
    if a.isint and b.isint:
        # python floor division; exact for positive divisors, which we require
        if not cur().provable(b.v > 0):
            raise Unsupported("integer division by a possibly non-positive number")
        return Num(z3.simplify(a.v / b.v), True)
    raise Unsupported("float floor division")


def x_mod(a, b):
    if a.isint and b.isint:
        if not cur().provable(b.v > 0):
            raise Unsupported("modulo of a possibly non-positive number")
        return Num(z3.simplify(a.v % b.v), True)
    raise Unsupported("float modulo")


_powf = None


def x_pow(a, b):
    bv = z3.simplify(real(b))
    if z3.is_rational_value(bv):
        fr = bv.as_fraction()
        if fr.denominator == 1 and -4 <= fr.numerator <= 6:
            n = fr.numerator
            if n == 0:
                return Num(z3.IntVal(1), True) if a.isint else Num(RV(1), False)
            out = a
            for _ in range(abs(n) - 1):
                out = x_mul(out, a)
            if n < 0:
                out = x_div(num(1.0), out)
            return out
    if fin(a) and fin(b):
        return pow_real(a, b)
    raise Unsupported("power with non-finite operands")


def pow_real(a, b):
    """a**b for finite a, b: an uninterpreted function with axioms (see npshim.POW)."""
    from pyvc import npshim

    return npshim.sym_pow(a, b)


def x_abs(a):
    if fin(a):
        return Num(z3.If(a.v >= 0, a.v, -a.v), a.isint)
    ka = kterm(a.kind)
    r = real(a)
    return mk(z3.If(z3.Or(ka == PINF, ka == NINF), PINF, ka), z3.If(r >= 0, r, -r))


def _cmpterms(a, b):
    if z3.is_int(a.v) and z3.is_int(b.v):
        return a.v, b.v
    return real(a), real(b)


def x_lt(a, b):
    x, y = _cmpterms(a, b)
    if fin(a) and fin(b):
        return mkb(x < y)
    ka, kb = kterm(a.kind), kterm(b.kind)
    return mkb(z3.And(ka != NAN, kb != NAN,
                      z3.Or(z3.And(ka == FIN, kb == FIN, x < y),
                            z3.And(ka == NINF, kb != NINF),
                            z3.And(kb == PINF, ka != PINF))))


def x_le(a, b):
    x, y = _cmpterms(a, b)
    if fin(a) and fin(b):
        return mkb(x <= y)
    ka, kb = kterm(a.kind), kterm(b.kind)
    return mkb(z3.And(ka != NAN, kb != NAN,
                      z3.Or(z3.And(ka == FIN, kb == FIN, x <= y), ka == NINF, kb == PINF)))


def x_eq(a, b):
    x, y = _cmpterms(a, b)
    if fin(a) and fin(b):
        return mkb(x == y)
    ka, kb = kterm(a.kind), kterm(b.kind)
    return mkb(z3.And(ka != NAN, ka == kb, z3.Or(ka != FIN, x == y)))


def same(a, b):
    """Identical extended values (nan equals nan): used by specifications."""
    a, b = num(a), num(b)
    x, y = _cmpterms(a, b)
    if fin(a) and fin(b):
        return mkb(x == y)
    ka, kb = kterm(a.kind), kterm(b.kind)
    return mkb(z3.And(ka == kb, z3.Or(ka != FIN, x == y)))


def isfinite(a):
    if isinstance(a, SB):
        return True
    a = num(a)
    return mkb(kis(a, FIN))


def isnan(a):
    a = num(a)
    return mkb(kis(a, NAN))


def isinf(a):
    a = num(a)
    return mkb(z3.Or(kis(a, PINF), kis(a, NINF)))


def ite(c, a, b):
    """if c then a else b for scalars; c python bool or SB"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return mkb(z3.If(c.t, bterm(a), bterm(b)))
    a, b = num(a), num(b)
    if a is NotImplemented or b is NotImplemented:
        raise Unsupported("merge of non-scalar values")
    return ite_num(c.t, a, b)


def ite_num(t, a, b):
    isint = a.isint and b.isint
    x, y = (a.v, b.v) if (z3.is_int(a.v) and z3.is_int(b.v)) else (real(a), real(b))
    if fin(a) and fin(b):
        return Num(z3.If(t, x, y), isint)
    if isinstance(a.kind, int) and isinstance(b.kind, int) and a.kind == b.kind:
        return mk(a.kind, x)
    return mk(z3.If(t, kterm(a.kind), kterm(b.kind)), z3.If(t, real(a), real(b)), False)


def np_max(a, b):
    """np.maximum: nan propagates"""
    a, b = num(a), num(b)
    if fin(a) and fin(b):
        x, y = _cmpterms(a, b)
        return Num(z3.If(x >= y, x, y), a.isint and b.isint)
    c = x_le(b, a)
    r = ite(c, a, b)
    return ite(isnan(a), a, ite(isnan(b), b, r))


def np_min(a, b):
    a, b = num(a), num(b)
    if fin(a) and fin(b):
        x, y = _cmpterms(a, b)
        return Num(z3.If(x <= y, x, y), a.isint and b.isint)
    c = x_le(a, b)
    r = ite(c, a, b)
    return ite(isnan(a), a, ite(isnan(b), b, r))


def py_max(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = ite(num(x) > num(out), x, out)
    return out


def py_min(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = ite(num(x) < num(out), x, out)
    return out
