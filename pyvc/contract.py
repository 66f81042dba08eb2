"""Contracts that are proved symbolically and checked at run time.

A contract is one python function f(k): it draws inputs through k, states preconditions
(k.assume), calls the real code (k.get / k.call) and states postconditions (k.check).
With a SymK the inputs are symbols and every k.check is an obligation discharged by the SMT
solver on every path; with a ConcK the inputs are concrete (random, boundary values, or the
solver's counterexample) and every k.check is evaluated on the real, unmodified module.
"""
import importlib
import itertools
import math
import os
import sys
import time
import traceback

import numpy as np

_symbolic_ready = False


def _need_z3():
    global _symbolic_ready
    if not _symbolic_ready:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        _symbolic_ready = True


class Discard(Exception):
    """concrete inputs violate the precondition"""


class Failed(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name, detail)
        self.name, self.detail = name, detail


REGISTRY = {}


class Contract:
    def __init__(self, prop, fn, functions, stubs=None, loops=None, prove=True, rac=True,
                 bounded=None, assumptions=(), deadline=60, timeout_ms=8000, cases=None, weight=1.0,
                 rounding=False, max_paths=4000, exact=False, thorough_only=False, soft=False,
                 rac_n=400, rac_s=10, chunks=1):
        self.prop, self.fn, self.functions = prop, fn, list(functions)
        self.name = fn.__name__
        self.stubs, self.loops = stubs or {}, loops
        self.prove, self.rac, self.bounded = prove, rac, bounded
        self.assumptions = list(assumptions)
        self.deadline, self.timeout_ms, self.cases = deadline, timeout_ms, cases
        self.weight = weight
        self.rounding = rounding
        self.max_paths = max_paths
        self.exact = exact
        self.thorough_only = thorough_only
        self.soft = soft  # an undischarged (but not refuted) obligation is not an alarm
        self.rac_n, self.rac_s, self.chunks = rac_n, rac_s, chunks
        self.only = None  # prefix of the obligations that belong to this contract; others are supporting


def contract(prop, functions, **kw):
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(Contract(p, fn, functions, **kw))
        return fn
    return deco


# --------------------------------------------------------------------------- concrete
def native(key):
    m, f = key.split(":")
    obj = importlib.import_module(m)
    for part in f.split("."):
        obj = getattr(obj, part)
    return obj


RTOL, ATOL = 1e-7, 1e-9


class ConcK:
    sym = False

    def __init__(self, rng, replay=None, scale=None):
        self.rng = rng
        self.replay = replay or {}
        self.log = {}
        self.np = np
        self.checked = 0
        self.style = rng.integers(0, 5)
        self.nontrivial = False

    # drawing ----------------------------------------------------------------
    def _take(self, name, gen):
        if name in self.replay:
            v = self.replay[name]
        else:
            v = gen()
        nm = name
        j = 1
        while nm in self.log:
            j += 1
            nm = f"{name}#{j}"
        self.log[nm] = v
        return v

    def _real(self):
        r = self.rng
        s = self.style
        if s == 0:
            return float(r.integers(-4, 5))
        if s == 1:
            return float(r.integers(-16, 17)) / 4
        if s == 2:
            return float(r.normal())
        if s == 3:
            return float(r.normal() * 10.0 ** r.integers(-4, 5))
        return float(r.choice([0.0, 1.0, -1.0, r.normal(), r.uniform(-2, 2), 0.5, 2.0]))

    def real(self, name, lo=None, hi=None, choices=None):
        def gen():
            r = self.rng
            if choices is not None and r.random() < 0.5:
                return float(r.choice(choices))
            for _ in range(20):
                x = self._real()
                if lo is not None and hi is not None:
                    u = r.random()
                    x = lo if u < 0.1 else hi if u < 0.2 else lo + (hi - lo) * r.random()
                elif lo is not None:
                    x = lo + abs(x) if r.random() > 0.05 else float(lo)
                elif hi is not None:
                    x = hi - abs(x) if r.random() > 0.05 else float(hi)
                if (lo is None or x >= lo) and (hi is None or x <= hi):
                    return float(x)
            return float(lo if lo is not None else hi)
        return self._take(name, gen)

    def pos(self, name, lo=None, hi=None):
        def gen():
            r = self.rng
            u = r.random()
            if u < 0.3:
                x = float(r.choice([1.0, 0.5, 2.0, 0.25, 3.0, 0.1]))
            elif u < 0.8:
                x = float(r.uniform(0.05, 3))
            else:
                x = float(10 ** r.uniform(-5, 4))
            if hi is not None and x > hi:
                x = hi * float(r.uniform(0.01, 1.0))
            if lo is not None and x < lo:
                x = lo * float(r.uniform(1.0, 3.0))
            return x
        return self._take(name, gen)

    def ext(self, name, nan=False, ninf=True):
        def gen():
            u = self.rng.random()
            if u < 0.15:
                return math.inf
            if u < 0.25 and ninf:
                return -math.inf
            if u < 0.35 and nan:
                return math.nan
            return self._real()
        return self._take(name, gen)

    def int(self, name, lo=0, hi=None, cap=6):
        def gen():
            top = hi if hi is not None else lo + cap
            return int(self.rng.integers(lo, max(top, lo) + 1))
        return int(self._take(name, gen))

    def bool(self, name):
        return bool(self._take(name, lambda: bool(self.rng.random() < 0.5)))

    def choice(self, name, options):
        i = self._take(name, lambda: int(self.rng.integers(len(options))))
        return options[int(i)]

    def array(self, name, shape, ext=False, nan=False, gen=None, kind="f"):
        shape = tuple(int(s) for s in shape)

        def g():
            r = self.rng
            if gen is not None:
                return np.asarray(gen(r, shape), dtype=float if kind == "f" else int)
            if kind == "i":
                return r.integers(-3, 4, size=shape)
            out = np.array([self._real() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
            if ext:
                m = r.random(shape)
                p = r.choice([0.0, 0.2, 0.5])
                out = np.where(m < p, np.inf, out)
                out = np.where(m > 1 - p / 2, -np.inf, out)
            if nan:
                out = np.where(r.random(shape) < r.choice([0, 0.2]), np.nan, out)
            return out
        v = self._take(name, g)
        return np.array(v, dtype={"f": float, "i": int, "b": bool}[kind])

    def symmetric(self, name, shape, gen=None):
        """an array that is symmetric in its last two axes"""
        def g(r, shape):
            b = r.normal(size=shape) * r.choice([0.1, 1.0, 10.0])
            return b + np.swapaxes(b, -1, -2)
        return self.array("symmetric_" + name, shape, gen=gen or g)

    # code --------------------------------------------------------------------
    def get(self, key):
        return native(key)

    def call(self, fn, *a, **kw):
        try:
            return fn(*a, **kw)
        except (Failed, Discard):
            raise
        except Exception as e:
            if harness_fault(e):
                raise
            raise Failed("the call does not raise", "".join(traceback.format_exception_only(type(e), e)).strip()
                         + " " + _where(e))

    def raises(self, exc, fn, *a, **kw):
        """True if the call raises exc; other exceptions are failures"""
        try:
            fn(*a, **kw)
        except exc:
            return True
        except Exception as e:
            if harness_fault(e):
                raise
            raise Failed("only the documented error is raised", repr(e))
        return False

    # formulas ------------------------------------------------------------------
    def assume(self, *conds):
        for c in conds:
            if not _truth(c):
                raise Discard()

    def check(self, name, cond, detail=""):
        self.checked += 1
        if not _truth(cond):
            raise Failed(name, detail() if callable(detail) else detail)

    def note(self, *a):
        pass

    def forall(self, dims, fn):
        if not isinstance(dims, (tuple, list)):
            dims = [dims]
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            if not _truth(fn(*idx)):
                return False
        return True

    def implies(self, c, f):
        return (not _truth(c)) or _truth(f() if callable(f) else f)

    def land(self, *cs):
        return all(_truth(c) for c in cs)

    def lor(self, *cs):
        return any(_truth(c) for c in cs)

    def lnot(self, c):
        return not _truth(c)

    def iff(self, a, b):
        return _truth(a) == _truth(b)

    def eq(self, a, b, rtol=RTOL, atol=ATOL):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and not (a.size == 1 and b.size == 1):
            try:
                np.broadcast_shapes(a.shape, b.shape)
            except ValueError:
                return False
        with np.errstate(all="ignore"):
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            big = np.maximum(np.abs(a), np.abs(b))
            close = np.abs(a - b) <= atol + rtol * big
            return bool(np.all(same | (close & np.isfinite(a) & np.isfinite(b))))

    def same(self, a, b):
        """identical values (nan equals nan)"""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))

    def le(self, a, b, rtol=RTOL, atol=ATOL):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all="ignore"):
            return bool(np.all((a <= b) | (a - b <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))

    def close_iff(self, a, b, c, d, tol=1e-6):
        """a <= b if and only if c <= d, where rounding does not matter"""
        if abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or abs(c - d) <= tol * max(1.0, abs(c), abs(d)):
            return True
        return bool((a <= b) == (c <= d))

    def log_eq(self, a, b):
        """equality of positive numbers, up to rounding relative to the logarithm"""
        return bool(a > 0 and b > 0 and abs(np.log(a) - np.log(b)) <= 1e-9 * (1 + abs(np.log(b))))

    def finite(self, a):
        return bool(np.all(np.isfinite(a)))

    def sum(self, n, fn):
        return sum((fn(i) for i in range(int(n))), 0.0)

    def shape_is(self, a, *shape):
        return tuple(np.shape(a)) == tuple(int(s) for s in shape)

    def len(self, x):
        return len(x)

    def ite(self, c, a, b):
        return a if _truth(c) else b

    def truth(self, c):
        return _truth(c)

    def sure(self, c):
        """the condition holds in every case of the current path"""
        return _truth(c)

    def is_int(self, x):
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

    def has_kind(self, a, kind):
        return {"pinf": a == np.inf, "ninf": a == -np.inf, "nan": a != a}[kind]


_SIG = ("unexpected keyword argument", "required positional argument", "positional argument", "required keyword-only argument")


def harness_fault(e):
    """the exception comes from our own stand-ins or from a changed signature, not from the
    behaviour of the code: the contract cannot be evaluated (no verdict)"""
    import types

    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename if tb else ""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None:
        o = e.obj
        if isinstance(o, (types.SimpleNamespace, types.ModuleType)) or type(o).__module__.startswith(("contracts", "pyvc")):
            return True
    if last.startswith(os.path.join(here, "contracts")):
        return True
    if isinstance(e, KeyError) and e.args and type(e.args[0]).__module__.startswith("pyvc"):
        return True  # a symbolic key in a dict with concrete keys
    if type(e).__name__ == "Z3Exception" or isinstance(e, RecursionError):
        return True
    if last.startswith(os.path.join(here, "pyvc")) and isinstance(e, (AssertionError, NameError, NotImplementedError)):
        return True
    if isinstance(e, TypeError) and any(m in str(e) for m in _SIG):
        if last == os.path.abspath(__file__):  # our own call of the function under contract
            return True
        if "<locals>" in str(e) or "<lambda>" in str(e):
            return True
    return False


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/repo/" in f.filename or "tranquilo" in f.filename]
    return f"at {os.path.basename(fr[-1].filename)}:{fr[-1].lineno}" if fr else ""


def _truth(c):
    if isinstance(c, np.ndarray):
        return bool(c.all())
    if callable(c) and not isinstance(c, (bool, np.bool_)):
        return _truth(c())
    return bool(c)


_last = [None]


def last_conc():
    return _last[0]


def run_concrete(con, rng, replay=None):
    """(status, detail, k): status ok | discard | fail"""
    k = ConcK(rng, replay)
    _last[0] = k
    with np.errstate(all="ignore"):
        try:
            con.fn(k)
        except Discard:
            return "discard", None, k
        except Failed as f:
            return "fail", f, k
    if k.checked == 0:
        return "discard", None, k
    return "ok", None, k


# --------------------------------------------------------------------------- symbolic
class SymK:
    sym = True

    def __init__(self, world, ctx):
        from pyvc import npshim

        self.world, self.ctx = world, ctx
        self.np = npshim.np
        self.draws = {}

    def _rec(self, name, v):
        nm, j = name, 1
        while nm in self.draws:
            j += 1
            nm = f"{name}#{j}"
        self.draws[nm] = v
        return v

    def real(self, name, lo=None, hi=None, choices=None):
        import z3
        from pyvc.values import Num

        c = self.ctx
        x = Num(c.fresh(name, z3.RealSort()), False)
        if lo is not None:
            c.assume(x >= lo)
        if hi is not None:
            c.assume(x <= hi)
        return self._rec(name, x)

    def pos(self, name, lo=None, hi=None):
        x = self.real(name)
        self.ctx.assume(x > 0)
        if lo is not None:
            self.ctx.assume(x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
        return x

    def ext(self, name, nan=False, ninf=True):
        import z3
        from pyvc.values import Num

        c = self.ctx
        kd = c.fresh(name + "_kind", z3.IntSort())
        opts = [kd == 0, kd == 1] + ([kd == 2] if ninf else []) + ([kd == 3] if nan else [])
        c.assume(z3.Or(opts))
        return self._rec(name, Num(c.fresh(name, z3.RealSort()), False, kd))

    def int(self, name, lo=0, hi=None, cap=None):
        import z3
        from pyvc.values import Num

        c = self.ctx
        x = Num(c.fresh(name, z3.IntSort()), True)
        if lo is not None:
            c.assume(x >= lo)
        if hi is not None:
            c.assume(x <= hi)
        return self._rec(name, x)

    def bool(self, name):
        import z3
        from pyvc.values import SB

        return self._rec(name, SB(self.ctx.fresh(name, z3.BoolSort())))

    def choice(self, name, options):
        import z3

        c = self.ctx
        if len(options) == 1:
            return options[0]
        x = c.fresh(name, z3.IntSort())
        c.assume(z3.And(x >= 0, x < len(options)))
        from pyvc.values import Num

        self._rec(name, Num(x, True))
        for i in range(len(options) - 1):
            if c.branch(x == i):
                return options[i]
        return options[-1]

    def array(self, name, shape, ext=False, nan=False, gen=None, kind="f"):
        import z3
        from pyvc.arrays import SArr
        from pyvc.values import Num, SB

        c = self.ctx
        nd = len(shape)
        srt = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
        f, _ = c.fresh_fun(name, *[z3.IntSort()] * nd, srt)
        if ext or nan:
            fk, _ = c.fresh_fun(name + "_kind", *[z3.IntSort()] * nd, z3.IntSort())
            dims = [d.v if isinstance(d, Num) else d for d in shape]
            top = 3 if nan else 2
            c.add_schema(nd, lambda *t: z3.And(fk(*t) >= 0, fk(*t) <= top) if ext else
                         z3.Or(fk(*t) == 0, fk(*t) == 3))
            a = SArr(shape, lambda *i: Num(f(*i), False, fk(*i)), "f")
        elif kind == "b":
            a = SArr(shape, lambda *i: SB(f(*i)), "b")
        else:
            a = SArr(shape, lambda *i: Num(f(*i), kind == "i"), kind)
        self._rec(name, SArr(a.dims, a.snap(), a.k))
        return a

    def symmetric(self, name, shape, gen=None):
        h = self.array("symmetric_" + name, shape)
        f = h.snap()
        from pyvc import values as V

        self.assume(V.Forall([d for d in h.dims], lambda *t: V.num(f(*t)).v == V.num(f(*t[:-2], t[-1], t[-2])).v))
        return h

    def get(self, key):
        return self.world.fn(key)

    def call(self, fn, *a, **kw):
        from pyvc.core import PathEnd

        try:
            return fn(*a, **kw)
        except Exception as e:
            if harness_fault(e):
                from pyvc.core import Unsupported

                raise Unsupported(f"stand-in: {type(e).__name__}: {e} {_tb(e)}")
            ok = self.ctx.check("the call does not raise", False)
            ob = self.ctx.obligations[-1]
            if not ok:
                ob.detail = f"{type(e).__name__}: {e} {_where(e)}"
            raise PathEnd()

    def raises(self, exc, fn, *a, **kw):
        from pyvc.core import PathEnd

        try:
            fn(*a, **kw)
        except exc:
            return True
        except Exception as e:
            if harness_fault(e):
                from pyvc.core import Unsupported

                raise Unsupported(f"stand-in: {type(e).__name__}: {e} {_tb(e)}")
            self.ctx.check("only the documented error is raised", False)
            self.ctx.obligations[-1].detail = f"{type(e).__name__}: {e} {_where(e)}"
            raise PathEnd()
        return False

    def assume(self, *conds):
        for c in conds:
            self.ctx.assume(c() if callable(c) and not getattr(c, "_vc_sym", False) else c)

    def check(self, name, cond, detail=""):
        if callable(cond) and not getattr(cond, "_vc_sym", False):
            cond = cond()
        self.ctx.check(name, cond)

    def note(self, *a):
        pass

    def forall(self, dims, fn):
        from pyvc import values as V

        return V.forall(dims, fn)

    def implies(self, c, f):
        from pyvc import values as V

        return V.implies(c, f() if callable(f) and not getattr(f, "_vc_sym", False) else f)

    def land(self, *cs):
        from pyvc import values as V

        if any(isinstance(c, V.Formula) or not isinstance(c, (bool, V.SB)) for c in cs):
            return V.Conj(cs)
        return V.band(*cs)

    def lor(self, *cs):
        from pyvc import values as V

        return V.bor(*cs)

    def lnot(self, c):
        from pyvc import values as V

        return V.bnot(c)

    def iff(self, a, b):
        import z3
        from pyvc import values as V

        return V.mkb(V.bterm(V.to_bool(a)) == V.bterm(V.to_bool(b)))

    def eq(self, a, b, rtol=None, atol=None):
        return self._pw(a, b, lambda x, y: _veq(x, y))

    same = eq

    def le(self, a, b, rtol=None, atol=None):
        from pyvc import values as V

        return self._pw(a, b, lambda x, y: V.x_le(V.num(x), V.num(y)))

    def close_iff(self, a, b, c, d, tol=None):
        return self.iff(a <= b, c <= d)

    def log_eq(self, a, b):
        from pyvc import npshim, values as V
        from pyvc.core import Undecided

        if not npshim.log_equal(a, b):
            raise Undecided("the logarithms have different normal forms")
        return True

    def finite(self, a):
        from pyvc import values as V
        from pyvc.arrays import SArr

        if isinstance(a, SArr):
            f = a.snap()
            return V.forall(list(a.dims), lambda *i: V.isfinite(f(*[x.v for x in i])))
        return V.isfinite(a)

    def _pw(self, a, b, f):
        from pyvc import values as V
        from pyvc.arrays import SArr, broadcast_dims, bindex, is_arr, to_sarr

        if is_arr(a) or is_arr(b) or isinstance(a, (list, tuple)):
            a, b = to_sarr(a), to_sarr(b)
            dims = broadcast_dims(a.dims, b.dims)
            fa, fb = a.snap(), b.snap()
            nd = len(dims)
            return V.forall(list(dims), lambda *i: f(fa(*bindex(a.dims, nd, [x.v for x in i])),
                                                     fb(*bindex(b.dims, nd, [x.v for x in i]))))
        return f(a, b)

    def sum(self, n, fn):
        from pyvc.arrays import dnorm, fold, make_reduction
        from pyvc.values import Num

        n = dnorm(n)
        if isinstance(n, int):
            return fold("sum", [fn(i) for i in range(n)])
        return make_reduction("sum", n, lambda i: fn(Num(i, True)), 0)()

    def shape_is(self, a, *shape):
        from pyvc import values as V
        from pyvc.arrays import dterm, dnorm, to_sarr

        a = to_sarr(a)
        if a.ndim != len(shape):
            return False
        import z3

        return V.mkb(z3.And([dterm(x) == dterm(dnorm(y)) for x, y in zip(a.dims, shape)] or [z3.BoolVal(True)]))

    def len(self, x):
        from pyvc.builtins_shim import sym_len

        return sym_len(x)

    def ite(self, c, a, b):
        from pyvc import values as V

        return V.ite(c, a, b)

    def truth(self, c):
        return bool(c)

    def sure(self, c):
        return c if isinstance(c, bool) else self.ctx.provable(c)

    def is_int(self, x):
        from pyvc.values import Num

        return isinstance(x, int) or (isinstance(x, Num) and bool(x.isint))

    def has_kind(self, a, kind):
        from pyvc import values as V

        return V.mkb(V.kis(V.num(a), {"pinf": V.PINF, "ninf": V.NINF, "nan": V.NAN}[kind]))


def _veq(x, y):
    from pyvc import values as V

    if isinstance(x, (bool, V.SB)) and isinstance(y, (bool, V.SB)):
        return V.mkb(V.bterm(x) == V.bterm(y))
    return V.same(x, y)


_current_k = None


def current_k():
    return _current_k


def run_symbolic(con, tier="quick", patience=1):
    """prove a contract; returns a plain dict (picklable). patience scales all time limits"""
    _need_z3()
    global _current_k
    import z3
    from pyvc import core
    from pyvc.loader import World

    t0 = time.time()
    dl = con.deadline * max(4 if tier == "thorough" else 1, patience)
    ctx = core.Ctx(timeout_ms=con.timeout_ms * patience, deadline=t0 + dl, rounding=con.rounding,
                   max_paths=con.max_paths)
    res = {"contract": con.name, "functions": con.functions, "bounded": con.bounded,
           "obligations": [], "status": "proved", "error": "", "backends": {}}
    state = {"reached": 0}

    def wrap(stub):
        def f(*a, **kw):
            return stub(_current_k, *a, **kw)
        return f

    cx = []
    try:
        loops = con.loops() if callable(con.loops) else (con.loops or {})
        stubs = {key: wrap(s) for key, s in con.stubs.items()}
        world = World(stubs=stubs, loops=loops)

        def path():
            global _current_k
            k = SymK(world, ctx)
            _current_k = k
            world.vc.ticks.clear()
            for l in loops.values():
                l.k = k
            n0 = len(ctx.obligations)
            con.fn(k)
            if len(ctx.obligations) > n0:
                if ctx.solver.check() != z3.unsat:
                    state["reached"] += 1

        def hook(ob):
            if ob.status == "refuted" and ob.model is not None and len(cx) < 3:
                m = extract_model(_current_k, ob.model)
                if m is not None:
                    cx.append((ob.name, m))

        ctx.cx_hook = hook
        ctx.explore(path)
    except core.Unsupported as e:
        res["status"], res["error"] = "unsupported", f"{e} {_tb(e)}"
    except core.Undecided as e:
        res["status"], res["error"] = "undecided", str(e)
    except SyntaxError as e:
        res["status"], res["error"] = "unsupported", repr(e)
    except Exception as e:
        res["status"], res["error"] = "error", f"{e!r} {_tb(e)}"
    agg = {}
    for ob in ctx.obligations:
        a = agg.setdefault(ob.name, {"name": ob.name, "instances": 0, "proved": 0, "refuted": 0,
                                     "unknown": 0, "secs": 0.0, "detail": ""})
        a["instances"] += 1
        a[ob.status] += 1
        a["secs"] += ob.secs
        if ob.status != "proved" and not a["detail"]:
            a["detail"] = ob.detail
            a["path"] = getattr(ob, "pc", [])
        res["backends"][ob.backend] = res["backends"].get(ob.backend, 0) + 1
    res["obligations"] = list(agg.values())
    res["paths"], res["dead"] = ctx.n_paths, ctx.dead
    res["solver_s"] = round(ctx.solver_s, 2)
    res["queries"] = ctx.queries
    res["trusted"] = dict(ctx.trusted)
    res["wall_s"] = round(time.time() - t0, 2)
    res["reached"] = state["reached"]
    res["counterexamples"] = cx
    if con.only:
        # failing supporting obligations (of other properties) leave this contract undecided
        rest = [o for o in res["obligations"] if not o["name"].startswith(con.only)]
        res["obligations"] = [o for o in res["obligations"] if o["name"].startswith(con.only)]
        if res["status"] == "proved" and any(o["refuted"] or o["unknown"] for o in rest):
            res["status"], res["error"] = "undecided", "an obligation of another property failed: " + rest[0]["name"]
        res["supporting"] = sum(o["instances"] for o in rest)
    if any(o["refuted"] for o in res["obligations"]):
        res["status"] = "refuted"
    elif res["status"] == "proved":
        if any(o["unknown"] for o in res["obligations"]):
            res["status"] = "unknown"
        elif not res["obligations"] or not state["reached"]:
            res["status"] = "vacuous"
    return res


def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    rel = [f for f in tb if "/src/tranquilo/" in f.filename]
    last = tb[-1] if tb else None
    s = ""
    if rel:
        s += f"[{os.path.basename(rel[-1].filename)}:{rel[-1].lineno}]"
    if last:
        s += f"[{os.path.basename(last.filename)}:{last.lineno}]"
    return s


def extract_model(k, model):
    """draws of the contract under a solver model -> concrete values (or None)"""
    import z3
    from fractions import Fraction
    from pyvc import values as V
    from pyvc.arrays import SArr

    def val(t):
        r = model.eval(t, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return float(r.as_fraction())
        if z3.is_algebraic_value(r):
            return float(r.approx(20).as_fraction())
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return 0.0

    def scalar(v):
        if isinstance(v, V.SB):
            return val(v.t)
        if isinstance(v, bool):
            return v
        kd = v.kind if isinstance(v.kind, int) else val(v.kind)
        if kd == 1:
            return math.inf
        if kd == 2:
            return -math.inf
        if kd == 3:
            return math.nan
        return val(v.v)

    out = {}
    for nm, v in k.draws.items():
        if isinstance(v, SArr):
            dims = [d if isinstance(d, int) else val(d) for d in v.dims]
            if any(d > 12 for d in dims):
                return None
            a = np.empty(dims, dtype={"f": float, "i": int, "b": bool}[v.k])
            for idx in itertools.product(*[range(d) for d in dims]):
                a[idx] = scalar(v._fn(*[z3.IntVal(i) for i in idx]))
            out[nm] = a
        else:
            out[nm] = scalar(v)
    return out
