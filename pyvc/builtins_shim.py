"""Builtins, loop summaries and fake third-party modules for the verified code."""
import builtins
import types

import numpy as real_np
import z3

from pyvc import arrays as A
from pyvc import core
from pyvc import npshim as N
from pyvc import values as V
from pyvc.arrays import I, SArr, dnorm, dterm, simp, to_sarr
from pyvc.core import PathEnd, Undecided, Unsupported, cur
from pyvc.loader import UNDEF
from pyvc.seqs import SDict, SRange, SSeq, SStr, Union, force, from_concrete, merge, seq_of
from pyvc.values import Num, SB, mkb, num

MAX_TICKS = 60


# ------------------------------------------------------------------ substitution
def subst_value(v, pairs):
    """structured value with template variables replaced by index terms"""
    if isinstance(v, Num):
        k = v.kind if isinstance(v.kind, int) else z3.substitute(v.kind, *pairs)
        return Num(z3.substitute(v.v, *pairs), v.isint, k)
    if isinstance(v, SB):
        return mkb(z3.substitute(v.t, *pairs))
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        parts = [subst_value(x, pairs) for x in v]
        return type(v)(*parts) if hasattr(v, "_fields") else tuple(parts)
    if isinstance(v, list):
        return [subst_value(x, pairs) for x in v]
    if isinstance(v, SArr):
        f = v.snap()
        dims = [d if isinstance(d, int) else z3.substitute(d, *pairs) for d in v.dims]
        tv = [a for a, _ in pairs]

        def fn(*idx):
            c = cur()
            saved = c.tvars
            c.tvars = saved + [t for t in tv if all(not t.eq(s) for s in saved)]
            try:
                e = f(*idx)
            finally:
                c.tvars = saved
            return subst_value(e, pairs)

        out = SArr(dims, fn, v.k)
        out.tag = dict(v.tag)
        return out
    if isinstance(v, SSeq):
        n = v.n if isinstance(v.n, int) else z3.substitute(v.n, *pairs)
        return SSeq(n, lambda i: subst_value(v.item(i), pairs), dict(v.tag))
    if isinstance(v, Union):
        return Union(subst_value(v.c, pairs), subst_value(v.a, pairs), subst_value(v.b, pairs))
    if v is None or isinstance(v, (int, float, str, bool, real_np.ndarray, real_np.generic)) or v is UNDEF:
        return v
    if hasattr(v, "subst_value"):
        return v.subst_value(pairs)
    if callable(v) or isinstance(v, SStr):
        return v
    raise Unsupported(f"generic value of type {type(v)}")


def generic_map(n, fn):
    """list of n values fn(i): evaluated once at a generic index; SSeq"""
    c = cur()
    if isinstance(n, int):
        return from_concrete([fn(z3.IntVal(i)) for i in range(n)])
    tv, res = c.explore_template([n], lambda i: force(fn(i)))
    if not res:
        # no local path at all: the range must be empty
        c.add_fact(dterm(n) <= 0)
        return SSeq(n, lambda i: num(0))
    if any(eff for _, _, eff in res):
        raise Unsupported("comprehension with side effects")

    def item(i):
        i = simp(I(i))
        pairs = list(zip(tv, [i]))
        out = subst_value(res[-1][1], pairs)
        for g, v, _ in reversed(res[:-1]):
            out = merge(mkb(z3.substitute(g, *pairs)), subst_value(v, pairs), out)
        return out

    s = SSeq(n, item)
    s.tag["generic"] = (tv, res)
    return s


def sym_len(x):
    x = force(x)
    if isinstance(x, SArr):
        if not x.dims:
            raise TypeError("len() of unsized object")
        d = x.dims[0]
        return d if isinstance(d, int) else Num(d, True)
    if isinstance(x, (SSeq, SDict)):
        return x.length()
    if isinstance(x, SRange):
        return V.dim_val(x.n)
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return builtins.len(x)


# ------------------------------------------------------------------ type predicates
_NUMT = (int, float, real_np.integer, real_np.floating, real_np.number, real_np.generic)


def sym_isinstance(x, t):
    x = force(x)
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(_flatten(ts))
    if object in ts:
        return True
    if isinstance(x, Num):
        return any(u is not bool and isinstance(u, type) and (
            (issubclass(u, int) or u is real_np.integer) if x.isint else
            (issubclass(u, float) or u in (real_np.floating, real_np.float64))) or u in (
                real_np.number, real_np.generic) or u.__name__ in ("Number", "Real") for u in ts)
    if isinstance(x, SB):
        return any(u in (bool, real_np.bool_) for u in ts)
    if isinstance(x, SArr):
        return any(u is real_np.ndarray for u in ts)
    if isinstance(x, SSeq):
        return any(u is list for u in ts)
    if isinstance(x, SRange):
        return any(u is range for u in ts)
    if isinstance(x, SDict):
        return any(u is dict for u in ts)
    if isinstance(x, SStr):
        return any(u is str for u in ts)
    return builtins.isinstance(x, ts)


def _flatten(ts):
    for u in ts:
        if isinstance(u, tuple):
            yield from _flatten(u)
        else:
            yield u


# ------------------------------------------------------------------ builtins
def sym_int(x=0, *a):
    x = force(x)
    if isinstance(x, (Num, SB)):
        return V.py_int(x)
    if isinstance(x, SArr) and x.ndim <= 1 and x.size == 1:
        return sym_int(x.item())
    return builtins.int(x, *a)


def sym_float(x=0.0):
    x = force(x)
    if isinstance(x, (Num, SB)):
        return V.to_real(num(x))
    if isinstance(x, SArr):
        return V.to_real(num(x.item()))
    return builtins.float(x)


def sym_bool(x=False):
    return builtins.bool(force(x))


def _args(a, key):
    if len(a) == 1:
        s = seq_of(a[0])
        if s is not None and not isinstance(s.n, int):
            return None, s
        return list(s if s is not None else a[0]), None
    return list(a), None


def _by_key(name, a, key, default):
    """min or max with a key function: the first item with an extreme key"""
    s = seq_of(a[0]) if len(a) == 1 else None
    if s is None or isinstance(s.n, int):
        kw = {} if default is UNDEF else {"default": default}
        return getattr(builtins, name)(*a, key=key, **kw)
    if key is None:
        key = lambda x: x  # noqa: E731
    if not s.length() > 0:
        if default is UNDEF:
            raise ValueError(f"{name}() arg is an empty sequence")
        return default
    arr = SArr((s.n,), lambda i: num(key(s.item(i))), "f")
    w = num(A.arg_extreme(arr, name))
    if not arr[w] == arr[w]:
        raise Unsupported(f"{name} with a key that is not a number")
    return s.item(I(w))


def sym_max(*a, key=None, default=UNDEF):
    if key is not None or default is not UNDEF:
        return _by_key("max", a, key, default)
    xs, s = _args(a, key)
    if s is not None:
        return A.reduce_(to_sarr(s), "max")
    if not N.symbolic(xs):
        return builtins.max(xs)
    return V.py_max(*[num(x) for x in xs])


def sym_min(*a, key=None, default=UNDEF):
    if key is not None or default is not UNDEF:
        return _by_key("min", a, key, default)
    xs, s = _args(a, key)
    if s is not None:
        return A.reduce_(to_sarr(s), "min")
    if not N.symbolic(xs):
        return builtins.min(xs)
    return V.py_min(*[num(x) for x in xs])


def sym_sum(x, start=0):
    s = seq_of(x)
    if s is not None and not isinstance(s.n, int):
        return A.reduce_(to_sarr(s), "sum") + start
    out = start
    for e in (s if s is not None else x):
        out = out + e
    return out


def sym_any(x):
    s = seq_of(x)
    if s is not None and not isinstance(s.n, int):
        return A.reduce_(SArr((s.n,), lambda i: V.to_bool(s.item(i)), "b"), "any")
    for e in (s if s is not None else x):
        if e:
            return True
    return False


def sym_all(x):
    s = seq_of(x)
    if s is not None and not isinstance(s.n, int):
        return A.reduce_(SArr((s.n,), lambda i: V.to_bool(s.item(i)), "b"), "all")
    for e in (s if s is not None else x):
        if not e:
            return False
    return True


def sym_abs(x):
    return abs(x)


def sym_range(*a):
    if N.symbolic(a):
        a = list(a)
        if len(a) == 1:
            a = [0, a[0]]
        return SRange(*[x if isinstance(x, builtins.int) else x for x in a])
    return builtins.range(*[x.__index__() for x in a])


def sym_list(x=()):
    s = seq_of(x) if not isinstance(x, (builtins.list, tuple)) else None
    if s is not None:
        if isinstance(s.n, int):
            return builtins.list(s)
        return SSeq(s.n, s.item, dict(s.tag))
    return builtins.list(x)


def sym_tuple(x=()):
    s = seq_of(x) if not isinstance(x, (builtins.list, tuple)) else None
    if s is not None:
        if isinstance(s.n, int):
            return builtins.tuple(s)
        return s
    return builtins.tuple(x)


def sym_dict(*a, **kw):
    if a and isinstance(a[0], SDict):
        return a[0]
    return builtins.dict(*a, **kw)


def _is_symlen(x):
    s = seq_of(x)
    return s is not None and not isinstance(s.n, int)


def sym_zip(*xs, strict=False):
    if any(_is_symlen(x) for x in xs):
        ss = []
        for x in xs:
            s = seq_of(x)
            ss.append(s if s is not None else from_concrete(x))
        n = ss[0].n
        for s in ss[1:]:
            n = dnorm(z3.If(dterm(s.n) < dterm(n), dterm(s.n), dterm(n)))
            if not isinstance(n, int):
                if cur().provable(dterm(n) == dterm(ss[0].n)):
                    n = ss[0].n
        return SSeq(n, lambda i: tuple(s.item(I(i)) for s in ss))
    return builtins.zip(*[list(seq_of(x)) if seq_of(x) is not None else x for x in xs])


def sym_enumerate(x, start=0):
    if _is_symlen(x):
        s = seq_of(x)
        return SSeq(s.n, lambda i: (Num(simp(I(i) + start), True), s.item(I(i))))
    return builtins.enumerate(x, start)


def sym_reversed(x):
    s = seq_of(x)
    if s is not None and not isinstance(s.n, int):
        return SSeq(s.n, lambda i: s.item(simp(dterm(s.n) - 1 - I(i))))
    return builtins.reversed(list(s) if s is not None else x)


def sym_sorted(x, key=None, reverse=False):
    if isinstance(x, dict) and not isinstance(x, SDict):
        x = list(x)
    if _is_symlen(x) or N.symbolic(x):
        raise Unsupported("sorted of symbolic values")
    return builtins.sorted(x, key=key, reverse=reverse)


def sym_set(x=()):
    if isinstance(x, dict) and not isinstance(x, SDict):
        x = list(x)  # the keys
    if _is_symlen(x) or N.symbolic(x):
        raise Unsupported("set of symbolic values")
    return builtins.set(x)


def sym_round(x, n=None):
    if N.symbolic(x):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sym_str(x="", *a):
    if isinstance(x, SStr):
        return x
    return builtins.str(x, *a)


def overrides():
    return {
        "len": sym_len, "isinstance": sym_isinstance,
        "max": sym_max, "min": sym_min, "sum": sym_sum, "any": sym_any, "all": sym_all,
        "abs": sym_abs, "zip": sym_zip, "enumerate": sym_enumerate,
        "reversed": sym_reversed, "sorted": sym_sorted, "round": sym_round,
    }


CONVERTERS = {"int": sym_int, "float": sym_float, "bool": sym_bool, "list": sym_list,
              "tuple": sym_tuple, "dict": sym_dict, "range": sym_range, "set": sym_set}


# ------------------------------------------------------------------ runtime
class LoopResult:
    def __init__(self, vars, returned=False, value=None):
        self.vars, self.returned, self.value = vars, returned, value


class TList(list):
    """list that records what a loop body appends"""

    def __init__(self, base, log):
        super().__init__(base)
        self.log = log

    def append(self, x):
        self.log.append(("append", self, x))

    def __getitem__(self, i):
        raise Unsupported("reading a list that is built in a symbolic loop")

    def __iter__(self):
        raise Unsupported("reading a list that is built in a symbolic loop")

    def extend(self, xs):
        raise Unsupported("extend in a symbolic loop")


class TDict(dict):
    def __init__(self, base, log):
        super().__init__(base)
        self.log = log

    def __setitem__(self, k, v):
        self.log.append(("set", self, (k, v)))

    def __getitem__(self, k):
        raise Unsupported("reading a dict that is built in a symbolic loop")


class _LogEntry:
    def __init__(self, entry, log):
        self.entry, self.log = entry, log

    def undo(self):
        pass


class _Log(list):
    def append(self, e):
        c = cur()
        if c.journal is not None:
            c.journal.append(_LogEntry(e, self))
        else:
            raise Unsupported("log outside a template")


class Runtime:
    def __init__(self, world):
        self.world = world
        self.ticks = {}

    @staticmethod
    def conv(name, *a, **kw):
        if not core.active():
            return getattr(builtins, name)(*a, **kw)
        return CONVERTERS[name](*a, **kw)

    @staticmethod
    def call1(f, x):
        # a call of a variable, which may hold one of the builtin types
        if (f is float or f is int or f is bool) and core.active():
            return CONVERTERS[f.__name__](x)
        return f(x)

    # variables ---------------------------------------------------------------
    @staticmethod
    def get(f):
        try:
            return f()
        except NameError:
            return UNDEF

    @staticmethod
    def unpack(e, n):
        e = force(e)
        if isinstance(e, SArr):
            if e.dims[0] != n:
                raise ValueError("unpack")
            return [e[i] for i in range(n)]
        out = list(e)
        if len(out) != n:
            raise ValueError("not enough values to unpack")
        return out

    # iteration ---------------------------------------------------------------
    @staticmethod
    def iterable(x):
        x = force(x)
        if isinstance(x, (SArr, SSeq, SRange, SDict)):
            return x
        if hasattr(x, "vc_iter"):
            return x.vc_iter()
        return x

    def is_native(self, it, key):
        if key in self.world.loops:
            return False
        s = seq_of(it)
        return s is None or isinstance(s.n, int)

    @staticmethod
    def native_iter(it):
        s = seq_of(it)
        if s is None:
            return it
        if isinstance(it, SRange):
            return [z3.simplify(it.start + i * it.step).as_long()
                    if z3.is_int_value(z3.simplify(it.start + i * it.step)) else
                    Num(z3.simplify(it.start + i * it.step), True) for i in range(it.n)]
        return [s.item(z3.IntVal(i)) for i in range(s.n)]

    def while_native(self, key):
        return key not in self.world.loops

    def start(self, key):
        self.ticks[key] = 0

    def tick(self, key):
        self.ticks[key] = self.ticks.get(key, 0) + 1
        if core.active() and self.ticks[key] > MAX_TICKS:
            raise Unsupported(f"loop {key} without an invariant does not end")

    def for_loop(self, key, it, body, names, vals):
        h = self.world.loops.get(key)
        if h is not None:
            self.world.same_loops(key)
            return h.run_for(it, body, names, vals)
        return summarize(key, it, body, names, vals)

    def while_loop(self, key, cond, body, names, vals):
        self.world.same_loops(key)
        return self.world.loops[key].run_while(cond, body, names, vals)

    @staticmethod
    def contains(x, container, negate):
        """`x in container`; symbolic where the container has symbolic length"""
        container = force(container)
        if isinstance(container, SDict):
            r = container.has(x)
        elif (isinstance(container, SSeq) and not isinstance(container.n, int)) or (
                isinstance(container, SArr) and container.ndim == 1 and not isinstance(container.dims[0], int)):
            s = seq_of(container)
            r = SDict(s.n, s.item, None).has(x)
        else:
            r = x in container
            return not r if negate else r
        return V.bnot(r) if negate else r

    # comprehensions ------------------------------------------------------------
    def comp(self, kind, it, f, cond):
        it = force(it)
        if hasattr(it, "vc_iter"):
            it = it.vc_iter()
        s = seq_of(it) if not isinstance(it, (list, tuple)) else None
        if s is None or isinstance(s.n, int):
            src = it if s is None else (self.native_iter(it))
            if kind == "gen":
                return (f(e) for e in src if cond is None or cond(e))
            if kind == "list":
                return [f(e) for e in src if cond is None or cond(e)]
            if kind == "set":
                return {f(e) for e in src if cond is None or cond(e)}
            items = [f(e) for e in src if cond is None or cond(e)]
            ks = [k.__index__() if isinstance(k, Num) and k.isint and V._isconst(z3.simplify(k.v)) else k for k, _ in items]
            if any(isinstance(k, Num) for k in ks):
                return small_dict(items)
            return dict(zip(ks, (v for _, v in items)))
        n, item = s.n, s.item
        if cond is not None:
            cs = generic_map(n, lambda i: V.to_bool(cond(item(i))))
            from pyvc.indexing import mask_selection

            m, sel, _ = mask_selection(SArr((n,), lambda i: V.to_bool(cs.item(i)), "b"))
            item0 = item
            n = dnorm(m)
            item = lambda i: item0(sel(I(i)))
        out = generic_map(n, lambda i: f(item(i)))
        if kind in ("list", "gen"):
            return out
        if kind == "dict":
            return SDict(n, lambda i: out.item(i)[0], lambda i: out.item(i)[1])
        raise Unsupported("set comprehension over a symbolic sequence")


def small_dict(items):
    """a dict of few entries whose keys are unknown numbers"""
    if len(items) > 1:
        cur().trusted["dict keys"] = "keys of a dict comprehension are taken to be distinct"

    def lookup(k):
        for kk, v in reversed(items):
            if cur().branch(V.bterm(num(kk) == num(k))):
                return v
        raise KeyError(k)

    ks, vs = from_concrete([k for k, _ in items]), from_concrete([v for _, v in items])
    return SDict(len(items), ks.item, vs.item, lookup=lookup)


def summarize(key, it, body, names, vals, arrays=False):
    """for loop over a symbolic sequence whose iterations are independent

    arrays: arrays written in the loop are taken to be accumulators"""
    c = cur()
    s = seq_of(it)
    n = s.n
    aprobe = {}
    log = _Log()
    tracked = []
    acc = {}
    for nm, v in zip(names, vals):
        if isinstance(v, list):
            tracked.append(TList(v, log))
        elif isinstance(v, dict) and not isinstance(v, TDict):
            tracked.append(TDict(v, log))
        else:
            tracked.append(v)
    # accumulator candidates: numeric scalars are replaced by opaque symbols
    probes = {}
    for k, (nm, v) in enumerate(zip(names, tracked)):
        if isinstance(v, (Num, SB)) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
            nv = num(v)
            if not V.fin(nv):
                continue
            pc = z3.Const(c.name("acc"), z3.IntSort() if nv.isint else z3.RealSort())
            probes[k] = pc
            tracked[k] = Num(pc, nv.isint)

    if arrays:
        for k, (nm, v) in enumerate(zip(names, tracked)):
            if isinstance(v, real_np.ndarray) and v.dtype == float and v.ndim:
                v = A.to_sarr(v)
            if isinstance(v, SArr) and v.ndim and v.k == "f":
                pf, pn = c.fresh_fun("acc_array", *[z3.IntSort()] * v.ndim, z3.RealSort())
                tracked[k] = SArr(v.dims, lambda *i, pf=pf: Num(pf(*[I(t) for t in i]), False), "f")
                aprobe[k] = (pf, pn, v)

    def one(i):
        out = body(s.item(i), *tracked)
        if not aprobe or out[0] != 0:
            return out
        return out[0], out[1], tuple((o.snap(), o.dims) if k in aprobe and isinstance(o, SArr) else o for k, o in enumerate(out[2]))

    tv, res = c.explore_template([n], one)
    if not res:
        if c.provable(dterm(n) <= 0):
            return LoopResult(vals)
        raise Unsupported(f"loop {key}: no normal iteration")
    if any(r[1][0] != 0 for r in res):
        raise Unsupported(f"loop {key}: break or return in a symbolic loop")
    out = list(vals)
    # effects: same append/set structure on every local path
    sigs = []
    for g, v, eff in res:
        sig = []
        for e in list(eff):
            if not isinstance(e, _LogEntry):
                if not arrays:
                    return summarize(key, it, body, names, vals, arrays=True)
                if any(getattr(e, "obj", None) is tracked[k] for k in aprobe):
                    eff.remove(e)
                    continue
                raise Unsupported(f"loop {key}: array writes in a symbolic loop")
            sig.append((e.entry[0], id(e.entry[1])))
        sigs.append(tuple(sig))
    if any(x != sigs[0] for x in sigs):
        raise Unsupported(f"loop {key}: iterations with different effects")

    def merged(sel):
        def item(i):
            pairs = [(tv[0], simp(I(i)))]
            o = subst_value(sel(res[-1]), pairs)
            for r in reversed(res[:-1]):
                o = merge(mkb(z3.substitute(r[0], *pairs)), subst_value(sel(r), pairs), o)
            return o
        return item

    from pyvc.seqs import concat

    for pos, (op, oid) in enumerate(sigs[0]):
        k = [j for j, t in enumerate(tracked) if id(t) == oid]
        if len(k) != 1 or sum(1 for x in sigs[0] if x[1] == oid) != 1:
            raise Unsupported(f"loop {key}: several writes to one container")
        k = k[0]
        if op == "append":
            seq = SSeq(n, merged(lambda r, pos=pos: r[2][pos].entry[2]))
            out[k] = concat(vals[k], seq) if vals[k] else seq
        else:
            kv = merged(lambda r, pos=pos: r[2][pos].entry[2])
            new = SDict(n, lambda i, kv=kv: kv(i)[0], lambda i, kv=kv: kv(i)[1])
            if vals[k]:
                base = vals[k]
                ks, vs = list(base.keys()), list(base.values())
                kk = concat(from_concrete(ks), SSeq(n, new.key))
                vv = concat(from_concrete(vs), SSeq(n, new.val))
                new = SDict(kk.n, kk.item, vv.item)
            out[k] = new
    nonempty = c.provable(dterm(n) > 0) or c.branch(dterm(n) > 0)
    maps = {}  # arrays of which iteration i writes exactly entry (row) i
    for k in aprobe:
        m = _own_entries(tv[0], [r[1][2][k] for r in res], aprobe[k])
        if m is not None:
            maps[aprobe[k][1]] = m
    pns = {a[1] for a in aprobe.values()}

    def clean(t):
        """own entries of written arrays hold their values from before the loop"""
        sub = []
        for a in _all_apps(t):
            nm = a.decl().name()
            if nm in pns:
                if nm not in maps or not z3.eq(z3.simplify(a.arg(0)), tv[0]):
                    raise Unsupported(f"loop {key}: reads an array that is written in the loop")
                o = num(maps[nm][1](*a.children()))
                if not V.fin(o):
                    raise Unsupported(f"loop {key}: array may hold infinite values")
                sub.append((a, V.real(o)))
        return z3.substitute(t, *sub) if sub else t

    if maps:
        res = [(clean(r[0]) if z3.is_expr(r[0]) else r[0], r[1], r[2]) for r in res]
    for k, (nm, v0) in enumerate(zip(names, vals)):
        if isinstance(tracked[k], (TList, TDict)):
            continue
        newv = [r[1][2][k] for r in res]
        if all(x is tracked[k] for x in newv):
            continue
        if k in aprobe and aprobe[k][1] in maps:
            out[k] = _array_map(n, tv, res, [clean(t) for t in maps[aprobe[k][1]][0]], maps[aprobe[k][1]][2], aprobe[k][2], v0)
            continue
        if k in aprobe:
            out[k] = _array_sum(c, key, nm, n, tv, res, newv, aprobe[k], v0)
            continue
        if k in probes:
            if all(isinstance(x, Num) and z3.eq(z3.simplify(x.v), probes[k]) for x in newv):
                continue
            # accumulator: new = old + term, term independent of the old value
            terms = []
            ok = True
            for x in newv:
                x = num(x)
                d = z3.simplify((V.real(x) if not z3.is_int(probes[k]) else x.v) - probes[k])
                if _mentions(d, list(probes.values())) or not V.fin(x):
                    ok = False
                    break
                d = clean(d)
                terms.append(Num(d, z3.is_int(d)))
            if ok:
                def titem(i, terms=terms):
                    pairs = [(tv[0], simp(I(i)))]
                    o = subst_value(terms[-1], pairs)
                    for r, t in list(zip(res, terms))[-2::-1]:
                        o = merge(mkb(z3.substitute(r[0], *pairs)), subst_value(t, pairs), o)
                    return num(o)
                out[k] = num(v0) + A.make_reduction("sum", n, titem, 0)()
                continue
        # a temporary: value of the last iteration if it does not depend on probes
        if nonempty:
            last = simp(dterm(n) - 1)
            try:
                val = merged(lambda r, k=k: r[1][2][k])(last)
            except Unsupported:
                val = UNDEF
            if isinstance(val, Num) and _mentions(val.v, list(probes.values())):
                raise Unsupported(f"loop {key}: variable {nm} carries a value between iterations")
            if isinstance(val, Num) and z3.is_expr(val.v) and pns & {a.decl().name() for a in _all_apps(val.v)}:
                val = UNDEF
            out[k] = val
    return LoopResult(tuple(out))


def _own_entries(t, newv, probe):
    """(new values of entry t per path, value before the loop) if iteration t writes nothing
    but entry (row) t of the array, else None"""
    pf, pn, old = probe
    formals = A._formals(old.ndim)
    terms = []
    for x in newv:
        if not isinstance(x, tuple) or len(x[1]) != old.ndim or not A._dims_same(x[1], old.dims):
            return None
        e = num(A._eval_body(x[0], formals))
        if not V.fin(e):
            return None
        e = V.real(e)
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(formals[0] != t, e != pf(*formals))
        if s.check() != z3.unsat:
            return None
        terms.append(z3.simplify(z3.substitute(e, (formals[0], t))))
    if all(z3.eq(x, pf(t, *formals[1:])) for x in terms):
        return None
    return terms, old.snap(), formals


def _array_map(n, tv, res, terms, formals, old, v0):
    f0 = old.snap()

    def fn(*idx):
        i = simp(I(idx[0]))
        pairs = [(tv[0], i)] + list(zip(formals[1:], [simp(I(j)) for j in idx[1:]]))
        o = Num(z3.substitute(terms[-1], *pairs), False)
        for r, t in list(zip(res, terms))[-2::-1]:
            o = merge(mkb(z3.substitute(r[0], *pairs)), Num(z3.substitute(t, *pairs), False), o)
        return V.ite(mkb(z3.And(i >= 0, i < dterm(n))), o, num(f0(*idx)))

    if isinstance(v0, SArr):
        v0.set_fn(fn)
        return v0
    return SArr(old.dims, fn, "f")


def _array_sum(c, key, nm, n, tv, res, newv, probe, v0):
    """an array to which every iteration adds something that does not depend on it"""
    pf, pn, old = probe
    nd = old.ndim
    formals = A._formals(nd)
    terms = []
    for x in newv:
        if not isinstance(x, tuple) or len(x[1]) != nd or not A._dims_same(x[1], old.dims):
            raise Unsupported(f"loop {key}: {nm} changes its shape")
        e = num(A._eval_body(x[0], formals))
        if not V.fin(e):
            raise Unsupported(f"loop {key}: {nm} may become infinite")
        d = z3.simplify(V.real(e) - pf(*formals), som=True)
        if pn in {a.decl().name() for a in _all_apps(d)}:
            raise Unsupported(f"loop {key}: array {nm} is written in a symbolic loop")
        terms.append(d)
    if all(z3.is_rational_value(d) and d.numerator_as_long() == 0 for d in terms):
        return v0

    def titem(*idx):
        pairs = list(zip(formals, [simp(I(i)) for i in idx[:-1]])) + [(tv[0], simp(I(idx[-1])))]
        o = Num(z3.substitute(terms[-1], *pairs), False)
        for r, t in list(zip(res, terms))[-2::-1]:
            o = merge(mkb(z3.substitute(r[0], *pairs)), Num(z3.substitute(t, *pairs), False), o)
        return num(o)

    red = A.make_reduction("sum", n, titem, nd)
    f0 = old.snap()
    new = SArr(old.dims, lambda *i: num(f0(*i)) + num(red(*i)), "f")
    if isinstance(v0, SArr):
        v0.set_fn(new.snap())
        return v0
    return new


def _all_apps(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            yield x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


def _mentions(t, consts):
    ids = {x.get_id() for x in consts}
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


# ------------------------------------------------------------------ loop invariants
class LoopInv:
    """Loop cut by an invariant.

    havoc(names, vals) -> dict name -> fresh value (mutated arrays are changed in place)
    inv(k, vars) -> formula (k: number of completed iterations, Num; None for while)
    variant(vars) -> Num, must decrease and stay >= 0 (termination)"""

    def __init__(self, label, havoc, inv, variant=None, on_break=None):
        self.label, self.havoc, self.inv = label, havoc, inv
        self.variant = variant

    def _mk(self, names, vals):
        return dict(zip(names, vals))

    def covered(self, names, hv, out, new):
        """the invariant forgets every variable the loop rebinds"""
        from pyvc.loader import UNDEF

        for nm, a, b in zip(names, hv, out):
            if nm not in new and a is not UNDEF and a is not b:
                raise Unsupported(f"{self.label}: the loop rebinds {nm}, which its invariant does not mention")

    def run_for(self, it, body, names, vals):
        c = cur()
        s = seq_of(it)
        if s is None:
            s = from_concrete(list(it))
        n = dterm(s.n)
        c.check(f"{self.label}: invariant holds on entry", self.inv(num(0), self._mk(names, vals)))
        new = self.havoc(names, vals)
        hv = [new.get(nm, v) for nm, v in zip(names, vals)]
        case = c.fresh("iter_case", z3.BoolSort())
        k = c.fresh("iter", z3.IntSort())
        if c.branch(case):
            c.assume(z3.And(k >= 0, k < n))
            c.assume(self.inv(Num(k, True), self._mk(names, hv)))
            code, val, out = body(s.item(k), *hv)
            if code == 0:
                self.covered(names, hv, out, new)
                c.check(f"{self.label}: invariant is preserved", self.inv(Num(simp(k + 1), True), self._mk(names, out)))
                raise PathEnd()
            if code == 1:
                return LoopResult(tuple(out))
            return LoopResult(tuple(out), True, val)
        c.assume(self.inv(Num(n, True), self._mk(names, hv)))
        return LoopResult(tuple(hv))

    def run_while(self, cond, body, names, vals):
        c = cur()
        c.check(f"{self.label}: invariant holds on entry", self.inv(None, self._mk(names, vals)))
        new = self.havoc(names, vals)
        hv = [new.get(nm, v) for nm, v in zip(names, vals)]
        c.assume(self.inv(None, self._mk(names, hv)))
        if bool(cond(*hv)):
            var0 = self.variant(self._mk(names, hv)) if self.variant else None
            code, val, out = body(*hv)
            if code == 0:
                self.covered(names, hv, out, new)
                c.check(f"{self.label}: invariant is preserved", self.inv(None, self._mk(names, out)))
                if self.variant:
                    v1 = self.variant(self._mk(names, out))
                    c.check(f"{self.label}: variant decreases", mkb(z3.And(num(var0).v >= 0, num(v1).v < num(var0).v)))
                raise PathEnd()
            if code == 1:
                return LoopResult(tuple(out))
            return LoopResult(tuple(out), True, val)
        return LoopResult(tuple(hv))


# ------------------------------------------------------------------ fake modules
class _NS:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__name__ = name

    def __getattr__(self, k):
        raise AttributeError(k)


def _dispatch(real, sym):
    def f(*a, **kw):
        a = tuple(force(x) for x in a)
        if core.active() and (N.symbolic(a) or N.symbolic(kw)):
            return sym(*a, **kw)
        return real(*a, **kw)
    return f


class _Pdist:
    _vc_sym = True

    def __init__(self, x):
        self.x = x


def _pdist(x, metric="euclidean"):
    if metric != "euclidean":
        raise Unsupported("pdist metric")
    return _Pdist(x)


def _squareform(d):
    if not isinstance(d, _Pdist):
        raise Unsupported("squareform")
    return N.pdist_squareform(d.x)


def _ppf(q, loc=0, scale=1):
    if N.symbolic((loc, scale)) or (loc, scale) != (0, 1):
        raise Unsupported("ppf with loc/scale")
    if A.is_arr(q):
        return A.elementwise1(lambda v: Num(N.PPF(V.real(v)), False), to_sarr(q), k="f")
    q = num(q)
    if not V.fin(q):
        raise Unsupported("ppf of non-finite")
    return Num(N.PPF(N._normal(V.real(q))), False)


def _unsup(name):
    def f(*a, **kw):
        raise Unsupported(name)
    return f


def _njit(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not kw:
        return a[0]
    return lambda f: f


def _series(d):
    return SymSeries(d)


class SymSeries:
    """pd.Series over a dict with symbolic values: idxmin and loc"""

    _vc_sym = True

    def __init__(self, d):
        if isinstance(d, dict):
            ks = list(d.keys())
            self.n = len(ks)
            kseq, vseq = from_concrete(ks), from_concrete([d[k] for k in ks])
            self.key, self.val = kseq.item, vseq.item
        else:
            self.n, self.key, self.val = d.n, d.key, d.val
        self._last = None

    def idxmin(self):
        arr = SArr((self.n,), lambda i: num(self.val(i)), "f")
        w = num(A.arg_extreme(arr, "min"))
        k = num(self.key(w.v))
        self._last = (k, num(self.val(w.v)))
        return k

    def min(self):
        return A.reduce_(SArr((self.n,), lambda i: num(self.val(i)), "f"), "min")

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        if self._last is not None and z3.eq(num(k).v, self._last[0].v):
            return self._last[1]
        raise Unsupported("Series lookup")

    @property
    def values(self):
        return SArr((self.n,), lambda i: num(self.val(i)), "f")

    def to_numpy(self):
        return self.values


_fakes = {}


def _build():
    import pandas as pd
    import scipy
    import scipy.linalg
    import scipy.optimize
    import scipy.special
    import scipy.spatial.distance
    import scipy.stats

    norm = _NS("norm", ppf=_dispatch(scipy.stats.norm.ppf, _ppf),
               cdf=_dispatch(scipy.stats.norm.cdf, _unsup("norm.cdf")))
    stats = _NS("scipy.stats", norm=norm, qmc=scipy.stats.qmc if hasattr(scipy.stats, "qmc") else None)
    stats.__dict__["triang"] = scipy.stats.triang
    special = _NS("scipy.special",
                  gamma=_dispatch(scipy.special.gamma, lambda a: N.map1(N.sym_gamma, a)),
                  loggamma=_dispatch(scipy.special.loggamma, lambda a: N.map1(N.sym_loggamma, a)),
                  gammaln=_dispatch(scipy.special.gammaln, lambda a: N.map1(N.sym_loggamma, a)),
                  gammainc=_dispatch(scipy.special.gammainc, _gammainc),
                  logsumexp=_dispatch(scipy.special.logsumexp, _unsup("logsumexp")))
    distance = _NS("scipy.spatial.distance", pdist=_dispatch(scipy.spatial.distance.pdist, _pdist),
                   squareform=_dispatch(scipy.spatial.distance.squareform, _squareform))
    spatial = _NS("scipy.spatial", distance=distance)
    def guard(mod):
        class G:
            def __getattr__(self, k):
                f = getattr(mod, k)
                if callable(f) and not isinstance(f, type):
                    return _dispatch(f, HOOKS.get(f"{mod.__name__}.{k}", _unsup(f"{mod.__name__}.{k}")))
                return f
        return G()
    linalg = guard(scipy.linalg)
    optimize = guard(scipy.optimize)
    top = _NS("scipy", stats=stats, special=special, spatial=spatial, linalg=linalg, optimize=optimize,
              __version__=scipy.__version__)
    _fakes["__guard__"] = guard
    _fakes.update({"scipy": top, "scipy.stats": stats, "scipy.special": special,
                   "scipy.spatial": spatial, "scipy.spatial.distance": distance,
                   "scipy.linalg": linalg, "scipy.optimize": optimize})

    class PD:
        def __getattr__(self, k):
            if k == "Series":
                return _dispatch(pd.Series, _series)
            return getattr(pd, k)
    _fakes["pandas"] = PD()
    _fakes["numba"] = _NS("numba", njit=_njit, jit=_njit, prange=sym_range)
    _fakes["numpy"] = N.np
    _fakes["numpy.linalg"] = N.np.linalg
    _fakes["numpy.random"] = N.np.random
    _fakes["random"] = _RandomModule()


class _RandomModule:
    """the generator of python's random module is global state"""

    def __getattr__(self, name):
        import random

        v = getattr(random, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **kw):
            if core.active():
                N.global_random(f"random.{name}")
            return v(*a, **kw)
        return f


HOOKS = {}

GAMMAINC = z3.Function("GAMMAINC", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _gammainc(a, x):
    c = cur()
    c.lemma("GAMMAINC", lambda ar: [z3.Implies(z3.And(ar[0] > 0, ar[1] >= 0), z3.And(
        GAMMAINC(*ar) >= 0, GAMMAINC(*ar) <= 1))])
    f = lambda p, q: Num(GAMMAINC(V.real(num(p)), V.real(num(q))), False)
    if A.is_arr(a) or A.is_arr(x):
        return A.elementwise(f, a, x)
    return f(a, x)


def fake_module(name, fromlist):
    if not _fakes:
        _build()
    if name in _fakes:
        if fromlist or "." not in name:
            return _fakes[name]
        return _fakes[name.split(".")[0]]
    if name.startswith(("scipy.", "numba.", "numpy.", "pandas.")):
        if name.split(".")[0] == "scipy" and fromlist:
            import importlib

            _fakes[name] = _fakes["__guard__"](importlib.import_module(name))
            return _fakes[name]
        if name.split(".")[0] in ("scipy", "numba"):
            raise ImportError(f"no model for {name}")
    return None
