"""numpy indexing on symbolic arrays."""
import numpy as np
import z3

from pyvc import values as V
from pyvc.arrays import (I, SArr, _dims_same, bindex, deq, dnorm, dterm, is_arr, simp, to_sarr)
from pyvc.core import Unsupported, cur
from pyvc.seqs import SSeq, SRange, merge
from pyvc.values import Num, SB, mkb, num


def norm_index(i, n):
    """python index -> z3 term in [0, n); forks on validity and sign"""
    t = simp(I(i))
    nt = dterm(n)
    if z3.is_int_value(t) and isinstance(n, int):
        v = t.as_long()
        if not -n <= v < n:
            raise IndexError(f"index {v} is out of bounds for axis with size {n}")
        return z3.IntVal(v if v >= 0 else v + n)
    c = cur()
    if getattr(c, "spec_mode", False):
        if z3.is_int_value(t) and t.as_long() < 0:
            return simp(t + nt)
        return t
    if not c.branch(z3.And(t < nt, t >= -nt)):
        raise IndexError("index out of bounds")
    if c.branch(t >= 0):
        return t
    return simp(t + nt)


def clamp(s, n, default):
    """slice bound -> term in [0, n]"""
    nt = dterm(n)
    if s is None:
        return default
    t = simp(I(s))
    if z3.is_int_value(t) and isinstance(n, int):
        v = t.as_long()
        v = v + n if v < 0 else v
        return z3.IntVal(min(max(v, 0), n))
    c = cur()
    if not c.provable(t >= 0):
        if c.branch(t < 0):
            t = simp(t + nt)
            if not c.provable(t >= 0):
                t = z3.IntVal(0) if c.branch(t < 0) else t
    if not c.provable(t <= nt):
        if c.branch(t > nt):
            t = nt
    return t


def parse_slice(s, n):
    step = s.step
    if step is not None:
        st = step if isinstance(step, int) else int(step)
        if st == -1 and s.start is None and s.stop is None:
            return None, n, -1
        if st != 1:
            raise Unsupported("slice step")
    lo = clamp(s.start, n, z3.IntVal(0))
    hi = clamp(s.stop, n, dterm(n))
    ln = simp(hi - lo)
    if not z3.is_int_value(ln):
        if not cur().provable(ln >= 0):
            if cur().branch(ln < 0):
                ln = z3.IntVal(0)
    elif ln.as_long() < 0:
        ln = z3.IntVal(0)
    return simp(lo), dnorm(ln), 1


def is_index_array(k):
    return isinstance(k, (SArr, np.ndarray, list, SSeq, SRange)) and not (
        isinstance(k, np.ndarray) and k.ndim == 0)


def as_index(k):
    if isinstance(k, (SArr, np.ndarray)):
        return to_sarr(k)
    if isinstance(k, list) and not k:
        return SArr((0,), lambda i: num(0), "i")
    if isinstance(k, SRange):
        return to_sarr(SSeq(k.n, lambda i: Num(simp(k.start + I(i) * k.step), True)))
    return to_sarr(k)


def split_key(arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (arr.ndim - n_real)
    else:
        key += [slice(None)] * (arr.ndim - n_real)
    if sum(1 for k in key if k is not None) > arr.ndim:
        raise IndexError("too many indices for array")
    return key


def _same_mask(c, n, f, f2):
    # by logic alone, before the facts of the path are used
    t = z3.Int("mask!t")
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(t >= 0, t < dterm(n), V.bterm(V.to_bool(f(t))) != V.bterm(V.to_bool(f2(t))))
    if s.check() == z3.unsat:
        return True
    if getattr(c, "match_masks_by_logic", False):
        return False
    return c.provable(V.Forall([n], lambda t: mkb(V.bterm(V.to_bool(f(I(t)))) == V.bterm(V.to_bool(f2(I(t)))))))


def mask_selection(mask):
    """indices selected by a boolean mask: (count, sel, rank)"""
    c = cur()
    n = mask.dims[0]
    f = mask.snap()
    if isinstance(n, int) and n <= 8:
        idx = [i for i in range(n) if bool(V.to_bool(f(z3.IntVal(i))))]
        from pyvc.seqs import from_concrete

        if idx:
            seq = from_concrete(idx)
            return len(idx), (lambda j: I(seq.item(I(j)))), idx
        return 0, (lambda j: z3.IntVal(0)), []
    same = c.__dict__.get("match_masks")
    if same is not None and not c.tvars:
        # a mask that selects the same entries as an earlier one
        for n2, f2, out in same:
            if _same_dim(n, n2) and _same_mask(c, n, f, f2):
                return out
    sel, nm = c.fresh_fun("sel", z3.IntSort(), z3.IntSort())
    rank, _ = c.fresh_fun("rank", z3.IntSort(), z3.IntSort())
    m = c.fresh("nsel", z3.IntSort())
    c.__dict__.setdefault("mask_counts", set()).add(m.decl().name())
    nt = dterm(n)
    mb = lambda t: V.bterm(V.to_bool(f(t)))
    c.add_fact(z3.And(m >= 0, m <= nt))
    c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < m), z3.And(sel(t) >= 0, sel(t) < nt, mb(sel(t)), rank(sel(t)) == t)))
    c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < nt, mb(t)),
                                         z3.And(rank(t) >= 0, rank(t) < m, sel(rank(t)) == t)))
    c.add_schema(2, lambda s, t: z3.Implies(z3.And(s >= 0, s < t, t < m), sel(s) < sel(t)))
    pick = lambda j: sel(I(j))
    pick.rank = lambda t: rank(I(t))
    if same is not None and not c.tvars:
        same.append((n, f, (m, pick, None)))
    return m, pick, None


def mask_positions(mask):
    """np.where(mask)[0] for a one-dimensional mask: the positions, in increasing order"""
    m, sel, _ = mask_selection(mask)
    s = SArr((m,), lambda i: Num(sel(i), True), "i")
    s.tag["nonneg"] = True
    s.tag["below"] = mask.dims[0]
    s.tag["strict"] = True
    s.tag["positions"] = (mask.dims[0], mask.snap(), getattr(sel, "rank", None))
    return s


def getitem(arr, key):
    # whole-array mask
    if isinstance(key, (SB, bool)) :
        raise Unsupported("boolean scalar index")
    key = split_key(arr, key)
    for j, k in enumerate(key):
        if isinstance(k, (SArr, np.ndarray)) and to_sarr(k).k == "b" and to_sarr(k).ndim == 1:
            m, sel, _ = mask_selection(to_sarr(k))
            if not deq(to_sarr(k).dims[0], arr.dims[j]):
                raise IndexError("boolean index did not match")
            s = SArr((m,), lambda i, sel=sel: Num(sel(i), True), "i")
            s.tag["nonneg"] = True
            s.tag["below"] = arr.dims[j]
            s.tag["strict"] = True
            key[j] = s
    adv = [j for j, k in enumerate(key) if is_index_array(k)]
    if adv:
        return adv_getitem(arr, key, adv)
    out = basic_view(arr, key)
    if out.ndim == 0:
        return out.get()
    return out


def basic_view(arr, key):
    """view described by ints, slices and newaxes"""
    dims = []
    spec = []  # per base axis: ('int', t) or ('slice', lo, outaxis, step, n)
    ax = 0
    for k in key:
        if k is None:
            dims.append(1)
            continue
        n = arr.dims[ax]
        if isinstance(k, slice):
            lo, ln, step = parse_slice(k, n)
            spec.append(("slice", lo, len(dims), step, n, ln))
            dims.append(ln)
        else:
            spec.append(("int", norm_index(k, n)))
        ax += 1
    nd = len(dims)
    full = all(s[0] == "slice" and s[3] == 1 and z3.is_int_value(s[1]) and s[1].as_long() == 0
               and _same_dim(s[5], s[4]) for s in spec)

    def mapping(*idx):
        out = []
        for s in spec:
            if s[0] == "int":
                out.append(s[1])
            elif s[3] == -1:
                out.append(simp(dterm(s[4]) - 1 - I(idx[s[2]])))
            else:
                out.append(simp(I(idx[s[2]]) + s[1]) if not (
                    z3.is_int_value(s[1]) and s[1].as_long() == 0) else I(idx[s[2]]))
        return out

    def inverse(*bi):
        out = [z3.IntVal(0)] * nd
        for b, s in zip(bi, spec):
            if s[0] == "slice":
                out[s[2]] = (dterm(s[4]) - 1 - b) if s[3] == -1 else simp(b - s[1])
        return out

    def cond(*bi):
        cs = []
        for b, s in zip(bi, spec):
            if s[0] == "int":
                cs.append(b == s[1])
            elif s[3] == 1:
                cs.append(z3.And(b >= s[1], b < s[1] + dterm(s[5])))
        return mkb(z3.And(cs)) if cs else True

    return arr._view(dims, mapping, inverse, None if full else cond)


def _same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_true(simp(dterm(a) == dterm(b)))


def check_range(ix, n):
    """element terms of an index array as non-negative indices"""
    c = cur()
    nt = dterm(n)
    f = ix.snap()
    if ix.tag.get("nonneg") and ix.tag.get("below") is not None and _same_dim(ix.tag["below"], n):
        return lambda *i: I(f(*i))
    if all(isinstance(d, int) for d in ix.dims):
        import itertools

        for pos in itertools.product(*[range(d) for d in ix.dims]):
            norm_index(f(*[z3.IntVal(p) for p in pos]), n)
        sign = lambda t: z3.If(t >= 0, t, t + nt)
        return lambda *i: simp(sign(I(f(*i))))
    rng = V.Forall(list(ix.dims), lambda *i: z3.And(I(f(*i)) >= 0, I(f(*i)) < nt))
    if c.provable(rng):
        return lambda *i: I(f(*i))
    rng = V.Forall(list(ix.dims), lambda *i: z3.And(I(f(*i)) >= -nt, I(f(*i)) < nt))
    if c.provable(rng):
        return lambda *i: simp(z3.If(I(f(*i)) >= 0, I(f(*i)), I(f(*i)) + nt))
    raise Unsupported("index array that is not provably in range")


def adv_getitem(arr, key, adv):
    if any(k is None for k in key):
        raise Unsupported("newaxis with index arrays")
    ixs = {j: as_index(key[j]) for j in adv}
    if len(adv) > 1:
        nds = [ixs[j].dims for j in adv]
        from pyvc.arrays import broadcast_dims

        bd = broadcast_dims(*nds)
        if adv != list(range(adv[0], adv[0] + len(adv))):
            raise Unsupported("separated index arrays")
    else:
        bd = ixs[adv[0]].dims
    for j in adv:
        if ixs[j].k == "b":
            raise Unsupported("boolean mask of this shape")
    fns = {j: check_range(ixs[j], arr.dims[j]) for j in adv}
    # the other axes through a basic view
    rest_key = [slice(None) if j in adv else k for j, k in enumerate(key)]
    ints = [j for j, k in enumerate(rest_key) if not isinstance(k, slice)]
    base = basic_view(arr, rest_key)
    # map key position -> axis of base
    pos = {}
    a = 0
    for j, k in enumerate(rest_key):
        if isinstance(k, slice):
            pos[j] = a
            a += 1
    first = pos[adv[0]]
    nb = len(bd)
    dims = list(base.dims[:first]) + list(bd) + [
        base.dims[pos[j]] for j in sorted(pos) if pos[j] >= first and j not in adv]
    fb = base.snap()

    def fn(*idx):
        pre, mid, post = idx[:first], idx[first:first + nb], list(idx[first + nb:])
        full = list(pre)
        for j in sorted(pos):
            if pos[j] < first:
                continue
            if j in adv:
                full.append(fns[j](*bindex(ixs[j].dims, nb, list(mid))))
            else:
                full.append(post.pop(0))
        return fb(*full)

    out = SArr(dims, fn, arr.k)
    if arr.ndim == 1 and arr.tag.get("strict") and ixs[adv[0]].tag.get("strict"):
        out.tag["strict"] = True
    for t in ("nonneg", "below"):
        if t in arr.tag:
            out.tag[t] = arr.tag[t]
    if out.ndim == 0:
        return out.get()
    return out


def setitem(arr, key, val):
    if isinstance(key, (SArr, np.ndarray)) and to_sarr(key).k == "b":
        m = to_sarr(key)
        fm = m.snap()
        v = to_sarr(val)
        if v.ndim == 1 and m.ndim == 1 and arr.ndim == 1:
            return setitem(arr, (mask_positions(m),), v)
        if v.ndim != 0:
            raise Unsupported("masked assignment of an array")
        old = arr.snap()
        vv = v.get()
        nd = m.ndim
        arr.set_fn(lambda *i: V.ite(V.to_bool(fm(*i[:nd])), vv, old(*i)))
        return
    key = split_key(arr, key)
    adv = [j for j, k in enumerate(key) if is_index_array(k)]
    if adv:
        return adv_setitem(arr, key, adv, val)
    view = basic_view(arr, key)
    v = to_sarr(val)
    assign_view(view, v)


def assign_view(view, v):
    dims = view.dims
    vd = v.dims
    while len(vd) > len(dims):
        if vd[0] == 1:
            v = v.reshape(*vd[1:]) if len(vd) > 1 else v
            vd = v.dims
        else:
            raise ValueError("could not broadcast input array")
    off = len(dims) - len(vd)
    for k, d in enumerate(vd):
        if isinstance(d, int) and d == 1:
            continue
        if not deq(d, dims[off + k]):
            raise ValueError("could not broadcast input array from shape into shape")
    fv = v.snap()
    nd = len(dims)
    to_f = view.k == "f" and v.k != "f"

    def fn(*idx):
        x = fv(*bindex(vd, nd, list(idx)))
        if view.k == "i":
            return V.to_int(x)
        if view.k == "f":
            return V.to_real(num(x))
        return x

    view.set_fn(fn)


def adv_setitem(arr, key, adv, val):
    """assignment through index arrays; index tuples must be concrete or provably distinct"""
    ixs = {j: as_index(key[j]) for j in adv}
    from pyvc.arrays import broadcast_dims

    bd = broadcast_dims(*[ixs[j].dims for j in adv])
    if len(bd) != 1:
        raise Unsupported("assignment through 2d index arrays")
    v = to_sarr(val)
    if isinstance(bd[0], int):
        slices = [j for j in range(len(key)) if j not in adv]
        # position of the index axis in the value (first index array position)
        if any(not isinstance(key[j], slice) for j in slices):
            raise Unsupported("mixed assignment")
        pos = adv[0]
        for p in range(bd[0]):
            k = list(key)
            for j in adv:
                f = ixs[j].snap()
                k[j] = Num(I(f(z3.IntVal(p) if ixs[j].dims[0] != 1 else z3.IntVal(0))), True)
            if v.ndim == 0:
                piece = v
            else:
                n_after = sum(1 for j in slices if j > pos)
                ax = v.ndim - 1 - n_after
                if ax < 0 or (isinstance(v.dims[ax], int) and v.dims[ax] == 1):
                    piece = v if ax < 0 else v[tuple([slice(None)] * ax + [0])]
                else:
                    if not deq(v.dims[ax], bd[0]):
                        raise ValueError("shape mismatch")
                    piece = v[tuple([slice(None)] * ax + [p])]
            setitem(arr, tuple(k), piece)
        return
    if len(adv) == 2 and arr.ndim == 2 and v.ndim == 0:
        # diagonal-like assignment a[idx, idx] = c with identical index arrays 0..n-1
        f0, f1 = ixs[adv[0]].snap(), ixs[adv[1]].snap()
        if ixs[adv[0]].tag.get("iota") and ixs[adv[1]].tag.get("iota"):
            old = arr.snap()
            vv = v.get()
            n = bd[0]
            arr.set_fn(lambda i, j: V.ite(mkb(z3.And(i == j, i < dterm(n))), vv, old(i, j)))
            return
    if len(adv) == 1 and arr.ndim == 1 and v.ndim <= 1 and "positions" in ixs[adv[0]].tag:
        # the positions of a mask: the same as assigning through the mask
        n, fm, rank = ixs[adv[0]].tag["positions"]
        if not deq(n, arr.dims[0]):
            raise Unsupported("positions of a mask of another length")
        old = arr.snap()
        if v.ndim == 1:
            if not deq(v.dims[0], bd[0]):
                raise ValueError("shape mismatch")
            if rank is None:
                raise Unsupported("positions without ranks")
            fv = v.snap()
            arr.set_fn(lambda i: V.ite(V.to_bool(fm(i)), fv(rank(i)), old(i)))
            return
        vv = v.get()
        arr.set_fn(lambda i: V.ite(V.to_bool(fm(i)), vv, old(i)))
        return
    if len(adv) == 1 and arr.ndim == 1 and v.ndim == 0:
        ix = ixs[adv[0]]
        fns = check_range(ix, arr.dims[0])
        old = arr.snap()
        vv = v.get()
        c = cur()
        hit, nm = c.fresh_fun("hit", z3.IntSort(), z3.BoolSort())
        w, _ = c.fresh_fun("hitw", z3.IntSort(), z3.IntSort())
        m = dterm(ix.dims[0])
        c.lemma(nm, lambda args: [z3.Implies(hit(args[-1]), z3.And(w(args[-1]) >= 0, w(args[-1]) < m,
                                                                  fns(w(args[-1])) == args[-1]))])
        c.add_schema(1, lambda t: z3.Implies(z3.And(t >= 0, t < m), hit(fns(t))))
        arr.set_fn(lambda i: V.ite(mkb(hit(i)), vv, old(i)))
        return
    tags = [ixs[j].tag.get("triu") for j in adv]
    if len(adv) == 2 and adv[1] == adv[0] + 1 == arr.ndim - 1 and all(tags) and [t[0] for t in tags] == ["row", "col"] \
            and all(isinstance(k, slice) and k == slice(None) for j, k in enumerate(key) if j not in adv) and v.ndim == arr.ndim - 1:
        # the upper triangle, in row-major order; the positions are distinct
        from pyvc.npshim import TRI

        nt = tags[0][1]
        for a, b in zip([*arr.dims[:-2], bd[0]], v.dims):
            if not (isinstance(b, int) and b == 1) and not deq(a, b):
                raise ValueError("shape mismatch")
        if not all(deq(d, nt) for d in arr.dims[-2:]):
            raise Unsupported("upper triangle of another size")
        old, fv = arr.snap(), v.snap()

        def fn(*i):
            r, q = I(i[-2]), I(i[-1])
            new = fv(*bindex(v.dims, v.ndim, [*i[:-2], TRI(nt, r, q)]))
            return V.ite(mkb(z3.And(0 <= r, r <= q, q < nt)), num(new), num(old(*i)))

        arr.set_fn(fn)
        return
    raise Unsupported("assignment through symbolic index arrays")
