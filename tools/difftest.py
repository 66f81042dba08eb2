"""difftest.py [draws] [case ...]: compare the symbolic models of numpy (pyvc/npshim.py, arrays.py,
indexing.py, sums.py) with numpy itself.

Every case is run on random concrete inputs by numpy, and symbolically on arrays of symbolic size whose
size and entries are then assumed to equal the concrete ones; the verifier has to show that the symbolic
result has the shape and the entries numpy returned ('agrees').  Then numpy's result is assumed, and False
must not be provable: otherwise the model excludes what numpy does, which would make proofs unsound
(CONTRADICTION).  'open' means that the model allows numpy's result without determining it (sums, for
example, are known through lemmas only): incomplete, not unsound.  EXCEPTION: one of the two raises and the
other does not.  Exit 1 if there is a contradiction or an unexpected exception."""
import math
import multiprocessing as mp
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from pyvc import contract as C

C._need_z3()
warnings.simplefilter("ignore")
GRID = [-3.0, -2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 4.0, 9.0]


def arr(*shape, ext=False, nan=False, kind="f", grid=GRID, distinct=False, lo=None):
    return ("arr", shape, ext, nan, kind, grid, distinct, lo)


def sc(grid=GRID):
    return ("sc", grid)


def num(lo, hi):
    return ("int", lo, hi)


POS = [0.25, 0.5, 1.0, 2.0, 4.0, 9.0]
N, M, P = "n", "m", "p"
V, W, X, Y = arr(N), arr(N), arr(N, M), arr(M)
EV, EX = arr(N, ext=True), arr(N, M, ext=True)
FV, FX = arr(N, ext=True, nan=True), arr(N, M, ext=True, nan=True)
B, BX = arr(N, kind="b"), arr(N, M, kind="b")


def setit(a, key, v):
    b = a.copy()
    b[key] = v
    return b


def fill(a, v):
    b = a.copy()
    b.fill(v)
    return b


def iadd(a, key, v):
    b = a.copy()
    b[key] += v
    return b


CASES = dict(
    # arithmetic, with infinities and nan
    add=(lambda q, a, b: a + b, FV, FV), sub=(lambda q, a, b: a - b, FV, FV), mul=(lambda q, a, b: a * b, FV, FV),
    div=(lambda q, a, b: a / b, V, arr(N, grid=POS)), neg=(lambda q, a: -a, FV), absolute=(lambda q, a: q.abs(a), FV),
    floordiv=(lambda q, a, b: a // b, arr(N, kind="i"), arr(N, kind="i", grid=[1, 2, 3, 5])), mod=(lambda q, a, b: a % b, arr(N, kind="i"), arr(N, kind="i", grid=[1, 2, 3, 5])),
    square=(lambda q, a: a ** 2, FV), cube=(lambda q, a: a ** 3, V), sqrt=(lambda q, a: q.sqrt(a) ** 2, arr(N, grid=POS)),
    broadcast_row=(lambda q, a, b: a + b, FX, arr(M, ext=True)), broadcast_col=(lambda q, a, b: a * b.reshape(-1, 1), X, V), broadcast_scalar=(lambda q, a, s: a * s - 1, EX, sc()),
    lt=(lambda q, a, b: a < b, FV, FV), le=(lambda q, a, b: a <= b, FV, FV), gt=(lambda q, a, b: a > b, FV, FV), ge=(lambda q, a, b: a >= b, FV, FV),
    equal=(lambda q, a, b: a == b, FV, FV), unequal=(lambda q, a, b: a != b, FV, FV),
    band=(lambda q, a, b: a & b, B, arr(N, kind="b")), bor=(lambda q, a, b: a | b, B, arr(N, kind="b")), binv=(lambda q, a: ~a, BX),
    logical=(lambda q, a, b: q.logical_and(q.logical_or(a, b), q.logical_not(a)), B, arr(N, kind="b")),
    maximum=(lambda q, a, b: q.maximum(a, b), FV, FV), minimum=(lambda q, a, b: q.minimum(a, b), FV, FV),
    clip=(lambda q, a, l, u: q.clip(a, l, u), FV, sc([-2.0, -1.0, 0.0]), sc([0.0, 0.5, 2.0])), clip_arrays=(lambda q, a, l, u: q.clip(a, l, u), EX, arr(M, grid=[-2.0, -1.0]), arr(M, grid=[-1.0, 0.0, 2.0])),
    clip_inf=(lambda q, a, l: q.clip(a, l, q.inf), FV, sc()), clip_method=(lambda q, a, l, u: a.clip(l, u), V, sc([-1.0]), sc([1.0])),
    isfinite=(lambda q, a: q.isfinite(a), FX), isnan=(lambda q, a: q.isnan(a), FX), isinf=(lambda q, a: q.isinf(a), FX), isposinf=(lambda q, a: q.isposinf(a), FV), isneginf=(lambda q, a: q.isneginf(a), FV),
    sign=(lambda q, a: q.sign(a), EV), ceil=(lambda q, a: q.ceil(a), V), floor=(lambda q, a: q.floor(a), V),
    isclose=(lambda q, a, b: q.isclose(a, b), EV, EV), allclose=(lambda q, a, b: q.allclose(a, b), EV, EV), where=(lambda q, c, a, b: q.where(c, a, b), B, FV, V), where_scalar=(lambda q, c, a: q.where(c, a, 0.0), BX, EX),
    nan_to_num=(lambda q, a: q.nan_to_num(a, nan=q.inf, posinf=q.inf, neginf=-q.inf), FX), nan_to_num2=(lambda q, a: q.nan_to_num(a, nan=1.0, posinf=2.0, neginf=-3.0), FV),
    # construction and shapes
    zeros=(lambda q, n, m: q.zeros((n, m)), num(0, 3), num(1, 3)), ones=(lambda q, n: q.ones(n), num(0, 3)), full=(lambda q, n, s: q.full((n, 2), s), num(0, 3), sc()), eye=(lambda q, n: q.eye(n), num(1, 3)),
    arange=(lambda q, n: q.arange(n), num(0, 4)), arange2=(lambda q, n, m: q.arange(n, n + m), num(0, 4), num(0, 3)), zeros_like=(lambda q, a: q.zeros_like(a), X), ones_like=(lambda q, a: q.ones_like(a), X),
    array_list=(lambda q, a, s: q.array([a[0], s, 2.0]), arr("n+", kind="f"), sc()), array_rows=(lambda q, a, b: q.array([a, b]), V, W), atleast_1d=(lambda q, s: q.atleast_1d(s), sc()), atleast_2d=(lambda q, a: q.atleast_2d(a), V),
    atleast_2d_same=(lambda q, a: q.atleast_2d(a), X), reshape=(lambda q, a, n, m: a.reshape(n * m), X, ("dim", N), ("dim", M)), reshape2=(lambda q, a, m: a.reshape(-1, m), X, ("dim", M)), ravel=(lambda q, a: a.flatten(), X),
    reshape3=(lambda q, a, n, m: q.arange(n * m).reshape(n, m) + a, X, ("dim", N), ("dim", M)),
    transpose=(lambda q, a: a.T, X), newaxis=(lambda q, a: a[:, None] - a[None, :], V), length=(lambda q, a: len(a), X), shape0=(lambda q, a: a.shape[1], X), size=(lambda q, a: a.size, X),
    concat=(lambda q, a, b: q.concatenate([a, b]), V, Y), concat2=(lambda q, a, b: q.concatenate((a, b), axis=1), X, arr(N, P)), vstack=(lambda q, a, b: q.vstack([a, b]), X, arr(P, M)), vstack_row=(lambda q, a, b: q.vstack([a, b]), X, Y),
    hstack=(lambda q, a, b: q.hstack((a, b)), V, Y), hstack2=(lambda q, a, b: q.hstack((a, b)), X, arr(N, P)), repeat=(lambda q, a: q.repeat(a, 2), V), repeat_rows=(lambda q, a: q.repeat(a, 3, axis=0), X),
    repeat_counts=(lambda q, a, r: q.repeat(a, r, axis=0), X, arr(N, kind="i", grid=[1, 2, 3])), outer=(lambda q, a, b: q.outer(a, b), V, Y), diag=(lambda q, a: q.diag(a), V), diag2=(lambda q, a: q.diag(a), arr(N, N)),
    triu=(lambda q, a: q.triu(a), arr(N, N)), tril=(lambda q, a: q.tril(a), arr(N, N)), triu1=(lambda q, a: q.triu(a, 1), arr(N, N)), diag_set=(lambda q, a: setit(a, q.diag_indices_from(a), 7.0), arr(N, N)),
    split=(lambda q, a: q.split(a, [1], axis=1)[1], arr(N, "m+")), delete=(lambda q, a: q.delete(a, 0, axis=0), arr("n+", M)), delete1=(lambda q, a, i: q.delete(a, i), arr("n3"), num(0, 2)), row_stack=(lambda q, a, b: q.row_stack([a, b]), X, arr(P, M)),
    column_stack=(lambda q, a, b: q.column_stack([a, b]), X, arr(N, P)), astype=(lambda q, a: a.astype(int), arr(N)), tolist_sum=(lambda q, a: sum(a.tolist()), arr(3)), cumsum=(lambda q, a: q.cumsum(a), V),
    # reductions
    sum=(lambda q, a: a.sum(), V), sum0=(lambda q, a: a.sum(axis=0), X), sum1=(lambda q, a: a.sum(axis=1), X), sum_ext=(lambda q, a: q.sum(a), EV), mean=(lambda q, a: a.mean(), arr("n+")), mean0=(lambda q, a: q.mean(a, axis=0), arr("n+", M)),
    mean_bool=(lambda q, a: (a > 0).mean(), arr("n+")), var=(lambda q, a: q.var(a, ddof=1), arr("n2")), cov=(lambda q, a: q.cov(a, rowvar=False, ddof=1), arr("n2", "m2")), min=(lambda q, a: a.min(), arr("n+", ext=True)), max=(lambda q, a: q.max(a), arr("n+", ext=True)),
    min0=(lambda q, a: a.min(axis=0), arr("n+", M, ext=True)), max1=(lambda q, a: q.max(a, axis=1), arr(N, "m+", ext=True)), all=(lambda q, a: a.all(), B), any=(lambda q, a: a.any(), B), all1=(lambda q, a: q.all(a, axis=1), BX), any0=(lambda q, a: q.any(a, axis=0), BX),
    argmin=(lambda q, a: q.argmin(a), arr("n+")), argmax=(lambda q, a: a.argmax(), arr("n+")), argmax_flat=(lambda q, a: q.unravel_index(a.argmax(), a.shape), arr("n+", "m+")), count=(lambda q, a: (a > 0).sum(), V), norm=(lambda q, a: q.linalg.norm(a) ** 2, V),
    norm1=(lambda q, a: q.linalg.norm(a, axis=1) ** 2, X), norm_inf=(lambda q, a: q.linalg.norm(a, ord=q.inf), arr("n+")), norm_infrow=(lambda q, a: q.linalg.norm(a, axis=1, ord=q.inf), arr(N, "m+")), count_nonzero=(lambda q, a: q.count_nonzero(a), B),
    # linear algebra
    matvec=(lambda q, a, b: a @ b, X, Y), vecmat=(lambda q, a, b: a @ b, V, X), vecvec=(lambda q, a, b: a @ b, V, W), matmat=(lambda q, a, b: a @ b, X, arr(M, P)), dot=(lambda q, a, b: q.dot(a, b), V, W), quad=(lambda q, a, b: b @ a @ b, arr(N, N), V),
    inner_t=(lambda q, a: a.T @ a, X), stack_mat=(lambda q, a, b: a @ b, arr(P, N, M), Y), gram=(lambda q, a, b: (a @ b) - (b @ a.T), X, Y),
    # indexing
    item=(lambda q, a, i: a[i], V3 := arr("n3"), num(0, 2)), item_neg=(lambda q, a: a[-1], arr("n+")), row=(lambda q, a, i: a[i], arr("n3", M), num(0, 2)), column=(lambda q, a, i: a[:, i], arr(N, "m3"), num(0, 2)), entry=(lambda q, a, i, j: a[i, j], arr("n3", "m3"), num(0, 2), num(0, 2)),
    slice=(lambda q, a, i: a[:i], V, num(0, 4)), slice_from=(lambda q, a, i: a[i:], V, num(0, 4)), slice_mid=(lambda q, a, i, j: a[i:j], V, num(0, 3), num(0, 4)), slice_neg=(lambda q, a: a[:-1], arr("n+")), slice_cols=(lambda q, a: a[:, 1:], arr(N, "m+")), reverse=(lambda q, a: a[::-1], V),
    fancy=(lambda q, a, i: a[i], V3, arr(M, kind="i", grid=[0, 1, 2])), fancy_neg=(lambda q, a, i: a[i], V3, arr(M, kind="i", grid=[0, 1, 2, -1, -2])), fancy_rows=(lambda q, a, i: a[i], arr("n3", M), arr(P, kind="i", grid=[0, 1, 2])), list_index=(lambda q, a: a[[0, 2, 0]], V3),
    mask=(lambda q, a, b: a[b], V, B), mask_rows=(lambda q, a, b: a[b], X, B), mask_cond=(lambda q, a: a[a > 0], V), fancy_pair=(lambda q, a, i, j: a[i, j], arr("n3", "m3"), arr(P, kind="i", grid=[0, 1, 2]), arr(P, kind="i", grid=[0, 1, 2])), mask_sum=(lambda q, a, b: a[b].sum(), V, B),
    mask_both=(lambda q, a, b: a[b, :][:, b], arr(N, N), B), ix=(lambda q, a, i: a[i][:, i], arr("n3", "n3"), arr(P, kind="i", grid=[0, 1, 2])),
    set_item=(lambda q, a, i, s: setit(a, i, s), V3, num(0, 2), sc()), set_slice=(lambda q, a, s: setit(a, slice(0, 1), s), arr("n+"), sc()), set_rows=(lambda q, a, b: setit(a, 1, b), arr("n3", M), Y), set_col=(lambda q, a, b: setit(a, (slice(None), 0), b), arr(N, "m+"), V),
    set_mask=(lambda q, a, b: setit(a, b, 5.0), V, B), set_mask_arr=(lambda q, a, b, d: setit(a, b, d[b]), V, B, W), set_mask2=(lambda q, a: setit(a, a < 0, 0.0), X), set_entry=(lambda q, a, s: setit(a, (0, 1), s), arr("n+", "m2"), sc()), set_fancy=(lambda q, a, s: setit(a, [0, 2], s), V3, sc()),
    set_range=(lambda q, a, b, i: setit(a, slice(i, i + 1), b), V3, arr(1), num(0, 2)), aug=(lambda q, a, s: iadd(a, 0, s), arr("n+"), sc()), fill=(lambda q, a, s: fill(a, s), X, sc()),
    # orders and sets
    argsort=(lambda q, a: a.argsort(), arr(N, distinct=True)), sort_take=(lambda q, a: a[q.argsort(a)], arr(N, distinct=True)), nonzero=(lambda q, a: q.where(a)[0], B), nonzero2=(lambda q, a: a.nonzero()[0], B), flatnonzero=(lambda q, a: q.flatnonzero(a), B),
    setdiff=(lambda q, a, b: q.setdiff1d(a, b), arr(N, kind="i", grid=[0, 1, 2, 3]), arr(M, kind="i", grid=[0, 1, 2, 3])), intersect=(lambda q, a, b: q.intersect1d(a, b), arr(N, kind="i", grid=[0, 1, 2, 3]), arr(M, kind="i", grid=[0, 1, 2, 3])), union=(lambda q, a, b: q.union1d(a, b), arr(N, kind="i", grid=[0, 1, 2, 3]), arr(M, kind="i", grid=[0, 1, 2, 3])),
    unique=(lambda q, a: q.unique(a), arr(N, kind="i", grid=[0, 1, 2])), isin=(lambda q, a, b: q.isin(a, b), arr(N, kind="i", grid=[0, 1, 2]), arr(M, kind="i", grid=[0, 1, 2])), triu_indices=(lambda q, n: q.triu_indices(n)[1], num(1, 3)), triu_take=(lambda q, a, n: a[q.triu_indices(n)], arr(N, N), ("dim", N)),
    array_equal=(lambda q, a, b: q.array_equal(a, b), V, W), log_exp=(lambda q, a: q.exp(q.log(a)), arr(N, grid=POS)),
)


def draw(spec, rng):
    """concrete inputs and the dimensions they share"""
    dims = {}

    def dim(d):
        if isinstance(d, int):
            return d
        base, least = d[0], {"": 0, "+": 1, "2": 2, "3": 3}[d[1:]]
        if base not in dims:
            dims[base] = int(rng.integers(max(least, 0 if rng.random() < 0.15 else 1), max(least, 3) + 1))
        return dims[base]

    # the largest lower limit of a shared letter first
    for s in spec:
        if s[0] == "arr":
            for d in sorted((d for d in s[1] if not isinstance(d, int)), key=lambda d: -{"": 0, "+": 1, "2": 2, "3": 3}[d[1:]]):
                dim(d)
    out = []
    for s in spec:
        if s[0] == "arr":
            _, shape, ext, nan, kind, grid, distinct, lo = s
            sh = tuple(dim(d) for d in shape)
            if kind == "b":
                a = rng.random(sh) < 0.5
            elif kind == "i":
                a = rng.choice([int(g) for g in grid], size=sh).astype(int)
            else:
                a = rng.permutation(grid)[:int(np.prod(sh))].reshape(sh) if distinct else rng.choice(grid, size=sh)
                a = a.astype(float)
                if ext:
                    u = rng.random(sh)
                    a = np.where(u < 0.15, np.inf, np.where(u < 0.3, -np.inf, a))
                if nan:
                    a = np.where(rng.random(sh) < 0.2, np.nan, a)
            out.append(a)
        elif s[0] == "sc":
            out.append(float(rng.choice(s[1])))
        elif s[0] == "int":
            out.append(int(rng.integers(s[1], s[2] + 1)))
        else:
            out.append(("dim", s[1]))
    return [dims[o[1]] if isinstance(o, tuple) else o for o in out], dims


def is_kind(k, x, v):
    """the symbolic scalar x is the concrete number v"""
    if isinstance(v, (bool, np.bool_)):
        return k.iff(x, bool(v))
    v = float(v)
    if math.isnan(v):
        return k.has_kind(x, "nan")
    if math.isinf(v):
        return k.has_kind(x, "pinf" if v > 0 else "ninf")
    if v * 2 ** 30 == round(v * 2 ** 30):
        return k.land(k.lnot(k.has_kind(x, "nan")), x == v)
    return k.land(k.lnot(k.has_kind(x, "nan")), k.lnot(k.has_kind(x, "pinf")), k.lnot(k.has_kind(x, "ninf")), x <= v + 1e-9 * (1 + abs(v)), x >= v - 1e-9 * (1 + abs(v)))


def run(job):
    name, seed = job
    spec = CASES[name]
    f, spec = spec[0], spec[1:]
    rng = np.random.default_rng([seed, sum(map(ord, name))])
    inputs, dims = draw(spec, rng)
    try:
        want = f(np, *[a.copy() if isinstance(a, np.ndarray) else a for a in inputs])
        exc = None
    except Exception as e:
        want, exc = None, e
    notes = []

    def body(k):
        sizes = {}
        for d, v in dims.items():
            sizes[d] = k.int("dim_" + d, lo=0)
            k.assume(sizes[d] == v)
        args = []
        for i, (s, v) in enumerate(zip(spec, inputs)):
            if s[0] == "arr":
                sh = tuple(d if isinstance(d, int) else sizes[d[0]] for d in s[1])
                a = k.array(f"arg{i}", sh, ext=s[2] or s[3], nan=s[3], kind=s[4])
                for idx in np.ndindex(v.shape):
                    k.assume(is_kind(k, a[idx if len(idx) > 1 else idx[0]], v[idx]))
                args.append(a)
            elif s[0] == "sc":
                x = k.real(f"arg{i}")
                k.assume(x == v)
                args.append(x)
            elif s[0] == "int":
                x = k.int(f"arg{i}", lo=s[1], hi=s[2])
                k.assume(x == v)
                args.append(x)
            else:
                args.append(sizes[s[1]])
        try:
            out = f(k.np, *args)
        except Exception as e:
            if C.harness_fault(e):
                from pyvc.core import Unsupported
                raise Unsupported(repr(e)[:100])
            if not isinstance(e, (IndexError, ValueError, TypeError, ZeroDivisionError, AttributeError)):
                raise
            notes.append(("raises", repr(e)[:120]))
            k.check("reached", True)
            return
        facts = []
        outs = list(zip(out, want)) if isinstance(want, tuple) else [(out, want)] if exc is None else []
        if exc is not None:
            notes.append(("returns", "numpy raises " + repr(exc)[:80]))
        for o, w in outs:
            w = np.asarray(w)
            if w.ndim == 0:
                facts.append(("value", is_kind(k, o, w.item())))
                continue
            from pyvc.arrays import to_sarr
            o = to_sarr(o)
            facts.append(("shape", k.shape_is(o, *w.shape)))
            if o.ndim == w.ndim:
                for idx in np.ndindex(w.shape):
                    facts.append(("entry", is_kind(k, o[idx if len(idx) > 1 else idx[0]], w[idx].item())))
        for nm, f_ in facts:
            k.check(nm, f_)
        # the model must allow what numpy returns
        for nm, f_ in facts:
            k.assume(f_)
        k.check("control", False)

    con = C.Contract("DIFF", body, [], deadline=40)
    con.name = name
    try:
        res = C.run_symbolic(con)
    except Exception as e:
        return name, seed, "error", repr(e)[:200]
    detail = f"inputs {[a.tolist() if isinstance(a, np.ndarray) else a for a in inputs]} numpy {want if exc is None else repr(exc)}"
    obs = {o["name"]: o for o in res["obligations"]}
    if "control" in obs and obs["control"]["proved"]:
        return name, seed, "CONTRADICTION", detail
    if res["status"] in ("unsupported", "undecided", "error"):
        return name, seed, res["status"], res["error"][:160]
    if notes:
        kind = notes[0][0]
        if (kind == "raises") == (exc is not None):
            return name, seed, "agrees", ""
        return name, seed, "EXCEPTION", f"{notes[0][1]} {detail}"
    open_ = [n for n in ("shape", "entry", "value") if n in obs and obs[n]["unknown"] + obs[n]["refuted"]]
    return name, seed, "open" if open_ else "agrees", detail if open_ else ""


if __name__ == "__main__":
    draws = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    names = sys.argv[2:] or list(CASES)
    tally, per, bad = {}, {}, 0
    with mp.get_context("fork").Pool(int(os.environ.get("JOBS", "6")), maxtasksperchild=20) as pool:
        for name, seed, st, detail in pool.imap_unordered(run, [(n, s) for n in names for s in range(draws)]):
            tally[st] = tally.get(st, 0) + 1
            per.setdefault(name, {}).setdefault(st, []).append(detail)
            if st.isupper():
                bad = 1
                print(st, name, seed, detail[:600], flush=True)
    for n, p in sorted(per.items()):
        if set(p) - {"agrees"}:
            print(f"{n}: " + ", ".join(f"{s} {len(d)}" for s, d in p.items()) + "  " + next(d[0] for s, d in p.items() if s != "agrees")[:140])
    print(tally)
    sys.exit(bad)
