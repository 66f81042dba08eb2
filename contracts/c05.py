"""C05: the evaluation history is an append-only, correctly indexed store."""
from types import SimpleNamespace

import numpy as np

from contracts.common import draw_case
from pyvc.contract import contract

H = "tranquilo.history:"
M = H + "History."
TYPES = ["scalar", "least_squares", "likelihood"]


# ----------------------------------------------------------------- symbolic histories
def ghost_map(k, start, length, elem):
    """index_mapper as a map from point indices to sequences of evaluation indices"""
    import z3
    from pyvc.arrays import I
    from pyvc.seqs import SSeq, seq_of
    from pyvc.values import Num

    class Item(SSeq):
        def __init__(self, m, t):
            self.m, self.t = m, t
            L, E = m.L, m.E
            super().__init__(L(t), lambda q: Num(E(t, I(q)), True))

        def append(self, v):
            m, t = self.m, self.t
            L, E, end = m.L, m.E, m.L(t)
            vt = I(v)
            m.L = lambda i: z3.If(i == t, end + 1, L(i))
            m.E = lambda i, q: z3.If(z3.And(i == t, q == end), vt, E(i, q))
            super().__init__(m.L(t), lambda q: Num(m.E(t, I(q)), True))

    class GhostMap:
        _vc_sym = True

        def __init__(self):
            self.L, self.E = length, elem
            self.has = start  # every index in [0, has) is a key

        def __getitem__(self, i):
            return Item(self, I(i))

        def __setitem__(self, i, seq):
            t = I(i)
            L = self.L
            if not (isinstance(seq, list) and not seq):
                from pyvc.core import Unsupported

                raise Unsupported("history entry set to a non-empty list")
            self.L = lambda i: z3.If(i == t, z3.IntVal(0), L(i))

    return GhostMap()


def sym_history(k, functype, empty=False):
    """an arbitrary history that satisfies the representation invariant"""
    import z3
    from pyvc.values import Num

    c = k.ctx
    h = k.get(H + "History")(functype)
    n = k.int("n_params", lo=1)
    m = 1 if functype == "scalar" else k.int("n_residuals", lo=1)
    zi = z3.IntSort()
    L, nmL = c.fresh_fun("n_evals_of", zi, zi)
    E, nmE = c.fresh_fun("eval_index", zi, zi, zi)
    if empty:
        h.n_xs = 0
        h.xs = None
    else:
        h.n_xs = k.int("n_xs", lo=1)
        cap = k.int("capacity_x", lo=1)
        k.assume(h.n_xs <= cap)
        h.xs = k.array("stored_xs", (cap, n))
    if empty or k.bool("no_evaluations"):
        h.n_fun = 0
        c.add_schema(1, lambda i: L(i) == 0)
    else:
        h.n_fun = k.int("n_fun", lo=1)
        capf = k.int("capacity_f", lo=1)
        k.assume(h.n_fun <= capf)
        h.fvecs = k.array("stored_fvecs", (capf, m))
        h.fvals = k.array("stored_fvals", (capf,))
        c.add_schema(1, lambda i: L(i) >= 0)
        nf = h.n_fun.v
        c.add_schema(2, lambda i, q: z3.Implies(z3.And(q >= 0, q < L(i)), z3.And(E(i, q) >= 0, E(i, q) < nf)))
    h.index_mapper = ghost_map(k, h.n_xs, L, E)
    return h, n, m


def term(x):
    from pyvc.arrays import I

    return I(x)


def Nn(t):
    from pyvc.values import Num

    return Num(t, True)


def loops_xs():
    from pyvc.builtins_shim import LoopInv

    class Entries(LoopInv):
        """new points start without evaluations, other points keep theirs"""

        def __init__(self):
            super().__init__("new entries", self.hv, self.iv)

        def run_for(self, it, body, names, vals):
            self.m0 = self.k.mapper
            self.L0, self.E0 = self.m0.L, self.m0.E
            return super().run_for(it, body, names, vals)

        def hv(self, names, vals):
            import z3

            zi = z3.IntSort()
            L, _ = self.k.ctx.fresh_fun("L", zi, zi)
            self.m0.L = L
            return {}

        def iv(self, j, vars):
            import z3
            from pyvc import values as V

            L, L0, a = self.m0.L, self.L0, term(self.k.first_new)
            jt = term(j)
            return V.Forall([None], lambda i: L(i) == z3.If(z3.And(i >= a, i < a + jt), z3.IntVal(0), L0(i)))

    return {H + "History.add_xs:0": Entries()}


@contract("C05", [M + "add_xs", H + "_add_entries_to_array"], rac=False, loops=loops_xs, deadline=100)
def adding_points(k):
    empty = bool(k.bool("empty"))
    h, n, _ = sym_history(k, "scalar", empty)
    k.mapper, k.first_new = h.index_mapper, h.n_xs
    L0 = h.index_mapper.L
    p, xs0 = h.n_xs, h.xs.copy() if h.xs is not None else None
    if k.bool("single"):
        new = k.array("x", (n,))
        cnt, row = 1, lambda j: new
    else:
        cnt = k.int("n_new", lo=1)
        new = k.array("xs", (cnt, n))
        row = lambda j: new[j]
    orig = new.copy()
    out = k.call(h.add_xs, new)
    k.check("the number of points is exact", k.eq(h.n_xs, p + cnt))
    k.check("the store is large enough", k.len(h.xs) >= h.n_xs)
    if new.ndim == 1:
        k.check("a single point gets the next index", k.eq(out, p))
        k.check("the vector is stored under its index", k.forall([n], lambda i: h.xs[p, i] == orig[i]))
    else:
        k.check("one index per point", k.shape_is(out, cnt))
        k.check("indices are consecutive", k.forall([cnt], lambda j: out[j] == p + j))
        k.check("every vector is stored under its index", k.forall([cnt, n], lambda j, i: h.xs[p + j, i] == orig[j, i]))
    if xs0 is not None:
        k.check("earlier vectors are unchanged", k.forall([p, n], lambda j, i: h.xs[j, i] == xs0[j, i]))
    k.check("new points have no evaluations", k.forall([cnt], lambda j: Nn(h.index_mapper.L(term(p + j))) == 0))
    k.check("other points keep their evaluations", k.forall([p], lambda j: Nn(h.index_mapper.L(term(j))) == Nn(L0(term(j)))))
    k.check("the argument is unchanged", k.eq(new, orig))


def loops_evals():
    from pyvc.builtins_shim import LoopInv

    class Evals(LoopInv):
        def __init__(self):
            super().__init__("recording loop", self.hv, self.iv)

        def run_for(self, it, body, names, vals):
            import z3

            self.m0 = self.k.mapper
            self.L0, self.E0 = self.m0.L, self.m0.E
            cnt, idx = self.k.cnt, self.k.idx
            c = self.k.ctx
            # ghost: cnt(x, j) = number of positions below j that hold x
            c.add_schema(1, lambda x: cnt(x, z3.IntVal(0)) == 0)

            def wrapped(item, *hv):
                j = self.j
                c.add_schema(1, lambda x: cnt(x, j + 1) == cnt(x, j) + z3.If(x == idx(j), 1, 0))
                return body(item, *hv)
            return super().run_for(it, wrapped, names, vals)

        def hv(self, names, vals):
            import z3

            zi = z3.IntSort()
            L, _ = self.k.ctx.fresh_fun("L", zi, zi)
            E, _ = self.k.ctx.fresh_fun("E", zi, zi, zi)
            self.m0.L, self.m0.E = L, E
            return {}

        def iv(self, j, vars):
            import z3
            from pyvc import values as V

            L, E, L0, E0 = self.m0.L, self.m0.E, self.L0, self.E0
            cnt, idx, f0 = self.k.cnt, self.k.idx, term(self.k.first_eval)
            jt = term(j)
            self.j = jt
            n = z3.simplify(jt)
            return V.Conj([
                V.Forall([None], lambda x: z3.And(cnt(x, n) >= 0, L(x) == L0(x) + cnt(x, n))),
                V.Forall([None, None], lambda x, q: z3.Implies(q < L0(x), E(x, q) == E0(x, q))),
                V.Forall([None], lambda r: z3.Implies(z3.And(r >= 0, r < n), z3.And(
                    cnt(idx(r), r) >= 0, cnt(idx(r), r) < cnt(idx(r), n), E(idx(r), L0(idx(r)) + cnt(idx(r), r)) == f0 + r))),
            ])

    return {H + "History.add_evals:0": Evals()}


def aggregate(k, functype, m, row):
    """plain, summed or sum-of-squares aggregate of one evaluation"""
    if functype == "scalar":
        return row(0)
    if functype == "likelihood":
        return k.sum(m, row)
    return k.sum(m, lambda i: row(i) * row(i))


def _adding(k, functype):
    import z3

    h, n, m = sym_history(k, functype)
    p, f0 = h.n_xs, h.n_fun
    r = k.int("n_new", lo=1)
    idx = k.array("x_indices", (r,), kind="i")
    k.assume(k.forall([r], lambda j: k.land(idx[j] >= 0, idx[j] < p)))
    evals = k.array("evals", (r,) if functype == "scalar" else (r, m))
    orig = evals.copy()
    k.mapper, k.first_eval = h.index_mapper, f0
    fi = idx.snap()
    k.idx = lambda j: fi(j).v
    zi = z3.IntSort()
    k.cnt, _ = k.ctx.fresh_fun("count_before", zi, zi, zi)
    L0, E0 = h.index_mapper.L, h.index_mapper.E
    vec0 = h.fvecs.copy() if h.fvecs is not None else None
    val0 = h.fvals.copy() if h.fvals is not None else None
    k.call(h.add_evals, idx, evals)
    L, E = h.index_mapper.L, h.index_mapper.E
    k.check("the number of evaluations is exact", k.eq(h.n_fun, f0 + r))
    k.check("the stores are large enough", k.land(k.len(h.fvecs) >= h.n_fun, k.len(h.fvals) >= h.n_fun))
    get = (lambda j, i: orig[j]) if functype == "scalar" else (lambda j, i: orig[j, i])
    k.check("every evaluation is stored", k.forall([r, m], lambda j, i: h.fvecs[f0 + j, i] == get(j, i)))
    if functype == "scalar":
        k.check("the scalar value is the aggregate", k.forall([r], lambda j: h.fvals[f0 + j] == orig[j]))
    else:
        j, og = k.int("position", lo=0), orig.snap()
        k.assume(j < r)
        k.check("the scalar value is the aggregate", k.eq(h.fvals[f0 + j], aggregate(k, functype, m, lambda i: og(term(j), term(i)))))
    if vec0 is not None:
        k.check("earlier evaluations are unchanged", k.land(k.forall([f0, m], lambda j, i: h.fvecs[j, i] == vec0[j, i]),
                                                            k.forall([f0], lambda j: h.fvals[j] == val0[j])))
    k.check("each evaluation is recorded for its point, in order",
            k.forall([r], lambda j: Nn(E(k.idx(term(j)), L0(k.idx(term(j))) + k.cnt(k.idx(term(j)), term(j)))) == f0 + j))
    k.check("every point gets exactly its new evaluations",
            k.forall([p], lambda x: Nn(L(term(x))) == Nn(L0(term(x)) + k.cnt(term(x), term(r)))))
    q = k.int("some_evaluation", lo=0)
    x = k.int("some_point", lo=0)
    k.assume(x < p, q < Nn(L0(term(x))))
    k.check("earlier records are unchanged", k.eq(Nn(E(term(x), term(q))), Nn(E0(term(x), term(q)))))


OPT = dict(rac=False, loops=loops_evals, deadline=120)
FN = [M + "add_evals", H + "_add_entries_to_array"]


@contract("C05", FN, **OPT)
def adding_evaluations_scalar(k):
    _adding(k, "scalar")


@contract("C05", FN, **OPT)
def adding_evaluations_least_squares(k):
    _adding(k, "least_squares")


@contract("C05", FN, **OPT)
def adding_evaluations_likelihood(k):
    _adding(k, "likelihood")


@contract("C05", [M + "get_xs", M + "get_fvecs", M + "get_fvals", M + "get_n_evals", M + "get_model_data", H + "_extract_from_indices",
                  M + "get_n_fun", M + "get_n_xs"], rac=False, deadline=100)
def reading(k):
    h, n, m = sym_history(k, "least_squares")
    k.assume(h.n_fun >= 1)
    p = h.n_xs
    L, E = h.index_mapper.L, h.index_mapper.E
    k.check("the counts are reported", k.land(k.eq(h.get_n_fun(), h.n_fun), k.eq(h.get_n_xs(), h.n_xs)))
    x = k.int("some_point", lo=0)
    k.assume(x < p)
    one = k.call(h.get_xs, x)
    k.check("a point is the stored vector", k.land(k.shape_is(one, n), k.forall([n], lambda i: one[i] == h.xs[x, i])))
    fv = k.call(h.get_fvals, x)
    fvec = k.call(h.get_fvecs, x)
    k.check("one value per evaluation of the point", k.shape_is(fv, Nn(L(term(x)))))
    k.check("values are those of the point, in order", k.forall([Nn(L(term(x)))], lambda q: fv[q] == h.fvals[Nn(E(term(x), term(q)))]))
    k.check("residuals are those of the point, in order",
            k.forall([Nn(L(term(x))), m], lambda q, i: fvec[q, i] == h.fvecs[Nn(E(term(x), term(q))), i]))
    s = k.int("n_asked", lo=1)
    idx = k.array("x_indices", (s,), kind="i")
    k.assume(k.forall([s], lambda j: k.land(idx[j] >= 0, idx[j] < p, Nn(L(term(idx[j]))) >= 1)))
    xs = k.call(h.get_xs, idx)
    k.check("several points are the stored vectors, in the order asked", k.land(k.shape_is(xs, s, n),
                                                                                k.forall([s, n], lambda j, i: xs[j, i] == h.xs[idx[j], i])))
    d = k.call(h.get_fvals, idx)
    k.check("one entry per point asked for", k.eq(k.len(d), s))
    j = k.int("some_position", lo=0)
    k.assume(j < s)
    key, val = d.keys()[j], d.values()[j]
    k.check("entries are keyed by the point", k.eq(key, idx[j]))
    k.check("entries hold the values of the point", k.land(k.shape_is(val, Nn(L(term(idx[j])))),
                                                           k.forall([Nn(L(term(idx[j])))], lambda q: val[q] == h.fvals[Nn(E(term(idx[j]), term(q)))])))
    ne = k.call(h.get_n_evals, idx)
    k.check("the number of evaluations of each point", k.land(k.eq(ne.keys()[j], idx[j]), k.eq(ne.values()[j], Nn(L(term(idx[j]))))))
    mx, mf = k.call(h.get_model_data, x_indices=idx, average=True)
    k.check("model data: the points asked for", k.land(k.shape_is(mx, s, n), k.forall([s, n], lambda j, i: mx[j, i] == h.xs[idx[j], i])))
    i = k.int("some_residual", lo=0)
    k.assume(i < m)
    cnt, get = Nn(L(term(idx[j]))), h.fvecs.snap()
    k.check("model data: the mean of the point's own evaluations",
            k.eq(mf[j, i] * cnt, k.sum(cnt, lambda q: get(E(term(idx[j]), term(q)), term(i)))))


# ----------------------------------------------------------------- run-time model
class Ref:
    """reference history: plain lists"""

    def __init__(self, functype):
        self.functype, self.xs, self.evals = functype, [], {}

    def value(self, e):
        e = np.asarray(e, dtype=float).reshape(-1)
        return float(e[0]) if self.functype == "scalar" else float(np.sum(e)) if self.functype == "likelihood" else float(np.sum(e ** 2))


@contract("C05", [H + "History", H + "_add_entries_to_array", H + "_extract_from_indices"], prove=False, rac_n=400, rac_s=20, chunks=2)
def operations(k):
    seed = k.int("sequence", 0, 10**6)
    r = np.random.default_rng(seed)
    ft = str(r.choice(TYPES))
    n, m = int(r.integers(1, 4)), int(r.integers(1, 4))
    h = k.get(H + "History")(ft)
    ref = Ref(ft)
    ops = []
    dsc = lambda: f"sequence {seed} {ft} {ops}"

    def vec():
        return r.choice([r.normal(), 0.0, 1.0, -2.5, np.inf if r.random() < 0.2 else 3.0], size=n) * 1.0

    def ev():
        e = r.choice([0.0, 1.0, -2.0, 0.5, r.normal(), np.inf if r.random() < 0.2 else 2.0], size=m)
        return e

    for step in range(int(r.integers(3, 14))):
        u = r.random()
        if u < 0.4 or not ref.xs:
            how = str(r.choice(["single", "array", "list", "empty", "big"], p=[0.3, 0.35, 0.15, 0.1, 0.1]))
            if how == "empty" and not ref.xs:
                how = "single"
            cnt = {"single": 1, "empty": 0, "big": int(r.choice([700, 999, 1000, 1001, 2500]))}.get(how, int(r.integers(1, 5)))
            xs = [vec() for _ in range(cnt)]
            keep = [x.copy() for x in xs]
            ops.append((how, cnt))
            arg = xs[0] if how == "single" else np.array(xs).reshape(cnt, n) if how != "list" else xs
            out = k.call(h.add_xs, arg)
            first = len(ref.xs)
            if how == "single":
                k.check("a single point gets the next index", int(out) == first and np.ndim(out) == 0, dsc)
            else:
                k.check("indices are fresh and consecutive", list(np.asarray(out, dtype=int)) == list(range(first, first + cnt)), dsc)
            if isinstance(arg, np.ndarray) and arg.size:
                arg += 17.0  # later changes of the argument must not matter
            for j, x in enumerate(keep):
                ref.evals[first + j] = []
                ref.xs.append(x)
        elif u < 0.75:
            cnt = int(r.choice([1, 1, 2, 3, 5, 40, 600]))
            idx = r.integers(0, len(ref.xs), size=cnt)
            evs = [ev() for _ in range(cnt)]
            ops.append(("eval", idx.tolist() if cnt < 10 else cnt))
            how = r.random()
            data = [float(e[0]) for e in evs] if ft == "scalar" else evs
            keep = [np.array([e[0]]) if ft == "scalar" else e.copy() for e in evs]
            if cnt == 1 and how < 0.4:
                k.call(h.add_evals, int(idx[0]), data[0])
            elif how < 0.7:
                arr = np.array(data)
                k.call(h.add_evals, idx, arr)
                arr += 3.0
            else:
                k.call(h.add_evals, idx.tolist(), data)
            for i, e in zip(idx, keep):
                ref.evals[int(i)].append(e)
        else:
            ops.append(("bad",))
            if len(ref.xs):
                bad = k.raises(ValueError, h.add_evals, [len(ref.xs)], [1.0] if ft == "scalar" else [ev()])
                k.check("evaluations of unknown points are refused", bad, dsc)
        verify(k, h, ref, r, dsc, m)


def verify(k, h, ref, r, dsc, m):
    tot = sum(len(v) for v in ref.evals.values())
    k.check("the counts are exact", h.get_n_xs() == len(ref.xs) and h.get_n_fun() == tot, dsc)
    ids = np.arange(len(ref.xs)) if len(ref.xs) < 30 else np.unique(np.r_[0, len(ref.xs) - 1, r.integers(0, len(ref.xs), size=12)])
    allx = h.get_xs()
    k.check("all points are returned", len(allx) == len(ref.xs), dsc)
    for i in ids:
        i = int(i)
        k.check("a point is the vector stored under its index", np.array_equal(h.get_xs(i), ref.xs[i]) and np.array_equal(allx[i], ref.xs[i]), dsc)
    if tot == 0:
        return
    perm = r.permutation(ids)
    got = h.get_xs(perm)
    k.check("points are returned in the order asked for", all(np.array_equal(a, ref.xs[int(i)]) for a, i in zip(got, perm)), dsc)
    fvals, fvecs, ne = h.get_fvals(perm), h.get_fvecs(perm.tolist()), h.get_n_evals(perm)
    k.check("one entry per point, in the order asked for", list(fvals) == [int(i) for i in perm] == list(fvecs) == list(ne), dsc)
    for i in ids:
        i = int(i)
        want = ref.evals[i]
        wv = np.array([ref.value(e) for e in want])
        for v in (fvals[i], h.get_fvals(i)):
            k.check("the values of a point are its own, in recording order", len(v) == len(want) and k.eq(v, wv), dsc)
        for v in (fvecs[i], h.get_fvecs(i)):
            k.check("the residuals of a point are its own, in recording order", len(v) == len(want) and all(np.array_equal(a, b) for a, b in zip(v, want)), dsc)
        k.check("the number of evaluations of a point", ne[i] == len(want), dsc)
    has = np.array([int(i) for i in perm if ref.evals[int(i)]], dtype=int)
    if len(has):
        xs, fv = h.get_model_data(has, average=True)
        k.check("averaged data pair each point with the mean of its evaluations", len(xs) == len(fv) == len(has) and all(
            np.array_equal(x, ref.xs[i]) and k.eq(f, np.mean(np.array(ref.evals[i]), axis=0)) for x, f, i in zip(xs, fv, has)), dsc)
        xs, fv = h.get_model_data(has, average=False)
        want = [(ref.xs[i], e) for i in has for e in ref.evals[i]]
        k.check("raw data pair each evaluation with its point", len(xs) == len(fv) == len(want) and all(
            np.array_equal(x, a) and np.array_equal(f, b) for x, f, (a, b) in zip(xs, fv, want)), dsc)
    center = np.where(np.isfinite(ref.xs[int(ids[0])]), ref.xs[int(ids[0])], 0.0)
    reg = SimpleNamespace(center=center, radius=float(r.choice([0.0, 0.5, 1.0, 3.0])))
    inside = h.get_x_indices_in_region(reg)
    want = [i for i, x in enumerate(ref.xs) if np.linalg.norm(x - reg.center) <= reg.radius]
    k.check("the points in a region are exactly those within its radius", np.asarray(inside, dtype=int).tolist() == want, dsc)


@contract("C05", [M + "get_x_indices_in_region"], rac=False, deadline=60)
def points_in_region(k):
    h, n, m = sym_history(k, "least_squares")
    k.assume(h.n_fun >= 1)
    reg = SimpleNamespace(center=k.array("center", (n,)), radius=k.pos("radius"))
    out = k.call(h.get_x_indices_in_region, reg)
    p = h.n_xs
    cnt = k.len(out)
    dist = lambda i: k.np.linalg.norm(h.xs[i] - reg.center)
    j = k.int("some_position", lo=0)
    k.assume(j < cnt)
    k.check("only stored points within the radius are returned", k.land(out[j] >= 0, out[j] < p, dist(out[j]) <= reg.radius))


@contract("C05", [H + "History"], prove=False, rac_n=120, rac_s=15)
def along_runs(k):
    c = draw_case(k)
    log = {"xs": [], "f": []}

    def mon(hist_cls):
        pass

    run = c.run()
    k.assume(run.res is not None)
    h = run.res["tranquilo_history"]
    n = h.get_n_xs()
    k.check("every call of the criterion is recorded once", h.get_n_fun() == len(run.calls), c.describe)
    ne = h.get_n_evals(np.arange(n))
    xs = h.get_xs()
    from collections import Counter
    seen = Counter(np.asarray(x).tobytes() for x in run.calls)
    have = Counter()
    for i in range(n):
        have[xs[i].tobytes()] += ne[i]
    k.check("the record has every call at its point", +have == seen, c.describe)
    agg = Ref(c.functype)
    by = {}
    for x, v in zip(run.calls, run.rec.results):
        by.setdefault(np.asarray(x).tobytes(), []).append(np.inf if isinstance(v, str) else v)
    dup = Counter(x.tobytes() for x in xs)
    for i in range(n):
        if dup[xs[i].tobytes()] > 1 or ne[i] == 0:
            continue
        want = []
        for v in by[xs[i].tobytes()]:
            v = np.where(np.isnan(v), np.inf, np.asarray(v, dtype=float))
            want.append(agg.value(v))
        k.check("the values of a point are those of its calls, in order", k.eq(h.get_fvals(i), np.array(want)), c.describe)
