"""C14: dropping sample points keeps points and indices aligned and the iterate in."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

F = "tranquilo.filter_points:"
DROP = F + "drop_worst_points"


# ------------------------------------------------------------------------- proof
def loops():
    import z3

    from pyvc import values as V
    from pyvc.arrays import I, dterm
    from pyvc.builtins_shim import LoopInv
    from pyvc.values import Num, bterm

    class Dropping(LoopInv):
        """ghost: the original positions `pos` of the points that are still in (strictly increasing),
        `kept(t)`: the point at original position t is still in, `at`: where the iterate is now"""

        def __init__(self, label, last):
            super().__init__(label, self.hv, self.iv, variant=lambda v: self.k.todo - v["n_dropped"])
            self.last = last

        def run_while(self, cond, body, names, vals):
            k = self.k
            if not hasattr(k, "ghost"):
                k.ghost = SimpleNamespace(pos=lambda i: i, kept=lambda t: z3.BoolVal(True), at=k.at0, sq=None)
            self.g = k.ghost

            def wrapped(*hv):
                code, val_, out = body(*hv)
                d = dict(zip(names, out))["xs"].tag.get("deleted")
                if d is not None:
                    g = self.g
                    pos, kept, at = g.pos, g.kept, g.at
                    g.kept = lambda t: z3.And(kept(t), t != pos(d))
                    g.pos = lambda i: pos(z3.If(i < d, i, i + 1))
                    g.at = z3.If(at < d, at, at - 1)
                return code, val_, out

            return super().run_while(cond, wrapped, names, vals)

        def hv(self, names, vals):
            k, c = self.k, self.k.ctx
            zi = z3.IntSort()
            old = dict(zip(names, vals))
            m = k.int("n_left", lo=0)
            self.g.pos, _ = c.fresh_fun("pos", zi, zi)
            self.g.kept, _ = c.fresh_fun("kept", zi, z3.BoolSort())
            self.g.at = c.fresh("at", zi)
            out = {"n_dropped": k.int("n_dropped", lo=0), "xs": k.array("xs_left", (m, k.n)),
                   "indices": k.array("indices_left", (m,), kind="i"), "dists": k.array("dists_left", (m,))}
            if "pdists" in old:
                out["pdists"] = k.array("pdists_left", (m, m), ext=True)
            return {a: b for a, b in out.items() if a in old}

        def iv(self, _, vars):
            k, g = self.k, SimpleNamespace(pos=self.g.pos, kept=self.g.kept, at=self.g.at)
            xs, ind, nd, ds = vars["xs"], vars["indices"], vars["n_dropped"], vars["dists"]
            m = dterm(xs.dims[0])
            n0 = dterm(k.n_points.v if isinstance(k.n_points, Num) else k.n_points)
            fx, fi, fd = xs.snap(), ind.snap(), ds.snap()
            X, ID, D = k.X, k.ID, k.D
            eq = lambda a, b: bterm(V.x_eq(V.num(a), V.num(b)))
            le = lambda a, b: bterm(V.x_le(V.num(a), V.num(b)))
            parts = [
                z3.And(I(nd) >= 0, m == n0 - I(nd), I(nd) <= I(k.todo), dterm(ind.dims[0]) == m, dterm(ds.dims[0]) == m),
                V.Forall([m], lambda i: z3.And(g.pos(i) >= 0, g.pos(i) < n0, g.kept(g.pos(i)))),
                V.Forall([m, m], lambda i, j: z3.Implies(i < j, g.pos(i) < g.pos(j))),
                V.Forall([m, xs.dims[1]], lambda i, j: eq(fx(i, j), X(g.pos(i), j))),
                V.Forall([m], lambda i: z3.And(eq(fi(i), ID(g.pos(i))), eq(fd(i), D(g.pos(i))))),
                z3.Or(m == 0, z3.And(g.at >= 0, g.at < m, g.pos(g.at) == k.at0)),
                # a dropped point was outside and at least as far away as any point outside that is left
                V.Forall([n0, m], lambda t, i: z3.Or(g.kept(t), le(D(g.pos(i)), k.radius.v), le(D(g.pos(i)), D(t)))),
            ]
            if not self.last:
                parts.append(V.Forall([n0], lambda t: z3.Or(g.kept(t), z3.Not(le(D(t), k.radius.v)))))
            else:
                parts.append(V.Forall([m], lambda i: le(fd(i), k.radius.v)))
            if "pdists" in vars:
                pd = vars["pdists"]
                fp = pd.snap()
                parts.append(z3.And([dterm(d) == m for d in pd.dims]))
                # the distance of a point to itself never is the smallest
                parts.append(V.Forall([m, m], lambda i, j: bterm(V.mkb(V.kis(V.num(fp(i, j)), V.PINF))) == (i == j)))
                parts.append(V.Forall([m, m], lambda i, j: z3.Not(bterm(V.mkb(V.kis(V.num(fp(i, j)), V.NINF))))))
                parts.append(V.Forall([m, m], lambda i, j: z3.Not(bterm(V.isnan(fp(i, j))))))
                parts.append(z3.Or(m < 2, z3.Not(bterm(V.mkb(V.kis(V.num(fp(z3.IntVal(0), z3.IntVal(1))), V.PINF))))))
            return V.Conj(parts)

    return {DROP + ":0": Dropping("points outside", False), DROP + ":1": Dropping("points inside", True)}


def _setup(k):
    from pyvc.arrays import I, SArr

    n = k.n = k.int("n_params", lo=1)
    p = k.n_points = k.int("n_points", lo=1)
    xs = k.array("xs", (p, n))
    indices = k.array("indices", (p,), kind="i")
    at = k.int("position_of_the_iterate", lo=0)
    k.assume(at < p)
    k.at0 = at.v
    f, g = xs.snap(), indices.snap()
    k.assume(k.forall([p, p], lambda i, j: k.implies(i != j, lambda: k.lnot(k.eq(indices[i], indices[j])))))
    k.X, k.ID = f, g
    k.radius = k.pos("radius")
    x = SArr((n,), lambda j: f(at.v, j), "f")
    state = SimpleNamespace(x=x, index=g(at.v), trustregion=SimpleNamespace(radius=k.radius))
    return n, p, xs, indices, state


@contract("C14", [DROP], rac=False, loops=loops, deadline=200)
def dropping(k):
    import z3

    from pyvc import npshim
    from pyvc.arrays import I

    n, p, xs, indices, state = _setup(k)
    todo = k.todo = k.int("n_to_drop", lo=0)
    k.assume(todo <= p)
    dist = npshim._FUNCS["linalg"].norm(xs - state.x, axis=1) if "linalg" in npshim._FUNCS else npshim.np.linalg.norm(xs - state.x, axis=1)
    k.D = dist.snap()
    k.check("the iterate is at distance zero", k.eq(k.D(k.at0), 0.0))
    k.assume(k.eq(k.D(k.at0), 0.0))
    before_x, before_i = xs.copy(), indices.copy()
    out_x, out_i = k.call(k.get(DROP), xs, indices, state, todo)
    k.check("exactly the requested number of points is dropped", k.land(k.shape_is(out_x, p - todo, n), k.shape_is(out_i, p - todo)))
    g = getattr(k, "ghost", None)
    pos = g.pos if g else (lambda i: i)
    from pyvc.values import Num

    left = p - todo
    i, j, q = k.int("i", lo=0), k.int("j", lo=0), k.int("q", lo=0)
    k.assume(i < left, j < left, q < n)
    k.check("points stay paired with their indices", k.land(k.eq(val(k, out_i, i), Num(I(k.ID(pos(i.v))), True)),
                                                            k.eq(val(k, out_x, i, q), k.X(pos(i.v), q.v))))
    k.check("only given points are returned", k.land(Num(pos(i.v), True) >= 0, Num(pos(i.v), True) < p))
    k.check("the original order is kept", k.implies(i < j, lambda: Num(pos(i.v), True) < Num(pos(j.v), True)))
    if g:
        a = Num(g.at, True)
        k.check("the iterate stays in", k.implies(left > 0, lambda: k.land(a >= 0, a < left, k.eq(val(k, out_i, a), state.index))))
        t = k.int("some_dropped_point", lo=0)
        from pyvc.values import mkb

        k.assume(t < p, mkb(z3.Not(g.kept(t.v))))
        k.check("points outside the region are dropped first, the furthest first",
                k.implies(k.D(pos(i.v)) > k.radius, lambda: k.D(t.v) >= k.D(pos(i.v))))
    k.check("the arguments are unchanged", k.land(k.eq(xs, before_x), k.eq(indices, before_i)))


def _excess_stub(k, xs, indices, state, n_to_drop):
    """drop_worst_points through its contract"""
    k.check("a feasible number of points is to be dropped", k.land(n_to_drop >= 0, n_to_drop <= k.n_points))
    k.check("the sample is passed on", k.land(xs is k.given[0], indices is k.given[1], state is k.given[2]))
    k.dropped.append(n_to_drop)
    m = k.n_points - n_to_drop
    k.left = (k.array("remaining_xs", (m, k.n)), k.array("remaining", (m,), kind="i"))
    return k.left


@contract("C14", [F + "drop_excess"], rac=False, stubs={DROP: _excess_stub}, deadline=60)
def size_filter(k):
    n, p, xs, indices, state = _setup(k)
    k.given, k.dropped = (xs, indices, state), []
    target = k.int("target_size", lo=1)
    factor = k.pos("n_max_factor")
    out_x, out_i = k.call(k.get(F + "drop_excess"), xs, indices, state, target, factor)
    size = k.len(out_x)
    k.check("never more than the configured multiple of the target size", size <= target * factor)
    k.check("a sample that is small enough is untouched", k.implies(p <= target * factor, lambda: k.land(out_x is xs, out_i is indices)))
    k.check("no more points are dropped than necessary", k.implies(p > target * factor, lambda: size + 1 > target * factor))
    if k.dropped:
        k.check("the remaining sample is returned", k.land(len(k.dropped) == 1, out_x is k.left[0], out_i is k.left[1]))


@contract("C14", [F + "keep_all", F + "discard_all"], rac=False, deadline=30)
def trivial_filters(k):
    n, p, xs, indices, state = _setup(k)
    a, b = k.call(k.get(F + "keep_all"), xs, indices)
    k.check("the sample is untouched", k.land(a is xs, b is indices))
    a, b = k.call(k.get(F + "discard_all"), state)
    k.check("only the iterate is left", k.land(k.shape_is(a, 1, n), k.shape_is(b, 1), k.forall([n], lambda j: a[0, j] == state.x[j]),
                                               k.eq(b[0], state.index)))


# ---------------------------------------------------------------------- run time
def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def check_dropping(k, xs, indices, state, todo, out_x, out_i, say=""):
    """the contract of drop_worst_points on concrete data"""
    xs, indices, out_i = np.asarray(xs), list(map(int, indices)), list(map(int, out_i))
    k.check("exactly the requested number of points is dropped", len(out_i) == len(indices) - todo == len(out_x), say)
    where = {i: t for t, i in enumerate(indices)}
    k.check("only given points are returned", all(i in where for i in out_i), say)
    pos = [where[i] for i in out_i]
    k.check("the original order is kept", all(a < b for a, b in zip(pos, pos[1:])), say)
    k.check("points stay paired with their indices", np.array_equal(np.asarray(out_x), xs[pos].reshape(-1, xs.shape[1])), say)
    if out_i and state.index in where:
        k.check("the iterate stays in", state.index in out_i, say)
    d = np.linalg.norm(xs - state.x, axis=1)
    r = state.trustregion.radius
    if np.any([close(x, r) for x in d]):
        return
    gone = [t for t in range(len(indices)) if t not in pos]
    far = [d[t] for t in pos if d[t] > r]
    if far and gone:
        k.check("points outside the region are dropped first, the furthest first",
                all(d[t] >= max(far) or close(d[t], max(far)) for t in gone), say)
    # inside: one of the two points closest together
    near = [t for t in gone if d[t] <= r]
    if len(near) == 1 and not far:
        left = pos + near
        pd = {(a, b): np.linalg.norm(xs[a] - xs[b]) for a in left for b in left if a < b}
        if pd:
            least = min(pd.values())
            t = near[0]
            k.check("inside the region, one of the two points closest together is dropped",
                    any(t in ab and close(v, least) for ab, v in pd.items()), say)
            if sum(close(v, least) for v in pd.values()) == 1:
                other = [set(ab) - {t} for ab, v in pd.items() if close(v, least)][0].pop()
                if indices[other] != state.index and not close(d[t], d[other]):
                    k.check("of the two, the one nearer to the centre is dropped", d[t] <= d[other], say)


@contract("C14", [DROP], prove=False, rac_n=500, rac_s=10)
def dropping_at_run_time(k):
    from tranquilo.region import Region

    n, p = k.int("n_params", 1, 4), k.int("n_points", 1, 9)
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    xs = rng.normal(size=(p, n))
    if rng.random() < 0.3:
        xs = np.round(xs * 2) / 2
    if rng.random() < 0.2:
        xs[rng.integers(p)] = xs[rng.integers(p)]
    indices = rng.permutation(20)[:p]
    if rng.random() < 0.4:
        indices = np.sort(indices)
    at = int(rng.integers(p))
    state = SimpleNamespace(x=xs[at].copy(), index=int(indices[at]), trustregion=Region(center=xs[at].copy(), radius=float(rng.choice([0.01, 0.5, 1.0, 2.0, 10.0]))))
    todo = int(rng.integers(0, p + 1))
    given = xs.copy(), indices.copy()
    out_x, out_i = k.call(k.get(DROP), xs, indices, state, todo)
    check_dropping(k, xs, indices, state, todo, out_x, out_i, lambda: f"xs={xs.tolist()} indices={indices.tolist()} iterate={state.index} "
                   f"radius={state.trustregion.radius} n_to_drop={todo} kept={list(out_i)}")
    k.check("the arguments are unchanged", np.array_equal(xs, given[0]) and np.array_equal(indices, given[1]))


@contract("C14", [F + "drop_excess"], prove=False, rac_n=300, rac_s=8)
def size_filter_at_run_time(k):
    from tranquilo.filter_points import get_sample_filter
    from tranquilo.region import Region

    n, p = k.int("n_params", 1, 3), k.int("n_points", 1, 12)
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    xs, indices = rng.normal(size=(p, n)), rng.permutation(30)[:p]
    at = int(rng.integers(p))
    state = SimpleNamespace(x=xs[at].copy(), index=int(indices[at]), trustregion=Region(center=xs[at].copy(), radius=float(rng.choice([0.2, 1.0, 3.0]))))
    target, factor = int(rng.integers(1, 6)), int(rng.choice([1, 2, 3]))
    f = get_sample_filter("drop_excess", user_options={"n_max_factor": factor})
    out_x, out_i = k.call(f, xs=xs, indices=indices, state=state, target_size=target)
    size = int(np.floor(target * factor))
    todo = max(0, p - size)
    check_dropping(k, xs, indices, state, todo, out_x, out_i, lambda: f"xs={xs.tolist()} indices={indices.tolist()} target={target} factor={factor}")


@contract("C14", [DROP, F + "drop_excess", "tranquilo.tranquilo:_internal_tranquilo"], prove=False, rac_n=120, rac_s=15)
def along_runs(k):
    import tranquilo.tranquilo as T

    c = draw_case(k)

    def monitor(orig, args, run):
        kind = c.options.get("sample_filter", "drop_excess")

        def monitored(xs, indices, state, target_size, **kw):
            given = xs.copy(), indices.copy()
            out_x, out_i = orig(xs=xs, indices=indices, state=state, target_size=target_size, **kw)
            k.check("the history rows given to the filter are unchanged", np.array_equal(xs, given[0]) and np.array_equal(indices, given[1]), c.describe)
            h = args["history"]
            k.check("points stay paired with their indices", np.array_equal(out_x, h.get_xs(np.asarray(out_i))), c.describe)
            k.check("only given points are returned", set(map(int, out_i)) <= set(map(int, indices)), c.describe)
            if kind != "clustering":
                k.check("the iterate stays in", state.index in out_i, c.describe)
            return out_x, out_i
        return monitored

    real = T.drop_worst_points

    def dropping(xs, indices, state, n_to_drop):
        out = real(xs, indices, state, n_to_drop)
        check_dropping(k, xs, indices, state, n_to_drop, *out, c.describe)
        return out

    T.drop_worst_points = dropping
    try:
        run = c.run(wrap={"filter_points": monitor})
    finally:
        T.drop_worst_points = real
    k.assume(run.res is not None)
