"""C15: clusters partition the points and have valid centres."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

C = "tranquilo.clustering:"
FN = C + "_cluster"


# ------------------------------------------------------------------------- proof
def loops():
    import z3

    from pyvc import values as V
    from pyvc.arrays import I, dterm
    from pyvc.builtins_shim import LoopInv
    from pyvc.values import Num

    class Base(LoopInv):
        """ghost U(k): how many of the first k points have a label"""

        def __init__(self, label, variant=None):
            super().__init__(label, self.hv, self.iv, variant=variant)

        def fresh(self, arr, name):
            f, _ = self.k.ctx.fresh_fun(name, z3.IntSort(), z3.IntSort())
            arr.set_fn(lambda i: Num(f(I(i)), True))

        def hv(self, names, vals):
            k, old, out = self.k, dict(zip(names, vals)), {}
            for nm in ("labels", "centers"):
                if nm in old:
                    self.fresh(old[nm], nm)
                    k.arr[nm] = old[nm]
            if "labels" in old:
                k.U, _ = k.ctx.fresh_fun("U", z3.IntSort(), z3.IntSort())
            for nm in ("n_labeled", "cluster_counter", "candidate_center", "max_n_neighbors", "n_neighbors"):
                if nm in old and isinstance(old[nm], (int, Num)):
                    out[nm] = k.int(nm, lo=None)
            return out

        @property
        def lab(self):
            f = self.k.arr["labels"].snap()
            return lambda t: f(t).v

        @property
        def cen(self):
            f = self.k.arr["centers"].snap()
            return lambda t: f(t).v

        def near(self, i, t):
            return V.bterm(V.x_le(V.num(self.k.D(i, t)), self.k.eps))

        def counting(self, labeled):
            k, n, U, lab = self.k, self.k.nt, self.k.U, self.lab
            return [U(z3.IntVal(0)) == 0, I(labeled) == U(n),
                    V.Forall([n], lambda t: U(t + 1) == U(t) + z3.If(lab(t) >= 0, 1, 0)),
                    V.Forall([n + 1, n + 1], lambda a, b: z3.Implies(a <= b, z3.And(U(b) - U(a) >= 0, U(b) - U(a) <= b - a)))]

        def clusters(self, c):
            n, lab, cen = self.k.nt, self.lab, self.cen
            return [V.Forall([c], lambda q: z3.And(cen(q) >= 0, cen(q) < n, lab(cen(q)) == q)),
                    V.Forall([n], lambda t: z3.Implies(z3.And(lab(t) >= 0, lab(t) < c), self.near(cen(lab(t)), t)))]

        def capture(self, names, vals):
            old = dict(zip(names, vals))
            for nm in ("labels", "centers"):
                if nm in old:
                    self.k.arr[nm] = old[nm]

        def counted(self, body):
            def wrapped(item, *hv):
                t = I(item)
                before = self.lab(t)
                out = body(item, *hv)
                U, flag = self.k.U, z3.And(before < 0, self.lab(t) >= 0)
                self.k.U = lambda k: U(k) + z3.If(z3.And(flag, k > t), 1, 0)
                return out
            return wrapped

    class Outer(Base):
        def run_while(self, cond, body, names, vals):
            self.capture(names, vals)
            self.k.U = lambda k: z3.IntVal(0)
            return super().run_while(cond, body, names, vals)

        def iv(self, _, v):
            c, nl = I(v["cluster_counter"]), v["n_labeled"]
            self.k.started = nl
            return V.Conj(self.counting(nl) + self.clusters(c) + [
                z3.And(c >= 0, c <= I(nl)), V.Forall([self.k.nt], lambda t, lab=self.lab: z3.And(lab(t) >= -1, lab(t) < c))])

    class Search(Base):
        def run_for(self, it, body, names, vals):
            self.capture(names, vals)
            self.n0 = I(dict(zip(names, vals))["n_labeled"])
            r = super().run_for(it, self.counted(body), names, vals)
            self.k.after_search = dict(zip(names, r.vars))
            return r

        def iv(self, j, v):
            c, nl, j = I(v["cluster_counter"]), v["n_labeled"], I(j)
            mx = I(v["max_n_neighbors"])
            cand = I(v["candidate_center"])
            return V.Conj(self.counting(nl) + self.clusters(c) + [
                z3.And(c >= 0, c <= I(nl), I(nl) >= self.n0, mx >= 0), V.Forall([self.k.nt], lambda t, lab=self.lab: z3.And(lab(t) >= -1, lab(t) < c)),
                z3.Implies(mx == 0, self.k.U(j) == j),
                z3.Implies(mx > 0, z3.And(cand >= 0, cand < j, self.lab(cand) < 0))])

    class Count(Base):
        def iv(self, j, v):
            return V.Conj([I(v["n_neighbors"]) >= 0])

    class Fill(Base):
        def run_for(self, it, body, names, vals):
            self.capture(names, vals)
            self.n0 = I(dict(zip(names, vals))["n_labeled"])
            return super().run_for(it, self.counted(body), names, vals)

        def iv(self, j, v):
            s = self.k.after_search
            c, i, nl, j = I(s["cluster_counter"]), I(s["candidate_center"]), v["n_labeled"], I(j)
            n, lab = self.k.nt, self.lab
            return V.Conj(self.counting(nl) + self.clusters(c) + [
                z3.And(c >= 0, c < n, c + z3.If(j > i, 1, 0) <= I(nl), I(nl) >= self.n0 + z3.If(j > i, 1, 0)),
                V.Forall([n], lambda t: z3.And(lab(t) >= -1, lab(t) <= c)),
                V.Forall([n], lambda t: z3.Implies(lab(t) == c, self.near(i, t))),
                z3.If(j > i, lab(i) == c, lab(i) < 0)])

    nv = lambda v: Num(0, True)
    outer = Outer("outer loop")
    outer.variant = lambda v: Num(outer.k.nt - I(v["n_labeled"]), True)
    return {FN + ":0": outer, FN + ":1": Search("search for a centre"), FN + ":2": Count("neighbour count"), FN + ":3": Fill("labelling")}


@contract("C15", [FN], rac=False, loops=loops, deadline=200)
def clustering(k):
    from pyvc.arrays import I, dterm
    from pyvc.values import Num

    n = k.int("n_points", lo=1)
    k.nt = dterm(n.v)
    k.arr = {}
    d = k.array("distances", (n, n))
    k.eps = k.real("epsilon", lo=0)
    k.assume(k.forall([n], lambda i: d[i, i] == 0.0))
    k.D = d.snap()
    labels, centers = k.call(k.get(FN), d, k.eps)
    c = k.len(centers)
    k.check("one label per point", k.shape_is(labels, n))
    t, q = k.int("some_point", lo=0), k.int("some_cluster", lo=0)
    k.assume(t < n, q < c)
    lt = val(k, labels, t)
    k.check("every point belongs to one of the clusters", k.land(lt >= 0, lt < c))
    cq = val(k, centers, q)
    k.check("every cluster has one centre, which is a member", k.land(cq >= 0, cq < n, k.eq(val(k, labels, cq), q)))
    k.check("every member lies within the distance of its centre", Num(0, False) + V_(k, k.D(I(val(k, centers, lt)), I(t))) <= k.eps)


def V_(k, x):
    from pyvc import values as V

    return V.num(x)


def _cluster_stub(k, dists, epsilon):
    """_cluster through its contract"""
    n = k.n
    k.check("distances between all pairs of points are passed", k.shape_is(dists, n, n))
    k.check("a point is at distance zero from itself", k.forall([n], lambda i: dists[i, i] == 0.0))
    k.check("the distance is passed on", k.eq(epsilon, k.eps))
    i, j = k.int("i", lo=0), k.int("j", lo=0)
    k.assume(i < n, j < n)
    from pyvc import npshim

    x = k.x
    want = npshim.np.linalg.norm(x[i] - x[j]) if hasattr(npshim, "np") else None
    if want is not None:
        k.check("distances are Euclidean", k.eq(val(k, dists, i, j), want))
    c = k.int("n_clusters", lo=1)
    k.out = (k.array("labels", (n,), kind="i"), k.array("centers", (c,), kind="i"))
    return k.out


@contract("C15", [C + "cluster"], rac=False, stubs={FN: _cluster_stub}, deadline=60)
def distances(k):
    n = k.n = k.int("n_points", lo=1)
    k.x = k.array("x", (n, k.int("n_params", lo=1)))
    k.eps = k.real("epsilon", lo=0)
    labels, centers = k.call(k.get(C + "cluster"), k.x, k.eps)
    k.check("the clusters found are returned", k.land(labels is k.out[0], centers is k.out[1]))


# ---------------------------------------------------------------------- run time
def check_clusters(k, d, eps, labels, centers, say):
    labels, centers = np.asarray(labels), np.asarray(centers)
    n, c = len(d), len(centers)
    k.check("one label per point", labels.shape == (n,), say)
    k.check("every point belongs to one of the clusters, numbered consecutively", set(labels.tolist()) == set(range(c)), say)
    k.check("every cluster has one centre, which is a member",
            all(0 <= i < n for i in centers) and [int(labels[i]) for i in centers] == list(range(c)), say)
    k.check("every member lies within the distance of its centre",
            all(d[centers[labels[t]], t] <= eps * (1 + 1e-12) for t in range(n)), say)


@contract("C15", [FN, C + "cluster"], prove=False, rac_n=500, rac_s=10)
def clustering_at_run_time(k):
    from scipy.spatial.distance import pdist, squareform

    p, n = k.int("n_points", 1, 14), k.int("n_params", 1, 4)
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    x = rng.normal(size=(p, n))
    u = rng.random()
    if u < 0.25:
        x = np.round(x * 2) / 2
    elif u < 0.4:
        x = x[rng.integers(0, max(1, p // 2), size=p)]
    elif u < 0.45:
        x = np.zeros((p, n))
    eps = float(rng.choice([0.0, 1e-12, 0.1, 0.5, 1.0, 2.0, 100.0]))
    given = x.copy()
    labels, centers = k.call(k.get(C + "cluster"), x, eps)
    d = squareform(pdist(given))
    check_clusters(k, d, eps, labels, centers, lambda: f"x={given.tolist()} epsilon={eps} labels={list(labels)} centers={list(centers)}")
    k.check("the points are unchanged", np.array_equal(x, given))


@contract("C15", [FN], prove=False, rac_n=500, rac_s=8)
def any_distances_at_run_time(k):
    p = k.int("n_points", 1, 10)
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    d = np.round(rng.exponential(size=(p, p)) * 4) / 4 if rng.random() < 0.5 else rng.exponential(size=(p, p))
    d = d + d.T
    d[np.arange(p), np.arange(p)] = 0.0
    eps = float(rng.choice([0.0, 0.25, 0.5, 1.0, 2.0]))
    labels, centers = k.call(k.get(FN), d, eps)
    check_clusters(k, d, eps, labels, centers, lambda: f"distances={d.tolist()} epsilon={eps} labels={list(labels)} centers={list(centers)}")


@contract("C15", ["tranquilo.filter_points:keep_cluster_centers"], prove=False, rac_n=300, rac_s=8)
def centers_as_sample(k):
    from tranquilo.filter_points import get_sample_filter
    from tranquilo.region import Region

    p, n = k.int("n_points", 1, 12), k.int("n_params", 1, 3)
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    xs, indices = rng.normal(size=(p, n)), rng.permutation(30)[:p]
    if rng.random() < 0.4:
        xs = xs[rng.integers(0, p, size=p)]
    state = SimpleNamespace(x=xs[0].copy(), index=int(indices[0]), trustregion=Region(center=xs[0].copy(), radius=float(rng.choice([0.2, 1.0, 3.0]))))
    strict = float(rng.choice([1e-10, 0.1, 1.0]))
    f = get_sample_filter("clustering", user_options={"strictness": strict})
    out_x, out_i = k.call(f, xs=xs, indices=indices, state=state, target_size=int(rng.integers(1, 6)))
    where = {int(i): t for t, i in enumerate(indices)}
    k.check("the centres are points of the sample with their own indices",
            len(set(map(int, out_i))) == len(out_i) >= 1 and all(int(i) in where and np.array_equal(xs[where[int(i)]], a) for i, a in zip(out_i, out_x)))


@contract("C15", [FN, C + "cluster"], prove=False, rac_n=60, rac_s=12)
def along_runs(k):
    import tranquilo.filter_points as FP
    from scipy.spatial.distance import pdist, squareform

    c = draw_case(k)
    c.options["sample_filter"] = "clustering"
    real = FP.cluster

    def monitored(x, epsilon, shape="sphere"):
        labels, centers = real(x=x, epsilon=epsilon, shape=shape)
        check_clusters(k, squareform(pdist(x)), epsilon, labels, centers, c.describe)
        return labels, centers

    FP.cluster = monitored
    try:
        run = c.run()
    finally:
        FP.cluster = real
    k.assume(run.res is not None)
