"""C24: noise variances are weighted averages over nearby points only."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

FN = "tranquilo.estimate_variance:_estimate_variance_classic"


class Evaluations:
    """A history by contract: distinct nearby points, each with a positive number of finite evaluations."""

    def __init__(self, k, vector):
        self.k, self.asked = k, []
        self.m = k.int("n_nearby", lo=1, cap=5)
        self.r = k.int("n_residuals", lo=1, cap=3) if vector else None
        if k.sym:
            import z3

            from pyvc import values as V
            from pyvc.arrays import I, dterm
            from pyvc.values import Num

            k.ctx.match_masks, k.ctx.sum_signs = [], True
            self.idx = k.array("idx", (self.m,), kind="i")
            nf, _ = k.ctx.fresh_fun("N", z3.IntSort(), z3.IntSort())
            ff, _ = k.ctx.fresh_fun("F", *[z3.IntSort()] * (3 if vector else 2), z3.RealSort())
            self.count = lambda i: Num(nf(I(i)), True)
            self.value = lambda i, *j: Num(ff(I(i), *[I(t) for t in j]), False)
            k.assume(V.Forall([dterm(self.idx.dims[0])] * 2, lambda a, b: z3.Implies(a < b, val(k, self.idx, a).v != val(k, self.idx, b).v)))
            k.assume(V.Forall([dterm(self.idx.dims[0])], lambda a: nf(val(k, self.idx, a).v) >= 1))
        else:
            self.idx = [int(i) for i in k.rng.permutation(12)[: self.m]]
            counts = {i: k.int("count", lo=1, cap=5) for i in self.idx}
            self.vals = {i: k.array("values", (counts[i],) + (() if not vector else (self.r,))) for i in self.idx}

    def get_x_indices_in_region(self, region):
        self.asked.append(region)
        return self.idx.copy() if self.k.sym else list(self.idx)

    def sample(self, i):
        if not self.k.sym:
            return self.vals[int(i)].copy()
        from pyvc.arrays import SArr, dnorm
        from pyvc.values import num

        n = dnorm(self.count(num(i).v))
        if self.r is None:
            return SArr((n,), lambda j, i=i: self.value(num(i).v, j), "f")
        return SArr((n, dnorm(self.r)), lambda j, l, i=i: self.value(num(i).v, j, l), "f")

    def _get(self, what):
        k = self.k
        if not k.sym:
            if isinstance(what, (int, np.integer)):
                return self.sample(what)
            return {int(i): self.sample(i) for i in what}
        from pyvc.builtins_shim import seq_of
        from pyvc.seqs import SDict
        from pyvc.values import Num, num

        if isinstance(what, Num):
            return self.sample(what)
        s = seq_of(what)
        k.check("every point used has at least the required number of evaluations", k.forall([s.n], lambda j: self.count(num(s.item(j)).v) >= self.cutoff))
        k.check("so every point used has two evaluations", k.forall([s.n], lambda j: self.count(num(s.item(j)).v) >= 2))
        return SDict(s.n, s.item, lambda j: self.sample(s.item(j)))

    def get_fvals(self, what):
        if self.r is None:
            return self._get(what)
        # the value of an evaluation of a vector criterion is its own number, here the first residual
        raw = self._get(what)
        if not self.k.sym:
            return {i: v[:, 0] for i, v in raw.items()} if isinstance(raw, dict) else raw[:, 0]
        from pyvc.arrays import SArr
        from pyvc.seqs import SDict

        if isinstance(raw, SArr):
            return SArr((raw.dims[0],), lambda j: raw.get(j, 0), "f")
        return SDict(raw.n, raw.key, lambda j: SArr((raw.val(j).dims[0],), lambda q, j=j: raw.val(j).get(q, 0), "f"))

    def get_fvecs(self, what):
        return self._get(what)

    def get_n_evals(self, what):
        raise NotImplementedError


class Region:
    """a region stand-in with the one operation the estimator needs"""

    def __init__(self, center, radius, **rest):
        self.center, self.radius, self.rest = center, radius, rest

    def _replace(self, **kw):
        return Region(**{"center": self.center, "radius": self.radius, **self.rest, **kw})


def counts_of(k, ev):
    if k.sym:
        from pyvc.arrays import SArr

        return SArr(ev.idx.dims, lambda a: ev.count(val(k, ev.idx, a).v), "i")
    return np.array([len(ev.vals[i]) for i in ev.idx])


def setup(k, vector):
    ev = Evaluations(k, vector)
    n = k.int("n_params", lo=1, cap=3)
    reg = Region(k.array("center", (n,)), k.real("radius", lo=1e-8), sphere=k.array("sphere", (n,)))
    factor = k.real("factor", lo=1e-8)
    cut = k.int("min_n_evals", lo=2, cap=6)
    cnt = counts_of(k, ev)
    top = cnt.max()
    k.assume(top >= 2)
    cutoff = ev.cutoff = k.ite(top < cut, top, cut)
    return ev, reg, factor, cut, cnt, cutoff


def nearby_only(k, ev, reg, factor):
    k.check("the points are those of one region", len(ev.asked) == 1)
    asked = ev.asked[0]
    k.check("around the current centre", k.same(asked.center, reg.center))
    k.check("with the radius scaled by the distance factor", k.eq(asked.radius, reg.radius * factor))


@contract("C24", [FN], deadline=200)
def scalar(k):
    ev, reg, factor, cut, cnt, cutoff = setup(k, False)
    used = cnt >= cutoff
    w = cnt[used]
    where = ev.idx[used] if k.sym else np.array(ev.idx)[used]
    total = w.sum()
    k.check("at least one point is used", k.len(w) >= 1)
    k.check("the first point used has an evaluation", val(k, w, 0) >= 1)
    k.check("the total number of evaluations is positive", total > 0)
    out = k.call(k.get(FN), reg, ev, "scalar", factor, cut)
    nearby_only(k, ev, reg, factor)
    ref = k.sum(k.len(w), lambda j: val(k, w, j) / total * k.np.var(ev.sample(val(k, where, j)), ddof=1))
    k.check("the weighted average of the sample variances", k.eq(out, ref))
    k.check("no weight is negative", k.forall([k.len(w)], lambda j: k.land(val(k, w, j) / total >= 0)))
    k.check("no sample variance is negative", k.forall([k.len(w)], lambda j: k.np.var(ev.sample(val(k, where, j)), ddof=1) >= 0))
    k.check("never negative", k.le(0.0, out))


@contract("C24", [FN], deadline=250)
def vector(k):
    ev, reg, factor, cut, cnt, cutoff = setup(k, True)
    k.assume(ev.r >= 2)
    used = cnt >= cutoff
    w = cnt[used]
    where = ev.idx[used] if k.sym else np.array(ev.idx)[used]
    total = w.sum()
    k.check("at least one point is used", k.len(w) >= 1)
    k.check("the first point used has an evaluation", val(k, w, 0) >= 1)
    k.check("the total number of evaluations is positive", total > 0)
    out = k.call(k.get(FN), reg, ev, "vector", factor, cut)
    nearby_only(k, ev, reg, factor)
    k.check("one row and column per residual", k.shape_is(out, ev.r, ev.r))
    a, b = k.int("a", lo=0, hi=ev.r - 1), k.int("b", lo=0, hi=ev.r - 1)

    def cov(sample):
        return k.np.cov(sample, rowvar=False, ddof=1)

    ref = k.sum(k.len(w), lambda j: val(k, w, j) / total * val(k, cov(ev.sample(val(k, where, j))), a, b))
    k.check("the weighted average of the sample covariances", k.eq(val(k, out, a, b), ref))
    k.check("symmetric", k.eq(val(k, out, a, b), val(k, out, b, a)))


def oracle(groups, near, cutoff_opt, pick):
    """groups: all evaluations of each point; near: the points in the region"""
    top = max(len(groups[i]) for i in near)
    cutoff = min(top, cutoff_opt)
    used = [i for i in near if len(groups[i]) >= cutoff]
    total = sum(len(groups[i]) for i in used)
    out = 0.0
    for i in used:
        d = pick(groups[i])
        d = d - d.mean(axis=0)
        out = out + (len(d) / total) * (np.dot(d.T, d) / (len(d) - 1))
    return out


@contract("C24", [FN, "tranquilo.history:History.get_x_indices_in_region", "tranquilo.history:History.get_fvals", "tranquilo.history:History.get_fvecs"],
          prove=False, rac_n=1500, rac_s=15)
def with_a_real_history(k):
    from tranquilo.history import History
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region as RealRegion

    n = k.int("n_params", lo=1, cap=3)
    kind = k.choice("functype", ["scalar", "least_squares", "likelihood"])
    r = 1 if kind == "scalar" else k.int("n_residuals", lo=1, cap=3)
    m = k.int("n_points", lo=1, cap=7)
    seed = k.int("seed", lo=0, cap=10**6)
    rng = np.random.default_rng(seed)
    xs = rng.integers(-3, 4, size=(m, n)) * 0.5
    h = History(kind)
    idx = h.add_xs(xs)
    groups = {int(i): [] for i in idx}
    for _ in range(int(rng.integers(1, 4))):
        batch = {}
        for i in rng.permutation(idx):
            c = int(rng.integers(0, 5))
            if c:
                v = rng.normal(size=(c, r)) * 10.0 ** rng.integers(-3, 3) + rng.normal()
                if kind == "scalar":
                    v = v[:, 0]
                batch[int(i)] = v
                groups[int(i)].extend(np.atleast_1d(q) for q in v)
        if batch:
            h.add_evals([i for i, v in batch.items() for _ in v], [q for v in batch.values() for q in v])
    groups = {i: np.array(v) for i, v in groups.items()}
    k.assume(any(len(v) for v in groups.values()))
    k.assume(all(len(v) for v in groups.values()))
    center, radius, factor = xs[int(rng.integers(m))], float(rng.uniform(0.1, 1.5)), float(rng.choice([1.0, 3.0, 0.5]))
    lower, upper = (np.full(n, -np.inf), np.full(n, np.inf)) if rng.random() < 0.5 else (np.full(n, -1.6), np.full(n, 1.6))
    reg = RealRegion(center=np.clip(center, lower, upper), radius=radius, bounds=Bounds(lower=lower, upper=upper))
    dist = np.sqrt(((xs - reg.center) ** 2).sum(axis=1))
    k.assume(np.abs(dist - radius * factor).min() > 1e-9)
    near = [i for i in range(m) if dist[i] <= radius * factor]
    k.assume(len(near) > 0 and max(len(groups[i]) for i in near) >= 2)
    cut = int(rng.integers(2, 7))
    total = {"scalar": lambda v: v[:, 0], "least_squares": lambda v: (v**2).sum(axis=1), "likelihood": lambda v: v.sum(axis=1)}[kind]
    desc = lambda: f"{kind} {xs.tolist()} { {i: v.tolist() for i, v in groups.items()} } {near} {cut}"
    before = (h.get_n_fun(), h.get_xs().copy(), h.fvecs.copy())
    out = k.call(k.get(FN), reg, h, "scalar", factor, cut)
    want = oracle(groups, near, cut, total)
    k.check("the weighted average of the sample variances of the points near the centre", np.allclose(out, want, rtol=1e-8, atol=1e-12), lambda: f"{out} {want} {desc()}")
    k.check("never negative", out >= 0)
    if kind != "scalar":
        out = k.call(k.get(FN), reg, h, "vector", factor, cut)
        want = oracle(groups, near, cut, lambda v: v)
        k.check("the weighted average of the sample covariances of the points near the centre", np.allclose(out, want, rtol=1e-8, atol=1e-12), lambda: f"{out} {want} {desc()}")
        k.check("no variance is negative", np.linalg.eigvalsh(np.atleast_2d(out)).min() >= -1e-9 * np.abs(out).max())
    k.check("the history is not changed", before[0] == h.get_n_fun() and np.array_equal(before[1], h.get_xs()) and np.array_equal(before[2], h.fvecs, equal_nan=True))


@contract("C24", [FN, "tranquilo.tranquilo:_internal_tranquilo"], prove=False, rac_n=60, rac_s=25, chunks=3)
def along_noisy_runs(k):
    c = draw_case(k, noisy=True, faults="none")
    r = np.random.default_rng(c.seed)
    factor, cut = float(r.choice([3.0, 1.0, 2.0])), int(r.choice([2, 3, 5]))
    c.options["variance_estimator_options"] = {"max_distance_factor": factor, "min_n_evals": cut}

    def monitor(f, args, run):
        def g(*a, **kw):
            out = f(*a, **kw)
            h, reg = args["history"], kw["trustregion"]
            xs = h.get_xs()
            dist = np.sqrt(((xs - reg.center) ** 2).sum(axis=1))
            if np.abs(dist - reg.radius * factor).min() < 1e-9 * max(1, reg.radius):
                return out
            near = [i for i in range(len(xs)) if dist[i] <= reg.radius * factor and len(h.index_mapper[i])]
            groups = {i: h.fvecs[h.index_mapper[i]] for i in near}
            if max(len(v) for v in groups.values()) < 2:
                return out
            agg = {"scalar": lambda v: v[:, 0], "least_squares": lambda v: (v**2).sum(axis=1), "likelihood": lambda v: v.sum(axis=1)}[h.functype]
            if not all(np.isfinite(v).all() for v in groups.values()):
                return out
            want = oracle(groups, near, cut, agg if kw["model_type"] == "scalar" else (lambda v: v))
            scale = max(np.max(np.abs(agg(v))) for v in groups.values()) ** 2
            k.check("the weighted average over the points near the current centre", np.allclose(out, want, rtol=1e-6, atol=1e-12 * scale + 1e-14),
                    lambda: f"{out} {want} {c.describe()}")
            k.nontrivial = True
            return out
        return g

    c.run(wrap={"estimate_variance": monitor})
