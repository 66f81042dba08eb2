"""C13: samplers return the requested number of points inside the region."""
from types import SimpleNamespace

import numpy as np

from contracts.c08 import FNS as REGION, OPT, make
from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

S = "tranquilo.sample_points:"
MAP = "tranquilo.region:Region.map_from_unit"


class Draws:
    """a random generator seen through its contract"""

    def __init__(self, k):
        self.k = k

    def _size(self, size):
        return tuple(size) if isinstance(size, (tuple, list)) else (size,)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._nonzero(self.k.array("draws", self._size(size)))

    def uniform(self, low=0.0, high=1.0, size=None):
        from pyvc.arrays import I, bindex, to_sarr

        k, dims = self.k, self._size(size)
        out = k.array("draws", dims)
        lo, hi = to_sarr(low), to_sarr(high)
        fl, fh, fo, nd = lo.snap(), hi.snap(), out.snap(), len(dims)
        k.assume(k.forall(list(dims), lambda *i: k.land(
            fo(*[I(t) for t in i]) >= fl(*bindex(lo.dims, nd, [I(t) for t in i])),
            fo(*[I(t) for t in i]) <= fh(*bindex(hi.dims, nd, [I(t) for t in i])))))
        return self._nonzero(out)

    def _nonzero(self, out):
        """no drawn vector is exactly zero"""
        from pyvc.arrays import I
        from pyvc.values import Num

        k = self.k
        lead = list(out.dims[:-1])
        w = k.array("nonzero_entry", tuple(lead), kind="i").snap()
        f, n = out.snap(), out.dims[-1]
        k.assume(k.forall(lead, lambda *i: k.land(w(*[I(t) for t in i]) >= 0, w(*[I(t) for t in i]) < Num(I(n), True))))
        k.assume(k.forall(lead, lambda *i: k.lnot(k.eq(f(*[I(t) for t in i], w(*[I(t) for t in i]).v), 0.0))))
        return out


def generator(k):
    if k.sym:
        return Draws(k)
    return np.random.default_rng(k.int("seed", 0, 10**6))


def in_region(k, reg, n, out, i):
    """the i-th point lies in the region"""
    if reg.shape == "sphere":
        d2 = k.sum(n, lambda j: (val(k, out, i, j) - val(k, reg.center, j)) * (val(k, out, i, j) - val(k, reg.center, j)))
        k.check("every point lies in the ball", k.le(d2, reg.radius * reg.radius))
    else:
        b = reg.cube_bounds
        j = k.int("parameter", lo=0, hi=n - 1)
        x = val(k, out, i, j)
        k.check("every point lies in the box", k.land(x >= val(k, b.lower, j), x <= val(k, b.upper, j)))


@contract("C13", [S + "_project_onto_unit_hull"], deadline=60)
def projection(k):
    n = k.int("n_params", lo=1, cap=4)
    m = k.int("n_points", lo=1, cap=4)
    x = k.array("x", (m, n))
    i = k.int("point", lo=0, hi=m - 1)
    w = k.int("nonzero", lo=0, hi=n - 1)
    if k.sym:
        nz = k.array("nonzero_entry", (m,), kind="i")
        k.assume(k.forall([m], lambda p: k.land(nz[p] >= 0, nz[p] < n)))
        k.assume(k.forall([m], lambda p: k.lnot(k.eq(x[p, nz[p]], 0.0))))
    else:
        k.assume(np.all(np.abs(x).max(axis=1) > 1e-6))
    shape = k.choice("shape", ["sphere", "cube"])
    keep = x.copy()
    out = k.call(k.get(S + "_project_onto_unit_hull"), x, trustregion_shape=shape)
    k.check("one projected point per point", k.shape_is(out, m, n))
    if shape == "sphere":
        k.check("the Euclidean norm is one", k.eq(k.sum(n, lambda j: val(k, out, i, j) * val(k, out, i, j)), 1.0))
    else:
        j = k.int("parameter", lo=0, hi=n - 1)
        v = val(k, out, i, j)
        k.check("no coordinate exceeds one", k.land(k.le(v, 1.0), k.le(-1.0, v)))
        if k.sym:
            k.check("the maximum norm is one", k.eq(k.np.linalg.norm(out, axis=1, ord=np.inf)[i], 1.0))
        else:
            k.check("the maximum norm is one", np.isclose(np.abs(out[i]).max(), 1.0))
    k.check("the argument is unchanged", k.same(x, keep))


def _region(k, kinds=("none", "lower", "upper", "both")):
    n = k.int("n_params", lo=1, cap=4)
    reg, c, r, lo, up = make(k, n, k.choice("bounds", list(kinds)))
    return n, reg


COMMON = dict(OPT, deadline=150)


@contract("C13", [S + "_box_sampler", S + "_interior_sampler"], **COMMON)
def box_sampler(k):
    n, reg = _region(k, ("lower", "upper", "both"))
    if reg.shape == "sphere":
        k.assume(False)
    p = k.int("n_points", lo=0, cap=5)
    out = k.call(k.get(S + "_interior_sampler"), trustregion=reg, n_points=p, rng=generator(k))
    k.check("the requested number of points", k.shape_is(out, p, n))
    i = k.int("point", lo=0)
    k.assume(i < p)
    in_region(k, reg, n, out, i)


@contract("C13", [S + "_ball_sampler", S + "_interior_sampler"], **COMMON)
def ball_sampler(k):
    n, reg = _region(k, ("none", "both"))
    if reg.shape != "sphere":
        k.assume(False)
    p = k.int("n_points", lo=0, cap=5)
    out = k.call(k.get(S + "_interior_sampler"), trustregion=reg, n_points=p, rng=generator(k))
    k.check("the requested number of points", k.shape_is(out, p, n))
    i = k.int("point", lo=0)
    k.assume(i < p)
    in_region(k, reg, n, out, i)


@contract("C13", [S + "_hull_sampler", S + "_draw_from_distribution", S + "_project_onto_unit_hull"], **COMMON)
def hull_sampler(k):
    n, reg = _region(k)
    p = k.int("n_points", lo=0, cap=5)
    dist = k.choice("distribution", [None, "normal", "uniform"])
    out = k.call(k.get(S + "_hull_sampler"), trustregion=reg, n_points=p, rng=generator(k), distribution=dist)
    k.check("the requested number of points", k.shape_is(out, p, n))
    i = k.int("point", lo=0)
    k.assume(i < p)
    in_region(k, reg, n, out, i)
    if reg.shape == "sphere":
        d2 = k.sum(n, lambda j: (val(k, out, i, j) - val(k, reg.center, j)) * (val(k, out, i, j) - val(k, reg.center, j)))
        k.check("points of the hull have unit norm", k.eq(d2, reg.radius * reg.radius))
    elif not k.sym:
        u = reg.map_to_unit(out)
        k.check("points of the hull have unit norm", np.allclose(np.abs(u).max(axis=1), 1.0, atol=1e-7))


def _minimize(k, fun, x0, method=None, bounds=None, options=None, **kw):
    """scipy.optimize.minimize: any finite vector of the right length may come back"""
    k.opt_calls.append((fun, x0, bounds, options))
    res = k.array("optimizer_result", k.opt_shape)
    w = k.array("nonzero_entry_opt", (k.opt_shape[0],), kind="i")
    k.assume(k.forall([k.opt_shape[0]], lambda i: k.land(w[i] >= 0, w[i] < k.opt_shape[1], k.lnot(k.eq(res[i, w[i]], 0.0)))))
    return SimpleNamespace(x=res.reshape(-1))


def _det_stub(k, x, existing_xs, trustregion_shape, n_params):
    """the geometry criterion: some number that depends on the sample only"""
    for y, v in k.crits:
        if y is x:
            return v
    v = k.real("geometry_criterion")
    k.crits.append((x, v))
    return v


def _project_stub(k, x, trustregion_shape):
    """_project_onto_unit_hull through its contract (proved above)"""
    from pyvc.arrays import I

    p, n = x.dims[:2]
    out = k.array("projected", (p, n))
    f = out.snap()
    if trustregion_shape == "sphere":
        # the rows are independent of each other, so the contract is used at the point that is checked
        i = k.row
        k.assume(k.implies(i < p, k.eq(k.sum(n, lambda j: f(I(i), I(j)) * f(I(i), I(j))), 1.0)))
    else:
        k.assume(k.forall([p, n], lambda i, j: k.land(f(I(i), I(j)) <= 1.0, f(I(i), I(j)) >= -1.0)))
    k.projections.append((x, out))
    return out


OPTIMAL = dict(OPT, rac=False, deadline=300, stubs={S + "_determinant_on_hull": _det_stub, S + "minimize": _minimize, S + "Bounds": lambda k, lb, ub: (lb, ub),
                 S + "_project_onto_unit_hull": _project_stub})


def optimal_sampler(k, shape):
    from pyvc.arrays import I
    from pyvc.values import num

    n, reg = _region(k, ("both",))
    if reg.shape != shape:
        k.assume(False)
    p = k.int("n_points", lo=1)
    k.opt_calls, k.crits, k.projections, k.opt_shape = [], [], [], (p, n)
    existing = None
    if k.bool("existing_points"):
        existing = k.array("existing_xs", (k.int("n_existing", lo=1), n))
    opts = {"maxiter": 3} if existing is not None else None
    given = dict(opts) if opts else None
    crit = k.choice("criterion", [None, "distance", "determinant"])
    i, j = k.int("point", lo=0), k.int("coordinate", lo=0)
    k.assume(i < p, j < n)
    k.row = i
    out = k.call(k.get(S + "_optimal_hull_sampler"), trustregion=reg, n_points=p, rng=generator(k), distribution=None, hardness=1,
                 algorithm="L-BFGS-B", algo_options=opts, criterion=crit, n_points_randomsearch=1, return_info=False, existing_xs=existing)
    k.check("the requested number of points", k.shape_is(out, p, n))
    if reg.shape == "sphere":
        in_region(k, reg, n, out, i)
    else:  # C08: whatever is mapped from unit coordinates ends up in the box
        k.check("the points are in the unit cube", k.land(val(k, k.projections[-1][1], i, j) <= 1, val(k, k.projections[-1][1], i, j) >= -1))
    k.check("the user's options are unchanged", opts == given)
    # the sample that is returned, in unit coordinates before the last projection
    (first, start), (last, unit) = k.projections[0], k.projections[-1]
    back = reg.map_from_unit(unit)
    k.check("the points are those of the last sample", k.eq(val(k, out, i, j), val(k, back, i, j)))
    chosen, begin = val(k, last, i, j), val(k, start, i, j)
    values = [(val(k, x.reshape(-1, n), i, j), v) for x, v in k.crits]
    k.check("the sample is not worse than its starting sample",
            k.lor(*[k.land(k.eq(y0, begin), k.eq(y, chosen), v >= v0) for y0, v0 in values for y, v in values]))


@contract("C13", [S + "_optimal_hull_sampler"], **OPTIMAL)
def optimal_sampler_ball(k):
    optimal_sampler(k, "sphere")


@contract("C13", [S + "_optimal_hull_sampler"], **OPTIMAL)
def optimal_sampler_box(k):
    optimal_sampler(k, "cube")


@contract("C13", [S + "_optimal_hull_sampler"], rac_n=20)
def no_points(k):
    n, reg = _region(k, ("none", "both"))
    p = k.choice("n_points", [0, -1])
    out = k.call(k.get(S + "_optimal_hull_sampler"), trustregion=reg, n_points=p, rng=None, distribution=None, hardness=1,
                 algorithm="L-BFGS-B", algo_options=None, criterion=None, n_points_randomsearch=1, return_info=False, existing_xs=None)
    k.check("no point is returned", k.eq(k.len(out), 0))


def hull_norms(reg, out):
    u = np.atleast_2d(reg.map_to_unit(out))
    return np.linalg.norm(u, axis=1) if reg.shape == "sphere" else np.abs(u).max(axis=1)


def check_sample(k, name, reg, p, out, why=lambda: None):
    n = len(reg.center)
    k.check("the requested number of points", np.shape(out) == (p, n) or (p <= 0 and np.size(out) == 0), why)
    if p <= 0:
        return
    if reg.shape == "sphere":
        d = np.linalg.norm(out - reg.center, axis=1)
        k.check("every point lies in the ball", bool(np.all(d <= reg.radius * (1 + 1e-9) + 1e-12 * np.abs(reg.center).max())), why)
    else:
        b = reg.cube_bounds
        k.check("every point lies in the box", bool(np.all((out >= b.lower) & (out <= b.upper))), why)
    if "hull" in name and reg.radius > 1e-6 * (1 + np.abs(reg.center).max()):
        if reg.shape == "sphere" or np.all(b.upper - b.lower > 1e-6 * (1 + np.abs(reg.center))):
            k.check("points of the hull have unit norm", np.allclose(hull_norms(reg, out), 1.0, atol=1e-6), why)


def geometry(x, existing, n):
    """the Fekete criterion in unit coordinates"""
    sample = x if existing is None else np.vstack([x, existing])
    return np.linalg.det(sample.T @ sample / len(x))


@contract("C13", [S + "get_sampler", S + "_optimal_hull_sampler", S + "_determinant_on_hull", S + "_minimal_pairwise_distance_on_hull"],
          prove=False, rac_n=120)
def samplers_at_run_time(k):
    n, reg = _region(k)
    p = k.int("n_points", lo=0, hi=7)
    name = str(k.choice("sampler", ["random_interior", "random_hull", "optimal_hull", "optimal_hull"]))
    g = np.random.default_rng(k.int("seed", 0, 10**6))
    opts = {}
    if name != "random_interior" and g.random() < 0.5:
        opts["distribution"] = str(g.choice(["normal", "uniform"]))
    algo = None
    if name == "optimal_hull":
        if g.random() < 0.5:
            opts["criterion"] = str(g.choice(["distance", "determinant"]))
        if g.random() < 0.5:
            opts["n_points_randomsearch"] = int(g.integers(1, 5))
        if g.random() < 0.3:
            opts["hardness"] = float(g.choice([0.1, 5.0]))
        if g.random() < 0.4:
            opts["algorithm"] = str(g.choice(["L-BFGS-B", "SLSQP", "TNC"]))
        if g.random() < 0.4:
            algo = opts["algo_options"] = {} if g.random() < 0.5 else {"maxiter": int(g.integers(1, 30))}
        opts["return_info"] = bool(g.random() < 0.7)
    before = None if algo is None else dict(algo)
    existing = None
    if g.random() < 0.6:
        u = g.uniform(-1, 1, size=(int(g.integers(1, 8)), n)) * g.choice([1.0, 0.05])
        if reg.shape == "sphere":
            u = u / np.maximum(1, np.linalg.norm(u, axis=1))[:, None]
        existing = reg.map_from_unit(u)
        if g.random() < 0.5:
            existing = np.vstack([reg.center, existing])
    kept = None if existing is None else existing.copy()
    sampler = k.get(S + "get_sampler")(name, opts)
    kw = {} if existing is None and g.random() < 0.5 else {"existing_xs": existing}
    seed = int(g.integers(0, 10**6))
    out = sampler(trustregion=reg, n_points=p, rng=np.random.default_rng(seed), **kw)
    why = lambda: f"{name} {opts} n_points={p} center={reg.center.tolist()} radius={reg.radius} shape={reg.shape} existing={None if existing is None else existing.tolist()}"  # noqa: E731
    info = None
    if isinstance(out, tuple):
        out, info = out
    check_sample(k, name, reg, p, out, why)
    k.check("the user's options are unchanged", algo == before, why)
    k.check("the existing points are unchanged", existing is None or np.array_equal(existing, kept), why)
    if info is None or p == 0:
        return
    eu = None if existing is None else reg.map_to_unit(existing)
    crit = opts.get("criterion") or ("determinant" if p == 1 else "distance")
    if eu is not None and crit == "distance":
        r = np.linalg.norm(eu, axis=1)
        if np.any(np.abs(r - 0.1) < 1e-9):
            return
        eu = eu[r >= 0.1]
        eu = eu if len(eu) else None
    unit = np.atleast_2d(reg.map_to_unit(out))
    # the starting sample, drawn again from the same state
    g2 = np.random.default_rng(seed)
    s = opts.get("n_points_randomsearch", 1)
    dist = opts.get("distribution") or ("normal" if reg.shape == "sphere" else "uniform")
    raw = g2.normal(size=(s, p, n)) if dist == "normal" else g2.uniform(-1, 1, size=(s, p, n))
    o = 2 if reg.shape == "sphere" else np.inf
    raw = [x / np.linalg.norm(x, ord=o, axis=1, keepdims=True) for x in raw]
    start = max(geometry(x, eu, n) for x in raw)
    end = geometry(unit, eu, n)
    tol = 1e-6 * (1 + abs(start))
    k.check("the sample is not worse than its starting sample", end >= start - tol, why)
    k.check("the reported criteria are those of the two samples", np.isclose(info["start_fekete"], start, atol=tol, rtol=1e-6)
            and np.isclose(info["opt_fekete"], end, atol=tol, rtol=1e-6) or info["opt_fekete"] <= info["start_fekete"], why)


@contract("C13", [S + "_minimal_pairwise_distance_on_hull", S + "_determinant_on_hull"], prove=False, rac_n=80)
def sample_criteria(k):
    """the soft minimum is taken over all pairs except pairs of existing points"""
    n = k.int("n_params", lo=1, hi=4)
    g = np.random.default_rng(k.int("seed", 0, 10**6))
    p, e = int(g.integers(1, 6)), int(g.integers(0, 5))
    if p + e < 2 or p == 1 and e == 0:
        return
    shape = str(g.choice(["sphere", "cube"]))
    x = g.normal(size=p * n)
    ex = None if e == 0 else g.uniform(-1, 1, size=(e, n))
    h = float(g.choice([0.5, 1.0, 10.0]))
    kw = dict(existing_xs=ex, trustregion_shape=shape, n_params=n)
    pts = x.reshape(-1, n)
    pts = pts / np.linalg.norm(pts, axis=1, ord=2 if shape == "sphere" else np.inf, keepdims=True)
    d = [np.sum((pts[i] - pts[j]) ** 2) for i in range(p) for j in range(i)]
    d += [np.sum((a - b) ** 2) for a in pts for b in ([] if ex is None else ex)]
    if d:
        d = np.array(d)
        want = d.min() * h - np.log(np.sum(np.exp(-h * (d - d.min()))))
        got = k.get(S + "_minimal_pairwise_distance_on_hull")(x, hardness=h, **kw)
        k.check("the distance criterion is the soft minimum over the pairs with a new point", bool(np.isclose(got, want, atol=1e-8)))
    got = k.get(S + "_determinant_on_hull")(x, **kw)
    k.check("the geometry criterion is the determinant of the sample's second moments", bool(np.isclose(got, geometry(pts, ex, n), atol=1e-8)))


@contract("C13", [S + "_draw_from_distribution"], prove=False, rac_n=10)
def unknown_distribution(k):
    g = np.random.default_rng(k.int("seed", 0, 10**6))
    k.check("an unknown distribution is rejected", k.raises(ValueError, lambda: k.get(S + "_draw_from_distribution")("triangular", rng=g, size=(2, 2))))
    size = (int(g.integers(0, 4)), int(g.integers(1, 4)))
    d = str(g.choice(["normal", "uniform"]))
    k.check("a draw has the requested shape", k.get(S + "_draw_from_distribution")(d, rng=g, size=size).shape == size)


@contract("C13", ["tranquilo.tranquilo:_internal_tranquilo", S + "get_sampler"], prove=False, rac_n=60)
def along_runs(k):
    c = draw_case(k)
    name = c.options.get("sampler", "optimal_hull")

    def monitored(original, args, run):
        def sample_points(trustregion, n_points, **kw):
            out = original(trustregion=trustregion, n_points=n_points, **kw)
            check_sample(k, name, trustregion, n_points, out, c.describe)
            return out

        return sample_points

    run = c.run(wrap={"sample_points": monitored})
    k.assume(run.res is not None)
