"""C01: every evaluated point respects the user's bounds, exactly.

The proofs use floating-point operations: the result of an operation is only known to be
correctly rounded.  Chain: unit points with entries in [-1, 1] are mapped into the bounds
(unit_points); every sampler, the subproblem solution, line search and speculative samples
only hand out such points or clipped points; the main loop stores nothing else in the history;
evaluations happen at stored vectors only (C06), and stored vectors never change (C05).
"""
from types import SimpleNamespace

import numpy as np

from contracts import mainloop
from contracts.c08 import FNS as REGION, MAPS, R, make
from contracts.c09 import AnyModel
from contracts.c10 import val
from contracts.c13 import Draws
from contracts.common import draw_case
from contracts.mainloop import Drive, LOOP, OPTS
from pyvc.contract import contract

S = "tranquilo.sample_points:"
M = "tranquilo.acceptance_decision:"
T = "tranquilo.solve_subproblem:_solve_subproblem_template"


def _cube_radius(k, *a, **kw):
    """C20: a positive number (the value does not matter for the bounds)"""
    return k.real("cube_radius", lo=0)


VOL = {"tranquilo.region:get_radius_of_cube_with_volume_of_sphere": _cube_radius}
FLOAT = ["floating-point operations are correctly rounded and do not overflow"]
OPT = dict(rounding=True, stubs=VOL, deadline=120, assumptions=FLOAT + [
    "the centre lies inside the bounds and every lower bound is below its upper bound (the start vector is inside the bounds, and every accepted point is, by this property)"])


def inside(k, x, lo, up, name, *lead):
    """x[lead, j] is inside the bounds for every j, exactly"""
    n = x.shape[-1]
    if k.sym:
        j = k.int("parameter", lo=0)
        k.assume(j < n)
        v = val(k, x, *lead, j)
        if lo is not None:
            k.check(name + ": lower bounds", val(k, lo, j) <= v)
        if up is not None:
            k.check(name + ": upper bounds", v <= val(k, up, j))
        if lo is None and up is None:
            k.check(name + ": no bounds", True)
        return
    v = x[lead] if lead else x
    k.check(name + ": lower bounds", lo is None or bool(np.all(lo <= v)))
    k.check(name + ": upper bounds", up is None or bool(np.all(v <= up)))


def unit_array(k, name, shape):
    """entries in [-1, 1], often on the faces"""
    def gen(g, s):
        x = np.clip(g.normal(size=s) * g.choice([0.3, 1.0, 3.0]), -1, 1)
        return np.where(g.random(s) < 0.3, np.where(g.random(s) < 0.5, -1.0, 1.0), x)
    a = k.array(name, shape, gen=gen)
    k.assume(k.forall(list(shape), lambda *i: k.land(val(k, a, *i) <= 1, val(k, a, *i) >= -1)))
    return a


def _unit(k, kind, stack):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n, kind)
    f = reg.map_from_unit
    if not stack:
        inside(k, k.call(f, unit_array(k, "u", (n,))), lo, up, "a mapped unit point respects the bounds")
        return
    m = k.int("n_points", lo=1, cap=6)
    out = k.call(f, unit_array(k, "u", (m, n)))
    k.check("one point per unit point", k.shape_is(out, m, n))
    i = k.int("point", lo=0, hi=m - 1)
    inside(k, out, lo, up, "a mapped unit point respects the bounds", i)


UNIT = REGION + MAPS[1:2] + [R + "_map_from_unit_cube", R + "_map_from_unit_sphere"]
# (a region without bounds has nothing to respect)
for _kind in ("lower", "upper", "both"):
    for _stack in (True, False):
        def _c(k, kind=_kind, stack=_stack):
            _unit(k, kind, stack)
        _c.__name__ = f"unit_point{'s' if _stack else ''}_{_kind}"
        contract("C01", UNIT, rac_n=2000, **OPT)(_c)


class Solver(Exception):
    pass


def _rows_inside_fact(k, x, lo, up):
    d = list(x.shape)
    if lo is not None:
        k.assume(k.forall(d, lambda *i: val(k, lo, i[-1]) <= val(k, x, *i)))
    if up is not None:
        k.assume(k.forall(d, lambda *i: val(k, x, *i) <= val(k, up, i[-1])))


class RegionContract:
    """a region with bounds that contain its centre, as unit_points_* and region_box describe it"""

    def __init__(self, k, n, lo, up, center, radius, bounds, shape):
        self.k, self.n, self.lo, self.up = k, n, lo, up
        self.center, self.radius, self.bounds, self.shape = center, radius, bounds, shape
        if shape == "cube":
            b, t = k.array("box_lower", (n,)), k.array("box_upper", (n,))
            _rows_inside_fact(k, b, lo, up)
            _rows_inside_fact(k, t, lo, up)
            k.assume(k.forall([n], lambda j: b[j] <= t[j]))
            self.cube_bounds = SimpleNamespace(lower=b, upper=t)

    def map_from_unit(self, u):
        k = self.k
        idx = []
        for j, d in enumerate(u.shape):
            i = k.int(f"mapped{j}", lo=0)
            k.assume(i < d)
            idx.append(i)
        v = val(k, u, *idx)
        k.check("only unit points with no entry above one are mapped", k.land(v <= 1, v >= -1))
        out = k.array("mapped", tuple(u.shape))
        _rows_inside_fact(k, out, self.lo, self.up)
        return out

    def map_to_unit(self, x):
        return self.k.array("unit", tuple(x.shape))

    def _replace(self, center=None, radius=None):
        inside(self.k, center, self.lo, self.up, "a new region is centred inside the bounds")
        return RegionContract(self.k, self.n, self.lo, self.up, center, radius, self.bounds, self.k.choice("new_shape", ["sphere", "cube"]))


def region(k, n, kind, shape=None):
    """concrete: a real region; symbolic: its contract"""
    if not k.sym:
        reg, c, r, lo, up = make(k, n, kind)
        if shape and reg.shape != shape:
            k.assume(False)
        return reg, c, lo, up
    c, r = k.array("center", (n,)), k.pos("radius")
    lo = k.array("lower", (n,), ext=True) if kind in ("lower", "both") else None
    up = k.array("upper", (n,), ext=True) if kind in ("upper", "both") else None
    if lo is not None:
        k.assume(k.forall([n], lambda i: k.land(lo[i] <= c[i], k.lnot(k.has_kind(lo[i], "pinf")))))
    if up is not None:
        k.assume(k.forall([n], lambda i: k.land(up[i] >= c[i], k.lnot(k.has_kind(up[i], "ninf")))))
    if kind == "both":
        k.assume(k.forall([n], lambda i: lo[i] < up[i]))
    bounds = k.get("tranquilo.bounds:Bounds")(lower=lo, upper=up)
    return RegionContract(k, n, lo, up, c, r, bounds, shape or str(k.choice("shape", ["sphere", "cube"]))), c, lo, up


BOUNDED = ["lower", "upper", "both"]  # (without bounds there is nothing to respect)


@contract("C01", REGION, rac_n=600, **OPT)
def region_box(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n, k.choice("bounds", BOUNDED))
    if reg.shape != "cube":
        return
    b = reg.cube_bounds
    inside(k, b.lower, lo, up, "the lower end of the box respects the bounds")
    inside(k, b.upper, lo, up, "the upper end of the box respects the bounds")
    j = k.int("parameter", lo=0, hi=n - 1)
    k.check("the box is not empty", val(k, b.lower, j) <= val(k, b.upper, j))


@contract("C01", [T, "tranquilo.solve_subproblem:_project_into_unit_sphere"] + MAPS, rac_n=1500, **OPT)
def subproblem_solution(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, lo, up = region(k, n, k.choice("bounds", BOUNDED))
    x = k.array("solver_x", (n,), gen=lambda g, s: g.normal(size=s) * g.choice([0.1, 1.0, 3.0]) if g.random() < 0.6 else np.where(
        np.arange(s[0]) == 0, g.choice([1.0, -1.0, 1 + 1e-16, 1 + 1e-9, 2.0]), g.choice([0.0, 1e-17, 1e-9])))
    model = AnyModel(k) if k.sym else k.get("tranquilo.models:ScalarModel")(
        intercept=0.0, linear_terms=-x, square_terms=None, shift=c, scale=1.0)

    def solver(**kw):
        return {"x": x, "success": True, "n_iterations": 1, "criterion": 0.0}

    out = k.call(k.get(T), model=model, trustregion=reg, sphere_solver=solver, cube_solver=solver, fallback_sphere_solver=solver,
                 fallback_cube_solver=solver, retry_with_fallback=True)
    inside(k, out.x, lo, up, "the trial point respects the bounds")


def _sampled(k, need, sampler, **kw):
    n = k.int("n_params", lo=1, cap=4)
    reg, c, lo, up = region(k, n, k.choice("bounds", BOUNDED), need)
    p = k.int("n_points", lo=1, cap=6)
    rng = Draws(k) if k.sym else np.random.default_rng(k.int("seed", 0, 10**6))
    out = k.call(k.get(S + sampler), trustregion=reg, n_points=p, rng=rng, **kw)
    i = k.int("point", lo=0)
    k.assume(i < p)
    inside(k, out, lo, up, "a sampled point respects the bounds", i)


@contract("C01", [S + "_box_sampler", S + "_interior_sampler"], rac_n=600, **OPT)
def box_sampler(k):
    _sampled(k, "cube", "_interior_sampler")


@contract("C01", [S + "_project_onto_unit_hull"], rac_n=600, **OPT)
def hull_projection(k):
    """no coordinate of a projected point exceeds one, in floating-point arithmetic"""
    n, m = k.int("n_params", lo=1, cap=4), k.int("n_points", lo=1, cap=4)
    x = k.array("x", (m, n))
    nz = k.array("nonzero_entry", (m,), kind="i") if k.sym else None
    if k.sym:
        k.assume(k.forall([m], lambda p: k.land(nz[p] >= 0, nz[p] < n)))
        k.assume(k.forall([m], lambda p: k.lnot(k.eq(x[p, nz[p]], 0.0))))
    else:
        k.assume(bool(np.all(np.abs(x).max(axis=1) > 1e-100)))
    out = k.call(k.get(S + "_project_onto_unit_hull"), x, trustregion_shape=k.choice("shape", ["sphere", "cube"]))
    i, j = k.int("point", lo=0, hi=m - 1), k.int("parameter", lo=0, hi=n - 1)
    v = val(k, out, i, j)
    k.check("no coordinate of a projected point exceeds one", k.land(v <= 1, v >= -1))


def _projected(k, x, trustregion_shape):
    return unit_array(k, "projected", tuple(x.shape))


PROJ = {S + "_project_onto_unit_hull": _projected}


@contract("C01", [S + "_hull_sampler"], rac_n=600, **dict(OPT, stubs=PROJ))
def hull_sampler(k):
    _sampled(k, None, "_hull_sampler", distribution=k.choice("distribution", [None, "normal", "uniform"]))


@contract("C01", [S + "_optimal_hull_sampler"], rac_n=60, **dict(OPT, deadline=200, stubs=dict(PROJ, **{
    S + "minimize": lambda k, fun, x0, **kw: SimpleNamespace(x=k.array("optimum", tuple(x0.shape))),
    S + "_determinant_on_hull": lambda k, x, **kw: k.real("determinant")})))
def optimal_hull_sampler(k):
    _sampled(k, None, "_optimal_hull_sampler", distribution=None, hardness=1.0, algorithm="L-BFGS-B", algo_options=None, criterion=None,
             n_points_randomsearch=1, return_info=False)


BALL = "a ball draw's radius (the gamma quantile) is so far below one that its scaled direction has no entry above one after rounding"


def _quantile(k, a, x):
    q = k.array("quantile", tuple(x.shape))
    k.assume(k.forall(list(x.shape), lambda *i: k.land(val(k, q, *i) > 0, val(k, q, *i) <= 1)))
    return q


class BallSpy(RegionContract):
    """C13: the norm of a unit point is at most one (real arithmetic)"""

    def map_from_unit(self, u):
        out = self.k.array("mapped", tuple(u.shape))
        _rows_inside_fact(self.k, out, self.lo, self.up)
        return out


@contract("C01", [S + "_ball_sampler", S + "_interior_sampler"], rac_n=600, **dict(OPT, assumptions=OPT["assumptions"] + [BALL], stubs={
    S + "gammainc": _quantile}))
def ball_sampler(k):
    """what the sampler returns is the image of its unit points"""
    n = k.int("n_params", lo=1, cap=4)
    reg, c, lo, up = region(k, n, k.choice("bounds", BOUNDED), "sphere")
    if k.sym:
        reg.__class__ = BallSpy
    p = k.int("n_points", lo=1, cap=6)
    rng = Draws(k) if k.sym else np.random.default_rng(k.int("seed", 0, 10**6))
    out = k.call(k.get(S + "_interior_sampler"), trustregion=reg, n_points=p, rng=rng)
    i = k.int("point", lo=0)
    k.assume(i < p)
    inside(k, out, lo, up, "a sampled point respects the bounds", i)


class Store:
    """a history that checks what it is given"""

    def __init__(self, k, n, lo, up):
        self.k, self.n, self.lo, self.up, self.next, self.rows = k, n, lo, up, 0, {}

    def add_xs(self, xs):
        k = self.k
        self.stored = True
        if len(xs.shape) == 1:
            inside(k, xs, self.lo, self.up, "a point stored for evaluation respects the bounds")
            i = self.next
            self.next += 1
            self.rows[i] = xs
            return i
        i = k.int("stored_row", lo=0)
        k.assume(i < xs.shape[0])
        inside(k, xs, self.lo, self.up, "a point stored for evaluation respects the bounds", i)
        m = int(xs.shape[0])
        self.multi = xs
        out = []
        for j in range(m):
            self.rows[self.next] = xs[j]
            out.append(self.next)
            self.next += 1
        return out

    def get_x_indices_in_region(self, region):
        return self.k.np.array([])

    def get_xs(self, i):
        if isinstance(i, int):
            return self.rows[i]
        if len(getattr(i, "shape", ())):
            return self.k.np.zeros((0, self.n))
        return self.multi[i - 1]

    def get_fvals(self, i):
        if isinstance(i, list):
            return {j: self.value(j) for j in i}
        return self.k.np.array([self.value(i)])

    def value(self, i):
        return self.k.real(f"value{i}")


def _sampler_contract(k, lo, up, n):
    def sample_points(trustregion, n_points, existing_xs=None, rng=None):
        inside(k, trustregion.center, lo, up, "the region of a sample is centred inside the bounds")
        b = trustregion.bounds
        k.check("the region of a sample has the user's bounds", _same_bounds(k, b, lo, up))
        out = k.array("sampled", (n_points, n))
        if lo is not None:
            k.assume(k.forall([n_points, n], lambda i, j: val(k, lo, j) <= val(k, out, i, j)))
        if up is not None:
            k.assume(k.forall([n_points, n], lambda i, j: val(k, out, i, j) <= val(k, up, j)))
        return out

    return sample_points


def _same_bounds(k, b, lo, up):
    if b is None:
        return lo is None and up is None
    return (b.lower is lo or (lo is not None and k.same(b.lower, lo))) and (b.upper is up or (up is not None and k.same(b.upper, up)))


def _inside_fact(k, x, lo, up):
    n = x.shape[-1]
    if lo is not None:
        k.assume(k.forall([n], lambda j: val(k, lo, j) <= val(k, x, j)))
    if up is not None:
        k.assume(k.forall([n], lambda j: val(k, x, j) <= val(k, up, j)))


LSF = [M + f for f in ("accept_classic_line_search", "_sample_on_line", "_clip_to_bounds", "_generate_speculative_sample", "_generate_alpha_grid")]
LS = dict(OPT, stubs={M + "_is_on_border": lambda k, *a, **kw: k.bool("on_border"), M + "calculate_rho": lambda k, **kw: k.ext("rho"),
                      # C03: the accepted point is the candidate or the old point
                      M + "_get_acceptance_result": lambda k, candidate_x, old_state, **kw: SimpleNamespace(x=candidate_x)},
          assumptions=OPT["assumptions"] + ["samplers keep the contracts proved above"])


def _line_search(k, batch, kinds):
    n = k.int("n_params", lo=1, cap=4)
    reg, c, lo, up = region(k, n, k.choice("bounds", kinds))
    cx = k.array("candidate", (n,))
    _inside_fact(k, cx, lo, up)
    st = Store(k, n, lo, up)
    state = SimpleNamespace(x=c, index=99, fval=k.real("fval"), trustregion=reg)
    res = k.call(k.get(M + "accept_classic_line_search"), subproblem_solution=SimpleNamespace(x=cx, expected_improvement=k.real("expected_improvement", lo=0)),
                 state=state, history=st, speculative_sampling_radius_factor=k.pos("factor"), wrapped_criterion=lambda info: None, min_improvement=0.0,
                 batch_size=batch, sample_points=_sampler_contract(k, lo, up, n), rng=None)
    inside(k, res.x, lo, up, "the accepted point respects the bounds")


@contract("C01", LSF, bounded="batch size 2 (any dimension)", rac=False, **LS)
def line_search2(k):
    _line_search(k, 2, BOUNDED)


@contract("C01", LSF, bounded="batch size 5 (any dimension)", rac=False, **dict(LS, deadline=300))
def line_search5(k):
    _line_search(k, 5, ["both"])


@contract("C01", [M + "_clip_to_bounds", M + "_sample_on_line"], rac_n=600, **OPT)
def line_points(k):
    n = k.int("n_params", lo=1, cap=4)
    reg, c, r, lo, up = make(k, n)
    d = k.array("direction_point", (n,))
    m = k.int("n_alphas", lo=1, cap=4)
    a = k.array("alphas", (m,))
    xs = k.call(k.get(M + "_sample_on_line"), start_point=c, direction_point=d, alpha_grid=a)
    out = k.call(k.get(M + "_clip_to_bounds"), xs, reg.bounds)
    i = k.int("point", lo=0, hi=m - 1)
    inside(k, out, lo, up, "a clipped point respects the bounds", i)


# ------------------------------------------------------------------ main loop
class BoundedRegion(mainloop.TrustRegion):
    def __init__(self, center, radius, bounds):
        super().__init__(center, radius)
        self.bounds = bounds

    def _replace(self, **kw):
        d = dict(center=self.center, radius=self.radius, bounds=self.bounds)
        d.update(kw)
        return BoundedRegion(**d)


class BoundedHist(mainloop.Hist):
    def add_xs(self, xs):
        d, k = self.d, self.d.k
        if len(xs.shape) == 1:
            d.within(xs, "a point stored for evaluation respects the bounds")
        else:
            i = k.int("stored_row", lo=0)
            k.assume(i < xs.shape[0])
            inside(k, xs, d.lo, d.up, "a point stored for evaluation respects the bounds", i)
        return super().add_xs(xs)


class BoundedDrive(Drive):
    def __init__(self, k, **kw):
        super().__init__(k, **kw)
        self.lo, self.up = k.array("lower", (self.n,), ext=True), k.array("upper", (self.n,), ext=True)
        k.assume(k.forall([self.n], lambda j: k.land(k.lnot(k.has_kind(self.lo[j], "nan")), k.lnot(k.has_kind(self.up[j], "nan")))))
        self.bounds = SimpleNamespace(lower=self.lo, upper=self.up)
        _inside_fact(k, self.x0, self.lo, self.up)

    def within(self, x, name):
        inside(self.k, x, self.lo, self.up, name)

    def sample(self, trustregion, n_points, existing_xs=None, rng=None, **kw):
        k = self.k
        self.within(trustregion.center, "the region of a sample is centred inside the bounds")
        k.check("the region of a sample has the user's bounds", trustregion.bounds is self.bounds)
        out = super().sample(trustregion, n_points, existing_xs, rng, **kw)
        k.assume(k.forall([n_points, self.n], lambda i, j: k.land(val(k, self.lo, j) <= val(k, out, i, j), val(k, out, i, j) <= val(k, self.up, j))))
        return out

    def solve(self, model, trustregion):
        self.within(trustregion.center, "the region of the subproblem is centred inside the bounds")
        self.k.check("the region of the subproblem has the user's bounds", trustregion.bounds is self.bounds)
        out = super().solve(model, trustregion)
        _inside_fact(self.k, out.x, self.lo, self.up)
        return out

    def accept(self, subproblem_solution, state, wrapped_criterion, noise_variance, history, **kw):
        k = self.k
        self.within(subproblem_solution.x, "the trial point respects the bounds")
        self.within(state.trustregion.center, "the region of the acceptance step is centred inside the bounds")
        k.check("the region of the acceptance step has the user's bounds", state.trustregion.bounds is self.bounds)
        out = super().accept(subproblem_solution, state, wrapped_criterion, noise_variance, history, **kw)
        if out.accepted:
            _inside_fact(k, out.x, self.lo, self.up)
        return out

    def fresh_state(self, s):
        out = super().fresh_state(s)
        tr = out.trustregion
        _inside_fact(self.k, tr.center, self.lo, self.up)
        return out._replace(trustregion=BoundedRegion(tr.center, tr.radius, self.bounds))

    def inv(self, it, vars):
        k, V = self.k, self.V
        base = super().inv(it, vars)
        s = self.state_of(vars)
        ok = s.trustregion.bounds is self.bounds
        more = [V.to_bool(ok) if isinstance(ok, bool) else ok,
                k.forall([self.n], lambda j: k.land(val(k, self.lo, j) <= val(k, s.x, j), val(k, s.x, j) <= val(k, self.up, j)))]
        return V.Conj(list(base.parts) + more)

    def region(self):
        return BoundedRegion(self.x0, self.k.pos("start_radius"), self.bounds)

    def history(self):
        return BoundedHist(self)


@contract("C01", [LOOP], **dict(OPTS, deadline=400))
def main_loop(k):
    BoundedDrive(k).run()


@contract("C01", [LOOP], **dict(OPTS, deadline=400))
def main_loop_noisy(k):
    BoundedDrive(k, noisy=True).run()


@contract("C01", [LOOP], prove=False, rac_n=500, rac_s=30, chunks=4)
def along_runs(k):
    c = draw_case(k)
    if c.lower is None and c.upper is None:
        k.assume(False)
    r = c.run()
    for x in r.calls:
        k.check("every evaluated point respects the lower bounds", c.lower is None or bool(np.all(x >= c.lower)), lambda: f"{x} {c.describe()}")
        k.check("every evaluated point respects the upper bounds", c.upper is None or bool(np.all(x <= c.upper)), lambda: f"{x} {c.describe()}")
