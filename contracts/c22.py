"""C22: box-constrained inner solvers return points inside the box."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from pyvc.contract import contract

S = "tranquilo.subsolvers."
FAST, REF, FALL, LIN = S + "bntr_fast:", S + "bntr:", S + "fallback_subsolvers:", S + "linear_subsolvers:"
CLAMP = "_apply_bounds_to_x_candidate"
PRELIM = "_take_preliminary_gradient_descent_step_and_check_for_solution"
INFO = "_get_information_on_active_bounds"
FINITE = ["the steps of the inner solvers are finite numbers (no overflow, no 0/0); the runtime checks run them on badly scaled and degenerate models"]


# ------------------------------------------------------------------ helpers
def box(k, n, name=""):
    lo, up = k.array("lower" + name, (n,)), None
    up = k.array("upper" + name, (n,), gen=lambda g, s: lo + g.choice([0.0, 1e-9, 0.5, 2.0], size=s))
    k.assume(k.forall([n], lambda i: lo[i] <= up[i]))
    return lo, up


def inside(k, x, lo, up, n):
    return k.land(k.shape_is(x, n), k.forall([n], lambda i: k.land(lo[i] <= x[i], x[i] <= up[i])))


def inside_point(k, name, lo, up, n):
    x = k.array(name, (n,), gen=lambda g, s: lo + (up - lo) * g.choice([0.0, 1.0, 0.3], size=s))
    k.assume(k.forall([n], lambda i: k.land(lo[i] <= x[i], x[i] <= up[i])))
    return x


def anything(k, name, v):
    """a fresh value of the kind of v"""
    from pyvc.arrays import SArr
    from pyvc.values import SB, Num

    if isinstance(v, (bool, SB)):
        return k.bool(name)
    if isinstance(v, (int, float, Num)):
        return k.real(name)
    if isinstance(v, SArr):
        return k.array(name, v.shape, kind=v.k)
    return v


def clamp_loops():
    from pyvc import values as V
    from pyvc.arrays import I
    from pyvc.builtins_shim import LoopInv
    from pyvc.values import Num
    import z3

    class Clamp(LoopInv):
        def __init__(self):
            super().__init__("entries", self.hv, self.iv)

        def hv(self, names, vals):
            f, _ = self.k.ctx.fresh_fun("x", z3.IntSort(), z3.RealSort())
            dict(zip(names, vals)).get("x", self.k.c_x).set_fn(lambda i: Num(f(I(i)), False))
            self.k.c_x = dict(zip(names, vals)).get("x", self.k.c_x)
            return {}

        def iv(self, i, v):
            k = self.k
            x, keep, lo, up = v.get("x", k.c_x), k.c_keep, k.c_lo, k.c_up
            return k.land(k.forall([k.c_n], lambda j: k.implies(j < i, lambda: clamped(k, x, keep, lo, up, j))),
                          k.forall([k.c_n], lambda j: k.implies(j >= i, lambda: k.eq(x[j], keep[j]))))

    return {FAST + CLAMP + ":0": Clamp()}


def clamped(k, x, keep, lo, up, j):
    return k.land(k.implies(keep[j] <= lo[j], lambda: k.eq(x[j], lo[j])), k.implies(keep[j] >= up[j], lambda: k.eq(x[j], up[j])),
                  k.implies(k.land(lo[j] < keep[j], keep[j] < up[j]), lambda: k.eq(x[j], keep[j])))


@contract("C22", [FAST + CLAMP, REF + CLAMP], loops=clamp_loops, deadline=60)
def points_are_clamped(k):
    n = k.int("n_params", lo=1, cap=6)
    lo, up = box(k, n)
    x = k.array("x", (n,), gen=lambda g, s: lo + g.choice([-1e9, -1.0, 0.0, 1e-12, 0.3, 2.0, 1e9], size=s))
    keep = x.copy()
    k.c_x, k.c_keep, k.c_lo, k.c_up, k.c_n = x, keep, lo, up, n
    lk, uk = lo.copy(), up.copy()
    out = k.call(k.get((FAST if k.choice("version", ["fast", "plain"]) == "fast" else REF) + CLAMP), x, lo, up)
    k.check("the result lies in the box", inside(k, out, lo, up, n))
    k.check("it is the nearest point of the box", k.forall([n], lambda j: clamped(k, out, keep, lo, up, j)))
    k.check("the bounds are not changed", k.land(k.same(lo, lk), k.same(up, uk)))


# ---------------------------------------------------------- callees by contract
def _clamp(k, x, lower_bounds, upper_bounds, bound_tol=0):
    n = k.w_n
    k.check("points are clamped to the bounds of the problem", k.land(k.same(lower_bounds, k.w_lo), k.same(upper_bounds, k.w_up), k.eq(bound_tol, 0)))
    return inside_point(k, "clamped", k.w_lo, k.w_up, n)


def _vec(name):
    return lambda k, *a, **kw: k.array(name, (k.w_n,))


def _mat(name):
    return lambda k, *a, **kw: k.array(name, (k.w_n, k.w_n))


def _masks(k, *a, **kw):
    return tuple(k.array("active%d" % i, (k.w_n,), kind="b") for i in range(4))


def _info(k, *a, **kw):
    A = k.get(REF + "ActiveBounds")
    return A(*_masks(k))


def _converge(k, *a, **kw):
    return k.bool("converged"), k.choice("reason", ["some reason"]) if False else 1


def _descent(k, *a, **kw):
    return k.array("x_gd", (k.w_n,)), k.real("f_min"), k.real("step"), k.real("radius"), k.real("radius_lower_bound")


def _step(k, *a, **kw):
    return k.array("step", (k.w_n,)), k.array("step_inactive", (k.w_n,)), k.real("step_norm")


def _radius(k, *a, **kw):
    return k.real("radius"), k.bool("accept")


def stubs_of(mod, fast):
    out = {CLAMP: _clamp, INFO: _masks if fast else _info, "_find_hessian_submatrix_where_bounds_inactive": _mat("hessian"),
           "_check_for_convergence": _converge, "_perform_gradient_descent_step": _descent, "_project_gradient_onto_feasible_set": _vec("projected"),
           "_evaluate_model_criterion": lambda k, *a, **kw: k.real("value"), "_compute_conjugate_gradient_step": _step,
           "_compute_predicted_reduction_from_conjugate_gradient_step": lambda k, *a, **kw: k.real("predicted"),
           "_update_trustregion_radius_conjugate_gradient": _radius}
    return {mod + a: b for a, b in out.items()}


def problem(k):
    n = k.int("n_params", lo=1, cap=4)
    lo, up = box(k, n)
    x = inside_point(k, "x0", lo, up, n)
    g, h = k.array("gradient", (n,)), k.array("hessian", (n, n))
    k.w_n, k.w_lo, k.w_up = n, lo, up
    return n, lo, up, x, g, h


def model_of(g, h):
    return SimpleNamespace(intercept=0.0, linear_terms=g, square_terms=h)


GT = dict(gtol_abs=1e-8, gtol_rel=1e-8, gtol_scaled=0.0)
CG = dict(gtol_abs_conjugate_gradient=1e-8, gtol_rel_conjugate_gradient=1e-6)


@contract("C22", [FAST + PRELIM], stubs=stubs_of(FAST, True), rac=False, deadline=60, assumptions=FINITE)
def first_step_fast(k):
    n, lo, up, x, g, h = problem(k)
    out = k.call(k.get(FAST + PRELIM), g, h, lo, up, x, k.int("maxiter_gradient_descent", lo=0), **GT)
    k.check("the first point lies in the box", inside(k, out[0], lo, up, n))


@contract("C22", [REF + PRELIM], stubs=stubs_of(REF, False), rac=False, deadline=60, assumptions=FINITE)
def first_step_plain(k):
    n, lo, up, x, g, h = problem(k)
    out = k.call(k.get(REF + PRELIM), x, model_of(g, h), lo, up, k.int("maxiter_gradient_descent", lo=0), **GT)
    k.check("the first point lies in the box", inside(k, out[0], lo, up, n))


def solver_loops(fn):
    def make():
        from pyvc.builtins_shim import LoopInv

        class Loop(LoopInv):
            def __init__(self, label):
                super().__init__(label, self.hv, self.iv)

            def hv(self, names, vals):
                return {nm: anything(self.k, nm, v) for nm, v in zip(names, vals)}

            def iv(self, i, v):
                k = self.k
                return k.land(*[inside(k, v[nm], k.w_lo, k.w_up, k.w_n) for nm in ("x_candidate", "x_old") if hasattr(v.get(nm), "shape")])

        return {fn + ":0": Loop("iterations"), fn + ":1": Loop("until a step is accepted")}
    return make


def _prelim_fast(k, g, h, lo, up, x, *a, **kw):
    return (inside_point(k, "x_first", k.w_lo, k.w_up, k.w_n), k.real("f_first"), k.array("gradient_first", (k.w_n,)), k.array("h_first", (k.w_n, k.w_n)),
            k.real("radius_first"), *_masks(k), k.bool("converged_first"), 0)


def _prelim_plain(k, x, model, lo, up, *a, **kw):
    return (inside_point(k, "x_first", k.w_lo, k.w_up, k.w_n), k.real("f_first"), k.array("gradient_first", (k.w_n,)), k.array("h_first", (k.w_n, k.w_n)),
            k.real("radius_first"), _info(k), k.bool("converged_first"), 0)


FS = {**stubs_of(FAST, True), FAST + PRELIM: _prelim_fast}
RS = {**stubs_of(REF, False), REF + PRELIM: _prelim_plain}


@contract("C22", [FAST + "bntr_fast", FAST + "_bntr_fast_jitted"], stubs=FS, loops=solver_loops(FAST + "_bntr_fast_jitted"), rac=False, deadline=90, assumptions=FINITE)
def compiled_solver(k):
    n, lo, up, x, g, h = problem(k)
    out = k.call(k.get(FAST + "bntr_fast"), model_of(g, h), lo, up, x, conjugate_gradient_method=k.choice("method", ["cg", "steihaug_toint", "trsbox"]),
                 maxiter=k.int("maxiter", lo=0), maxiter_gradient_descent=k.int("maxiter_gradient_descent", lo=0), **GT, **CG)
    k.check("the solution lies in the box", inside(k, out["x"], lo, up, n))


@contract("C22", [REF + "bntr"], stubs=RS, loops=solver_loops(REF + "bntr"), rac=False, deadline=90, assumptions=FINITE)
def plain_solver(k):
    n, lo, up, x, g, h = problem(k)
    out = k.call(k.get(REF + "bntr"), model_of(g, h), lo, up, x, conjugate_gradient_method=k.choice("method", ["cg", "steihaug_toint", "trsbox"]),
                 maxiter=k.int("maxiter", lo=0), maxiter_gradient_descent=k.int("maxiter_gradient_descent", lo=0), **GT, **CG)
    k.check("the solution lies in the box", inside(k, out["x"], lo, up, n))


# ------------------------------------------------------------------ fallback solvers
def _bounds(k, lb, ub):
    return SimpleNamespace(lb=lb, ub=ub)


def _minimize(k, fun, x0, **kw):
    """scipy's L-BFGS-B by contract: some point inside the bounds"""
    n, b = k.w_n, kw.get("bounds")
    k.check("the search is box constrained", b is not None and kw.get("method") == "L-BFGS-B" and not kw.get("constraints"))
    k.check("with one bound per parameter", k.land(k.shape_is(b.lb, n), k.shape_is(b.ub, n)))
    x = k.array("solution", (n,))
    k.assume(k.forall([n], lambda i: k.land(b.lb[i] <= x[i], x[i] <= b.ub[i])))
    return SimpleNamespace(x=x, fun=k.real("fun"), nit=k.int("nit"), success=k.bool("ok"))


ASSUME = ["scipy.optimize.minimize(method='L-BFGS-B', bounds=...) returns a point inside the bounds"]
FB = dict(stubs={FALL + "minimize": _minimize, FALL + "Bounds": _bounds}, rac=False, deadline=60, assumptions=ASSUME)


def fall_problem(k):
    n = k.int("n_params", lo=1)
    k.w_n = n
    return n, model_of(k.array("gradient", (n,)), k.array("hessian", (n, n))), k.array("x0", (n,))


@contract("C22", [FALL + "robust_cube_solver", FALL + "_get_crit_and_grad"], **FB)
def cube_fallback(k):
    n, m, x = fall_problem(k)
    out = k.call(k.get(FALL + "robust_cube_solver"), m, x)["x"]
    k.check("the solution lies in the cube", k.land(k.shape_is(out, n), k.forall([n], lambda i: k.land(out[i] >= -1.0, out[i] <= 1.0))))


def norm2(k, x, n):
    return k.sum(n, lambda i: val(k, x, i) * val(k, x, i))


@contract("C22", [FALL + "robust_sphere_solver_inscribed_cube", FALL + "robust_cube_solver"], **FB)
def inscribed_cube_fallback(k):
    n, m, x = fall_problem(k)
    out = k.call(k.get(FALL + "robust_sphere_solver_inscribed_cube"), m, x)["x"]
    k.check("every entry squared is at most 1 / n", k.forall([n], lambda i: out[i] * out[i] * n <= 1))
    k.ctx.sum_signs = True
    k.check("the distances to 1 / n add up to a number that is not negative", k.sum(n, lambda i: 1 / n - val(k, out, i) * val(k, out, i)) >= 0)
    k.check("the solution has norm at most one", k.land(k.shape_is(out, n), norm2(k, out, n) <= 1))


@contract("C22", [FALL + "robust_sphere_solver_reparametrized"], **FB)
def reparametrized_fallback(k):
    n, m, x = fall_problem(k)
    m.predict = lambda z: k.real("value")
    out = k.call(k.get(FALL + "robust_sphere_solver_reparametrized"), m, x)["x"]
    k.check("the solution has norm at most one", k.land(k.shape_is(out, n), norm2(k, out, n) <= 1))


def multistart_loops():
    from pyvc.builtins_shim import LoopInv

    class Starts(LoopInv):
        def __init__(self):
            super().__init__("starts", self.hv, self.iv)

        def hv(self, names, vals):
            k, out = self.k, {}
            for nm, v in zip(names, vals):
                if nm == "accepted_x":
                    out[nm] = k.array("accepted", (k.w_n,)) if k.bool("some_accepted") else None
                elif nm == "best_crit":
                    out[nm] = k.ext("best_crit", ninf=False)
                elif nm == "critvals":
                    out[nm] = [0.0]
            return out

        def iv(self, i, v):
            k, n = self.k, self.k.w_n
            x, best = v["accepted_x"], v["best_crit"]
            if x is None:
                return k.land(i <= 0, k.has_kind(best, "pinf"))
            return k.land(k.shape_is(x, n), k.finite(best), k.forall([n], lambda j: k.land(x[j] >= -1.0, x[j] <= 1.0)))

    return {FALL + "robust_cube_solver_multistart:0": Starts()}


def _one_cube(k, model, x, *a, **kw):
    out = k.array("cube_solution", (k.w_n,))
    k.assume(k.forall([k.w_n], lambda j: k.land(out[j] >= -1.0, out[j] <= 1.0)))
    return {"x": out, "criterion": k.real("crit"), "n_iterations": 1, "success": True}


def _starts(k, x, lower, upper, n_samples, **kw):
    return k.array("starts", (k.int("n_starts", lo=1), k.w_n))


@contract("C22", [FALL + "robust_cube_solver_multistart"], rac=False, loops=multistart_loops, deadline=60,
          stubs={FALL + "robust_cube_solver": _one_cube, FALL + "draw_exploration_sample": _starts},
          assumptions=["model values are finite", "the exploration sample has at least one point"])
def multistart_fallback(k):
    n, m, x = fall_problem(k)
    out = k.call(k.get(FALL + "robust_cube_solver_multistart"), m, x)["x"]
    k.check("some solution is returned", out is not None)
    if out is None:
        return
    k.check("the solution lies in the cube", k.land(k.shape_is(out, n), k.forall([n], lambda i: k.land(out[i] >= -1.0, out[i] <= 1.0))))


# ------------------------------------------------------------------ linear solver
def next_bound_loops():
    from pyvc.builtins_shim import LoopInv

    class Scan(LoopInv):
        def __init__(self):
            super().__init__("scan", self.hv, self.iv)

        def hv(self, names, vals):
            k, out = self.k, {}
            found = k.bool("found")
            for nm in names:
                if nm == "active_bound":
                    out[nm] = k.real("active_bound") if found else None
                elif nm == "index_active":
                    out[nm] = k.int("index_active", lo=None) if found else None
                elif nm == "smallest_step_share":
                    out[nm] = k.real("share") if found else float("inf")
            return out

        def iv(self, i, v):
            k = self.k
            b, idx, share = v["active_bound"], v["index_active"], v["smallest_step_share"]
            if b is None:
                return k.land(share == float("inf"), k.forall([k.l_n], lambda j: k.implies(j < i, lambda: within(k, j, 1.0))))
            return k.land(reached(k, b, idx, share), idx < i, k.forall([k.l_n], lambda j: k.implies(j < i, lambda: within(k, j, share))))

    return {LIN + "_find_next_active_bound:0": Scan()}


def within(k, j, share):
    """a share of the step does not leave the box in direction j"""
    y = k.l_x[j] + share * (k.l_u[j] - k.l_x[j])
    return k.land(k.l_lo[j] <= y, y <= k.l_up[j])


def reached(k, b, idx, share):
    d = val(k, k.l_u, idx) - val(k, k.l_x, idx)
    return k.land(idx >= 0, idx < k.l_n, k.lor(k.eq(b, val(k, k.l_lo, idx)), k.eq(b, val(k, k.l_up, idx))), k.lnot(k.eq(d, 0.0)), 0 <= share, share <= 1,
                  k.eq(val(k, k.l_x, idx) + share * d, b))


@contract("C22", [LIN + "_find_next_active_bound"], loops=next_bound_loops, rac=False, deadline=60)
def first_bound_on_the_way(k):
    n = k.int("n_params", lo=1)
    lo, up = box(k, n)
    x, u = inside_point(k, "x", lo, up, n), k.array("x_unconstrained", (n,))
    k.l_n, k.l_x, k.l_u, k.l_lo, k.l_up = n, x, u, lo, up
    b, idx = k.call(k.get(LIN + "_find_next_active_bound"), x, u, lo, up)
    if b is None:
        k.check("without an active bound the whole step stays in the box", inside(k, u, lo, up, n))
        return
    share = (b - val(k, x, idx)) / (val(k, u, idx) - val(k, x, idx))
    k.check("the bound is one of the parameter's bounds and is reached along the step", reached(k, b, idx, share))
    k.check("no other bound is crossed up to there", k.forall([n], lambda j: within(k, j, share)))


def _next(k, x, u, lo, up):
    k.l_x, k.l_u, k.l_lo, k.l_up = x, u, lo, up
    if not k.bool("some_bound"):
        k.assume(k.forall([k.w_n], lambda j: k.land(lo[j] <= u[j], u[j] <= up[j])))
        return None, None
    idx, share = k.int("index", lo=0, hi=k.w_n - 1), k.real("share")
    b = k.real("bound")
    k.assume(reached(k, b, idx, share), k.forall([k.w_n], lambda j: within(k, j, share)))
    return b, idx


def steps_loops():
    from pyvc.builtins_shim import LoopInv

    class Steps(LoopInv):
        def __init__(self):
            super().__init__("steps", self.hv, self.iv)

        def hv(self, names, vals):
            return {nm: anything(self.k, nm, v) for nm, v in zip(names, vals)}

        def iv(self, i, v):
            k = self.k
            x = v["x_candidate"]
            return k.land(k.shape_is(x, k.w_n), k.forall([k.w_n], lambda j: k.land(k.in_lo(j) <= x[j], x[j] <= k.in_up(j))))

    return {LIN + "minimize_trsbox_linear:0": Steps()}


@contract("C22", [LIN + "minimize_trsbox_linear", LIN + "_take_constrained_step_up_to_boundary", LIN + "_take_unconstrained_step_up_to_boundary"], loops=steps_loops,
          rac=False, deadline=90, stubs={LIN + "_find_next_active_bound": _next, LIN + "_get_distance_to_trustregion_boundary": lambda k, *a, **kw: k.real("distance", lo=0)},
          assumptions=["the box contains the origin (the centre of the region)", "the distance to the boundary of the ball is not negative"])
def linear_solver(k):
    n = k.int("n_params", lo=1)
    lo, up = box(k, n)
    eps = k.pos("zero_threshold")
    k.l_n = k.w_n = n
    k.in_lo, k.in_up = lambda j: k.ite(lo[j] < -eps, lo[j], -eps), lambda j: k.ite(up[j] > eps, up[j], eps)
    g = k.array("gradient", (n,))
    out = k.call(k.get(LIN + "minimize_trsbox_linear"), SimpleNamespace(linear_terms=g), lo, up, k.pos("radius"), zero_treshold=eps)
    k.check("the solution lies in the box, up to the zero threshold", k.land(k.shape_is(out, n), k.forall([n], lambda j: k.land(k.in_lo(j) <= out[j], out[j] <= k.in_up(j)))))


# ------------------------------------------------------------------ real solvers on real problems
def draw_problem(seed, unit=False):
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 6))
    g = rng.normal(size=n) * 10.0 ** rng.integers(-8, 6)
    b = rng.normal(size=(n, n))
    h = (b + b.T) / 2 * 10.0 ** rng.integers(-8, 6)
    kind = rng.integers(0, 7)
    if kind == 0:
        h = b @ b.T
    elif kind == 1:
        h = np.zeros((n, n))
    elif kind == 2:
        g = np.zeros(n)
    elif kind == 3:
        g[rng.random(n) < 0.5] = 0
        h = np.diag(rng.integers(-2, 3, size=n).astype(float))
    elif kind == 4:
        g, h = np.round(g), np.round(b + b.T)
    if unit or rng.random() < 0.5:
        lo, up = -np.ones(n), np.ones(n)
        x = [np.clip(rng.normal(size=n) * 0.5, -1, 1), np.zeros(n), rng.choice([-1.0, 0.0, 1.0], size=n)][rng.integers(0, 3)]
    else:
        lo = rng.uniform(-2, 1, size=n)
        up = lo + rng.choice([0, 1e-8, 0.5, 2.0], size=n)
        x = np.clip(lo + (up - lo) * rng.random(n), lo, up)
    return rng, n, g, h, lo, up, x


def solver_options(k, method):
    o = k.get("tranquilo.options:SubsolverOptions")()._asdict()
    o = {a: b for a, b in o.items() if a not in ("k_easy", "k_hard")}
    return {**o, "conjugate_gradient_method": method}


METHODS = ["cg", "steihaug_toint", "trsbox"]


@contract("C22", [FAST + "bntr_fast", REF + "bntr"], prove=False, rac_n=600, rac_s=60)
def box_solvers_on_models(k):
    from tranquilo.models import ScalarModel

    method, fast = str(k.choice("method", METHODS)), bool(k.bool("fast"))
    rng, n, g, h, lo, up, x = draw_problem(int(k.int("seed", lo=0, cap=10 ** 6)))
    keep = [a.copy() for a in (g, h, lo, up, x)]
    opts = solver_options(k, method)
    if rng.random() < 0.3:
        opts["maxiter"] = int(rng.integers(0, 4))
    out = k.call(k.get((FAST + "bntr_fast") if fast else (REF + "bntr")), ScalarModel(intercept=0.0, linear_terms=g, square_terms=h),
                 lower_bounds=lo, upper_bounds=up, x_candidate=x, **opts)["x"]
    k.check("the solution lies in the box", bool(out.shape == (n,) and np.all(out >= lo) and np.all(out <= up)))
    k.check("the problem is not changed", all(np.array_equal(a, b) for a, b in zip(keep, (g, h, lo, up, x))))


@contract("C22", [FALL + f for f in ("robust_cube_solver", "robust_cube_solver_multistart", "robust_sphere_solver_inscribed_cube", "robust_sphere_solver_reparametrized")],
          prove=False, rac_n=200, rac_s=60)
def fallbacks_on_models(k):
    from tranquilo.models import ScalarModel

    rng, n, g, h, lo, up, x = draw_problem(int(k.int("seed", lo=0, cap=10 ** 6)), unit=True)
    which = str(k.choice("solver", ["robust_cube_solver", "robust_sphere_solver_inscribed_cube", "robust_sphere_solver_reparametrized"] * 4 + ["robust_cube_solver_multistart"]))
    ball = "sphere" in which
    if ball:
        x = x / max(1.0, np.linalg.norm(x))
    out = k.call(k.get(FALL + which), ScalarModel(intercept=0.0, linear_terms=g, square_terms=h), x_candidate=x)["x"]
    k.check("the solution lies in the cube", bool(out.shape == (n,) and np.all(np.abs(out) <= 1.0)))
    if ball:
        k.check("the solution has norm at most one", bool(np.linalg.norm(out) <= 1 + 1e-12))


@contract("C22", [LIN + "minimize_trsbox_linear", LIN + "improve_geomtery_trsbox_linear", LIN + "_find_next_active_bound", LIN + "_take_constrained_step_up_to_boundary",
                  LIN + "_take_unconstrained_step_up_to_boundary", LIN + "_get_distance_to_trustregion_boundary"], prove=False, rac_n=600, rac_s=30)
def linear_solver_on_models(k):
    L = k.get(LIN + "LinearModel")
    rng, n, g, h, lo, up, x = draw_problem(int(k.int("seed", lo=0, cap=10 ** 6)))
    radius = float(rng.choice([0.1, 1.0, 1.7, 10.0]))
    if k.bool("geometry"):
        out = k.call(k.get(LIN + "improve_geomtery_trsbox_linear"), x, L(intercept=float(rng.normal()), linear_terms=g), lo, up, radius) - x
    else:
        out = k.call(k.get(LIN + "minimize_trsbox_linear"), L(intercept=0.0, linear_terms=g), lo - x, up - x, radius)
    k.check("the step ends in the box", bool(np.all(out >= lo - x - 1e-12) and np.all(out <= up - x + 1e-12)))
    k.check("and in the ball", bool(np.linalg.norm(out) <= radius * (1 + 1e-9)))
