"""C09: subproblem solutions are feasible and never predicted to be worse."""
import numpy as np

from contracts.c08 import make
from contracts.c10 import scalar_model, val
from contracts.common import draw_case
from pyvc.contract import contract

S = "tranquilo.solve_subproblem:"
T = S + "_solve_subproblem_template"
FNS = [T, S + "_project_into_unit_sphere", "tranquilo.region:Region.map_from_unit", "tranquilo.region:Region.map_to_unit"]


class Boom(Exception):
    pass


class AnyModel:
    """a model about which nothing is known except that it is a function of the point"""

    def __init__(self, k):
        self.k, self.known = k, []

    def predict(self, x):
        k = self.k
        for y, v in self.known:
            if k.ctx.provable(k.same(x, y)):
                return v
        v = k.real("prediction")
        self.known.append((x.copy(), v))
        return v


def template(k, raises=False, bounds=None):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n, bounds)
    model = AnyModel(k) if k.sym else scalar_model(k, n, "ball", bool(k.bool("second_order")))
    ball = reg.shape == "sphere"
    seen = []

    def result(name):
        def gen(g, s):
            x = g.normal(size=s) * g.choice([0.1, 1.0, 3.0])
            if g.random() < 0.15:
                x = np.where(g.random(s) < 0.5, g.choice([np.nan, np.inf, -np.inf, 1e300]), x)
            return x
        return {"x": k.array(name, (n,), gen=gen), "success": k.bool(name + "_success"), "n_iterations": k.int(name + "_iterations"), "criterion": k.real(name + "_criterion")}

    own, fall = result("solution"), result("fallback_solution")

    def solver(**kw):
        seen.append(("own", kw))
        if raises:
            raise Boom("solver failed")
        return dict(own)

    def wrong(**kw):
        seen.append(("wrong", kw))
        return dict(own)

    def fallback(**kw):
        seen.append(("fallback", kw))
        return dict(fall)

    retry = bool(k.bool("retry_with_fallback"))
    kw = dict(model=model, trustregion=reg, sphere_solver=solver if ball else wrong, cube_solver=wrong if ball else solver,
              fallback_sphere_solver=fallback if ball else wrong, fallback_cube_solver=wrong if ball else fallback, retry_with_fallback=retry)
    return n, reg, c, r, model, ball, seen, retry, kw, own, fall


def judge(k, n, reg, c, r, model, ball, out, raw):
    u0 = reg.map_to_unit(c)
    k.check("the shape is that of the region", out.shape == reg.shape)
    k.check("the trial point has one entry per parameter", k.land(k.shape_is(out.x, n), k.shape_is(out.x_unit, n)))
    f0, f1 = model.predict(u0), model.predict(out.x_unit)
    big = 1.0 if k.sym else float(np.sum(np.abs(model.linear_terms)) + (0 if model.square_terms is None else np.sum(np.abs(model.square_terms))) + abs(f0) + 1)
    k.check("the expected improvement is not negative", out.expected_improvement >= 0)
    k.check("the expected improvement is the decrease predicted by the model", k.eq(out.expected_improvement, f0 - f1, atol=1e-9 * big))
    if k.sym:
        k.check("the trial point belongs to the unit point", k.eq(out.x, reg.map_from_unit(out.x_unit)))
    else:
        k.check("the trial point belongs to the unit point", k.eq(reg.map_to_unit(out.x), out.x_unit, atol=1e-6))
    if ball:
        d2 = k.sum(n, lambda i: (val(k, out.x, i) - val(k, c, i)) * (val(k, out.x, i) - val(k, c, i)))
        k.check("the trial point is in the trust region", k.le(d2, r * r, rtol=1e-6, atol=1e-12 * (1.0 if k.sym else float(1 + np.sum(c ** 2)))))
    else:
        b = reg.cube_bounds
        k.check("the trial point is in the trust region", k.forall([n], lambda i: k.land(out.x[i] >= b.lower[i], out.x[i] <= b.upper[i])))
    # the point that was returned by the solver, made feasible
    x = raw["x"]
    if ball:
        nrm = k.np.linalg.norm(x)
        cand = x / nrm if k.truth(nrm > 1) else x
    else:
        cand = k.np.clip(x, -1.0, 1.0)
    better = f0 - model.predict(cand)
    if not k.sym and (np.isnan(better) or abs(better) <= 1e-9 * big):
        return
    if k.truth(better >= 0):
        k.check("a solution that is not worse than the centre is used", k.eq(out.x_unit, cand))
        k.check("success is the solver's", k.iff(out.success, raw["success"]))
    else:
        k.check("if the solution is worse, the centre is returned", k.same(out.x, c))
        k.check("if the solution is worse, nothing is expected", k.eq(out.expected_improvement, 0))
        k.check("if the solution is worse, the result is marked as unsuccessful", k.lnot(out.success))
    k.check("the number of iterations is reported", k.eq(out.n_iterations, raw["n_iterations"]))


OPT = dict(deadline=150)


def asked(k, kw, call, n, u0):
    k.check("the solver gets the model", call["model"] is kw["model"])
    k.check("the solver starts at the centre", k.eq(call["x_candidate"], u0))


def _normal(k, bounds):
    n, reg, c, r, model, ball, seen, retry, kw, own, fall = template(k, bounds=bounds)
    out = k.call(k.get(T), **kw)
    k.check("exactly the solver for the shape is called, once", [s for s, _ in seen] == ["own"])
    call = seen[0][1]
    asked(k, kw, call, n, reg.map_to_unit(c))
    k.check("the solver gets the bounds of the unit cube", k.land(k.shape_is(call["lower_bounds"], n), k.shape_is(call["upper_bounds"], n),
                                                                  k.forall([n], lambda i: k.land(k.eq(call["lower_bounds"][i], -1), k.eq(call["upper_bounds"][i], 1)))))
    judge(k, n, reg, c, r, model, ball, out, own)


@contract("C09", FNS, **OPT)
def solution_in_balls(k):
    _normal(k, "none")


@contract("C09", FNS, **OPT)
def solution_with_bounds(k):
    _normal(k, "both")


@contract("C09", FNS, **OPT)
def failing_solvers(k):
    n, reg, c, r, model, ball, seen, retry, kw, own, fall = template(k, raises=True, bounds=str(k.choice("bounds", ["none", "lower"])))
    f = k.get(T)
    if not retry:
        k.check("without fallback the error is re-raised", k.raises(Boom, f, **kw))
        k.check("without fallback no other solver is called", [s for s, _ in seen] == ["own"])
        return
    out = k.call(f, **kw)
    k.check("the fallback for the shape is used, once", [s for s, _ in seen] == ["own", "fallback"])
    asked(k, kw, seen[1][1], n, reg.map_to_unit(c))
    judge(k, n, reg, c, r, model, ball, out, fall)


def feasible(k, model, reg, out, dsc):
    u0 = reg.map_to_unit(reg.center)
    f0, f1 = model.predict(u0), model.predict(out.x_unit)
    u = reg.map_to_unit(out.x)
    tol = 1e-6 + 1e-15 * np.max(np.abs(reg.center)) / np.min(reg.effective_radius)
    size = np.linalg.norm(u) if reg.shape == "sphere" else np.max(np.abs(u))
    k.check("the trial point is in the trust region", size <= 1 + tol, dsc)
    k.check("the trial point belongs to the unit point", np.allclose(u, out.x_unit, atol=tol, rtol=tol), dsc)
    k.check("the expected improvement is not negative", out.expected_improvement >= 0, dsc)
    scale = abs(f0) + np.sum(np.abs(model.linear_terms)) + np.sum(np.abs(model.square_terms))
    k.check("the expected improvement is the decrease predicted by the model", abs(out.expected_improvement - (f0 - f1)) <= 1e-9 * (scale + 1e-300), dsc)


@contract("C09", FNS + [S + "get_subsolver"], prove=False, rac_n=250, rac_s=15, chunks=2)
def every_solver(k):
    n = k.int("n_params", lo=1, cap=5)
    k.assume(n >= 1)
    sphere = str(k.choice("sphere", ["gqtpar", "gqtpar_fast", "fallback_reparametrized", "fallback_inscribed_cube", "fallback_norm_constraint"]))
    cube = str(k.choice("cube", ["bntr", "bntr_fast"]))
    reg, c, r, lo, up = make(k, n, str(k.choice("bounds", ["none", "both", "lower"])))
    model = scalar_model(k, n, "ball")
    if k.bool("flat"):
        model = model._replace(linear_terms=model.linear_terms * 0.0)
    f = k.get(S + "get_subsolver")(sphere, cube, retry_with_fallback=True)
    feasible(k, model, reg, k.call(f, model=model, trustregion=reg), lambda: f"{sphere} {cube} {model} {reg}")


@contract("C09", FNS, prove=False, rac_n=200, rac_s=20, chunks=2)
def along_runs(k):
    case = draw_case(k)
    seen = []

    def mon(orig, args, run):
        def f(model, trustregion):
            out = orig(model=model, trustregion=trustregion)
            seen.append((model, trustregion, out))
            return out
        return f

    def accept(orig, args, run):
        def f(**kw):
            model, reg, out = seen[-1]
            k.check("the main algorithm gets the solution as it is", kw["subproblem_solution"] is out or (
                k.same(kw["subproblem_solution"].x, out.x) and kw["subproblem_solution"].expected_improvement == out.expected_improvement), case.describe)
            feasible(k, model, reg, out, case.describe)
            k.check("the region of the subproblem is the current region", reg is kw["state"].trustregion or (
                k.same(reg.center, kw["state"].trustregion.center) and reg.radius == kw["state"].trustregion.radius), case.describe)
            return orig(**kw)
        return f

    case.run(wrap={"solve_subproblem": mon, "accept_candidate": accept})
