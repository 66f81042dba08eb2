"""C12: fitted models reproduce the least-squares fit of the data they were given."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import FIELDS, scale, val, vector_model  # noqa: F401
from contracts.common import draw_case
from pyvc.contract import contract

F = "tranquilo.fit_models:"


def features_of(x):
    """the feature matrix: intercept, linear terms, products in row-major order of the upper triangle"""
    s, n = x.shape
    cols = [np.ones(s)] + [x[:, i] for i in range(n)] + [x[:, i] * x[:, j] for i in range(n) for j in range(i, n)]
    return np.column_stack(cols)


@contract("C12", [F + "_build_feature_matrix", F + "_quadratic_features", "tranquilo.models:n_second_order_terms"], deadline=60)
def features(k):
    n = k.choice("n_params", [1, 2, 3, 4, 5])
    s = k.int("n_samples", lo=1, cap=6)
    x = k.array("x", (s, n))
    keep = x.copy()
    r = k.int("row", lo=0, hi=s - 1)
    kind = k.choice("model_type", ["linear", "quadratic"])
    out = k.call(k.get(F + "_build_feature_matrix"), x, kind)
    width = 1 + n + (n * (n + 1) // 2 if kind == "quadratic" else 0)
    k.check("one row per sample and one column per coefficient", k.shape_is(out, s, width))
    k.check("the first column is the intercept", k.eq(val(k, out, r, 0), 1.0))
    for i in range(n):
        k.check("then come the parameters", k.eq(val(k, out, r, 1 + i), val(k, x, r, i)))
    if kind == "quadratic":
        pairs = [(i, j) for i in range(n) for j in range(i, n)]
        for p, (i, j) in enumerate(pairs):
            k.check("then the products of two parameters, row by row of the upper triangle",
                    k.eq(val(k, out, r, 1 + n + p), val(k, x, r, i) * val(k, x, r, j)))
    k.check("the points are not changed", k.same(x, keep))


@contract("C12", [F + "_reshape_square_terms_to_hess", "tranquilo.models:_predict_vector"], deadline=60)
def hessian(k):
    n = k.choice("n_params", [1, 2, 3, 4, 5])
    m = k.int("n_residuals", lo=1, cap=4)
    t = n * (n + 1) // 2
    coef = k.array("coef", (m, t))
    keep = coef.copy()
    h = k.call(k.get(F + "_reshape_square_terms_to_hess"), coef, n, m)
    r = k.int("residual", lo=0, hi=m - 1)
    k.check("one matrix per residual", k.shape_is(h, m, n, n))
    p = 0
    for i in range(n):
        for j in range(i, n):
            k.check("second-order matrices are symmetric", k.eq(val(k, h, r, i, j), val(k, h, r, j, i)))
            k.check("each coefficient multiplies its own product of parameters",
                    k.eq(val(k, h, r, i, j), val(k, coef, r, p) * (2.0 if i == j else 1.0)))
            p += 1
    k.check("the coefficients are not changed", k.same(coef, keep))


@contract("C12", [F + "_reshape_square_terms_to_hess"], rac=False)
def hessian_any_size(k):
    from pyvc.npshim import TRI
    from pyvc.values import Num

    n, m = k.int("n_params", lo=1), k.int("n_residuals", lo=1)
    coef = k.array("coef", (m, n * (n + 1) // 2))
    keep = coef.copy()
    h = k.call(k.get(F + "_reshape_square_terms_to_hess"), coef, n, m)
    r, i, j = k.int("residual", lo=0), k.int("i", lo=0), k.int("j", lo=0)
    k.assume(k.land(r < m, i <= j, j < n))
    k.check("one matrix per residual", k.shape_is(h, m, n, n))
    k.check("second-order matrices are symmetric", k.eq(val(k, h, r, i, j), val(k, h, r, j, i)))
    c = val(k, coef, r, Num(TRI(n.v, i.v, j.v), True))
    k.check("each coefficient multiplies its own product of parameters", k.land(
        k.implies(i < j, lambda: k.eq(val(k, h, r, i, j), c)), k.implies(k.eq(i, j), lambda: k.eq(val(k, h, r, i, j), 2 * c))))
    k.check("the coefficients are not changed", k.same(coef, keep))


def loops():
    """invariants for the two loops that fill the products of parameters"""
    import z3

    from pyvc import values as V
    from pyvc.arrays import I, dterm
    from pyvc.builtins_shim import LoopInv, seq_of
    from pyvc.npshim import TCOL, TRI, TROW, triu_lemmas
    from pyvc.values import Num, num

    class Fill(LoopInv):
        def __init__(self, label, inner):
            super().__init__(label, self.hv, self.iv)
            self.inner = inner

        def run_for(self, it, body, names, vals):
            triu_lemmas(self.k.ctx)
            if self.inner:
                self.i = I(seq_of(it).item(z3.IntVal(0)))
            return super().run_for(it, body, names, vals)

        def hv(self, names, vals):
            k, old = self.k, dict(zip(names, vals))
            f, _ = k.ctx.fresh_fun("products", z3.IntSort(), z3.IntSort(), z3.RealSort())
            self.poly(old).set_fn(lambda q, s: Num(f(I(q), I(s)), False))
            return {"idx": k.int("idx", lo=None)}

        def poly(self, v):
            return v["poly_terms"]

        def iv(self, count, v):
            k = self.k
            n, idx, c = I(k.n), I(v["idx"]), I(count)
            i, j = (self.i, self.i + c) if self.inner else (c, c)
            f, x = self.poly(v).snap(), k.x.snap()
            at = lambda q: (TROW(n, q), TCOL(n, q))  # noqa: E731
            return V.Conj([
                2 * idx == 2 * i * n - i * i + i + 2 * (j - i), idx >= 0, 2 * idx <= n * (n + 1),
                z3.Implies(j < n, idx == TRI(n, i, j)),
                V.Forall([dterm(k.poly_dims[0]), I(k.s)], lambda q, s: z3.Implies(q < idx, num(f(q, s)).v == num(x(s, at(q)[0])).v * num(x(s, at(q)[1])).v))])

    key = F + "_quadratic_features:"
    return {key + "0": Fill("first parameter", False), key + "1": Fill("second parameter", True)}


@contract("C12", [F + "_build_feature_matrix", F + "_quadratic_features"], rac=False, loops=loops)
def features_any_size(k):
    from pyvc.npshim import TRI
    from pyvc.values import Num

    k.n, k.s = n, s = k.int("n_params", lo=1), k.int("n_samples", lo=1)
    k.x = x = k.array("x", (s, n))
    k.poly_dims = (n * (n + 1) // 2, s)
    keep = x.copy()
    out = k.call(k.get(F + "_build_feature_matrix"), x, "quadratic")
    r, i, j = k.int("row", lo=0), k.int("i", lo=0), k.int("j", lo=0)
    k.assume(k.land(r < s, i <= j, j < n))
    k.check("one row per sample and one column per coefficient", k.shape_is(out, s, n + n * (n + 1) // 2 + 1))
    k.check("the first column is the intercept", k.eq(val(k, out, r, 0), 1.0))
    k.check("then come the parameters", k.eq(val(k, out, r, i + 1), val(k, x, r, i)))
    c = Num(TRI(n.v, i.v, j.v), True)
    k.check("then the products of two parameters, row by row of the upper triangle",
            k.eq(val(k, out, r, c + n + 1), val(k, x, r, i) * val(k, x, r, j)))
    k.check("the points are not changed", k.same(x, keep))


@contract("C12", [F + "_fitter_template", F + "_reshape_square_terms_to_hess", "tranquilo.models:add_models"], rac=False, deadline=120,
          stubs={F + "move_model": lambda k, model, region: k.moves(model, region)})
def template(k):
    from pyvc.npshim import TRI
    from pyvc.values import Num

    n, m, s = k.int("n_params", lo=1), k.int("n_residuals", lo=1), k.int("n_samples", lo=1)
    kind = str(k.choice("model_type", ["linear", "quadratic"]))
    residualize = k.bool("residualize")
    old_square = bool(k.bool("old_model_is_quadratic"))
    x, y = k.array("x", (s, n)), k.array("y", (s, m), ext=True)
    unit, clipped = k.array("x_unit", (s, n)), k.array("y_clipped", (s, m))
    weights = k.array("weights", (s,))
    radius_kind = str(k.choice("region", ["ball", "box"]))
    region = SimpleNamespace(map_to_unit=lambda z: unit if k.sure(k.same(z, x)) else None, effective_center=k.array("center", (n,)),
                             effective_radius=scale(k, "radius", n, radius_kind))
    old = vector_model(k, n, m, radius_kind, old_square, "old_")
    moved = vector_model(k, n, m, radius_kind, old_square, "moved_")._replace(shift=region.effective_center, scale=region.effective_radius)
    k.moves = lambda model, reg: moved if model is old and reg is region else None
    width = n + 1 + (n * (n + 1) // 2 if kind == "quadratic" else 0)
    coef = k.array("coef", (m, width))
    seen = []

    def fitter(x, y, weights, model_type):
        seen.append((x, y, weights, model_type))
        return coef

    keep = [a.copy() for a in (x, y, unit, clipped, coef)]
    out = k.call(k.get(F + "_fitter_template"), x, y, region, old, weights=weights, fitter=fitter, model_type=kind,
                 clip_infinite_values=lambda z: clipped if k.sure(k.same(z, y)) else None, residualize=residualize)
    q, r, i, j = k.int("sample", lo=0), k.int("residual", lo=0), k.int("i", lo=0), k.int("j", lo=0)
    k.assume(k.land(q < s, r < m, i <= j, j < n))
    k.check("the fitter is called once, with the weights and the model type", len(seen) == 1 and seen[0][3] == kind and k.same(seen[0][2], weights))
    if len(seen) != 1:
        return
    fx, fy = seen[0][:2]
    k.check("the features are those of the unit-mapped points", k.eq(val(k, fx, q, i), val(k, keep[2], q, i)))
    res = bool(residualize)
    want = val(k, keep[3], q, r)
    if res:
        want = want - val(k, moved.predict(unit), q, r)
    k.check("the fitter sees the clipped values, less the moved old model when residualizing", k.land(k.eq(val(k, fy, q, r), want), k.shape_is(fy, s, m)))
    add = (lambda v, *ix: val(k, v, *ix)) if res else (lambda v, *ix: 0.0)
    k.check("the first coefficient is the intercept", k.eq(val(k, out.intercepts, r), val(k, coef, r, 0) + add(moved.intercepts, r)))
    k.check("then come the linear terms", k.land(k.eq(val(k, out.linear_terms, r, i), val(k, coef, r, i + 1) + add(moved.linear_terms, r, i)),
                                                 k.shape_is(out.linear_terms, m, n), k.shape_is(out.intercepts, m)))
    if kind == "linear" and not (res and old_square):
        k.check("a linear model has no second-order terms", out.square_terms is None)
    else:
        extra = add(moved.square_terms, r, i, j) if old_square else 0.0
        mirror = add(moved.square_terms, r, j, i) if old_square else 0.0
        c = val(k, coef, r, n + 1 + Num(TRI(n.v, i.v, j.v), True)) if kind == "quadratic" else 0.0
        h, hm = val(k, out.square_terms, r, i, j), val(k, out.square_terms, r, j, i)
        k.check("each coefficient multiplies its own product of parameters", k.land(
            k.implies(i < j, lambda: k.eq(h, c + extra)), k.implies(k.eq(i, j), lambda: k.eq(h, 2 * c + extra))))
        k.check("second-order matrices are symmetric", k.eq(h - extra, hm - mirror))
    k.check("the model lives on the region", k.land(k.same(out.shift, region.effective_center), k.same(out.scale, region.effective_radius)))
    for a, b in zip((x, y, unit, clipped, coef), keep):
        k.check("the data are not changed", k.same(a, b))


# ------------------------------------------------------------------------- the fitters
def _features(k, x, model_type):
    k.asked.append(model_type)
    return k.features


LSTSQ = ["np.linalg.lstsq returns a least-squares solution: its residuals are orthogonal to every column (normal equations); of all solutions "
         "it returns the shortest, a combination of the rows; a solvable square system is solved exactly",
         "the penalised normal equations are solvable when the penalties are not negative"]
FIT = dict(rac=False, stubs={F + "_build_feature_matrix": _features}, assumptions=LSTSQ, deadline=90)


def setup(k):
    k.asked = []
    k.ctx.__dict__.setdefault("lstsq_calls", []).clear()
    k.n = k.int("n_params", lo=1)
    k.s, k.m, k.p = k.int("n_samples", lo=1), k.int("n_residuals", lo=1), k.int("n_features", lo=1)
    k.assume(k.p >= k.n + 1)
    k.features, k.y = k.array("features", (k.s, k.p)), k.array("y", (k.s, k.m))
    k.x = k.array("x", (k.s, k.n))
    k.l, k.r = k.int("feature", lo=0), k.int("residual", lo=0)
    k.assume(k.land(k.l < k.p, k.r < k.m))
    w = None
    if k.bool("weighted"):
        w = k.array("weights", (k.s,))
        k.assume(k.forall([k.s], lambda q: w[q] >= 0))
    k.w = w
    return w


def weight(k, q):
    return 1.0 if k.w is None else val(k, k.w, q)


def score(k, coef):
    """the derivative of the weighted sum of squares with respect to one coefficient"""
    f, y = k.features, k.y
    return k.sum(k.s, lambda q: weight(k, q) * val(k, f, q, k.l) * (
        k.sum(k.p, lambda c: val(k, f, q, c) * val(k, coef, k.r, c)) - val(k, y, q, k.r)))


def solution(k):
    """the one call of lstsq"""
    calls = k.ctx.__dict__.get("lstsq_calls", [])
    k.check("one least-squares problem is solved", len(calls) == 1)
    return calls[-1]


@contract("C12", [F + "fit_ols", F + "_fit_ols", F + "_add_weighting"], **FIT)
def ordinary_least_squares(k):
    w = setup(k)
    coef = k.call(k.get(F + "fit_ols"), k.x, k.y, w, "quadratic")
    a, b, out = solution(k)
    k.assume(k.eq(k.sum(a.dims[0], lambda q: val(k, a, q, k.l) * (k.sum(a.dims[1], lambda c: val(k, a, q, c) * val(k, out, c, k.r)) - val(k, b, q, k.r))), 0.0))
    k.check("one coefficient per feature and residual", k.shape_is(coef, k.m, k.p))
    k.check("the features of the given type are used", k.asked == ["quadratic"])
    k.check("the coefficients minimise the weighted sum of squares", k.eq(score(k, coef), 0.0))


@contract("C12", [F + "fit_ridge", F + "_fit_ridge", F + "_add_weighting"], **FIT)
def ridge(k):
    w = setup(k)
    lin, sq = k.pos("l2_penalty_linear"), k.pos("l2_penalty_square")
    coef = k.call(k.get(F + "fit_ridge"), k.x, k.y, w, "quadratic", lin, sq)
    a, b, out = solution(k)
    k.assume(k.eq(k.sum(a.dims[1], lambda c: val(k, a, k.l, c) * val(k, out, c, k.r)), val(k, b, k.l, k.r)))
    k.check("one coefficient per feature and residual", k.shape_is(coef, k.m, k.p))
    k.check("the features of the given type are used", k.asked == ["quadratic"])
    own = val(k, coef, k.r, k.l)
    s = score(k, coef)
    k.check("the intercept is not penalised", k.implies(k.eq(k.l, 0), lambda: k.eq(s, 0.0)))
    k.check("linear terms carry their penalty", k.implies(k.land(k.l >= 1, k.l <= k.n), lambda: k.eq(s + lin * own, 0.0)))
    k.check("second-order terms carry their penalty", k.implies(k.l > k.n, lambda: k.eq(s + sq * own, 0.0)))


@contract("C12", [F + "fit_tranquilo", F + "_fit_ols", F + "_add_weighting"], **FIT)
def tranquilo_fit(k):
    w = setup(k)
    ps = [k.pos(nm) for nm in ("p_intercept", "p_linear", "p_square")]
    coef = k.call(k.get(F + "fit_tranquilo"), k.x, k.y, w, "quadratic", *ps)
    a, b, out = solution(k)
    k.assume(k.eq(k.sum(a.dims[0], lambda q: val(k, a, q, k.l) * (k.sum(a.dims[1], lambda c: val(k, a, q, c) * val(k, out, c, k.r)) - val(k, b, q, k.r))), 0.0))
    z = k.array("row_weights", (k.s,))
    k.assume(k.eq(val(k, out, k.l, k.r), k.sum(a.dims[0], lambda q: val(k, a, q, k.l) * val(k, z, q))))
    k.check("one coefficient per feature and residual", k.shape_is(coef, k.m, k.p))
    k.check("the features of the given type are used", k.asked == ["quadratic"])
    k.check("the coefficients minimise the weighted sum of squares", k.eq(score(k, coef), 0.0))
    # of all minimisers it is the one with the smallest penalised norm: p_l^2 coef_l is a combination of the rows
    root = (lambda q: 1.0) if w is None else (lambda q, r=k.np.sqrt(w): val(k, r, q))
    rows = k.sum(k.s, lambda q: root(q) * val(k, k.features, q, k.l) * val(k, z, q))
    own = val(k, coef, k.r, k.l)
    for name, cond, p in zip(("the intercept", "linear terms", "second-order terms"), (k.eq(k.l, 0), k.land(k.l >= 1, k.l <= k.n), k.l > k.n), ps):
        k.check(f"of all minimisers the one with the smallest penalised norm is taken: {name}",
                k.implies(cond, lambda p=p: k.eq(own * p * p, rows)))


@contract("C12", [F + "fit_powell"], rac=False, stubs={
    F + "fit_ols": lambda k, x, y, weights, model_type: k.fits(x, y, weights, model_type),
    F + "_fit_minimal_frobenius_norm_of_hessian": lambda k, x, y: k.fits(x, y, None, "frobenius")})
def powell(k):
    n, m, s = k.int("n_params", lo=1), k.int("n_residuals", lo=1), k.int("n_samples", lo=1)
    kind = str(k.choice("model_type", ["linear", "quadratic"]))
    x, y = k.array("x", (s, n)), k.array("y", (s, m))
    full = n + 1 + (n * (n + 1) // 2 if kind == "quadratic" else 0)
    calls = []

    def fits(a, b, w, how):
        out = k.array("coef", (m, n + 1 if how == "linear" else full))
        calls.append((how, out, k.sure(k.same(a, x)) and k.sure(k.same(b, y)) and w is None))
        return out

    k.fits = fits
    coef = k.call(k.get(F + "fit_powell"), x, y, kind)
    k.check("one fit to the data", len(calls) == 1 and calls[0][2])
    how, got, _ = calls[0]
    r, l = k.int("residual", lo=0), k.int("feature", lo=0)
    k.assume(k.land(r < m, l < full))
    k.check("one coefficient per feature and residual", k.shape_is(coef, m, full))
    if how == "linear":
        k.check("a linear model is fitted when the sample is too small or the model is linear", kind == "linear" or k.truth(s <= n + 1))
        k.check("the linear fit is used, without second-order terms", k.land(
            k.implies(l <= n, lambda: k.eq(val(k, coef, r, l), val(k, got, r, l))), k.implies(l > n, lambda: k.eq(val(k, coef, r, l), 0.0))))
    else:
        k.check("a quadratic model is fitted when the sample is large enough", kind == "quadratic" and k.truth(s > n + 1))
        k.check("interpolation is used exactly when the model is underdetermined", (how == "frobenius") == k.truth(s < full))
        k.check("the fit is used", k.eq(val(k, coef, r, l), val(k, got, r, l)))


# ------------------------------------------------------------------------- at run time
def reference(fitter, opts, f, y, w, n):
    """the coefficients of the least-squares problem, computed independently; None if not unique"""
    p = f.shape[1]
    sw = np.ones(len(f)) if w is None else np.sqrt(w)
    fw, yw = f * sw[:, None], y * sw[:, None]
    blocks = np.concatenate([[0], np.ones(n, dtype=int), 2 * np.ones(p - n - 1, dtype=int)])
    if fitter == "ols":
        return np.linalg.pinv(fw) @ yw
    if fitter == "tranquilo":
        pen = np.array([opts["p_intercept"], opts["p_linear"], opts["p_square"]])[blocks]
        return (np.linalg.pinv(fw / pen) @ yw) / pen[:, None]
    if fitter == "ridge":
        pen = np.array([0.0, opts["l2_penalty_linear"], opts["l2_penalty_square"]])[blocks]
        return np.linalg.pinv(np.vstack([fw, np.diag(np.sqrt(pen))])) @ np.vstack([yw, np.zeros((p, y.shape[1]))])
    s = len(f)
    if s <= n + 1:
        lin = np.linalg.pinv(f[:, : n + 1]) @ y
        return np.vstack([lin, np.zeros((p - n - 1, y.shape[1]))])
    if s >= p:
        return np.linalg.pinv(f) @ y
    # interpolation with the smallest second-order coefficients
    lin, sq = f[:, : n + 1], f[:, n + 1:]
    q = np.eye(s) - lin @ np.linalg.pinv(lin)
    c2 = np.linalg.pinv(q @ sq, rcond=1e-9) @ (q @ y)
    return np.vstack([np.linalg.pinv(lin) @ (y - sq @ c2), c2])


DEFAULTS = {"l2_penalty_linear": 0.0, "l2_penalty_square": 0.1, "p_intercept": 0.05, "p_linear": 0.4, "p_square": 1.0}


def conditioned(a, tol=1e-5):
    s = np.linalg.svd(a, compute_uv=False)
    s = s / max(s[0], 1e-300)
    return not np.any((s > 1e-13) & (s < tol))


def check_fit(k, fitter, opts, kind, x, y, w, region, old, residualize, model, why=lambda: None):
    from tranquilo.handle_infinity import clip_relative
    from tranquilo.models import move_model

    u = region.map_to_unit(x)
    s, n = u.shape
    f = features_of(u) if kind == "quadratic" else features_of(u)[:, : n + 1]
    yc = clip_relative(y)
    base = None
    if residualize:
        base = move_model(old, region)
        yc = yc - base.predict(u).reshape(yc.shape)
    m = y.shape[1]
    k.check("the model has one intercept and gradient per residual", np.shape(model.intercepts) == (m,) and np.shape(model.linear_terms) == (m, n), why)
    h = model.square_terms
    if kind == "linear" and not (residualize and old.square_terms is not None):
        k.check("a linear model has no second-order terms", h is None, why)
    else:
        k.check("second-order matrices are symmetric", np.shape(h) == (m, n, n) and np.allclose(h, np.transpose(h, (0, 2, 1)), rtol=1e-12, atol=0), why)
    k.check("the model lives on the region", np.array_equal(model.shift, region.effective_center) and np.array_equal(model.scale, region.effective_radius), why)
    blocks = {"tranquilo": lambda: f / np.array([opts["p_intercept"]] + [opts["p_linear"]] * n + [opts["p_square"]] * (f.shape[1] - n - 1))}
    a = blocks.get(fitter, lambda: f)()
    a = a if w is None else a * np.sqrt(w)[:, None]
    if not conditioned(a) or not conditioned(f[:, : n + 1]) or (fitter == "ridge" and not conditioned(a, 1e-3)):
        return
    if fitter == "powell" and n + 1 < s < f.shape[1]:
        lin = f[:, : n + 1]
        if np.linalg.matrix_rank(lin[: n + 1]) < n + 1 or np.linalg.cond(lin[: n + 1]) > 1e4:
            return
        if not conditioned((np.eye(s) - lin @ np.linalg.pinv(lin)) @ f[:, n + 1:], 1e-3):
            return
    coef = reference(fitter, opts, f, yc, w, n)
    if not np.all(np.isfinite(coef)) or np.abs(yc).max() > 1e12:
        return
    want = f @ coef
    if base is not None:
        want = want + base.predict(u).reshape(want.shape)
    got = np.reshape(model.predict(u), want.shape)
    size = 1 + np.abs(yc).max() + np.abs(want).max()
    k.check("predictions at the sample points are those of the least-squares fit", np.allclose(got, want, atol=1e-5 * size, rtol=1e-5),
            lambda: f"{why()} {np.abs(got - want).max()}")
    # away from the sample as well: the coefficients are determined
    g = np.random.default_rng(s * 100 + n)
    z = g.uniform(-1, 1, size=(5, n))
    fz = features_of(z)[:, : f.shape[1]]
    want = fz @ coef
    if base is not None:
        want = want + base.predict(z).reshape(want.shape)
    got = np.reshape(model.predict(z), want.shape)
    size = size + np.abs(coef).max()
    k.check("every coefficient is in its own place", np.allclose(got, want, atol=1e-4 * size, rtol=1e-4), lambda: f"{why()} {np.abs(got - want).max()}")


@contract("C12", [F + "get_fitter", F + "_fitter_template", F + "_fit_minimal_frobenius_norm_of_hessian"], prove=False, rac_n=200)
def fitters_at_run_time(k):
    n = k.int("n_params", lo=1, hi=5)
    g = np.random.default_rng(k.int("seed", 0, 10**6))
    kind = str(g.choice(["linear", "quadratic", "quadratic"]))
    p = 1 + n + (n * (n + 1) // 2 if kind == "quadratic" else 0)
    s = int(g.choice([n + 1, min(n + 2, p), min(2 * n + 1, max(p, n + 1)), p, p + 1, 2 * p]))
    m = int(g.integers(1, 4))
    fitter = str(g.choice(["ols", "ridge", "tranquilo", "powell"]))
    user = {}
    if fitter == "ridge":
        user = {"l2_penalty_linear": float(g.choice([0.0, 0.1, 2.0])), "l2_penalty_square": float(g.choice([0.1, 1.0]))}
    if fitter == "tranquilo" and g.random() < 0.6:
        user = {"p_intercept": float(g.uniform(0.1, 2)), "p_linear": float(g.uniform(0.1, 2)), "p_square": float(g.uniform(0.1, 2))}
    lo = up = None
    c = g.normal(size=n)
    if g.random() < 0.6:
        lo, up = c - g.uniform(0.05, 2, size=n), c + g.uniform(0.05, 2, size=n)
    from tranquilo.bounds import Bounds
    from tranquilo.models import VectorModel
    from tranquilo.region import Region

    region = Region(center=c, radius=float(g.choice([0.1, 1.0])), bounds=Bounds(lower=lo, upper=up))
    u = g.uniform(-1, 1, size=(s, n))
    x = region.map_from_unit(u)
    y = g.normal(size=(s, m)) * 3
    if g.random() < 0.3:
        y[g.integers(s), g.integers(m)] = g.choice([np.inf, -np.inf])
    residualize = bool(g.random() < 0.4)
    sym = g.normal(size=(m, n, n))
    old = VectorModel(intercepts=g.normal(size=m), linear_terms=g.normal(size=(m, n)),
                      square_terms=None if kind == "linear" else sym + np.transpose(sym, (0, 2, 1)), shift=g.normal(size=n), scale=float(g.uniform(0.5, 2)))
    w = None if fitter == "powell" or g.random() < 0.5 else g.uniform(0.2, 2, size=s)
    kept = x.copy(), y.copy()
    model = k.get(F + "get_fitter")(fitter, user, kind, residualize, "relative")(x, y, region=region, old_model=old, weights=w)
    why = lambda: f"{fitter} {user} {kind} n={n} m={m} s={s} residualize={residualize} weights={w is not None} shape={region.shape}"  # noqa: E731
    check_fit(k, fitter, {**DEFAULTS, **user}, kind, x, y, w, region, old, residualize, model, why)
    k.check("the data are not changed", np.array_equal(x, kept[0]) and np.array_equal(y, kept[1]))


@contract("C12", ["tranquilo.tranquilo:_internal_tranquilo", F + "get_fitter"], prove=False, rac_n=50)
def along_runs(k):
    c = draw_case(k)

    def monitored(original, args, run):
        kw = original.keywords
        raw = kw["fitter"]
        fn = raw
        while hasattr(fn, "__wrapped__") or hasattr(fn, "func"):
            fn = getattr(fn, "func", None) or fn.__wrapped__
        name = c.options.get("model_fitter")

        def fit_model(x, y, region, old_model, weights=None):
            out = original(x, y, region=region, old_model=old_model, weights=weights)
            kind = kw["model_type"]
            fitter = name
            if fitter is None:
                fitter = {"fit_ols": "ols", "fit_ridge": "ridge", "fit_powell": "powell", "fit_tranquilo": "tranquilo"}.get(getattr(fn, "__name__", ""))
            if fitter is not None:
                check_fit(k, fitter, DEFAULTS, kind, x, y, weights, region, old_model, kw["residualize"], out, c.describe)
            return out

        return fit_model

    run = c.run(wrap={"fit_model": monitored})
    k.assume(run.res is not None)
