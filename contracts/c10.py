"""C10: moving and adding surrogate models preserves the function they represent."""
from types import SimpleNamespace

import numpy as np

from pyvc.contract import contract

M = "tranquilo.models:"
MOVE = [M + f for f in ["move_model", "_scale_model", "_shift_scalar_model", "_predict_scalar"]]
MOVE_V = [M + f for f in ["move_model", "_scale_model", "_shift_vector_model", "_predict_vector"]]
SYM = ["second-order terms are symmetric (they are in every model that tranquilo fits, C12)"]


def symmetric(k, name, n, m=None):
    return k.symmetric(name, (n, n) if m is None else (m, n, n))


def scale(k, name, n, kind):
    if kind == "ball":
        return k.pos(name)
    s = k.array(name, (n,), gen=lambda r, shape: r.uniform(0.1, 3.0, size=shape))
    k.assume(k.forall([n], lambda i: s[i] > 0))
    return s


def scalar_model(k, n, kind, square=True, pre=""):
    return k.get(M + "ScalarModel")(
        intercept=k.real(pre + "intercept"), linear_terms=k.array(pre + "gradient", (n,)),
        square_terms=symmetric(k, pre + "hessian", n) if square else None,
        scale=scale(k, pre + "scale", n, kind), shift=k.array(pre + "shift", (n,)))


def vector_model(k, n, m, kind, square=True, pre=""):
    return k.get(M + "VectorModel")(
        intercepts=k.array(pre + "intercepts", (m,)), linear_terms=k.array(pre + "gradients", (m, n)),
        square_terms=symmetric(k, pre + "hessians", n, m) if square else None,
        scale=scale(k, pre + "scale", n, kind), shift=k.array(pre + "shift", (n,)))


FIELDS = ["intercept", "intercepts", "linear_terms", "square_terms", "scale", "shift"]


def snapshot(model):
    return {f: (v.copy() if hasattr(v, "copy") else v) for f in FIELDS for v in [getattr(model, f, None)]}


def unchanged(k, model, snap):
    for f, v in snap.items():
        w = getattr(model, f, None)
        if v is None:
            k.check("models passed in are not changed", w is None, f)
        else:
            k.check("models passed in are not changed", k.same(w, v), f)


def at(model, p):
    """the model's prediction at a point of the parameter space"""
    return model.predict((p - model.shift) / model.scale)


def _moving(k, n, model, m=None):
    old = snapshot(model)
    to = str(k.choice("new_region", ["ball", "box"]))
    reg = SimpleNamespace(effective_center=k.array("new_center", (n,)), effective_radius=scale(k, "new_radius", n, to))
    out = k.call(k.get(M + "move_model"), model, reg)
    k.check("the model moves to the centre of the new region", k.eq(out.shift, reg.effective_center))
    k.check("the model gets the scale of the new region", k.eq(out.scale, reg.effective_radius))
    p = k.array("point", (n,))
    a, b = at(out, p), at(model, p)
    if m is None:
        k.check("the prediction at every point is unchanged", k.eq(a, b, rtol=1e-7, atol=1e-6))
    else:
        k.check("one prediction per residual", k.shape_is(a, m))
        r = k.int("residual", lo=0, hi=m - 1)
        k.check("the prediction at every point is unchanged", k.eq(a[r], b[r], rtol=1e-7, atol=1e-6))
    unchanged(k, model, old)


OPT = dict(deadline=120, assumptions=SYM)
ADD = [M + "add_models", M + "_predict_scalar", M + "_predict_vector"]


@contract("C10", MOVE, **OPT)
def moving_scalar_models(k):
    n = k.int("n_params", lo=1, cap=5)
    kind = str(k.choice("old_region", ["ball", "box"]))
    _moving(k, n, scalar_model(k, n, kind, bool(k.bool("second_order"))))


@contract("C10", MOVE_V, **OPT)
def moving_vector_models(k):
    n, m = k.int("n_params", lo=1, cap=5), k.int("n_residuals", lo=1, cap=4)
    kind = str(k.choice("old_region", ["ball", "box"]))
    _moving(k, n, vector_model(k, n, m, kind, bool(k.bool("second_order"))), m)


@contract("C10", ADD, **OPT)
def adding_models(k):
    n = k.int("n_params", lo=1, cap=5)
    kind = str(k.choice("region", ["ball", "box"]))
    sq = [bool(k.bool("first_second_order")), bool(k.bool("second_second_order"))]
    vector = bool(k.bool("vector"))
    if vector:
        m = k.int("n_residuals", lo=1, cap=4)
        a, b = [vector_model(k, n, m, kind, s, p) for s, p in zip(sq, ["a_", "b_"])]
    else:
        a, b = [scalar_model(k, n, kind, s, p) for s, p in zip(sq, ["a_", "b_"])]
    b = b._replace(shift=a.shift.copy(), scale=a.scale.copy() if kind == "box" else a.scale)
    snaps = snapshot(a), snapshot(b)
    out = k.call(k.get(M + "add_models"), a, b)
    p = k.array("point", (n,))
    l, x, y = at(out, p), at(a, p), at(b, p)
    if vector:
        k.check("one prediction per residual", k.shape_is(l, m))
        r = k.int("residual", lo=0, hi=m - 1)
        k.check("the sum predicts the sum of the predictions", k.eq(l[r], x[r] + y[r]))
    else:
        k.check("the sum predicts the sum of the predictions", k.eq(l, x + y))
    k.check("the sum has the centre and scale of the models", k.land(k.eq(out.shift, a.shift), k.eq(out.scale, a.scale)))
    unchanged(k, a, snaps[0])
    unchanged(k, b, snaps[1])


@contract("C10", ADD, prove=False, rac_n=60)
def incompatible_models(k):
    n = k.int("n_params", lo=1, cap=4)
    a, b = scalar_model(k, n, "ball"), scalar_model(k, n, "ball", pre="b_")
    add = k.get(M + "add_models")
    k.check("models with different centres are not added", k.raises(ValueError, add, a, b._replace(scale=a.scale, shift=a.shift + 1.0)))
    k.check("models with different scales are not added", k.raises(ValueError, add, a, b._replace(scale=a.scale * 2, shift=a.shift)))


@contract("C10", [M + "_predict_scalar", M + "_predict_vector"], **OPT)
def one_by_one(k):
    n = k.int("n_params", lo=1, cap=5)
    s = k.int("n_points", lo=1, cap=6)
    sq = bool(k.bool("second_order"))
    xs = k.array("points", (s, n))
    keep = xs.copy()
    j = k.int("which", lo=0, hi=s - 1)
    if bool(k.bool("vector")):
        m = k.int("n_residuals", lo=1, cap=4)
        model = vector_model(k, n, m, "ball", sq)
        snap = snapshot(model)
        out, one = k.call(model.predict, xs), k.call(model.predict, xs[j])
        k.check("one row per point and one column per residual", k.land(k.shape_is(out, s, m), k.shape_is(one, m)))
        r = k.int("residual", lo=0, hi=m - 1)
        k.check("many points at once give the same numbers as one by one", k.eq(out[j, r], one[r]))
        g, h = model.linear_terms, model.square_terms
        want = model.intercepts[r] + k.sum(n, lambda i: val(k, g, r, i) * val(k, xs, j, i))
        if sq:
            want = want + k.sum(n, lambda i: k.sum(n, lambda l: val(k, h, r, i, l) * val(k, xs, j, i) * val(k, xs, j, l))) / 2
        k.check("the prediction is the quadratic polynomial of the coefficients", k.eq(one[r], want))
    else:
        model = scalar_model(k, n, "ball", sq)
        snap = snapshot(model)
        out, one = k.call(model.predict, xs), k.call(model.predict, xs[j])
        k.check("one number per point", k.shape_is(out, s))
        k.check("many points at once give the same numbers as one by one", k.eq(out[j], one))
        g, h = model.linear_terms, model.square_terms
        want = model.intercept + k.sum(n, lambda i: val(k, g, i) * val(k, xs, j, i))
        if sq:
            want = want + k.sum(n, lambda i: k.sum(n, lambda l: val(k, h, i, l) * val(k, xs, j, i) * val(k, xs, j, l))) / 2
        k.check("the prediction is the quadratic polynomial of the coefficients", k.eq(one, want))
    k.check("the points are not changed", k.same(xs, keep))
    unchanged(k, model, snap)


def val(k, a, *idx):
    """one element, without bounds checks in the specification"""
    if not k.sym:
        return a[tuple(int(i) for i in idx)]
    from pyvc.arrays import I

    return a.snap()(*[I(i) for i in idx])
