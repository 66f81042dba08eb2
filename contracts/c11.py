"""C11: aggregated models predict the aggregate of the residual models."""
import numpy as np

from contracts.c10 import val, snapshot, unchanged, vector_model
from pyvc.contract import contract

A = "tranquilo.aggregate_models:"
T = [A + "_aggregate_models_template", "tranquilo.models:_predict_scalar", "tranquilo.models:_predict_vector"]
OPT = dict(deadline=120)


def setup(k, name, square, m=None):
    n = k.int("n_params", lo=1, cap=5)
    m = k.int("n_residuals", lo=1, cap=4) if m is None else m
    kind = str(k.choice("region", ["ball", "box"]))
    vm = vector_model(k, n, m, kind, square)
    snap = snapshot(vm)
    out = k.call(k.get(A + "get_aggregator")(name), vm)
    p = k.array("point", (n,))
    k.check("the aggregate has the centre and scale of the model it was built from",
            k.land(k.eq(out.shift, vm.shift), k.eq(out.scale, vm.scale)))
    k.check("the gradient and curvature have the right shape", k.land(k.shape_is(out.linear_terms, n), k.shape_is(out.square_terms, n, n)))
    unchanged(k, vm, snap)
    return n, m, vm, out, p


@contract("C11", T + [A + "aggregator_least_squares_linear"], **OPT)
def least_squares(k):
    n, m, vm, out, p = setup(k, "least_squares_linear", False)
    y = vm.predict(p)
    k.check("the prediction is the sum of squares of the residual predictions",
            k.eq(out.predict(p), k.sum(m, lambda r: val(k, y, r) * val(k, y, r)), rtol=1e-8, atol=1e-7))


@contract("C11", T + [A + "aggregator_least_squares_linear"], **OPT)
def least_squares_ignores_second_order(k):
    """the linear aggregator uses intercepts and linear terms only"""
    n, m, vm, out, p = setup(k, "least_squares_linear", True)
    lin = vm._replace(square_terms=None).predict(p)
    k.check("the prediction is the sum of squares of the linear residual predictions",
            k.eq(out.predict(p), k.sum(m, lambda r: val(k, lin, r) * val(k, lin, r)), rtol=1e-8, atol=1e-7))


@contract("C11", T + [A + "aggregator_identity"], **OPT)
def identity(k):
    sq = bool(k.bool("second_order"))
    n, m, vm, out, p = setup(k, "identity", sq, m=1)
    k.check("the prediction is the prediction of the only residual", k.eq(out.predict(p), vm.predict(p)[0], rtol=1e-8, atol=1e-7))


@contract("C11", T + [A + "aggregator_sum"], **OPT)
def summation(k):
    n, m, vm, out, p = setup(k, "sum", True)
    y = vm.predict(p)
    k.check("the prediction is the sum of the residual predictions",
            k.eq(out.predict(p), k.sum(m, lambda r: val(k, y, r)), rtol=1e-8, atol=1e-7))


@contract("C11", T + [A + "aggregator_information_equality_linear"], **OPT)
def information_equality(k):
    n, m, vm, out, p = setup(k, "information_equality_linear", False)
    g = vm.linear_terms
    k.check("the value is the sum of the values", k.eq(out.intercept, k.sum(m, lambda r: val(k, vm.intercepts, r))))
    i, j = k.int("i", lo=0, hi=n - 1), k.int("j", lo=0, hi=n - 1)
    k.check("the gradient is the sum of the gradients", k.eq(out.linear_terms[i], k.sum(m, lambda r: val(k, g, r, i))))
    k.check("the curvature is minus half the summed outer product of scores",
            k.eq(out.square_terms[i, j], -k.sum(m, lambda r: val(k, g, r, i) * val(k, g, r, j)) / 2))


@contract("C11", [A + "get_aggregator"], prove=False, rac_n=20)
def unknown_aggregators(k):
    k.check("unknown aggregators are rejected", k.raises(ValueError, k.get(A + "get_aggregator"), "summ"))
