"""C17: infinite criterion values are replaced by finite, clearly worse ones."""
import numpy as np

from pyvc.contract import contract

H = "tranquilo.handle_infinity:clip_relative"


def gen(r, shape):
    out = r.choice([0.0, 1.0, -1.0, 2.5, -3.0, 1e3], size=shape) + r.choice([0.0, 1.0]) * r.normal(size=shape)
    p = r.choice([0.0, 0.3, 0.7, 1.0])
    out = np.where(r.random(shape) < p, r.choice([np.inf, -np.inf], size=shape, p=[0.7, 0.3]), out)
    if r.random() < 0.3:
        out[:, 0] = r.choice([np.inf, -np.inf], size=shape[0])
    if r.random() < 0.3:
        out[:, 0] = np.inf
        out[r.integers(shape[0]), 0] = r.choice([0.0, -5.0, 7.0])
    return out


@contract("C17", [H], deadline=100,
          assumptions=["finite entries are of magnitude at most 1e12 (a larger level absorbs the penalty in double precision, and 1e300 is the code's sentinel)"])
def clipping(k):
    n = k.int("n_samples", lo=1, cap=5)
    m = k.int("n_residuals", lo=1, cap=4)
    y = k.array("fvecs", (n, m), ext=True, gen=gen)
    k.assume(k.forall((n, m), lambda i, j: k.implies(k.finite(y[i, j]), lambda: k.land(y[i, j] <= 1e12, y[i, j] >= -1e12))))
    out = k.call(k.get(H), y)
    k.check("the shape is kept", k.shape_is(out, n, m))
    k.check("every entry is finite", k.forall((n, m), lambda i, j: k.finite(out[i, j])))
    k.check("finite entries are left as they are",
            k.forall((n, m), lambda i, j: k.implies(k.finite(y[i, j]), lambda: k.same(out[i, j], y[i, j]))))
    k.check("plus infinity becomes larger than every finite entry of its residual",
            k.forall((n, m, n), lambda i, j, l: k.implies(k.land(k.has_kind(y[i, j], "pinf"), k.finite(y[l, j])),
                                                          lambda: out[i, j] > y[l, j])))
    k.check("minus infinity becomes smaller than every finite entry of its residual",
            k.forall((n, m, n), lambda i, j, l: k.implies(k.land(k.has_kind(y[i, j], "ninf"), k.finite(y[l, j])),
                                                          lambda: out[i, j] < y[l, j])))


@contract("C17", [H], deadline=60)
def columns_are_independent(k):
    """changing other columns does not change this column's result"""
    n = k.int("n_samples", lo=1, cap=4)
    m = k.int("n_residuals", lo=2, cap=4)
    y = k.array("fvecs", (n, m), ext=True, gen=gen)
    c = k.int("column", lo=0, hi=m - 1)
    col = y[:, c]
    f = k.get(H)
    single = k.call(f, col.reshape(-1, 1))
    full = k.call(f, y)
    k.check("each column is treated as if it were alone", k.forall((n,), lambda i: k.same(full[i, c], single[i, 0])))


@contract("C17", [H], prove=False, rac_n=150)
def input_unchanged(k):
    n, m = k.int("n_samples", lo=1, cap=5), k.int("n_residuals", lo=1, cap=4)
    y = k.array("fvecs", (n, m), ext=True, gen=gen)
    before = y.copy()
    k.call(k.get(H), y)
    k.check("the recorded values are not changed", k.same(y, before))
