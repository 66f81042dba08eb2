"""C26: poisedness uses genuine Lagrange polynomials."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from pyvc.contract import contract

P = "tranquilo.poisedness:"
FEATURES, RESHAPE, EVAL = P + "_scaled_polynomial_features", P + "_reshape_coef_to_square_terms", P + "_eval_absolute_value"


def terms(n):
    return 1 + n + n * (n + 1) // 2


def phi(k, x, r, n):
    """the features of row r of x (or of the point x)"""
    v = [val(k, x, r, i) if r is not None else val(k, x, i) for i in range(n)]
    return [1.0] + v + [v[i] * v[j] * (0.5 if i == j else 1.0) for i in range(n) for j in range(i, n)]


def dot(k, a, b):
    out = 0.0
    for p, q in zip(a, b):
        out = out + p * q
    return out


@contract("C26", [FEATURES], deadline=60)
def features(k):
    n = k.choice("n_params", [1, 2, 3, 4, 5])
    s = k.int("n_samples", lo=1, cap=5)
    x = k.array("x", (s, n))
    keep = x.copy()
    out = k.call(k.get(FEATURES), x)
    r = k.int("row", lo=0, hi=s - 1)
    k.check("one row per point, one column per term", k.shape_is(out, s, terms(n)))
    for c, f in enumerate(phi(k, x, r, n)):
        k.check("intercept, parameters, then half squares and products row by row of the upper triangle", k.eq(val(k, out, r, c), f))
    k.check("the points are not changed", k.same(x, keep))


@contract("C26", [RESHAPE, EVAL, P + "_eval_neg_absolute_value", FEATURES], deadline=90)
def evaluation(k):
    n = k.choice("n_params", [1, 2, 3, 4, 5])
    if k.sym:
        k.ctx.unroll = 5
    coef = k.array("coefficients", (terms(n),))
    x = k.array("x", (n,))
    sq = k.call(k.get(RESHAPE), coef[n + 1:], n)
    k.check("square terms are symmetric", k.land(*[k.eq(val(k, sq, i, j), val(k, sq, j, i)) for i in range(n) for j in range(i)] or [True]))
    args = (x, coef[0], coef[1: n + 1], sq)
    want = dot(k, [val(k, coef, t) for t in range(terms(n))], phi(k, x, None, n))
    want = k.ite(want < 0, -want, want)
    k.check("the value of a polynomial is its coefficients times the features", k.eq(k.call(k.get(EVAL), *args), want))
    k.check("its negative is what is minimized", k.eq(k.call(k.get(P + "_eval_neg_absolute_value"), *args), -want))


# ---------------------------------------------------------------- the largest polynomial
def region_of(k, options, shape, n):
    """the optimizer searches the unit ball or the unit cube"""
    if shape == "cube":
        b = options["bounds"]
        k.check("in the unit cube", k.land(k.shape_is(b.lb, n), k.shape_is(b.ub, n), *[k.land(k.eq(val(k, b.lb, i), -1.0), k.eq(val(k, b.ub, i), 1.0)) for i in range(n)]))
        k.check("and nothing else", not options.get("constraints"))
    else:
        constraints = options.get("constraints", ())
        constraints = list(constraints) if isinstance(constraints, (list, tuple)) else [constraints]
        k.check("with one constraint", options.get("bounds") is None and len(constraints) == 1)
        c = constraints[0]
        z = k.array("z", (n,))
        r = c.fun(z)
        k.check("in the unit ball", k.land(k.eq(r * r, dot(k, [val(k, z, i) for i in range(n)], [val(k, z, i) for i in range(n)])), r >= 0, k.eq(c.lb, 0), k.eq(c.ub, 1)))


class Search:
    """minimize by contract: any point, which may depend on which polynomial is searched"""

    def __init__(self, k, n, s, shape):
        self.k, self.n, self.shape, self.s = k, n, shape, s
        self.poly = k.array("lagrange", (s, terms(n)))
        self.best = k.array("maximizers", (s, n))
        self.calls = 0
        if k.sym:
            self.crit = k.array("largest_values", (s,))

    def value(self, i):
        """the absolute value of polynomial i at its maximizer"""
        k = self.k
        if k.sym:
            return val(k, self.crit, i)  # defined where it is first needed
        return self.definition(i)

    def definition(self, i):
        k = self.k
        v = dot(k, [val(k, self.poly, i, t) for t in range(terms(self.n))], phi(k, self.best, i, self.n))
        return k.ite(v < 0, -v, v)

    def lagrange(self, sample):
        self.k.check("the polynomials of the sample", self.k.same(sample, self.sample))
        return self.poly

    def minimize(self, fun, x0, **options):
        k, n = self.k, self.n
        i = getattr(self, "ghost", None)
        if i is None:
            i = self.calls
        self.calls += 1
        k.check("the search starts in the centre", k.land(k.shape_is(x0, n), *[k.eq(val(k, x0, j), 0.0) for j in range(n)]))
        if self.calls == 1:
            region_of(k, options, self.shape, n)
        y = k.array("y", (n,))
        v = dot(k, [val(k, self.poly, i, t) for t in range(terms(n))], phi(k, y, None, n))
        k.check("the absolute value of one Lagrange polynomial is maximized", k.eq(fun(y), -k.ite(v < 0, -v, v)))
        if k.sym:
            k.assume(k.eq(val(k, self.crit, i), self.definition(i)))  # the definition of the ghost array
        return SimpleNamespace(x=self.best[i])


def poised_loops():
    import z3

    from pyvc import values as V
    from pyvc.arrays import I, SArr
    from pyvc.builtins_shim import LoopInv
    from pyvc.values import Num, num

    class Largest(LoopInv):
        def __init__(self):
            super().__init__("search", self.hv, self.iv)

        def run_for(self, it, body, names, vals):
            def at(item, *hv):
                self.k.w.ghost = item[0]
                return body(item, *hv)
            return super().run_for(it, at, names, vals)

        def hv(self, names, vals):
            k, n = self.k, self.k.w.n
            out = {"lambda_": k.real("lambda"), "idx_max": k.int("idx_max", lo=None), "argmax": k.array("argmax", (n,))}
            return {a: b for a, b in out.items() if a in names}

        def iv(self, i, v):
            k, w = self.k, self.k.w
            lam = num(v["lambda_"])
            parts = [k.forall([i], lambda j: k.land(w.value(j) <= lam)), lam >= 0]
            if isinstance(v["idx_max"], Num):
                q = v["idx_max"]
                parts.append(k.implies(lam > 0, lambda: k.land(q >= 0, q < i, k.eq(lam, w.value(q)), *[k.eq(val(k, v["argmax"], j), val(k, w.best, q, j)) for j in range(w.n)])))
            else:
                parts.append(k.land(k.eq(lam, 0.0)))
            return V.Conj(parts)

    return {P + "get_poisedness_constant:0": Largest()}


@contract("C26", [P + "get_poisedness_constant", P + "_get_minimize_options", RESHAPE, EVAL], deadline=120, loops=poised_loops,
          stubs={P + "minimize": lambda k, *a, **kw: k.w.minimize(*a, **kw), P + "_lagrange_poly_matrix": lambda k, s: k.w.lagrange(s),
                 P + "Bounds": lambda k, lb, ub: SimpleNamespace(lb=lb, ub=ub),
                 P + "NonlinearConstraint": lambda k, fun, lb, ub: SimpleNamespace(fun=fun, lb=lb, ub=ub)})
def largest(k):
    n = k.choice("n_params", [1, 2, 3, 4])
    s = k.int("n_samples", lo=1, cap=4)
    shape = k.choice("shape", ["sphere", "cube"])
    w = k.w = Search(k, n, s, shape)
    w.sample = k.array("sample", (s, n))
    keep = w.sample.copy()
    if k.sym:
        lam, arg, idx = k.call(k.get(P + "get_poisedness_constant"), w.sample, shape=shape)
    else:
        import tranquilo.poisedness as M

        old = M.minimize, M._lagrange_poly_matrix
        M.minimize, M._lagrange_poly_matrix = w.minimize, w.lagrange
        try:
            k.assume(any(w.value(i) > 1e-12 for i in range(s)))
            lam, arg, idx = k.call(k.get(P + "get_poisedness_constant"), w.sample, shape=shape)
        finally:
            M.minimize, M._lagrange_poly_matrix = old
    k.assume(lam > 0)
    k.check("the constant is the largest value of all polynomials", k.forall([s], lambda j: k.le(w.value(j), lam)))
    k.check("it belongs to a point of the sample", k.land(idx >= 0, idx < s))
    k.check("whose polynomial attains it", k.eq(lam, w.value(idx)))
    k.check("at the point returned", k.land(*[k.eq(val(k, arg, j), val(k, w.best, idx, j)) for j in range(n)]))
    k.check("the sample is not changed", k.same(keep, w.sample))


# ---------------------------------------------------------------- improving a sample
@contract("C26", [P + "improve_poisedness"], deadline=120, bounded="at most 4 rounds (any sample size and dimension)",
          stubs={P + "get_poisedness_constant": lambda k, *a, **kw: k.constant(*a, **kw)})
def improvement(k):
    n, s = k.int("n_params", lo=1, cap=3), k.int("n_samples", lo=1, cap=5)
    rounds = k.choice("maxiter", [0, 1, 2, 3, 4])
    shape = k.choice("shape", ["sphere", "cube"])
    sample = k.array("sample", (s, n))
    keep = sample.copy()
    state = [sample.copy()]
    lams = []

    def constant(sample, shape=None):
        k.check("the current sample is judged", k.same(sample, state[-1]))
        k.check("in the shape asked for", shape == shape_asked)
        lam, arg, idx = k.real("lambda", lo=1), k.array("argmax", (n,)), k.int("idx", lo=0, hi=s - 1)
        lams.append(lam)
        new = state[-1].copy()
        new[idx] = arg
        state.append(new)
        return lam, arg.copy(), idx

    shape_asked = shape
    if k.sym:
        k.constant = constant
        out, hist = k.call(k.get(P + "improve_poisedness"), sample, shape=shape, maxiter=rounds)
    else:
        import tranquilo.poisedness as M

        old = M.get_poisedness_constant
        M.get_poisedness_constant = constant
        try:
            out, hist = k.call(k.get(P + "improve_poisedness"), sample, shape=shape, maxiter=rounds)
        finally:
            M.get_poisedness_constant = old
    k.check("one constant per round", k.land(k.eq(k.len(hist), rounds), *[k.eq(a, b) for a, b in zip(hist, lams)]))
    k.check("in each round exactly the worst point is replaced, by the maximizer", k.same(out, state[-1]))
    k.check("the sample passed in is not changed", k.same(sample, keep))


@contract("C26", [P + "_lagrange_poly_matrix", FEATURES, P + "get_poisedness_constant"], prove=False, rac_n=300, rac_s=20)
def lagrange(k):
    import tranquilo.poisedness as M

    n = k.int("n_params", lo=1, cap=4)
    seed = k.int("seed", lo=0, cap=10**6)
    rng = np.random.default_rng(seed)
    t = terms(n)
    s = int(rng.choice([t, t, max(2, t - 2), n + 1, t + 3]))
    y = rng.uniform(-1, 1, size=(s, n))
    f = np.array([phi(k, y, r, n) for r in range(s)], dtype=float)
    sv = np.linalg.svd(f, compute_uv=False)
    k.assume(sv[min(s, t) - 1] > 1e-2 * sv[0])
    polys = k.call(k.get(P + "_lagrange_poly_matrix"), y.copy())
    k.check("one polynomial per point", polys.shape == (s, t))
    at = polys @ f.T
    if s <= t:
        k.check("each polynomial is one at its own point and zero at the others", np.allclose(at, np.eye(s), atol=1e-6))
    if s >= t:
        q = rng.normal(size=t)
        x = rng.uniform(-1, 1, size=(3, n))
        fx = np.array([phi(k, x, r, n) for r in range(3)])
        k.check("together they reproduce every quadratic function", np.allclose((polys @ fx.T).T @ (f @ q), fx @ q, atol=1e-6))
        k.check("and are the least-squares polynomials", np.allclose(polys, np.linalg.pinv(f).T, atol=1e-6))


# ---------------------------------------------------------------- any number of parameters
def feature_loops():
    import z3
    from contracts.triloops import position, triangle_loops

    def fill(k, arr, a, b):
        r = k.tri_row
        want = val(k, k.tri_x, r, a).v * val(k, k.tri_x, r, b).v
        return val(k, arr, position(k.tri_n, a, b), r).v == z3.If(a == b, want / 2, want)

    return triangle_loops(FEATURES, fill, start=1)


@contract("C26", [FEATURES], rac=False, loops=feature_loops, deadline=60)
def features_any_size(k):
    from contracts.triloops import even_triangle, position
    from pyvc.values import Num

    n, s = k.int("n_params", lo=1), k.int("n_samples", lo=1)
    even_triangle(k, n.v)
    x = k.array("x", (s, n))
    keep = x.copy()
    r = k.int("row", lo=0, hi=s - 1)
    k.tri_n, k.tri_row, k.tri_x = n.v, r.v, x
    out = k.call(k.get(FEATURES), x)
    i, j = k.int("i", lo=0, hi=n - 1), k.int("j", lo=0, hi=n - 1)
    k.assume(i <= j)
    p = Num(position(n.v, i.v, j.v), True)
    k.check("one row per sample", k.eq(k.len(out), s))
    k.check("one column per coefficient", k.eq(2 * out.shape[1], 2 + 2 * n + n * (n + 1)))
    k.check("the first column is the intercept", k.eq(val(k, out, r, 0), 1.0))
    k.check("then come the parameters", k.eq(val(k, out, r, 1 + i), val(k, x, r, i)))
    want = val(k, x, r, i) * val(k, x, r, j)
    k.check("then half squares and products, row by row of the upper triangle", k.eq(val(k, out, r, 1 + n + p), k.ite(k.eq(i, j), want / 2, want)))
    k.check("the points are not changed", k.same(x, keep))


def square_loops():
    import z3
    from contracts.triloops import position, triangle_loops

    def fill(k, arr, a, b):
        c = val(k, k.tri_coef, position(k.tri_n, a, b)).v
        return z3.And(val(k, arr, a, b).v == c, val(k, arr, b, a).v == c)

    return triangle_loops(RESHAPE, fill, array="mat", shift=-1)


@contract("C26", [RESHAPE], rac=False, loops=square_loops, deadline=60)
def square_terms_any_size(k):
    from contracts.triloops import even_triangle, position
    from pyvc.values import Num

    n = k.int("n_params", lo=1)
    even_triangle(k, n.v)
    coef = k.array("coefficients", (n * (n + 1) // 2,))
    keep = coef.copy()
    k.tri_n, k.tri_coef = n.v, coef
    sq = k.call(k.get(RESHAPE), coef, n)
    i, j = k.int("i", lo=0, hi=n - 1), k.int("j", lo=0, hi=n - 1)
    k.assume(i <= j)
    c = val(k, coef, Num(position(n.v, i.v, j.v), True))
    k.check("one matrix", k.shape_is(sq, n, n))
    k.check("each coefficient at its pair of parameters, in the order of the features", k.eq(val(k, sq, i, j), c))
    k.check("symmetric", k.eq(val(k, sq, j, i), c))
    k.check("the coefficients are not changed", k.same(coef, keep))


def round_loops():
    import z3

    from pyvc import values as V
    from pyvc.arrays import I
    from pyvc.builtins_shim import LoopInv
    from pyvc.seqs import SSeq, from_concrete
    from pyvc.values import Num

    class Rounds(LoopInv):
        def __init__(self):
            super().__init__("rounds", self.hv, self.iv)

        def run_for(self, it, body, names, vals):
            self.k.arr = dict(zip(names, vals)).get("sample_improved")
            return super().run_for(it, body, names, vals)

        def hv(self, names, vals):
            k = self.k
            k.call_no = None
            f, _ = k.ctx.fresh_fun("sample_improved", z3.IntSort(), z3.IntSort(), z3.RealSort())
            k.arr.set_fn(lambda i, j: Num(f(I(i), I(j)), False))
            g, _ = k.ctx.fresh_fun("lambdas", z3.IntSort(), z3.RealSort())
            return {"lambdas": SSeq(k.int("n_lambdas", lo=0), lambda i: Num(g(I(i)), False))}

        def iv(self, t, v):
            k = self.k
            k.t = t
            lam = v["lambdas"]
            if isinstance(lam, list):
                lam = from_concrete(lam) if lam else SSeq(0, lambda i: 0.0)
            return V.Conj([k.eq(k.len(lam), t), k.forall([t], lambda q: k.eq(lam.item(I(q)), val(k, k.lam, q))),
                           k.forall([k.s, k.n], lambda i, j: k.eq(val(k, k.arr, i, j), k.S(t, i, j)))])

    return {P + "improve_poisedness:0": Rounds()}


def _constant(k, sample, shape=None):
    t = k.t
    k.check("the current sample is judged", k.land(k.shape_is(sample, k.s, k.n), k.forall([k.s, k.n], lambda i, j: k.eq(val(k, sample, i, j), k.S(t, i, j)))))
    k.check("in the shape asked for", shape == k.shape)
    idx = val(k, k.idx, t)
    k.assume(idx >= 0, idx < k.s)
    # definition of the next sample
    k.assume(k.forall([k.s, k.n], lambda i, j: k.eq(k.S(t + 1, i, j), k.ite(k.eq(i, idx), val(k, k.args, t, j), k.S(t, i, j)))))
    return val(k, k.lam, t), k.args[t], idx


@contract("C26", [P + "improve_poisedness"], rac=False, deadline=60, loops=round_loops, stubs={P + "get_poisedness_constant": _constant})
def improvement_any_number_of_rounds(k):
    import z3
    from pyvc.arrays import I
    from pyvc.values import Num

    n, s, rounds = k.int("n_params", lo=1), k.int("n_samples", lo=1), k.int("maxiter", lo=0)
    k.n, k.s, k.shape = n, s, k.choice("shape", ["sphere", "cube"])
    sample = k.array("sample", (s, n))
    keep = sample.copy()
    k.lam, k.args, k.idx = k.array("lambdas", (rounds,)), k.array("argmax", (rounds, n)), k.array("idx", (rounds,), kind="i")
    f, _ = k.ctx.fresh_fun("S", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    k.S = lambda t, i, j: Num(f(I(t), I(i), I(j)), False)
    k.assume(k.forall([s, n], lambda i, j: k.eq(k.S(0, i, j), val(k, keep, i, j))))
    out, hist = k.call(k.get(P + "improve_poisedness"), sample, shape=k.shape, maxiter=rounds)
    k.check("one constant per round", k.eq(k.len(hist), rounds))
    k.check("the sample after all replacements, and nothing else changed", k.land(k.shape_is(out, s, n), k.forall([s, n], lambda i, j: k.eq(val(k, out, i, j), k.S(rounds, i, j)))))
    k.check("the sample passed in is not changed", k.same(sample, keep))
