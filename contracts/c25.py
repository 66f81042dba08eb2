"""C25: simulated improvement ratios use the given model as the truth."""
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

FN = "tranquilo.rho_noise:simulate_rho_noise"


def current_draw(k, calls):
    """the number of the draw that is being simulated: the ghost loop index, or the count of calls"""
    if k.sym and k.ctx.tvars:
        from pyvc.values import Num

        return Num(k.ctx.tvars[-1], True)
    return calls


class World:
    """All components by contract, each remembering what it was asked."""

    def __init__(self, k):
        self.k = k
        self.n, self.s, self.m = k.int("n_params", lo=1, cap=3), k.int("n_samples", lo=1, cap=4), k.int("n_residuals", lo=1, cap=3)
        self.draws = k.int("n_draws", lo=1, cap=4)
        self.xs = k.array("xs", (self.s, self.n))
        self.center = k.array("center", (self.n,))
        self.u, self.uc = k.array("unit_xs", (self.s, self.n)), k.array("unit_center", (self.n,))
        self.truth = k.array("truth", (self.s, self.m))
        self.cov = k.array("cov", (self.m, self.m))
        self.old = SimpleNamespace(name="old model")
        self.base = k.real("fval_at_center")
        self.fits = self.solves = 0
        d = self.draws
        self.cand = k.array("candidates", (d, self.n))
        if not k.sym:
            k.assume(not (self.cand == self.uc).all(axis=1).any())
        self.exp = k.array("expected", (d,))
        self.pred = k.array("true_values", (d,))
        self.asked_cov = None
        self.true_model = SimpleNamespace(predict=self.predict_truth)
        self.true_scalar = SimpleNamespace(predict=self.predict_scalar)
        self.region = SimpleNamespace(center=self.center, map_to_unit=self.map_to_unit)
        self.rng = SimpleNamespace(multivariate_normal=self.normal)

    def map_to_unit(self, x):
        k = self.k
        if len(x.shape) == 2:
            k.check("the sample itself is mapped", k.same(x, self.xs))
            return self.u.copy()
        k.check("the centre of the region is mapped", k.same(x, self.center))
        return self.uc.copy()

    def predict_truth(self, x):
        self.k.check("the truth is the given model at the sample", self.k.same(x, self.u))
        return self.truth.copy()

    def normal(self, mean, cov, size):
        k = self.k
        k.check("the noise is drawn once", self.asked_cov is None)
        k.check("one noise vector for every point of every draw", k.eq(size, self.draws * self.s))
        k.check("the noise has mean zero", k.land(k.shape_is(mean, self.m), k.forall([self.m], lambda j: k.eq(val(k, mean, j), 0.0))))
        self.asked_cov = cov
        self.noise = k.array("noise", (size, self.m))
        return self.noise.copy()

    def aggregator(self, vector_model):
        k = self.k
        if vector_model is self.true_model:
            return self.true_scalar
        k.check("only the true and the simulated models are aggregated", getattr(vector_model, "draw", None) is not None)
        return SimpleNamespace(of=vector_model.draw)

    def fitter(self, x, y, weights=None, region=None, old_model=None):
        k = self.k
        d = current_draw(k, self.fits)
        self.fits += 1
        k.check("each draw is fitted on the same points", k.same(x, self.xs))
        k.check("in the same region, from the same old model, without weights", region is self.region and old_model is self.old and weights is None)
        k.check("the data are the predictions of the true model", k.shape_is(y, self.s, self.m))
        k.check("plus the noise of this draw", k.forall([self.s, self.m], lambda i, j: k.eq(
            val(k, y, i, j), val(k, self.truth, i, j) + val(k, self.noise, d * self.s + i, j))))
        return SimpleNamespace(draw=d)

    def subsolver(self, model, region):
        k = self.k
        d = current_draw(k, self.solves)
        self.solves += 1
        k.check("the model of this draw is optimized in the region", k.land(k.eq(model.of, d), region is self.region))
        return SimpleNamespace(x_unit=self.cand[d], expected_improvement=val(k, self.exp, d))

    def at_center(self, x):
        k = self.k
        same = k.forall([self.n], lambda j: k.eq(val(k, x, j), val(k, self.uc, j)))
        return k.ctx.provable(same) if k.sym else same

    def predict_scalar(self, x):
        k = self.k
        if self.fits == 0 or self.at_center(x):
            k.check("the current value is the true model at the centre", k.same(x, self.uc))
            return self.base
        d = current_draw(k, self.solves - 1)
        k.check("the improvement is that at the optimum of the simulated model", k.forall([self.n], lambda j: k.eq(val(k, x, j), val(k, self.cand, d, j))))
        return val(k, self.pred, d)


@contract("C25", [FN, "tranquilo.acceptance_decision:calculate_rho"], deadline=120)
def simulation(k):
    w = World(k)
    drop = k.choice("ignore_corelation", [False, True])
    keep = w.cov.copy()
    opts = SimpleNamespace(rho_noise_n_draws=w.draws, ignore_corelation=drop)
    out = k.call(k.get(FN), w.xs, w.true_model, w.old, w.region, w.cov, w.fitter, w.aggregator, w.subsolver, w.rng, opts)
    k.check("the covariance passed in is not changed", k.same(keep, w.cov))
    c = w.asked_cov
    k.check("the noise has the given covariance", k.land(k.shape_is(c, w.m, w.m), k.forall([w.m, w.m], lambda i, j: k.lor(
        k.eq(val(k, c, i, j), val(k, w.cov, i, j)), k.land(drop, k.lnot(k.eq(i, j)), k.eq(val(k, c, i, j), 0.0))))))
    if drop:
        k.check("correlations are dropped when configured", k.forall([w.m, w.m], lambda i, j: k.lor(k.eq(i, j), k.eq(val(k, c, i, j), 0.0))))
        k.check("variances stay", k.forall([w.m], lambda i: k.eq(val(k, c, i, i), val(k, w.cov, i, i))))
    else:
        k.check("correlations stay", k.forall([w.m, w.m], lambda i, j: k.eq(val(k, c, i, j), val(k, w.cov, i, j))))
    k.check("one ratio per draw", k.shape_is(out, w.draws))
    d = k.int("draw", lo=0, hi=w.draws - 1)
    r, e = val(k, out, d), val(k, w.exp, d)
    imp = w.base - val(k, w.pred, d)
    if k.truth(k.eq(e, 0.0)) if k.sym else e == 0:
        k.check("without expected improvement the ratio is infinite with the sign of the improvement",
                k.eq(r, k.ite(imp > 0, float("inf"), -float("inf"))))
    else:
        k.check("the ratio is the true improvement over the expected improvement", k.eq(r, imp / e))


def oracle(xs, vector_model, old, region, cov, fitter, aggregator, subsolver, rng, n_draws, drop):
    """the ratios, written down independently; rng is consumed"""
    s, m = len(xs), len(cov)
    cov = np.array([[cov[i, j] if i == j or not drop else 0.0 for j in range(m)] for i in range(m)])
    truth = np.array([np.atleast_1d(vector_model.predict(region.map_to_unit(x))) for x in xs])
    scalar = aggregator(vector_model=vector_model)
    f0 = float(scalar.predict(region.map_to_unit(region.center)))
    noise = rng.multivariate_normal(np.zeros(m), cov, size=n_draws * s)
    out = []
    for d in range(n_draws):
        y = truth + noise[d * s:(d + 1) * s]
        sim = aggregator(vector_model=fitter(xs, y, weights=None, region=region, old_model=old))
        sol = subsolver(sim, region)
        gain, expected = f0 - float(scalar.predict(sol.x_unit)), sol.expected_improvement
        out.append(gain / expected if expected != 0 else (np.inf if gain > 0 else -np.inf))
    return np.array(out)


def agrees(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | np.isclose(a, b, rtol=1e-4, atol=1e-6)))


@contract("C25", [FN, "tranquilo.tranquilo:_internal_tranquilo"], prove=False, rac_n=60, rac_s=25, chunks=3)
def along_noisy_runs(k):
    import copy

    from tranquilo import tranquilo as T

    c = draw_case(k, noisy=True, faults="none")
    drop = bool(c.seed % 2)
    c.options["noise_adaptation_options"] = {**c.options["noise_adaptation_options"], "ignore_corelation": drop}
    real, inside = T.simulate_rho_noise, {}

    def monitored(**kw):
        draws = kw["options"].rho_noise_n_draws
        k.check("the configured number of draws and correlations are used", draws == c.options["noise_adaptation_options"]["rho_noise_n_draws"]
                and kw["options"].ignore_corelation == drop, c.describe)
        k.check("the data is that of the iteration", np.array_equal(kw["xs"], inside["xs"]) and kw["vector_model"] is inside["model"]
                and kw["trustregion"] is inside["region"] and kw["old_vector_model"] is inside["old"], c.describe)
        k.check("the estimated covariance is used", np.array_equal(kw["noise_cov"], inside["cov"], equal_nan=True), c.describe)
        cov = kw["noise_cov"].copy()
        k.assume(np.isfinite(cov).all())
        rng = copy.deepcopy(kw["rng"])
        out = real(**kw)
        want = oracle(kw["xs"], kw["vector_model"], kw["old_vector_model"], kw["trustregion"], cov, kw["model_fitter"],
                      kw["model_aggregator"], kw["subsolver"], rng, draws, drop)
        k.check("the ratios of the simulation", agrees(out, want), lambda: f"{out.tolist()} {want.tolist()} {c.describe()}")
        k.check("the covariance is not changed", np.array_equal(cov, kw["noise_cov"]))
        k.nontrivial = True
        return out

    def mon_fit(f, args, run):
        def g(x, y, **kw):
            out = f(x, y, **kw)
            inside.setdefault("xs", x)
            if "pending" not in inside:
                inside.update(xs=x, model=out, region=kw["region"], old=kw["old_model"])
            return out
        return g

    def mon_var(f, args, run):
        def g(**kw):
            out = f(**kw)
            if kw["model_type"] == "vector":
                inside["cov"] = out
                inside["pending"] = True
            return out
        return g

    def mon_adjust(**kw):
        inside.clear()
        return adjust(**kw)

    adjust = T.adjust_n_evals
    T.simulate_rho_noise, T.adjust_n_evals = monitored, mon_adjust
    try:
        c.run(wrap={"fit_model": mon_fit, "estimate_variance": mon_var})
    finally:
        T.simulate_rho_noise, T.adjust_n_evals = real, adjust


@contract("C25", [FN], prove=False, rac_n=200, rac_s=15)
def without_noise(k):
    from tranquilo import process_arguments as P
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region

    c = draw_case(k, noisy=True, faults="none", functype="least_squares")
    c.options.pop("model_fitter", None)
    rng = np.random.default_rng(c.seed)
    kw = dict(functype=c.functype, criterion=c.crit, x=c.x.copy(), lower_bounds=None, upper_bounds=None, **c.options)
    kw["model_fitter"] = "ols"
    args = P.process_arguments(**kw)
    fit, agg, solve = args["fit_model"], args["aggregate_model"], args["solve_subproblem"]
    n, m = len(c.x), c.m
    center, radius = rng.normal(size=n), float(rng.uniform(0.1, 2.0))
    inf = np.full(n, np.inf)
    reg = Region(center, radius, Bounds(center - 0.3 * radius, center + 0.4 * radius) if rng.random() < 0.5 else Bounds(-inf, inf))
    xs = np.array([reg.map_from_unit(u) for u in rng.uniform(-0.7, 0.7, size=((n + 1) * (n + 2), n))])
    truth = fit(xs, rng.normal(size=(len(xs), m)), weights=None, region=reg, old_model=None)
    model = agg(vector_model=truth)
    sol = solve(model, reg)
    gain = model.predict(reg.map_to_unit(reg.center)) - model.predict(sol.x_unit)
    k.assume(sol.expected_improvement > 1e-6)
    n_draws = int(rng.integers(1, 4))
    out = k.call(k.get(FN), xs, truth, None, reg, np.zeros((m, m)), fit, agg, solve, rng,
                 SimpleNamespace(rho_noise_n_draws=n_draws, ignore_corelation=bool(rng.integers(2))))
    k.check("without noise every ratio is that of the true model", out.shape == (n_draws,) and np.allclose(out, gain / sol.expected_improvement, rtol=1e-4, atol=1e-5),
            lambda: f"{out} {gain / sol.expected_improvement}")
