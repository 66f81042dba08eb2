"""The main loop against the contracts of its components.

`_internal_tranquilo` receives its components as arguments; here each of them is a stand-in
that promises exactly the contract proved (or assumed) for it elsewhere.  The loop is cut by
invariants on the state, so the facts hold for every number of iterations.
"""
import sys
from types import SimpleNamespace

LOOP = "tranquilo.tranquilo:_internal_tranquilo"


class Model:
    """an opaque surrogate model"""

    def __init__(self, k, n):
        self.linear_terms = k.array("gradient", (n,))


class TrustRegion:
    """center and radius; the shape is decided in region.py (C08)"""

    def __init__(self, center, radius):
        self.center, self.radius = center, radius

    def _replace(self, **kw):
        d = dict(center=self.center, radius=self.radius)
        d.update(kw)
        return TrustRegion(**d)


class Hist:
    """History as C05 describes it: X(i) is the vector stored under index i"""

    def __init__(self, d):
        self.d, k = d, d.k
        self.n_fun = 0
        self.n_xs = 1
        self.known = []  # (index, vector) pairs written in this iteration

    def new_index(self):
        i = self.n_xs
        self.n_xs = self.n_xs + 1
        return i

    def get_n_fun(self):
        return self.n_fun

    def get_n_xs(self):
        return self.n_xs

    def get_x_indices_in_region(self, region):
        self.d.searched.append(region)
        return self.d.indices("in_region")

    def get_xs(self, i):
        return self.d.k.array("model_xs", (self.d.k.len(i), self.d.n))

    def add_xs(self, xs):
        new = self.d.indices("new_indices", size=xs.shape[0])
        return new

    def get_fvecs(self, i):
        m = self.d.k.int("n_residuals", lo=1)
        return self.d.k.array("start_fvecs", (self.d.n_start(), m))

    def get_fvals(self, i):
        return self.d.start_fvals

    def get_n_evals(self, i):
        return {}

    def get_model_data(self, x_indices, average=True):
        return (self.d.k.array("data_x", (self.d.k.len(x_indices), self.d.n)),
                self.d.k.array("data_y", (self.d.k.len(x_indices), 1)))


class Drive:
    """one symbolic run"""

    sampling_rng = simulation_rng = None

    def __init__(self, k, noisy=False, post_iteration=None, at_start=None, increasing=True):
        import z3
        from pyvc import values as V

        self.k, self.noisy = k, noisy
        self.z3, self.V = z3, V
        self.post_iteration, self.at_start = post_iteration, at_start
        c = k.ctx
        self.n = k.int("n", lo=1)
        self.xfun = z3.Function("X", z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.ffun = z3.Function("F", z3.IntSort(), z3.RealSort())
        self.max_iter = k.int("max_iter", lo=0)
        self.max_eval = k.int("max_eval", lo=1)
        self.radius_options = SimpleNamespace(min_radius=k.pos("min_radius"), max_radius=k.pos("max_radius"))
        self.batch = k.int("batch_size", lo=1)
        self.target = k.int("target_sample_size", lo=1)
        self.n_evals_at_start = k.int("n_evals_at_start", lo=1)
        self.searched, self.requests, self.sampled = [], [], []
        self.disable = k.bool("disable_convergence")
        self.iterations = 0          # completed accept decisions on this path
        self.entry_fun = None
        self.x0 = k.array("x0", (self.n,))
        self.assume_x(0, self.x0)
        self.start_fvals = k.array("start_values", (self.n_start(),)) if noisy else [self.F(0)]
        self.increasing = increasing
        self.conv = []
        self.adjusted = []
        self.multiples = []
        self.stopped = False
        self.batches_kept = []
        self.more = []
        self.decisions = []

    # ghost functions -----------------------------------------------------------
    def X(self, i):
        from pyvc.arrays import I, SArr
        from pyvc.values import Num

        t = I(i)
        return SArr((self.n,), lambda j: Num(self.xfun(t, j), False), "f")

    def F(self, i):
        from pyvc.arrays import I
        from pyvc.values import Num

        return Num(self.ffun(I(i)), False)

    def is_x(self, x, i):
        return self.k.eq(x, self.X(i))

    def assume_x(self, i, x):
        self.k.assume(self.is_x(x, i))

    def n_start(self):
        return self.k.int("n_start", lo=1)

    def indices(self, name, size=None):
        k = self.k
        m = size if size is not None else k.int("n_" + name, lo=0)
        return k.array(name, (m,), kind="i")

    # components ----------------------------------------------------------------
    def evaluate(self, info):
        """C06: at least one evaluation per requested point, failures become +inf"""
        self.requests.append(info)
        if not hasattr(self, "first_request"):
            self.first_request = info.get(0)
            self.start_multiples = list(self.multiples)
        grow = self.k.int("evaluations", lo=0)
        self.hist.n_fun = self.hist.n_fun + grow

    def sample(self, trustregion, n_points, existing_xs, rng, **kw):
        self.sampled.append((trustregion, n_points))
        return self.k.array("sampled", (n_points, self.n))

    def solve(self, model, trustregion):
        k = self.k
        return SimpleNamespace(x=k.array("trial", (self.n,)), expected_improvement=k.real("expected_improvement", lo=0),
                               n_iterations=1, success=True, x_unit=k.array("trial_unit", (self.n,)), shape="sphere",
                               vc_fresh=lambda: self.solve(model, trustregion))

    def filter(self, xs, indices, state, target_size, history, n_evals_per_point):
        idx = self.indices("kept")
        self.batches_kept.append(self.k.len(idx))
        return self.k.array("kept_xs", (self.k.len(idx), self.n)), idx

    def fit(self, *data, region, old_model, weights=None):
        return Model(self.k, self.n)

    def aggregate(self, vector_model):
        return Model(self.k, self.n)

    def variance(self, trustregion, history, model_type):
        return self.k.real("variance", lo=0)

    def accept(self, subproblem_solution, state, wrapped_criterion, noise_variance, history, **kw):
        """C03: accepted -> the candidate (a new history point) with a better value"""
        k = self.k
        AR = k.get("tranquilo.acceptance_decision:AcceptanceResult")
        i = history.new_index()
        cx = k.array("candidate", (self.n,))
        self.assume_x(i, cx)
        grow = k.int("acceptance_evaluations", lo=1)
        history.n_fun = history.n_fun + grow
        acc = k.bool("accepted")
        rho = k.ext("rho")
        step = k.real("step_length", lo=0)
        ok = bool(acc)
        self.decisions.append((state, ok, i, rho, step if ok else 0.0))
        self.iterations += 1
        if ok:
            fv = k.real("new_value") if self.noisy else self.F(i)
            if not self.noisy:
                k.assume(fv <= state.fval)
            return AR(x=cx, fval=fv, index=i, rho=rho, accepted=True, step_length=step, relative_step_length=step,
                      candidate_index=i, candidate_x=cx, n_evals_acceptance=grow)
        return AR(x=state.x, fval=state.fval, index=state.index, rho=rho, accepted=False, step_length=0.0,
                  relative_step_length=0.0, candidate_index=i, candidate_x=cx, n_evals_acceptance=grow)

    def region(self):
        return TrustRegion(self.x0, self.k.pos("start_radius"))

    def history(self):
        return Hist(self)

    # running -------------------------------------------------------------------
    def run(self):
        k = self.k
        k.drive = self
        self.hist = self.history()
        conv = SimpleNamespace(disable=self.disable)
        f = k.get(LOOP)
        stag = SimpleNamespace(min_relative_step_keep=k.real("keep", lo=0), min_relative_step=k.real("min_step", lo=0),
                               sample_increment=k.int("increment", lo=1), drop=True, max_trials=k.int("max_trials", lo=1))
        return k.call(f, evaluate_criterion=self.evaluate, x=self.x0, noisy=self.noisy, conv_options=conv,
                      stop_options=SimpleNamespace(max_iter=self.max_iter, max_eval=self.max_eval, max_time=1e9),
                      radius_options=self.radius_options, noise_adaptation_options=SimpleNamespace(),
                      batch_size=self.batch, target_sample_size=self.target, stagnation_options=stag,
                      search_radius_factor=k.pos("search_radius_factor"), n_evals_per_point=k.int("n_evals_per_point", lo=1),
                      n_evals_at_start=self.n_evals_at_start,
                      trustregion=self.region(),
                      sampling_rng=self.sampling_rng, simulation_rng=self.simulation_rng, history=self.hist, sample_points=self.sample,
                      solve_subproblem=self.solve, filter_points=self.filter, fit_model=self.fit,
                      aggregate_model=self.aggregate, estimate_variance=self.variance, accept_candidate=self.accept)

    # invariants ----------------------------------------------------------------
    def state_of(self, vars):
        st = [v for v in vars.values() if type(v).__name__ == "State"]
        from pyvc.core import Unsupported

        if len(st) != 1:
            raise Unsupported("the loop state was not found")
        return st[0]

    def inv(self, it, vars):
        k, V = self.k, self.V
        s = self.state_of(vars)
        out = [self.is_x(s.x, s.index), k.eq(s.trustregion.center, s.x),
               s.trustregion.radius > 0, s.index >= 0, s.index < self.hist.n_xs]
        if not self.noisy:
            out += [k.eq(s.fval, self.F(s.index)), s.fval <= self.F(0)]
        if it is not None:
            out += [k.lor(it <= 0, self.hist.n_fun < self.max_eval), k.lor(it > 0, k.land(s.index <= 0, s.index >= 0))]
        rec = self.states_list()
        if rec:
            r = rec[-1]
            out += [k.eq(r.x, s.x), k.eq(r.fval, s.fval), k.eq(r.index, s.index),
                    self.is_x(r.candidate_x, r.candidate_index)]
        for nm, v in vars.items():
            if nm in self.entry and (self.entry[nm] is None or isinstance(self.entry[nm], (bool, str))):
                out.append(v is None if self.entry[nm] is None else (v == self.entry[nm]))
        return V.Conj([x if isinstance(x, (V.Formula, V.SB, bool)) else V.to_bool(x) for x in out])

    def states_list(self):
        """the list of records kept by the loop (found in the running frame)"""
        fr = sys._getframe(1)
        while fr is not None:
            if fr.f_code.co_name == "_internal_tranquilo":
                for v in fr.f_locals.values():
                    if type(v) is list and v and all(type(e).__name__ == "State" for e in v):
                        return v
            fr = fr.f_back
        return []

    def fresh_state(self, s):
        k = self.k
        i = k.int("index", lo=0)
        kw = dict(trustregion=TrustRegion(k.array("center", (self.n,)), k.pos("radius")), index=i,
                  x=k.array("x", (self.n,)), fval=k.real("fval"), model=Model(k, self.n), vector_model=Model(k, self.n),
                  candidate_index=k.int("candidate_index", lo=0), candidate_x=k.array("candidate_x", (self.n,)))
        kw = {a: v for a, v in kw.items() if a in s._fields}
        return s._replace(**kw)

    def havoc(self, names, vals):
        from pyvc.loader import UNDEF

        k = self.k
        self.hist.n_fun = k.int("n_fun", lo=0)
        self.hist.n_xs = k.int("n_xs", lo=1)
        rec = self.states_list()
        out = {}
        for nm, v in zip(names, vals):
            if type(v).__name__ == "State":
                out[nm] = self.fresh_state(v)
                if rec:
                    rec[:] = [self.fresh_state(v)]
            elif isinstance(v, int) and not isinstance(v, bool) or type(v).__name__ == "Num":
                out[nm] = k.int(nm, lo=1) if _isint(v) else k.real(nm)
            elif isinstance(v, (dict, tuple)) or type(v).__name__ in ("SDict", "GhostMap"):
                out[nm] = UNDEF
        return out

    def havoc_inner(self, names, vals):
        """everything computed inside the stagnation loops"""
        from pyvc.arrays import SArr
        from pyvc.loader import UNDEF
        from pyvc.values import Num

        k = self.k
        self.hist.n_fun = self.hist.n_fun + k.int("more_evaluations", lo=0)
        out = {}
        m = k.int("n_model", lo=1)
        for nm, v in zip(names, vals):
            if isinstance(v, SArr):
                out[nm] = k.array(nm, (m,) + tuple(v.dims[1:]), kind=v.k)
            elif isinstance(v, Model):
                out[nm] = Model(k, self.n)
            elif isinstance(v, Num):
                out[nm] = k.int(nm, lo=0) if v.isint else k.real(nm, lo=0)
            elif isinstance(v, int) and not isinstance(v, bool):
                out[nm] = k.int(nm, lo=0)
            elif hasattr(v, "vc_fresh"):
                out[nm] = v.vc_fresh()
            elif isinstance(v, (dict, tuple)) or type(v).__name__ in ("SDict", "GhostMap"):
                out[nm] = UNDEF  # no contract reads it before it is rebound; a read is reported as unsupported
        return out


def _isint(v):
    return isinstance(v, int) or bool(getattr(v, "isint", False))


def loops():
    from pyvc.builtins_shim import LoopInv

    class Main(LoopInv):
        def __init__(self):
            super().__init__("main loop", None, None)

        def run_for(self, it, body, names, vals):
            d = self.k.drive
            d.entry = dict(zip(names, vals))
            d.entry_state = d.state_of(d.entry)
            self.havoc = d.havoc
            self.inv = d.inv

            def wrapped(item, *hv):
                d.k.ctx.notes.append("iteration")
                d.iterations = 0
                d.requests.clear()
                d.sampled.clear()
                d.searched.clear()
                d.decisions.clear()
                d.adjusted.clear()
                d.conv.clear()
                d.item = item
                d.multiples.clear()
                d.batches_kept.clear()
                d.begin = d.state_of(dict(zip(names, hv)))
                d.begin_fun = d.hist.n_fun
                code, val, out = body(item, *hv)
                d.end = d.state_of(dict(zip(names, out)))
                d.end_vars = dict(zip(names, out))
                d.stopped = code == 1
                if d.post_iteration:
                    d.post_iteration(d)
                return code, val, out

            return super().run_for(it, wrapped, names, vals)

    class Inner(LoopInv):
        def __init__(self, label):
            super().__init__(label, None, lambda it, vars: True)

        def run_while(self, cond, body, names, vals):
            self.havoc = self.k.drive.havoc_inner
            return super().run_while(cond, body, names, vals)

    return {LOOP + ":0": Main(), LOOP + ":1": Inner("dropping loop"), LOOP + ":2": Inner("replacement loop")}


def _adjust_radius(k, radius, rho, step_length, options, n_evals_is_increased):
    """C04's contract"""
    new = k.pos("new_radius")
    k.assume(new >= options.min_radius, new <= options.max_radius)
    k.drive.adjusted.append((radius, rho, step_length, n_evals_is_increased, new))
    return new


def _converged(k, states, options):
    """C18's contract"""
    c = k.bool("criterion_met")
    k.drive.conv.append((states[-2], states[-1], c))
    if c:
        return True, "Absolute criterion change smaller than tolerance."
    return False, None


def _drop(k, xs, indices, state, n_to_drop):
    m = k.len(indices) - n_to_drop
    return k.array("remaining_xs", (m, k.drive.n)), k.array("remaining", (m,), kind="i")


def _next_multiple(k, n, base):
    q = k.int("multiple", lo=0)
    j = k.int("multiplier", lo=0)
    k.assume(q >= n, q < n + base, q == j * base)
    k.drive.multiples.append((n, base, q))
    return q


def _noise_ratios(k, **kw):
    return k.array("rho_noise", (k.int("n_draws", lo=1),))


def _adjust_n_evals(k, n_evals, **kw):
    new = k.int("new_n_evals", lo=1)
    up = new > n_evals
    k.drive.more.append(up)
    return new, up


T = "tranquilo.tranquilo:"
STUBS = {
    T + "adjust_radius": _adjust_radius,
    T + "_is_converged": _converged,
    T + "drop_worst_points": _drop,
    T + "next_multiple": _next_multiple,
    T + "simulate_rho_noise": _noise_ratios,
    T + "adjust_n_evals": _adjust_n_evals,
    T + "_get_additional_eval_info": lambda k, **kw: {},
}
ASSUME = ["the components passed to the main loop keep their contracts (C03-C06, C13, C14, C16, C18), used here as their descriptions"]
OPTS = dict(stubs=STUBS, loops=loops, rac=False, deadline=150, assumptions=ASSUME)
