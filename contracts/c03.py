"""C03: a candidate is accepted exactly when it improves enough."""
from types import SimpleNamespace

import numpy as np

from contracts.common import draw_case
from pyvc.contract import contract

M = "tranquilo.acceptance_decision:"


class HistoryStandIn:
    """History as its contract (C05) describes it: fresh indices, values by index"""

    def __init__(self, k, used):
        self.k, self.added, self.requests = k, [], []
        self.next = used + k.int("n_later", lo=1, cap=9)
        self.vals = {}

    def add_xs(self, xs):
        i = self.next
        self.next = self.next + 1
        self.added.append((i, xs))
        return i

    def get_fvals(self, i):
        for j, v in self.vals.items():
            if j is i:
                return v
        raise KeyError(i)


def setup(k, n_evals=None):
    n = k.int("n", lo=1, cap=4)
    x = k.array("x", (n,))
    state = SimpleNamespace(x=x, index=k.int("index", lo=0), fval=k.real("fval"),
                            trustregion=SimpleNamespace(radius=k.pos("radius"), bounds=None))
    cx = k.array("candidate_x", (n,))
    sol = SimpleNamespace(x=cx, expected_improvement=k.real("expected_improvement", lo=0, choices=[0.0, 1.0]))
    h = HistoryStandIn(k, state.index)
    return n, state, sol, h


def post(k, res, state, cx, cidx, cval, base, expected, need, prefix=""):
    """the acceptance postcondition"""
    improve = -(cval - base)
    take = k.land(k.finite(cval), improve >= need)
    k.check(prefix + "accepted iff finite and improving by the minimum", k.iff(res.accepted, take))
    k.check(prefix + "accepted: the candidate becomes the iterate",
            k.implies(take, lambda: k.land(k.eq(res.x, cx), k.same(res.fval, cval), k.same(res.index, cidx))))
    k.check(prefix + "rejected: iterate, value and index are unchanged and the step is zero",
            k.implies(k.lnot(take), lambda: k.land(k.eq(res.x, state.x), k.same(res.fval, state.fval),
                                                   k.same(res.index, state.index), k.same(res.step_length, 0),
                                                   k.same(res.relative_step_length, 0))))


def rho_spec(k, actual, expected):
    if expected == 0:
        return np.inf if actual > 0 else -np.inf
    return actual / expected


@contract("C03", [M + "calculate_rho"])
def rho(k):
    a = k.ext("actual_improvement")
    e = k.real("expected_improvement", choices=[0.0, 1.0])
    out = k.call(k.get(M + "calculate_rho"), actual_improvement=a, expected_improvement=e)
    k.check("rho is actual over expected improvement", k.same(out, rho_spec(k, a, e)))


def _simple(k, fname, n_evals, **extra):
    n, state, sol, h = setup(k)
    need = k.real("min_improvement", choices=[0.0])
    vals = [k.ext(f"value{i}") for i in range(n_evals)]

    def criterion(info):
        h.requests.append(info)
        for i in info:
            h.vals[i] = k.np.array(vals)

    res = k.call(k.get(M + fname), subproblem_solution=sol, state=state, history=h,
                 wrapped_criterion=criterion, min_improvement=need, **extra)
    k.check("exactly the candidate is added to the history", len(h.added) == 1 and h.added[0][1] is sol.x)
    cidx = h.added[0][0]
    k.check("the candidate alone is evaluated, as often as configured",
            len(h.requests) == 1 and len(h.requests[0]) == 1 and
            all(i is cidx and v == n_evals for i, v in h.requests[0].items()))
    cval = k.np.mean(k.np.array(vals))
    post(k, res, state, sol.x, cidx, cval, state.fval, sol.expected_improvement, need)
    a = -(cval - state.fval)
    if k.finite(cval):
        k.check("the ratio is actual over expected improvement", k.same(res.rho, rho_spec(k, a, sol.expected_improvement)))
        k.check("the candidate is reported", k.land(k.eq(res.candidate_x, sol.x), k.same(res.candidate_index, cidx)))
        if res.accepted:
            k.check("the step length is the distance moved",
                    k.land(k.eq(res.step_length, k.np.linalg.norm(sol.x - state.x)),
                           k.eq(res.relative_step_length, res.step_length / state.trustregion.radius)))
    else:
        k.check("a non-finite trial value gives a ratio of minus infinity", k.same(res.rho, -np.inf))
        k.check("a non-finite trial value is never accepted", k.lnot(res.accepted))
    k.check("the number of acceptance evaluations is recorded", res.n_evals_acceptance == n_evals)


@contract("C03", [M + "_accept_classic", M + "_accept_simple", M + "_get_acceptance_result"])
def classic(k):
    _simple(k, "_accept_classic", 1)


@contract("C03", [M + "accept_naive_noisy", M + "_accept_simple", M + "_get_acceptance_result"], bounded=None, deadline=120)
def naive_noisy(k):
    _simple(k, "accept_naive_noisy", 10)


@contract("C03", [M + "accept_classic_line_search"])
def line_search_single(k):
    _simple(k, "accept_classic_line_search", 1, batch_size=1, speculative_sampling_radius_factor=0.75,
            sample_points=None, rng=None)


def _sample_sizes(k, **kw):
    return k.int("n_1", lo=0, cap=3), k.int("n_2", lo=1, cap=3)


@contract("C03", [M + "accept_noisy", M + "_get_acceptance_result"], deadline=90,
          stubs={"tranquilo.acceptance_sample_size:get_acceptance_sample_sizes": _sample_sizes},
          assumptions=["get_acceptance_sample_sizes returns integers n_1 >= 0 and n_2 >= 1 (proved under C16 for n_min >= 1)"])
def noisy(k):
    n, state, sol, h = setup(k)
    need = k.real("min_improvement", choices=[0.0])
    cur_n = k.int("existing", lo=1, cap=3)
    inf = k.ext("shared_value")
    sym = k.sym
    old = k.array("current_values", (cur_n,))
    h.vals[state.index] = old
    asked = {}

    def criterion(info):
        h.requests.append(info)
        items = list(info.items())
        k.check("the current point and the candidate are evaluated", len(items) == 2)
        for i, v in items:
            if i is state.index:
                new = k.array("new_current_values", (v,))
                h.vals[i] = k.np.hstack((old, new))
                asked["current"] = v
            else:
                cand = k.array("candidate_values", (v,))
                if k.bool("candidate_fails"):
                    cand = cand + inf * 1.0
                h.vals[i] = cand
                asked["candidate"] = v

    res = k.call(k.get(M + "accept_noisy"), subproblem_solution=sol, state=state, noise_variance=k.real("variance", lo=0),
                 history=h, wrapped_criterion=criterion, min_improvement=need, power_level=0.95, confidence_level=0.95,
                 n_min=1, n_max=5)
    k.check("exactly the candidate is added to the history", len(h.added) == 1 and h.added[0][1] is sol.x)
    cidx = h.added[0][0]
    cval = h.get_fvals(cidx).mean()
    base = h.get_fvals(state.index).mean()
    post(k, res, state, sol.x, cidx, cval, base, sol.expected_improvement, need)
    a = -(cval - base)
    if k.finite(cval):
        k.check("the ratio is actual over expected improvement", k.same(res.rho, rho_spec(k, a, sol.expected_improvement)))
    else:
        k.check("a non-finite trial value gives a ratio of minus infinity", k.same(res.rho, -np.inf))
        k.check("a non-finite trial value is never accepted", k.lnot(res.accepted))


class BatchHistory(HistoryStandIn):
    """several points added one after another; values by position"""

    def __init__(self, k, n_new, first):
        self.k, self.added, self.requests, self.vals, self.next = k, [], [], {}, first
        self.n_new, self.multi = n_new, None

    def add_xs(self, xs):
        if k_ndim(xs) == 1:
            return super().add_xs(xs)
        idx = [self.next + j for j in range(self.n_new)]
        self.multi = (idx, xs)
        return idx

    def get_x_indices_in_region(self, region):
        return self.k.np.array([])

    def get_xs(self, i):
        if self.multi is None:
            return self.k.np.zeros((0, self.dim))
        return self.multi[1][i - self.multi[0][0]]

    def get_fvals(self, i):
        if isinstance(i, list):
            return {j: self.get_fvals(j) for j in i}
        return super().get_fvals(i)


def k_ndim(x):
    return len(x.shape)


def line_search_batch_case(k, batch):
    n, state, sol, h0 = setup(k)
    need = k.real("min_improvement", choices=[0.0])
    h = BatchHistory(k, batch - 1, h0.next)
    h.dim = n
    values = {}
    new_vals = [k.ext(f"value_new{j}") for j in range(batch - 1)]
    cand = k.ext("value_candidate")

    def criterion(info):
        h.requests.append(dict(info))
        for i in info:
            if i is h.added[0][0]:
                h.vals[i] = k.np.array([cand])
            else:
                pos = [j for j, q in enumerate(h.multi[0]) if q is i]
                h.vals[i] = k.np.array([new_vals[pos[0]]])

    def sample_points(trustregion, n_points, existing_xs, rng):
        return k.array("sampled", (n_points, n))

    return n, state, sol, h, need, new_vals, cand, criterion, sample_points


def _line_search_batch(k, batch):
    n, state, sol, h, need, new_vals, cand, criterion, sample_points = line_search_batch_case(k, batch)
    from tranquilo.region import Region

    if not k.sym:
        state.trustregion = Region(center=state.x, radius=state.trustregion.radius)
    else:
        state.trustregion = SimpleNamespace(radius=state.trustregion.radius, bounds=None,
                                            _replace=lambda **kw: SimpleNamespace(**kw))
    res = k.call(k.get(M + "accept_classic_line_search"), subproblem_solution=sol, state=state, history=h,
                 speculative_sampling_radius_factor=0.75, wrapped_criterion=criterion, min_improvement=need,
                 batch_size=batch, sample_points=sample_points, rng=None)
    cidx = h.added[0][0]
    k.check("the whole batch is evaluated once each", len(h.requests) == 1 and len(h.requests[0]) == batch
            and all(v == 1 for v in h.requests[0].values()))
    # best point: the candidate unless a new point is strictly better
    bx, bv, bi = sol.x, cand, cidx
    for j in range(batch - 1):
        if new_vals[j] < bv:
            bx, bv, bi = h.multi[1][j], new_vals[j], h.multi[0][j]
    if k.finite(bv):
        take = -(bv - state.fval) >= need
        k.check("accepted iff the best point improves by the minimum", k.iff(res.accepted, take))
        if take:
            k.check("accepted: the best point becomes the iterate",
                    k.land(k.eq(res.x, bx), k.same(res.fval, bv), k.same(res.index, bi)))
        else:
            k.check("rejected: nothing changes", k.land(k.eq(res.x, state.x), k.same(res.fval, state.fval),
                                                        k.same(res.index, state.index), k.same(res.step_length, 0)))
        if k.finite(cand):
            k.check("the ratio is the trial point's actual over expected improvement",
                    k.same(res.rho, rho_spec(k, -(cand - state.fval), sol.expected_improvement)))
    else:
        k.check("a non-finite trial value is never accepted", k.lnot(res.accepted))
        k.check("a non-finite trial value gives a ratio of minus infinity", k.same(res.rho, -np.inf))
        k.check("rejected: nothing changes", k.land(k.eq(res.x, state.x), k.same(res.fval, state.fval),
                                                    k.same(res.index, state.index), k.same(res.step_length, 0)))


LS = dict(stubs={M + "_is_on_border": lambda k, *a, **kw: k.bool("on_border")})
LSF = [M + "accept_classic_line_search", M + "_get_acceptance_result", M + "_sample_on_line", M + "_generate_alpha_grid",
       M + "_clip_to_bounds", M + "_generate_speculative_sample"]


@contract("C03", LSF, bounded="batch size 2 (any dimension)", deadline=100, **LS)
def line_search_batch2(k):
    _line_search_batch(k, 2)


@contract("C03", LSF, bounded="batch size 3 (any dimension)", deadline=150, **LS)
def line_search_batch3(k):
    _line_search_batch(k, 3)


@contract("C03", LSF, bounded="batch size 4 (any dimension)", deadline=400, thorough_only=True, **LS)
def line_search_batch4(k):
    _line_search_batch(k, 4)


@contract("C03", ["tranquilo.tranquilo:_internal_tranquilo"], prove=False, rac_n=250, rac_s=25, chunks=2)
def along_runs(k):
    c = draw_case(k)
    r = c.run()
    if r.res is None:
        k.assume(False)
    need = 0.0
    st = r.res["states"]
    h = r.res["tranquilo_history"]
    for a, b in zip(st[:-1], st[1:]):
        if b.accepted:
            k.check("an accepted value is finite", np.isfinite(b.fval), c.describe)
            if not c.noisy:
                k.check("an accepted point improves", a.fval - b.fval >= need, c.describe)
            k.check("the accepted point is the reported candidate", np.array_equal(b.x, b.candidate_x) and b.index == b.candidate_index, c.describe)
            k.check("the step length is the distance moved", k.eq(b.step_length, np.linalg.norm(b.x - a.x)), c.describe)
        else:
            k.check("a rejected step changes nothing", np.array_equal(a.x, b.x) and k.same(a.fval, b.fval) and a.index == b.index and b.step_length == 0, c.describe)
