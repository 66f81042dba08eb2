"""C23: compiled and reference inner solvers compute the same function."""
import contextlib
import importlib
import inspect
import io
import warnings
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.c22 import CG, FAST, GT, METHODS, REF, S, draw_problem, solver_options
from pyvc.contract import contract

MODS = {"bntr": ("bntr", "bntr_fast"), "gqtpar": ("gqtpar", "gqtpar_fast"), "cg": ("_conjugate_gradient", "_conjugate_gradient_fast"),
        "steihaug": ("_steihaug_toint", "_steihaug_toint_fast"), "trsbox": ("_trsbox", "_trsbox_fast")}
RENAMED = {"bntr": "_bntr_fast_jitted", "add_lambda_and_factorize_hessian": "_add_lambda_and_factorize_hessian", "estimate_smallest_singular_value": "_estimate_smallest_singular_value",
           "minimize_trust_cg": "minimize_trust_cg_fast", "minimize_trust_stcg": "minimize_trust_stcg_fast", "minimize_trust_trsbox": "minimize_trust_trsbox_fast",
           "gqtpar": "gqtpar_fast"}
WHOLE = ("bntr", "gqtpar")  # sequences of the blocks: rounding in one block may change the branch taken by the next


def mask(n, idx):
    out = np.zeros(n, dtype=bool)
    out[np.asarray(idx, dtype=int)] = True
    return out


def compiled_arguments(a, params):
    """arguments of the compiled function from those of the reference, by name"""
    d = dict(a)
    m = d.get("model", d.get("main_model"))
    if m is not None:
        d.setdefault("model_gradient", m.linear_terms)
        d.setdefault("model_hessian", m.square_terms)
        d.setdefault("initial_hessian", m.square_terms)
        n = len(m.linear_terms)
    else:
        vs = [v for v in a.values() if isinstance(v, np.ndarray) and v.ndim]
        n = max((len(v) for v in vs), default=0)
    b = d.get("active_bounds_info")
    if b is not None:
        fixed, low, up, idle = (np.asarray(q, dtype=int) for q in (b.fixed, b.lower, b.upper, b.inactive))
        n = max(n, len(fixed) and fixed.max() + 1, len(low) and low.max() + 1, len(up) and up.max() + 1, len(idle) and idle.max() + 1)
        d["active_lower_bounds"], d["active_upper_bounds"] = mask(n, low), mask(n, up)
        d["active_fixed_bounds"] = mask(n, fixed) & ~d["active_lower_bounds"] & ~d["active_upper_bounds"]
        d["inactive_bounds"] = mask(n, idle)
    for o in ("options", "options_update_radius"):
        if isinstance(d.get(o), dict):
            for q, v in d[o].items():
                d.setdefault(q, v)
    for o in ("gradient_inactive", "conjugate_gradient_step_inactive"):
        if o in d:
            d.setdefault(o.replace("inactive", "inactive_bounds"), d[o])
    h = d.get("hessian_info")
    if h is not None:
        d["hessian_plus_lambda"], d["hessian_upper_triangular"], d["hessian_already_factorized"] = h.hessian_plus_lambda, h.upper_triangular, h.already_factorized
    lam = d.get("lambdas")
    if lam is not None:
        d["lambda_candidate"], d["lambda_lower_bound"], d["lambda_upper_bound"] = lam.candidate, lam.lower_bound, lam.upper_bound
    if "index_bound_active" in d and d["index_bound_active"] is None:
        d["index_bound_active"] = -1
    for t in ("raw_distance", "total_reduction"):
        if t in d and ("raw_distance" in params or "total_reduction" in params):
            d[t] = np.atleast_1d(np.asarray(d[t], dtype=float))
    if isinstance(d.get("reason"), str):
        d["reason"] = 0
    if isinstance(d.get("convergence_reason"), str):
        d["convergence_reason"] = 0
    if "U" in d:
        d.setdefault("upper_triangular", d["U"])
    need = [p for p in params.values() if p.default is p.empty]
    if any(p.name not in d or d[p.name] is None and p.name not in ("niter", "maxiter") for p in need):
        return None
    return {p: copy(d[p]) for p in params if p in d}


def copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {a: copy(b) for a, b in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(*[copy(q) for q in v]) if hasattr(v, "_fields") else type(v)(copy(q) for q in v)
    return v


def flat_reference(fn, r, n):
    """the reference's result in the form of the compiled one: list of values; None: not compared"""
    name = type(r).__name__
    if name == "ActiveBounds":
        low, up = mask(n, r.lower), mask(n, r.upper)
        return [low, up, mask(n, r.fixed) & ~low & ~up, mask(n, r.inactive)]
    if name == "HessianInfo":
        return [r.hessian_plus_lambda] + ([r.upper_triangular] if "factorize" in fn else [r.already_factorized])
    if name == "DampingFactors":
        return [r.candidate, r.lower_bound] + ([r.upper_bound] if "unsuccessful" not in fn else [])
    if isinstance(r, dict):
        return [r["x"], r["criterion"]]
    if isinstance(r, tuple):
        return [v for q in r for v in flat_reference(fn, q, n)]
    return [r]


def flat(r):
    if isinstance(r, dict):
        return [r["x"], r["criterion"]]
    if isinstance(r, (tuple, list)):
        return [v for q in r for v in flat(q)]
    return [r]


def differ(a, b, rtol=1e-6, atol=1e-8):
    """None: the same; else what differs"""
    if len(a) != len(b):
        return "another number of results"
    for i, (p, q) in enumerate(zip(a, b)):
        if p is None or isinstance(p, str) or isinstance(q, str):
            if p is None and isinstance(q, np.ndarray) and q.size or p is None and isinstance(q, (int, np.integer)) and q >= 0 and not isinstance(q, bool) and i == 1:
                return f"result {i}: None and {q}"
            continue  # texts and codes are compared where they are listed
        p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)
        if p.size == 1 and q.size == 1:
            p, q = p.reshape(()), q.reshape(())
        if p.shape != q.shape:
            return f"result {i}: shapes {p.shape} and {q.shape}"
        size = max(1e-300, float(np.max(np.abs(p[np.isfinite(p)]), initial=0)))
        if not np.allclose(p, q, rtol=rtol, atol=min(atol, 1e-6 * size) if size < 1 else atol * size, equal_nan=True):
            return f"result {i}: {p} and {q}"
    return None


def run(f, kw):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return f(**kw), None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


def shake(v, rng):
    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
        if v.ndim == 2 and v.shape[0] == v.shape[1] and np.array_equal(v, v.T):
            e = rng.normal(size=v.shape)
            return v * (1 + 1e-11 * (e + e.T))
        return v * (1 + 1e-11 * rng.normal(size=v.shape)) + 1e-13 * rng.normal(size=v.shape) * np.max(np.abs(v), initial=0)
    if isinstance(v, (float, np.floating)) and np.isfinite(v):
        return v * (1 + 1e-11 * rng.normal())
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[shake(q, rng) for q in v])
    return v


def sensitive(fn, f, kw, n, rng):
    """the reference itself changes by more than the tolerance if its arguments change by a rounding error"""
    base = None
    for _ in range(12):
        r, e = run(f, {a: shake(copy(v), rng) for a, v in kw.items()})
        r = None if e else flat_reference(fn, r, n)
        if base is None:
            base = (r, e)
        elif (e is None) != (base[1] is None) or e is None and differ(base[0], r, rtol=1e-7, atol=1e-9):
            return True
    return False


class Trace:
    """the calls of the reference's building blocks"""

    def __init__(self, pairs, limit):
        self.pairs, self.limit, self.calls, self.saved = pairs, limit, [], []

    def __enter__(self):
        for name, (mod, orig, fast) in self.pairs.items():
            users = [m for m in REFERENCE() if getattr(m, name, None) is orig]
            for m in users:
                self.saved.append((m, name, orig))
                setattr(m, name, self.wrap(name, orig))
        return self

    def wrap(self, name, orig):
        sig = inspect.signature(orig)

        def f(*a, **kw):
            try:
                b = sig.bind(*a, **kw)
                b.apply_defaults()
                args = {p: copy(v) for p, v in b.arguments.items()}
            except TypeError:
                args = None
            r = orig(*a, **kw)
            if args is not None and len([c for c in self.calls if c[0] == name]) < self.limit:
                self.calls.append((name, args, copy(r)))
            return r
        return f

    def __exit__(self, *exc):
        for m, name, orig in self.saved:
            setattr(m, name, orig)


def REFERENCE():
    return [importlib.import_module(S + a) for a, _ in MODS.values()]


def find_pairs():
    out = {}
    for ref, fast in MODS.values():
        r, f = importlib.import_module(S + ref), importlib.import_module(S + fast)
        for name, fn in vars(r).items():
            if inspect.isfunction(fn) and fn.__module__ in (r.__name__, "scipy.optimize._trustregion_exact") and not hasattr(fn, "__numpy__"):
                other = getattr(f, RENAMED.get(name, name), None)
                if other is not None and other is not fn and callable(other):
                    out[name] = (r, fn, other)
    return out


NAMES = {"bntr": ["_take_preliminary_gradient_descent_step_and_check_for_solution", "_compute_conjugate_gradient_step", "_compute_predicted_reduction_from_conjugate_gradient_step",
                  "_perform_gradient_descent_step", "_update_trustregion_radius_conjugate_gradient", "_get_information_on_active_bounds",
                  "_find_hessian_submatrix_where_bounds_inactive", "_check_for_convergence", "_apply_bounds_to_x_candidate", "_project_gradient_onto_feasible_set",
                  "_apply_bounds_to_conjugate_gradient_step", "_update_trustregion_radius_and_gradient_descent", "_get_fischer_burmeister_direction_vector",
                  "_get_fischer_burmeister_scalar", "_evaluate_model_criterion"],
         "gqtpar": ["_get_initial_guess_for_lambdas", "_find_new_candidate_and_update_parameters", "_check_for_interior_convergence_and_update",
                    "_update_lambdas_when_factorization_unsuccessful", "_get_new_lambda_candidate", "_compute_gershgorin_bounds", "_compute_newton_step",
                    "_update_candidate_and_parameters_when_candidate_within_trustregion", "_compute_smallest_step_len_for_candidate_vector",
                    "_compute_terms_to_make_leading_submatrix_singular"],
         "_conjugate_gradient": ["_update_vectors_for_next_iteration", "_get_distance_to_trustregion_boundary"],
         "_steihaug_toint": ["_update_candidate_vector_and_iteration_number", "_take_step_to_trustregion_boundary", "_check_convergence"],
         "_trsbox": ["_perform_alternative_trustregion_step", "_apply_bounds_to_candidate_vector", "_take_unconstrained_step_up_to_boundary", "_update_candidate_vectors_and_reduction",
                     "_take_constrained_step_up_to_boundary", "_calc_upper_bound_on_tangent", "_calc_greatest_criterion_reduction", "_update_candidate_vectors_and_reduction_alt_step",
                     "_compute_new_search_direction_and_norm", "_calc_new_reduction", "_update_tangent"]}
BLOCKS = [S + m + ":" + f for m, fs in NAMES.items() for f in fs] + [S + m + "_fast:" + f for m, fs in NAMES.items() for f in fs]
BLOCKS += [S + "gqtpar:add_lambda_and_factorize_hessian", S + "gqtpar_fast:_add_lambda_and_factorize_hessian", S + "gqtpar_fast:_estimate_smallest_singular_value"]
CGS = [S + "_conjugate_gradient:minimize_trust_cg", S + "_conjugate_gradient_fast:minimize_trust_cg_fast", S + "_steihaug_toint:minimize_trust_stcg",
       S + "_steihaug_toint_fast:minimize_trust_stcg_fast", S + "_trsbox:minimize_trust_trsbox", S + "_trsbox_fast:minimize_trust_trsbox_fast"]
SOLVERS = [S + "bntr:bntr", S + "bntr_fast:bntr_fast", S + "bntr_fast:_bntr_fast_jitted", S + "gqtpar:gqtpar", S + "gqtpar_fast:gqtpar_fast"]


COUNT = {}  # how often each pair was compared


def compare(k, name, pair, args, result, rng):
    mod, ref, fast = pair
    params = inspect.signature(fast).parameters
    kw = compiled_arguments(args, params)
    if kw is None:
        return False
    sizes = [len(v) for v in args.values() if isinstance(v, np.ndarray) and v.ndim]
    m = args.get("model", args.get("main_model"))
    n = len(m.linear_terms) if m is not None else max(sizes, default=0)
    got, err = run(fast, kw)
    want = flat_reference(name, result, n)
    have = None if err else flat(got)
    if have is not None and name == "_check_for_convergence":
        k_codes = {"Norm of the gradient is": 1, "Norm of the gradient relative": 2, "Norm of the gradient divided": (3, 4), "Criterion value is": 5, "Maximum number": 6}
        for text, code in k_codes.items():
            if isinstance(want[1], str) and want[1].startswith(text):
                want[1], have[1] = True, have[1] in (code if isinstance(code, tuple) else (code,))
    if have is not None and name in ("_take_constrained_step_up_to_boundary",) and want[1] is None:
        want[1] = -1
    if have is not None and name == "_calc_upper_bound_on_tangent":
        for i in (1, 3):
            want[i] = np.zeros(0) if want[i] is None else np.array([want[i]])
    bad = err if err else differ(want, have)
    if bad and sensitive(name, ref, args, n, rng):
        return False
    k.check(f"the compiled {name} returns what the reference returns", not bad, "" if not bad else f"{bad} for {args}"[:600])
    return True


def problems(k):
    from tranquilo.models import ScalarModel

    rng, n, g, h, lo, up, x = draw_problem(int(k.int("seed", lo=0, cap=10 ** 6)))
    if rng.random() < 0.7:  # problems of ordinary size
        g, h = rng.normal(size=n), rng.normal(size=(n, n)) * rng.choice([0.3, 1.0, 3.0])
        h = h @ h.T if rng.random() < 0.3 else (h + h.T) / 2
        if rng.random() < 0.3:
            h = h - rng.random() * 3 * np.eye(n)
    if rng.random() < 0.3:
        x = np.where(rng.random(n) < 0.5, lo, up)
    return rng, n, g, h, lo, up, x, ScalarModel(intercept=0.0, linear_terms=g, square_terms=h)


@contract("C23", BLOCKS + CGS + SOLVERS, prove=False, rac_n=600, rac_s=120)
def building_blocks_on_runs(k):
    """every call of a building block in a run of the reference solver is repeated with the compiled one"""
    rng, n, g, h, lo, up, x, m = problems(k)
    pairs = find_pairs()
    which = str(k.choice("solver", ["bntr", "gqtpar", "cg", "steihaug", "trsbox"]))
    r = {a: importlib.import_module(S + b) for a, (b, _) in MODS.items()}
    with Trace({a: b for a, b in pairs.items() if a not in WHOLE}, 6) as t:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                if which == "bntr":
                    opts = solver_options(k, str(k.choice("method", METHODS)))
                    r["bntr"].bntr(m, lower_bounds=lo.copy(), upper_bounds=up.copy(), x_candidate=x.copy(), **opts)
                elif which == "gqtpar":
                    r["gqtpar"].gqtpar(m, x_candidate=np.zeros(n))
                elif which == "cg":
                    r["cg"].minimize_trust_cg(g.copy(), h.copy(), float(rng.choice([0.1, 1.0, 10.0])), gtol_abs=1e-8, gtol_rel=1e-6)
                elif which == "steihaug":
                    r["steihaug"].minimize_trust_stcg(g.copy(), h.copy(), float(rng.choice([0.1, 1.0, 10.0])))
                else:
                    r["trsbox"].minimize_trust_trsbox(g.copy(), h.copy(), float(rng.choice([0.1, 1.0, 10.0])), lower_bounds=np.minimum(lo, -0.01), upper_bounds=np.maximum(up, 0.01))
            except Exception:
                pass  # a failing reference: whatever it called before is compared
    for name, args, result in t.calls:
        COUNT[name] = COUNT.get(name, 0) + compare(k, name, pairs[name], args, result, rng)


@contract("C23", SOLVERS + CGS, prove=False, rac_n=400, rac_s=60)
def whole_solvers(k):
    rng, n, g, h, lo, up, x, m = problems(k)
    which = str(k.choice("solver", ["bntr", "gqtpar"]))
    ref, fast = (importlib.import_module(S + q) for q in MODS[which])
    if which == "bntr":
        args = dict(model=m, lower_bounds=lo, upper_bounds=up, x_candidate=x, **solver_options(k, str(k.choice("method", METHODS))))
        f, c = ref.bntr, fast.bntr_fast
    else:
        args = dict(model=m, x_candidate=np.zeros(n))
        f, c = ref.gqtpar, fast.gqtpar_fast
    a, ea = run(f, {p: copy(v) for p, v in args.items()})
    b, eb = run(c, {p: copy(v) for p, v in args.items()})
    if ea or eb:
        bad = None if (ea and eb) else f"{ea} and {eb}"
    else:
        bad = differ([a["x"]], [b["x"]], rtol=1e-5, atol=1e-6)
        if bad and abs(a["criterion"] - b["criterion"]) <= 1e-9 * (1 + abs(a["criterion"])):
            return  # two equally good solutions
    if bad and sensitive("whole", f, args, n, rng):
        return
    if bad and which == "bntr" and borderline(f, ref, args):
        return
    k.check(f"{which}_fast returns the solution of {which}", not bad, f"{bad} {g.tolist()} {h.tolist()}"[:600] if bad else "")


def borderline(f, ref, args):
    """a step lies on the boundary of the ball up to rounding: the solver asks whether its norm equals the radius exactly"""
    hit = []
    orig = ref._update_trustregion_radius_conjugate_gradient
    sig = inspect.signature(orig)

    def watch(*a, **kw):
        b = sig.bind(*a, **kw).arguments
        p, q = b.get("x_norm_cg"), b.get("trustregion_radius")
        if p is not None and q is not None and abs(p - q) <= 1e-6 * q:
            hit.append(1)
        return orig(*a, **kw)

    ref._update_trustregion_radius_conjugate_gradient = watch
    try:
        run(f, {p: copy(v) for p, v in args.items()})
    finally:
        ref._update_trustregion_radius_conjugate_gradient = orig
    return bool(hit)


# ------------------------------------------------------------------ proofs, pair by pair
def both(k, module, name, fast_name=None):
    ref, fast = MODS[module]
    return k.get(S + ref + ":" + name), k.get(S + fast + ":" + (fast_name or name))


def keys(module, *names):
    ref, fast = MODS[module]
    return [S + ref + ":" + n for n in names] + [S + fast + ":" + n for n in names]


RADIUS = dict(min_radius=1e-10, max_radius=1e10, eta1=1.0e-4, eta2=0.25, eta3=0.50, eta4=0.90, alpha1=0.25, alpha2=0.50, alpha3=1.00, alpha4=2.00, alpha5=4.00)
DESCENT = dict(theta=0.25, mu1=0.35, mu2=0.50, gamma1=0.0625, gamma2=0.5, gamma3=2.0, gamma4=5.0)


@contract("C23", keys("bntr", "_update_trustregion_radius_conjugate_gradient"), deadline=60)
def radius_update(k):
    ref, fast = both(k, "bntr", "_update_trustregion_radius_conjugate_gradient")
    f, p, a = k.real("f_candidate"), k.ext("predicted", nan=True), k.ext("actual", nan=True)
    x, r = k.real("x_norm", lo=0), k.real("radius", lo=0)
    k.assume(k.lor(k.has_kind(p, "nan"), k.lnot(k.eq(p, 0.0))))
    one, two = k.call(ref, f, p, a, x, r, {**RADIUS, "default_radius": 100.0}), k.call(fast, f, p, a, x, r, **RADIUS)
    k.check("the same radius", k.eq(one[0], two[0]))
    k.check("the same decision", k.iff(one[1], two[1]))


@contract("C23", keys("bntr", "_update_trustregion_radius_and_gradient_descent"), deadline=60, assumptions=["the quotients of the radius update have denominators that are not zero"])
def descent_radius_update(k):
    ref, fast = both(k, "bntr", "_update_trustregion_radius_and_gradient_descent")
    r, lower, p, a, g = k.pos("radius"), k.real("radius_lower_bound", lo=0), k.real("predicted"), k.real("actual"), k.pos("gradient_norm")
    t = DESCENT["theta"] * g * r
    k.assume(k.lnot(k.eq(p, 0.0)), k.lnot(k.eq(t + 0.75 * p - a, 0.0)), k.lnot(k.eq(t - 1.25 * p + a, 0.0)))
    one, two = k.call(ref, r, lower, p, a, g, DESCENT), k.call(fast, r, lower, p, a, g, **DESCENT)
    k.check("the same radius", k.eq(one[0], two[0]))
    k.check("the same lower bound", k.eq(one[1], two[1]))


@contract("C23", keys("bntr", "_get_fischer_burmeister_scalar") + keys("gqtpar", "_get_new_lambda_candidate") + keys("trsbox", "_calc_new_reduction", "_update_tangent"), deadline=60)
def scalar_blocks(k):
    a, b = k.real("a"), k.real("b")
    which = k.choice("block", ["fischer", "lambda", "reduction", "tangent"])
    if which == "fischer":
        ref, fast = both(k, "bntr", "_get_fischer_burmeister_scalar")
        args = (a, b)
    elif which == "lambda":
        ref, fast = both(k, "gqtpar", "_get_new_lambda_candidate")
        args = (a, b)
    elif which == "reduction":
        ref, fast = both(k, "trsbox", "_calc_new_reduction")
        args = (a, b, *[k.real(f"q{i}") for i in range(5)])
    else:
        ref, fast = both(k, "trsbox", "_update_tangent")
        q = [k.real(f"q{i}") for i in range(3)]
        k.assume(k.lnot(k.eq(2.0 * q[2] - q[1] - q[0], 0.0)))
        args = (k.int("index", lo=0), a, k.int("n_angles", lo=1), q[0], q[1], q[2])
    k.check("the same value", k.eq(k.call(ref, *args), k.call(fast, *args)))


@contract("C23", keys("gqtpar", "_compute_newton_step"), deadline=60)
def newton_step(k):
    ref, fast = both(k, "gqtpar", "_compute_newton_step")
    lam, p, w = k.real("lambda"), k.pos("p_norm"), k.pos("w_norm")
    D = k.get(S + "gqtpar:DampingFactors")
    k.check("the same step", k.eq(k.call(ref, D(candidate=lam, lower_bound=0.0, upper_bound=1.0), p, w), k.call(fast, lam, p, w)))


@contract("C23", keys("bntr", "_evaluate_model_criterion"), deadline=60)
def model_values(k):
    ref, fast = both(k, "bntr", "_evaluate_model_criterion")
    n = k.int("n", lo=0, cap=5)
    x, g, h = k.array("x", (n,)), k.array("gradient", (n,)), k.array("hessian", (n, n))
    k.check("the same value", k.eq(k.call(ref, x, g, h), k.call(fast, x, g, h), rtol=1e-7, atol=1e-7))


@contract("C23", keys("bntr", "_check_for_convergence"), deadline=90, stubs={S + m + ":_get_fischer_burmeister_direction_vector": lambda k, *a: k.direction for m in ("bntr", "bntr_fast")}, rac=False)
def convergence_checks(k):
    ref, fast = both(k, "bntr", "_check_for_convergence")
    n = k.int("n", lo=1)
    k.direction = k.array("direction", (n,))
    x, lo, up, g, gc = [k.array(q, (n,)) for q in ("x", "lower", "upper", "gradient", "gradient_candidate")]
    f, done = k.real("f"), k.bool("converged")
    niter, maxiter = (k.int("niter"), k.int("maxiter")) if k.bool("main_loop") else (None, None)
    tol = dict(gtol_abs=k.real("gtol_abs", lo=0), gtol_rel=k.real("gtol_rel", lo=0), gtol_scaled=k.real("gtol_scaled", lo=0))
    one = k.call(ref, x, f, gc, SimpleNamespace(linear_terms=g, square_terms=None), lo, up, done, "Continue iterating.", niter, maxiter=maxiter, **tol)
    two = k.call(fast, x, f, gc, g, lo, up, done, 0, niter, maxiter, **tol)
    k.check("the same decision", k.iff(one[0], two[0]))
    codes = {"Norm of the gradient is": (1,), "Norm of the gradient relative": (2,), "Norm of the gradient divided": (3, 4), "Criterion value is": (5,), "Maximum number": (6,), "Continue": (0,)}
    k.check("for the same reason", any(one[1].startswith(t) and two[1] in c for t, c in codes.items()))


@contract("C23", keys("steihaug", "_update_candidate_vector_and_iteration_number", "_take_step_to_trustregion_boundary", "_check_convergence"), deadline=60)
def steihaug_blocks(k):
    n = k.int("n", lo=1, cap=5)
    x, p = k.array("x", (n,)), k.array("p", (n,))
    which = k.choice("block", ["boundary", "convergence"])
    if which == "boundary":
        ref, fast = both(k, "steihaug", "_take_step_to_trustregion_boundary")
        dp, rsq, nd = k.real("dp"), k.pos("radius_sq"), k.real("norm_d", lo=0)
        npp = k.pos("norm_p")
        k.assume(nd <= rsq)
        args = (x, p, dp, rsq, nd, npp)
        one, two = k.call(ref, *[a.copy() if hasattr(a, "shape") else a for a in args]), k.call(fast, *args)
        k.check("the same point", k.eq(one, two))
    else:
        ref, fast = both(k, "steihaug", "_check_convergence")
        import inspect as I
        args = [k.real(f"q{i}") for i in range(len(I.signature(ref).parameters))]
        one, two = k.call(ref, *args), k.call(fast, *args)
        one, two = (one if isinstance(one, tuple) else (one,)), (two if isinstance(two, tuple) else (two,))
        k.check("the same decision", k.iff(one[0], two[0]))
        k.check("the same numbers", len(one) == len(two))


@contract("C23", keys("trsbox", "_take_unconstrained_step_up_to_boundary", "_compute_new_search_direction_and_norm"), deadline=60)
def trsbox_steps(k):
    ref, fast = both(k, "trsbox", "_take_unconstrained_step_up_to_boundary")
    d, gs, gp, gx, gh = k.pos("raw_distance"), k.pos("gradient_sumsq"), k.pos("gradient_projected_sumsq"), k.real("g_x"), k.real("g_hess_g")
    one = k.call(ref, d, gs, gp, gx, gh)
    two = k.call(fast, k.np.array([d]), gs, gp, gx, gh)
    k.check("the same step", k.eq(one[0], two[0]))
    k.check("the same distance", k.eq(one[1], val(k, two[1], 0) if hasattr(two[1], "shape") and len(two[1].shape) else two[1]))


@contract("C23", keys("trsbox", "_update_candidate_vectors_and_reduction"), deadline=60)
def trsbox_update(k):
    ref, fast = both(k, "trsbox", "_update_candidate_vectors_and_reduction")
    n = k.int("n", lo=1, cap=5)
    if k.sym:
        k.ctx.match_masks, k.ctx.match_masks_by_logic = [], True
    x, b, gc, gp, hg = k.array("x", (n,)), k.array("x_bounded", (n,), gen=lambda g, s: g.choice([-1.0, 0.0, 1.0], size=s)), k.array("gradient", (n,)), k.array("direction", (n,)), k.array("hess_g", (n,))
    step, total, curve, index = k.pos("step_len"), k.real("total", lo=0), k.real("curve_min"), k.int("index", lo=-1, hi=5)
    ps, gs, ghg = k.pos("projected_sumsq"), k.pos("sumsq"), k.real("g_hess_g")
    none = k.truth(index == -1)
    one = k.call(ref, x, b, gc, gp, step, total, curve, None if none else index, ps, gs, ghg, hg)
    two = k.call(fast, x, b, gc, gp, step, k.np.array([total]), curve, index, ps, gs, ghg, hg)
    for i, nm in enumerate(["point", "gradient", "reduction", "total", "curvature", "squared gradient", "old squared gradient"]):
        p, q = one[i], two[i]
        if nm == "total":
            p, q = (val(k, v, 0) if hasattr(v, "shape") and len(v.shape) else v for v in (p, q))
        k.check(f"the same {nm}", k.eq(p, q, rtol=1e-7, atol=1e-7))


def active(k, n):
    """which bounds are active: masks for the compiled functions, positions for the reference"""
    if k.sym:
        k.ctx.match_masks, k.ctx.match_masks_by_logic = [], True
    state = k.array("state", (n,), kind="i", gen=lambda g, s: g.integers(0, 4, size=s))  # 0 inactive, 1 lower, 2 upper, 3 fixed
    low, up, fix = state == 1, state == 2, state == 3
    act = low | up | fix
    where = lambda m: k.np.where(m)[0]
    A = k.get(REF + "ActiveBounds")
    return A(lower=where(low), upper=where(up), fixed=where(fix), active=where(act), inactive=where(~act)), low, up, fix, ~act


@contract("C23", keys("bntr", "_project_gradient_onto_feasible_set", "_find_hessian_submatrix_where_bounds_inactive"), deadline=60)
def projections(k):
    n = k.int("n", lo=1, cap=5)
    block = k.choice("block", ["gradient", "hessian"])
    info, low, up, fix, idle = active(k, n)
    if block == "gradient":
        ref, fast = both(k, "bntr", "_project_gradient_onto_feasible_set")
        g = k.array("gradient", (n,))
        k.check("the same gradient", k.same(k.call(ref, g.copy(), info), k.call(fast, g, idle)))
    else:
        ref, fast = both(k, "bntr", "_find_hessian_submatrix_where_bounds_inactive")
        h = k.array("hessian", (n, n))
        k.check("the same matrix", k.same(k.call(ref, SimpleNamespace(square_terms=h.copy()), info), k.call(fast, h, idle)))


@contract("C23", keys("bntr", "_apply_bounds_to_conjugate_gradient_step"), deadline=60)
def bounded_steps(k):
    ref, fast = both(k, "bntr", "_apply_bounds_to_conjugate_gradient_step")
    n = k.int("n", lo=1, cap=5)
    info, low, up, fix, idle = active(k, n)
    x, lo, upp = (k.array(q, (n,)) for q in ("x", "lower", "upper"))
    full = k.array("step", (n,))
    step = full[idle]
    one = k.call(ref, step.copy(), x.copy(), lo, upp, info)
    two = k.call(fast, step, x, lo, upp, idle, low, up, fix)
    k.check("the same step", k.same(one, two))


@contract("C23", keys("bntr", "_compute_predicted_reduction_from_conjugate_gradient_step"), deadline=60)
def predicted_reductions(k):
    ref, fast = both(k, "bntr", "_compute_predicted_reduction_from_conjugate_gradient_step")
    n = k.int("n", lo=1, cap=5)
    info, low, up, fix, idle = active(k, n)
    step, g, h0 = k.array("step", (n,)), k.array("gradient", (n,)), k.array("hessian", (n, n))
    h = h0[:, idle][idle, :]
    other = k.array("step_inactive", (n,))[idle]
    if k.sym and not k.truth(k.eq(info.active.shape[0], 0)):
        k.check("there is an active bound", ~idle[info.active[0]])
    one = k.call(ref, step, other, g, g[idle], h, info)
    two = k.call(fast, step, other, g, g[idle], h, idle)
    k.check("the same prediction", k.eq(one, two, rtol=1e-7, atol=1e-7))


def mask_loops():
    import z3

    from pyvc.builtins_shim import LoopInv
    from pyvc.arrays import I
    from pyvc.values import mkb

    class Masks(LoopInv):
        """the entries looked at so far carry the reference's conditions, the others their initial value"""

        def __init__(self):
            super().__init__("entries", self.hv, self.iv)

        def hv(self, names, vals):
            c = self.k.ctx
            for nm, v in zip(names, vals):
                if nm in ("active_upper", "active_lower", "active_fixed", "inactive"):
                    f, _ = c.fresh_fun(nm, z3.IntSort(), z3.BoolSort())
                    v.set_fn(lambda i, f=f: mkb(f(I(i))))
            return {}

        def iv(self, i, v):
            k = self.k
            x, g, lo, up, n = k.a_all
            def entry(j):
                low, high, fix = k.land(x[j] <= lo[j], g[j] > 0), k.land(x[j] >= up[j], g[j] < 0), k.eq(lo[j], up[j])
                want = dict(active_lower=low, active_upper=k.land(high, k.lnot(low)), active_fixed=k.land(fix, k.lnot(low), k.lnot(high)),
                            inactive=k.lnot(k.lor(low, high, fix)))
                return k.land(*[k.iff(v[nm][j], k.ite(j < i, w, nm == "inactive")) for nm, w in want.items()])
            return k.forall([n], entry)

    return {FAST + "_get_information_on_active_bounds:0": Masks()}


@contract("C23", keys("bntr", "_get_information_on_active_bounds"), loops=mask_loops, deadline=90)
def active_sets(k):
    ref, fast = both(k, "bntr", "_get_information_on_active_bounds")
    n = k.int("n", lo=1, cap=5)
    if k.sym:
        k.ctx.match_masks, k.ctx.match_masks_by_logic = [], True
    lo = k.array("lower", (n,))
    up = k.array("upper", (n,), gen=lambda g, s: lo + g.choice([0.0, 1.0], size=s))
    x = k.array("x", (n,), gen=lambda g, s: np.where(g.random(s) < 0.4, lo, np.where(g.random(s) < 0.5, up, 0.3 * lo + 0.7 * up)))
    g = k.array("gradient", (n,))
    k.assume(k.forall([n], lambda i: k.land(lo[i] <= up[i], lo[i] <= x[i], x[i] <= up[i])))
    k.a_all = (x, g, lo, up, n)
    one, two = k.call(ref, x, g, lo, up), k.call(fast, x, g, lo, up)
    for nm, positions, mask in (("lower", one.lower, two[0]), ("upper", one.upper, two[1]), ("inactive", one.inactive, two[3])):
        member = k.np.zeros(n, dtype=bool)
        member[positions] = True
        k.check(f"the same {nm} bounds", k.forall([n], lambda i: k.iff(member[i], mask[i])))


@contract("C23", keys("cg", "_get_distance_to_trustregion_boundary"), deadline=60)
def cg_distance(k):
    ref, fast = both(k, "cg", "_get_distance_to_trustregion_boundary")
    n = k.int("n", lo=1, cap=5)
    x, d, r = k.array("x", (n,)), k.array("direction", (n,)), k.pos("radius")
    k.assume(k.sum(n, lambda i: val(k, d, i) * val(k, d, i)) > 0)
    one, two = k.call(ref, x, d, r), k.call(fast, x, d, r)
    k.check("the same distance", k.eq(one, two, rtol=1e-6, atol=1e-6))


@contract("C23", keys("cg", "_update_vectors_for_next_iteration"), deadline=60)
def cg_update(k):
    ref, fast = both(k, "cg", "_update_vectors_for_next_iteration")
    n = k.int("n", lo=1, cap=5)
    x, r, d, h, a = k.array("x", (n,)), k.array("residual", (n,)), k.array("direction", (n,)), k.array("hessian", (n, n)), k.real("alpha")
    k.assume(k.sum(n, lambda i: val(k, r, i) * val(k, r, i)) > 0)
    one, two = k.call(ref, x.copy(), r.copy(), d.copy(), h, a), k.call(fast, x, r, d, h, a)
    for i, nm in enumerate(["point", "residual", "direction"]):
        k.check(f"the same {nm}", k.eq(one[i], two[i], rtol=1e-6, atol=1e-6))
