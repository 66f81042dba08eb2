"""C19: user options reach exactly the component and field they name."""
import typing
import warnings
from types import SimpleNamespace

import numpy as np

from contracts.common import serial_batch
from pyvc.contract import contract

O, G, P = "tranquilo.options:", "tranquilo.get_component:", "tranquilo.process_arguments:"
BUNDLES = ["StopOptions", "ConvOptions", "RadiusOptions", "AcceptanceOptions", "StagnationOptions", "SubsolverOptions", "FitterOptions",
           "VarianceEstimatorOptions", "FilterOptions", "SamplerOptions", "NoiseAdaptationOptions"]
REQUIRED = {float: 0.75, int: 3, bool: True, str: "text"}


def bundle(k, name=None):
    """an option bundle of the package with its defaults (required fields filled in)"""
    cls = k.get(O + (name or k.choice("bundle", BUNDLES)))
    hints = typing.get_type_hints(cls)
    return cls, cls(**{f: REQUIRED[hints[f]] for f in cls._fields if f not in cls._field_defaults}), hints


def subsets(fields):
    for mask in range(2 ** len(fields)):
        yield [f for i, f in enumerate(fields) if mask >> i & 1]


@contract("C19", [O + "update_option_bundle"], deadline=200, rac_n=60)
def every_bundle(k):
    """all option bundles of the package, every set of named fields, every value of the default's type"""
    cls, default, _ = bundle(k)
    fields = list(cls._fields)
    given = {}
    for f in fields:
        d = getattr(default, f)
        t = type(d)
        given[f] = (k.real(f"user_{f}") if t is float else k.int(f"user_{f}", lo=-5, hi=5) if t is int else k.bool(f"user_{f}") if t is bool
                    else object() if d is None else "given")
    update = k.get(O + "update_option_bundle")
    todo = list(subsets(fields))
    if len(todo) > 128:
        todo = [s for s in todo if len(s) <= 2 or len(s) >= len(fields) - 1]
    good = untouched = passed = True
    for named in todo:
        user = {f: given[f] for f in named}
        if len(named) % 2:
            arg = dict(user)
        else:
            arg = SimpleNamespace(_asdict=lambda user=user: dict(user)) if k.sym or not named else typing.NamedTuple("U", [(f, object) for f in named])(**user)
        out = k.call(update, default, arg)
        good = good and all(out.__getattribute__(f) is user[f] or k.sure(k.eq(getattr(out, f), user[f])) for f in named)
        untouched = untouched and type(out) is cls and all(getattr(out, f) is getattr(default, f) for f in fields if f not in named)
        if isinstance(arg, dict):
            passed = passed and list(arg) == list(user) and all(arg[f] is user[f] for f in user)
    k.check("named fields hold the user's values", good)
    k.check("the other fields keep their defaults", untouched)
    k.check("what the user passed in is unchanged", passed)
    k.check("no options mean the defaults", k.call(update, default) == default and k.call(update, default, {}) == default)


@contract("C19", [O + "update_option_bundle"], deadline=60)
def conversion(k):
    """values of another type become values of the default's type"""
    import collections

    B = collections.namedtuple("B", ["real", "whole", "flag", "text", "anything"])
    default = B(0.5, 3, True, "abc", None)
    update = k.get(O + "update_option_bundle")
    v = k.int("whole_number", lo=-10, hi=10)
    x = k.real("number")
    user = {"real": v, "text": "xyz", "anything": x}
    one = k.call(update, default, user)
    k.check("what the user passed in is unchanged", list(user) == ["real", "text", "anything"] and user["real"] is v and user["anything"] is x)
    one = k.call(update, default, {"real": v})
    k.check("a whole number for a real field", k.eq(one.real, v))
    k.check("keeps its type", not k.is_int(one.real) if k.sym else type(one.real) is float)
    two = k.call(update, default, {"whole": k.ite(x >= 0, v, v) * 1.0 if k.sym else float(v)})
    k.check("a real number for a whole field", k.eq(two.whole, v))
    k.check("becomes a whole number", k.is_int(two.whole) if k.sym else type(two.whole) is int)
    k.check("one field at a time", two.real is default.real and two.flag is default.flag and two.anything is None and one.whole is default.whole)
    k.check("anything goes without a default", k.call(update, default, {"anything": x}).anything is x)
    k.check("texts are not converted", k.call(update, default, {"text": "xyz"}).text == "xyz")


@contract("C19", [O + "update_option_bundle"], deadline=60, rac_n=60)
def unknown_fields(k):
    cls, default, _ = bundle(k)
    f = cls._fields[0]
    update = k.get(O + "update_option_bundle")
    for user in ({"no_such_option": 1.0}, {f: getattr(default, f), "no_such_option": None}, {f + "_": getattr(default, f)}):
        k.check("an unknown name is an error", k.raises(ValueError, update, default, user))
        k.check("an unknown name in a named tuple is an error", k.raises(ValueError, update, default, SimpleNamespace(_asdict=lambda user=user: dict(user))))


@contract("C19", [O + b for b in BUNDLES], deadline=60, rac_n=40)
def defaults_have_their_declared_type(k):
    """a default of another type would convert what the user gives to the wrong type"""
    cls, default, hints = bundle(k)
    wrong = [f for f in cls._fields if getattr(default, f) is not None and type(getattr(default, f)) is not hints[f]]
    k.check("every default has the declared type of its field", not wrong, (cls.__name__, wrong))


OPTS, ARGS = ["alpha", "beta", "gamma"], ["x", "y", "z"]


def component(declared, seen):
    """a component that declares the given parameters and records what it gets"""
    env = {"seen": seen}
    exec(f"def component({', '.join(p + '=None' for p in declared)}):\n    seen.append(dict(locals()))\n    return 'result'", env)  # noqa: S102
    return env["component"]


@contract("C19", [G + f for f in ("get_component", "_get_function_and_name", "_get_valid_options", "_fail_if_mandatory_argument_is_missing", "_add_redundant_argument_handling")],
          deadline=200, rac_n=24)
def components(k):
    """every set of declared options and arguments, of options named by the user and of arguments passed"""
    import collections

    get = k.get(G + "get_component")
    vals = {p: k.real("value_" + p) for p in OPTS + ARGS}
    B = collections.namedtuple("B", OPTS)
    default = B(*(object() for p in OPTS))
    handling = k.choice("handling", ["ignore", "warn"])
    by_name = k.bool("by_name")
    named = k.choice("named", ["none", "first", "others", "all"])
    user = {"none": {}, "first": OPTS[:1], "others": OPTS[1:], "all": OPTS}[named]
    user = {p: vals[p] for p in user}
    kept = dict(user)
    right = whole = True
    for declared in subsets(OPTS + ARGS):
        if not declared:
            continue
        for passed in subsets(ARGS):
            seen = []
            fn = component(declared, seen)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                comp = k.call(get, "mine" if by_name else fn, "part", func_dict={"mine": fn, "other": None}, default_options=default, user_options=user,
                              redundant_argument_handling=handling)
                out = k.call(comp, **{p: vals[p] for p in passed})
            want = {p: (vals[p] if p in user else getattr(default, p)) if p in OPTS else (vals[p] if p in passed else None) for p in declared}
            right = right and len(seen) == 1 and list(seen[0]) == list(want) and all(seen[0][p] is want[p] for p in want)
            whole = whole and out == "result"
    k.check("a component gets exactly what it declares", right)
    k.check("its result is passed on", whole)
    k.check("what the user passed in is unchanged", user == kept if not k.sym else list(user) == list(kept))


@contract("C19", [G + "get_component", G + "_add_redundant_argument_handling"], deadline=60)
def positional_arguments(k):
    import collections

    get = k.get(G + "get_component")
    B = collections.namedtuple("B", OPTS)
    seen = []
    fn = component(["x", "y", "beta"], seen)
    x, y, b = k.real("x"), k.real("y"), k.real("beta")
    comp = k.call(get, fn, "part", default_options=B(1.0, b, 3.0), user_options=None)
    k.call(comp, x, y)
    k.call(comp, x, y=y)
    k.call(comp, x, y, extra=1.0)
    k.check("arguments are passed through unchanged", all(s["x"] is x and s["y"] is y and s["beta"] is b for s in seen))
    k.check("once per call", len(seen) == 3)


@contract("C19", [G + f for f in ("get_component", "_get_function_and_name", "_get_valid_options", "_fail_if_mandatory_argument_is_missing")], deadline=60)
def rejections(k):
    import collections

    get = k.get(G + "get_component")
    B = collections.namedtuple("B", OPTS)
    default = B(1.0, 2.0, 3.0)
    fn = component(["x", "beta"], [])
    kw = dict(component_name="part", func_dict={"mine": fn}, default_options=default)
    k.check("an unknown component name is an error", k.raises(ValueError, get, "yours", **kw))
    k.check("something else is an error", k.raises(TypeError, get, 7, **kw))
    k.check("an unknown option is an error", k.raises(ValueError, get, "mine", user_options={"delta": 1.0}, **kw))
    k.check("a missing mandatory argument is an error", k.raises(ValueError, get, "mine", mandatory_signature=["x", "y"], **kw))
    k.check("a missing mandatory argument of a user's component is an error", k.raises(ValueError, get, fn, mandatory_signature=["y"], **kw))
    k.check("mandatory arguments that are there are fine", callable(k.call(get, "mine", mandatory_signature=["x"], **kw)))
    k.check("redundant options raise if configured", k.raises(ValueError, get, "mine", redundant_option_handling="raise", **kw))
    strict = k.call(get, "mine", redundant_argument_handling="raise", **kw)
    k.check("redundant arguments raise if configured", k.raises(TypeError, strict, x=1.0, w=2.0))


# ------------------------------------------------------------------ the package's own components
def options_of(k, name, r):
    cls, default, hints = bundle(k, name)
    user = {}
    for f in cls._fields:
        if r.random() < 0.5:
            t = hints[f]
            user[f] = {float: float(r.choice([0.25, 1.5, 7.75])), int: int(r.integers(1, 9)), bool: bool(r.integers(2)), str: "t%d" % r.integers(99), dict: {"maxiter": int(r.integers(9))}}[t]
    return cls, default, user


SOLVED = "dict(x=np.zeros(2), success=True, n_iterations=1, criterion=0.0)"
GETTERS = ["tranquilo.acceptance_decision:get_acceptance_decider", "tranquilo.estimate_variance:get_variance_estimator", "tranquilo.filter_points:get_sample_filter",
           "tranquilo.sample_points:get_sampler", "tranquilo.fit_models:get_fitter", "tranquilo.solve_subproblem:get_subsolver"]


@contract("C19", GETTERS, prove=False, rac_n=300)
def getters(k):
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region

    r = np.random.default_rng(k.int("seed", lo=0, hi=10 ** 6))
    which = k.choice("getter", ["acceptance", "variance", "filter", "sampler", "fitter", "cube", "sphere"])
    cls, default, user = options_of(k, {"acceptance": "AcceptanceOptions", "variance": "VarianceEstimatorOptions", "filter": "FilterOptions", "sampler": "SamplerOptions",
                                        "fitter": "FitterOptions", "cube": "SubsolverOptions", "sphere": "SubsolverOptions"}[which], r)
    declared = [f for f in cls._fields if r.random() < 0.6]
    seen = []
    args = {"acceptance": ["state", "history"], "variance": ["trustregion", "history"], "filter": ["state", "xs", "indices"], "sampler": ["trustregion", "n_points", "rng", "existing_xs"],
            "fitter": ["x", "y", "model_type"], "cube": ["model", "x_candidate", "lower_bounds", "upper_bounds"], "sphere": ["model", "x_candidate"]}[which]
    env = {"seen": seen, "np": np}
    answer = {"fitter": "np.ones((y.shape[0] and 1, 3))", "cube": SOLVED, "sphere": SOLVED}.get(which, "'result'")
    exec(f"def mine({', '.join(args)}, {', '.join(f + '=None' for f in declared)}):\n    seen.append(dict(locals()))\n    return {answer}", env)  # noqa: S102
    mine = env["mine"]
    kept = dict(user)
    given = (user or None) if r.random() < 0.5 else (user if not user else cls(**{**default._asdict(), **user}))
    fn = k.get([g for g in GETTERS if {"cube": "subsolver", "sphere": "subsolver", "acceptance": "acceptance_decider", "variance": "variance_estimator", "filter": "sample_filter"}.get(which, which) in g.split(":")[1]][0])
    objs = {a: object() for a in args}
    if which in ("acceptance", "variance", "filter", "sampler"):
        comp = k.call(fn, mine, given)
        out = k.call(comp, **objs, **({"unknown_argument": 1} if r.random() < 0.5 else {}))
        k.check("its result is passed on", out == "result")
        k.check("arguments are passed through unchanged", all(seen[0][a] is objs[a] for a in args))
    elif which == "fitter":
        comp = k.call(fn, mine, given, model_type="linear", residualize=False, infinity_handling="relative")
        x, y = r.normal(size=(4, 2)), r.normal(size=(4, 1))
        k.call(comp, x=x, y=y, region=Region(center=np.zeros(2), radius=1.0), old_model=None)
        k.check("the model type is passed on", seen[0]["model_type"] == "linear")
    else:
        from tranquilo.models import ScalarModel

        other = lambda model, x_candidate, lower_bounds=None, upper_bounds=None: eval(SOLVED)
        comp = k.call(fn, cube_solver=mine if which == "cube" else other, sphere_solver=mine if which == "sphere" else other, retry_with_fallback=False, user_options=given)
        b = Bounds(np.full(2, -0.5), np.full(2, 0.5)) if which == "cube" else Bounds(None, None)
        reg = Region(center=np.zeros(2), radius=1.0, bounds=b)
        k.call(comp, ScalarModel(intercept=0.0, linear_terms=r.normal(size=2), square_terms=np.eye(2), scale=reg.effective_radius, shift=reg.effective_center), reg)
    want = {f: user.get(f, getattr(default, f)) for f in declared}
    k.check("called once", len(seen) == 1)
    k.check("a component gets the options it declares", all(seen[0][f] == want[f] and type(seen[0][f]) is type(want[f]) for f in want), (declared, user))
    k.check("what the user passed in is unchanged", user == kept)
    if isinstance(given, dict):
        k.check("unknown options are rejected", k.raises(ValueError, lambda: fn(mine, {**user, "no_such_option": 1}) if which not in ("cube", "sphere") else
                                                         fn(cube_solver=mine, sphere_solver=mine, retry_with_fallback=False, user_options={**user, "no_such_option": 1})))


@contract("C19", [P + "process_arguments", O + "update_option_bundle"], prove=False, rac_n=200)
def arguments_reach_the_algorithm(k):
    r = np.random.default_rng(k.int("seed", lo=0, hi=10 ** 6))
    process = k.get(P + "process_arguments")
    noisy = bool(r.integers(2))
    functype = str(r.choice(["scalar", "least_squares", "likelihood"]))
    x = r.normal(size=int(r.integers(1, 4)))
    n_cores = int(r.integers(1, 4))
    plain = dict(stopping_max_criterion_evaluations=int(r.integers(1, 99)), stopping_max_iterations=int(r.integers(0, 99)), search_radius_factor=float(r.choice([0.5, 3.0])),
                 n_evals_per_point=int(r.integers(1, 9)), n_evals_at_start=int(r.integers(1, 9)), sample_size=int(r.integers(2, 9)), batch_size=n_cores + int(r.integers(0, 3)))
    plain = {a: v for a, v in plain.items() if r.random() < 0.6}
    bundles, want = {}, {}
    for a, name in (("radius_options", "RadiusOptions"), ("stagnation_options", "StagnationOptions"), ("noise_adaptation_options", "NoiseAdaptationOptions")):
        _, _, user = options_of(k, name, r)
        bundles[a] = user if r.random() < 0.8 else None
        want[a] = user if bundles[a] is not None else {}
    kept = {a: None if u is None else dict(u) for a, u in bundles.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        call = lambda **kw: k.call(process, functype=functype, criterion=lambda x: 0.0, x=x, noisy=noisy, n_cores=n_cores, batch_evaluator=serial_batch, **kw)
        out, base = call(**plain, **bundles), call(**{a: v for a, v in plain.items() if a == "batch_size"})
    for a in want:
        for f in base[a]._fields:
            k.check("a field of a bundle is what the user named or the default", getattr(out[a], f) == want[a].get(f, getattr(base[a], f)), (a, f, want[a]))
    k.check("the bundles are unchanged", kept == bundles)
    k.check("the evaluation budget", out["stop_options"].max_eval == plain.get("stopping_max_criterion_evaluations", 2000))
    k.check("the iteration budget", out["stop_options"].max_iter == plain.get("stopping_max_iterations", 200))
    k.check("the search radius", out["search_radius_factor"] == plain.get("search_radius_factor", base["search_radius_factor"]))
    k.check("evaluations per point", out["n_evals_per_point"] == plain.get("n_evals_per_point", out["noise_adaptation_options"].min_n_evals if noisy else 1))
    k.check("evaluations at the start", out["n_evals_at_start"] == plain.get("n_evals_at_start", 5 if noisy else 1))
    k.check("sample size", out["target_sample_size"] == plain.get("sample_size", base["target_sample_size"]))
    k.check("batch size", out["batch_size"] == plain.get("batch_size", n_cores))
    k.check("the first region", out["trustregion"].radius == out["radius_options"].initial_radius and np.array_equal(out["trustregion"].center, x))
    k.check("noise", out["noisy"] == noisy)
