"""C21: runs are reproducible and free of side effects on the caller.

The arrays of the caller (start vector, bounds) live on as the center and bounds of trust regions
and as the point of the first state.  The framed contracts below run functions under their contracts
for other properties and prove that no call changes such an array, and that no call uses a random
number generator other than the one it was given.
"""
import copy
import random
from types import SimpleNamespace

import numpy as np

from contracts import c01, c03, c05, c08, c09, c13, c14, c15, c24, c25  # noqa: F401 (registers their contracts)
from contracts.common import Case, draw_case
from contracts.mainloop import Drive, LOOP, OPTS
from contracts.mainloop import T as MAIN
from pyvc.contract import REGISTRY, Contract, Discard, Failed, contract

P = "tranquilo.process_arguments:"
FRAME = "frame: "
GLOBAL = FRAME + "no global random state is used"
KEPT = FRAME + "the caller's arrays are not changed"


# ----------------------------------------------------------------- frames of single functions
def is_array(a):
    return isinstance(a, np.ndarray) or type(a).__name__ == "SArr"


def reachable(v, every, out, depth=0):
    """arrays that may be the caller's: of regions, bounds and states (every: all arrays)"""
    if depth > 3 or v is None or isinstance(v, (str, bool, int, float)):
        return out
    if is_array(v):
        if every or depth:
            out.append(v)
        return out
    if isinstance(v, (list, tuple)) and not hasattr(v, "_fields"):
        if every:
            for e in v:
                reachable(e, every, out, depth)
        return out
    for name in ("trustregion", "center", "bounds", "lower", "upper", "x"):
        if name == "x" and not hasattr(v, "trustregion"):
            continue
        try:
            w = getattr(v, name, None)
        except Exception:  # properties of stand-ins
            continue
        if w is not None and not callable(w):
            reachable(w, every, out, depth + 1)
    return out


def snapshot(a):
    return a.copy() if isinstance(a, np.ndarray) else a.snap()


def unchanged(k, a, before):
    if isinstance(a, np.ndarray):
        return k.same(a, before) if a.dtype.kind in "fiu" else bool(np.array_equal(a, before))
    now = a.snap()
    if now is before and a.version == 0:
        return True
    from pyvc.arrays import SArr

    return k.same(a, SArr(a.dims, before, a.k))


def random_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), *s[2:], random.getstate())


class Framed:
    """k of another contract: its calls are framed, its own checks are left to its property"""

    def __init__(self, k, every=False):
        self.__dict__.update(_k=k, _every=every, real_check=k.check)
        if k.sym:
            k.ctx.global_random = GLOBAL

    def __getattr__(self, name):
        return getattr(self._k, name)

    def __setattr__(self, name, v):
        setattr(self._k, name, v)

    def check(self, *a, **kw):
        pass

    def _watch(self, fn, a, kw, act):
        arrays = []
        for v in [getattr(fn, "__self__", None), *a, *kw.values()]:
            reachable(v, self._every, arrays)
        before = [snapshot(v) for v in arrays]
        state = None if self._k.sym else random_state()
        out = act()
        if state is not None:
            self.real_check(FRAME + "the global random state is left as it was", random_state() == state)
        else:
            self.real_check(GLOBAL, True)
        for v, b in zip(arrays, before):
            self.real_check(KEPT, unchanged(self._k, v, b))
        return out

    def call(self, fn, *a, **kw):
        return self._watch(fn, a, kw, lambda: self._k.call(fn, *a, **kw))

    def raises(self, exc, fn, *a, **kw):
        return self._watch(fn, a, kw, lambda: self._k.raises(exc, fn, *a, **kw))


def framed(fn, every):
    def run(k):
        if k.sym:
            return fn(Framed(k, every))
        try:
            return fn(Framed(k, every))
        except Failed as f:
            if f.name.startswith(FRAME):
                raise
            raise Discard()

    run.__doc__ = fn.__doc__
    return run


def frame(prop, *names, every=False, **over):
    for con in REGISTRY[prop]:
        if con.name not in names:
            continue
        new = Contract("C21", framed(con.fn, every), con.functions, stubs=con.stubs, loops=con.loops, prove=con.prove, rac=con.rac,
                       bounded=con.bounded, assumptions=con.assumptions, deadline=con.deadline, timeout_ms=con.timeout_ms,
                       rounding=con.rounding, max_paths=con.max_paths, rac_n=over.get("rac_n", 100), rac_s=over.get("rac_s", 5))
        new.name = f"{prop.lower()}_{con.name}"
        new.only = FRAME
        REGISTRY.setdefault("C21", []).append(new)


frame("C01", "box_sampler", "hull_sampler", "ball_sampler", "line_points", "subproblem_solution")
frame("C03", "classic", "naive_noisy", "line_search_single", "noisy", "line_search_batch2")
frame("C05", "adding_points", "points_in_region", every=True)
frame("C08", "shape_and_box", "unit_mapping", "mapping_back", every=True)
frame("C09", "solution_in_balls", "solution_with_bounds", "failing_solvers")
frame("C13", "optimal_sampler_ball", "optimal_sampler_box")
frame("C14", "dropping", "size_filter", "trivial_filters")
frame("C24", *[c.name for c in REGISTRY["C24"] if c.prove])
frame("C25", *[c.name for c in REGISTRY["C25"] if c.prove])
frame("C15", "distances", "centers_as_sample")


# ----------------------------------------------------------------- which generator is used
@contract("C21", [P + "process_arguments", P + "_process_seed"], prove=False, rac_n=60)
def generators_come_from_the_seed(k):
    c = draw_case(k)
    process = k.get(P + "process_arguments")
    kw = dict(functype=c.functype, criterion=c.crit, x=c.x, lower_bounds=c.lower, upper_bounds=c.upper, **c.options)
    a, b = (k.call(process, **copy.deepcopy({n: v for n, v in kw.items() if n != "batch_evaluator"})) for _ in range(2))
    for name in ("sampling_rng", "simulation_rng"):
        k.assume(name in a)
        k.check("the generator is determined by the seed", np.array_equal(a[name].random(20), b[name].random(20)), c.describe)


class Streams(Drive):
    """the main loop, with the two generators as tokens"""

    def __init__(self, k, **kw):
        super().__init__(k, **kw)
        self.sampling_rng, self.simulation_rng = SimpleNamespace(), SimpleNamespace()

    def own(self, rng):
        return rng is self.sampling_rng or rng is self.simulation_rng

    def sample(self, trustregion, n_points, existing_xs=None, rng=None, **kw):
        self.k.check(FRAME + "points are sampled with a generator of the run", self.own(rng))
        return super().sample(trustregion, n_points, existing_xs, rng, **kw)

    def accept(self, **kw):
        if "rng" in kw:
            self.k.check(FRAME + "acceptance points are sampled with a generator of the run", self.own(kw["rng"]))
        return super().accept(**kw)


def _noise_ratios(k, **kw):
    k.check(FRAME + "noise is simulated with a generator of the run", k.drive.own(kw["rng"]))
    return k.array("rho_noise", (k.int("n_draws", lo=1),))


def _streams(k, noisy):
    k.ctx.global_random = GLOBAL
    d = Streams(k, noisy=noisy)
    x0 = d.x0.snap()
    d.run()
    k.check(FRAME + "the start vector is not changed", unchanged(k, d.x0, x0))
    k.check(GLOBAL, True)


STREAMS = dict(OPTS, stubs=dict(OPTS["stubs"], **{MAIN + "simulate_rho_noise": _noise_ratios}))


@contract("C21", [LOOP], **STREAMS)
def main_loop(k):
    _streams(k, False)


@contract("C21", [LOOP], **STREAMS)
def main_loop_noisy(k):
    _streams(k, True)


for _c in REGISTRY["C21"][-2:]:
    _c.only = FRAME


# ----------------------------------------------------------------- whole runs
def outcome(run):
    if run.res is None:
        return ["error", type(run.error).__name__, str(run.error)]
    r = run.res
    st = r["states"]
    return [np.array(r["solution_x"]), float(r["solution_criterion"]), str(r.get("message")), len(st)] + [
        np.array([s.fval, s.index, s.trustregion.radius, s.candidate_index, *s.x]) for s in st]


def equal(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) if isinstance(x, np.ndarray) else (x == y or x != x and y != y)
                                    for x, y in zip(a, b))


@contract("C21", [LOOP, P + "process_arguments"], prove=False, rac_n=300, rac_s=40, chunks=4)
def along_runs(k):
    seed = k.int("case", 0, 10**6)
    r = np.random.default_rng(seed)
    results, first = [], None
    for i in range(2):
        c = Case(seed)
        # the caller's objects, possibly of other types than the ones used inside
        given = dict(x=c.x.copy(), lower_bounds=None if c.lower is None else c.lower.copy(),
                     upper_bounds=None if c.upper is None else c.upper.copy())
        u = np.random.default_rng(seed).random()
        if u < 0.1:
            given["x"] = given["x"].tolist()
        given |= {n: v for n, v in c.options.items() if isinstance(v, dict)}
        if u > 0.6 and "sampler_options" not in given:
            given["sampler_options"] = {"algo_options": {"maxiter": 3}} if c.options.get("sampler") == "optimal_hull" else {}
        if u > 0.8:
            given["subsolver_options"] = {"maxiter": 10}
        if u < 0.3:
            frozen = [v for v in given.values() if isinstance(v, np.ndarray)]
            for v in frozen:
                v.setflags(write=False)
        before = copy.deepcopy(given)
        np.random.seed(int(r.integers(2**31)))
        random.seed(int(r.integers(2**31)))
        state = random_state()
        run = c.run(**given)
        if random_state() != state:
            raise Failed("the global random state is left as it was", c.describe())
        k.check("the caller's objects are not written to", run.error is None or "read-only" not in str(run.error), c.describe)
        for name, v in given.items():
            same = np.array_equal(v, before[name], equal_nan=True) if isinstance(v, np.ndarray) else repr(v) == repr(before[name])
            k.check("the caller's objects are not changed", same, lambda: f"{name}: {before[name]!r} became {v!r}; {c.describe()}")
        if first is None:
            first = run
            results.append(outcome(run))
        else:
            k.check("the same points are evaluated in the same order",
                    len(run.calls) == len(first.calls) and all(np.array_equal(a, b) for a, b in zip(run.calls, first.calls)), c.describe)
            k.check("the same result is returned", equal(results[0], outcome(run)), c.describe)
