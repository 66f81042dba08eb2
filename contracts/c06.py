"""C06: requested evaluations happen exactly once each and failures become +inf."""
from collections import Counter
from types import SimpleNamespace

import numpy as np

from contracts.c10 import val
from contracts.common import draw_case, serial_batch
from pyvc.contract import contract

W = "tranquilo.wrap_criterion:"
TYPES = ["scalar", "least_squares", "likelihood"]


# ------------------------------------------------------------------------- proof
class GhostHistory:
    """a history seen through its contract: stored vectors, and a log of what is recorded"""

    def __init__(self, k, functype, n, m, has_evals):
        self.k, self.functype = k, functype
        self.n_xs = k.int("n_xs", lo=1)
        self.xs = k.array("stored_xs", (self.n_xs, n))
        self.fvecs = k.array("stored_fvecs", (k.int("capacity", lo=1), m)) if has_evals else None
        self.fvals = None
        self.asked, self.log = [], []

    def get_xs(self, x_indices=None):
        from pyvc.arrays import SArr, I
        from pyvc.seqs import seq_of

        self.asked.append(x_indices)
        s = seq_of(x_indices)
        f = self.xs.snap()
        item = s.item
        return SArr((s.n, self.xs.dims[1]), lambda i, *r: f(I(item(I(i))), *r), "f")

    def add_evals(self, x_indices, evals):
        self.log.append((x_indices, evals))


def _request(k, functype):
    import z3
    from pyvc.arrays import I, SArr
    from pyvc.seqs import SDict, SSeq, SStr, Union, seq_of
    from pyvc.values import Num, mkb

    c = k.ctx
    n = k.int("n_params", lo=1)
    m = 1 if functype == "scalar" else k.int("n_residuals", lo=1)
    has_evals = bool(k.bool("earlier_evaluations"))
    h = GhostHistory(k, functype, n, m, has_evals)
    r = k.int("n_requested", lo=1)
    idx = k.array("x_indices", (r,), kind="i")
    reps = k.array("repetitions", (r,), kind="i")
    k.assume(k.forall([r], lambda j: k.land(idx[j] >= 0, idx[j] < h.n_xs, reps[j] >= 0)))
    fi, fr = idx.snap(), reps.snap()
    info = SDict(r, lambda i: fi(I(i)), lambda i: fr(I(i)))
    calls = []
    criterion = lambda x: None
    zi, zb = z3.IntSort(), z3.BoolSort()
    failed, _ = c.fresh_fun("failed", zi, zb)
    raw = []

    def batch_evaluator(func, arguments=None, n_cores=1, error_handling="continue", **kw):
        s = seq_of(arguments)
        calls.append(SimpleNamespace(func=func, args=s, n_cores=n_cores, errors=error_handling))
        res = k.array("raw_results", (s.n,) if functype == "scalar" else (s.n, m), ext=True, nan=True)
        raw.append(res)
        if not has_evals and functype != "scalar":
            # the number of residuals is known after a first successful evaluation
            w = k.int("a_successful_one", lo=0)
            k.assume(w < Num(I(s.n), True))
            c.add_fact(z3.Not(failed(w.v)))

        g = res.snap()

        def item(i):
            t = I(i)
            if functype == "scalar":
                ok = g(t)
            else:
                ok = SArr((m,), lambda q: g(t, q), "f")
            return Union(mkb(failed(t)), SStr(), ok)
        return SSeq(s.n, item)

    wrapped = k.get(W + "get_wrapped_criterion")(criterion, batch_evaluator, k.int("n_cores", lo=1), h)
    return SimpleNamespace(h=h, n=n, m=m, r=r, idx=idx, reps=reps, info=info, calls=calls, criterion=criterion, failed=failed,
                           raw=raw, wrapped=wrapped)


def _requests(k, functype):
    from pyvc import npshim
    from pyvc.arrays import I, to_sarr
    from pyvc.seqs import force, seq_of
    from pyvc.values import Num, mkb

    q = _request(k, functype)
    out = k.call(q.wrapped, q.info)
    k.check("nothing is returned", out is None)
    k.check("the batch evaluator is called once", len(q.calls) == 1)
    call = q.calls[0]
    k.check("the user's criterion is evaluated", call.func is q.criterion)
    k.check("a failing evaluation does not stop the others", call.errors == "continue")
    k.check("results are recorded once", len(q.h.log) == 1)
    want = npshim._FUNCS["repeat"](q.idx, q.reps)
    total = want.dims[0]
    xi, ev = q.h.log[0]
    xi, ev = seq_of(xi), seq_of(ev)
    T = Num(I(total), True)
    k.check("each point is evaluated the requested number of times", k.eq(Num(I(call.args.n), True), T))
    k.check("one record per evaluation", k.land(k.eq(Num(I(xi.n), True), T), k.eq(Num(I(ev.n), True), T)))
    j = k.int("some_evaluation", lo=0)
    i = k.int("some_parameter", lo=0)
    e = k.int("some_entry", lo=0)
    k.assume(j < T, i < q.n, e < q.m)
    point = val(k, want, j)
    vec = call.args.item(I(j))
    k.check("evaluations happen at the stored vectors", k.eq(val(k, vec, i), val(k, q.h.xs, point, i)))
    k.check("a vector has all its entries", k.eq(k.len(vec), q.n))
    k.check("each result is recorded under its point", k.eq(xi.item(I(j)), point))
    got, res = force(ev.item(I(j))), q.raw[0]
    if functype == "scalar":
        x, y = got, val(k, res, j)
    else:
        x, y = val(k, got, e), val(k, res, j, e)
    if functype != "scalar":
        k.check("an evaluation has all its entries", k.eq(k.len(got), q.m))
    inf = float("inf")
    bad = mkb(q.failed(I(j)))
    from pyvc import values as V

    x, y = V.num(x.item() if hasattr(x, "item") else x), V.num(y)
    k.check("a raised exception is recorded as plus infinity", k.implies(bad, lambda: k.eq(x, inf)))
    k.check("a NaN is recorded as plus infinity", k.implies(k.land(k.lnot(bad), V.isnan(y)), lambda: k.eq(x, inf)))
    k.check("other results are recorded as they are", k.implies(k.land(k.lnot(bad), k.lnot(V.isnan(y))), lambda: k.eq(x, y)))


FN = [W + "get_wrapped_criterion", W + "_get_failed_eval", W + "process_batch_evaluator"]


@contract("C06", FN, rac=False, deadline=100)
def requests_scalar(k):
    _requests(k, "scalar")


@contract("C06", FN, rac=False, deadline=100)
def requests_least_squares(k):
    _requests(k, "least_squares")


@contract("C06", FN, rac=False, deadline=100)
def requests_likelihood(k):
    _requests(k, "likelihood")


@contract("C06", FN, rac_n=40)
def empty_request(k):
    called = []
    h = SimpleNamespace(functype="scalar", fvecs=None, get_xs=lambda *a: called.append("read"), add_evals=lambda *a, **kw: called.append("recorded"))
    f = k.get(W + "get_wrapped_criterion")(lambda x: called.append("criterion"), lambda *a, **kw: called.append("batch"), k.int("n_cores", lo=1, hi=4), h)
    k.call(f, {})
    k.check("no evaluation is made or recorded", not [c for c in called if c != "read"])
    k.raises(ValueError, f, [0, 1])


# ---------------------------------------------------------------------- run time
def executor(kind, rng):
    """batch evaluators that differ in the order in which they evaluate"""
    if kind == "serial":
        return serial_batch
    if kind == "joblib":
        return "joblib"

    def shuffled(func, arguments, *, n_cores=1, error_handling="continue", unpack_symbol=None):
        out = [None] * len(arguments)
        for i in rng.permutation(len(arguments)):
            out[i] = serial_batch(func, [arguments[i]], error_handling=error_handling)[0]
        return out

    return shuffled


def recorded_value(v, m):
    """what has to be recorded for a result"""
    if isinstance(v, str):
        return np.full(m, np.inf)
    v = np.atleast_1d(np.array(v, dtype=float))
    return np.where(np.isnan(v), np.inf, v)


def same_evaluations(got, want):
    """equal up to the order of repeated evaluations of the same point"""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    key = lambda a: sorted(tuple(r) for r in np.atleast_2d(a))
    return key(got) == key(want)


@contract("C06", FN + ["tranquilo.history:History.add_evals", "tranquilo.history:History.get_xs"], prove=False, rac_n=500, rac_s=12)
def requests_at_run_time(k):
    from tranquilo.history import History
    from tranquilo.wrap_criterion import get_wrapped_criterion

    functype = k.choice("functype", TYPES)
    n, m = k.int("n_params", 1, 4), k.int("n_residuals", 1, 4)
    m = 1 if functype == "scalar" else m
    rng = np.random.default_rng(k.int("seed", 0, 10**6))
    h = History(functype=functype)
    p = int(rng.integers(1, 9))
    xs = rng.normal(size=(p, n))
    h.add_xs(xs)
    calls = []
    rate = float(rng.choice([0.0, 0.3, 0.8]))
    kinds = ["nan", "inf", "-inf", "raise", "some", "mixed"]

    def crit(x):
        i = len(calls)
        calls.append([np.array(x, copy=True), None])
        u = rng.random()
        out = rng.normal(size=m)
        if i > 0 and u < rate:
            kind = str(rng.choice(kinds))
            if kind == "raise":
                calls[i][1] = "raised"
                raise rng.choice([ValueError, ZeroDivisionError, KeyError])("failing evaluation")
            if kind == "some":
                out[rng.integers(m)] = rng.choice([np.nan, np.inf, -np.inf])
            elif kind == "mixed":
                out = rng.choice([np.nan, np.inf, -np.inf, 1.5, 1e300], size=m)
            else:
                out[:] = float(kind)
        res = float(out[0]) if functype == "scalar" else out
        if functype == "scalar" and rng.random() < 0.3:
            res = np.float64(res)
        calls[i][1] = np.array(res, copy=True)
        return res

    kind = k.choice("executor", ["serial", "serial", "shuffled", "shuffled", "shuffled", "joblib"])
    f = get_wrapped_criterion(crit, executor(kind, rng), int(rng.integers(1, 3)) if kind != "joblib" else 1, h)
    total = {}
    expected = {i: [] for i in range(p)}
    for _ in range(int(rng.integers(1, 4))):
        ids = rng.permutation(p)[: rng.integers(0, p + 1)]
        info = {int(i): int(rng.integers(0 if len(total) else 1, 5)) for i in ids}
        if not any(info.values()):
            info = {}
        before = len(calls)
        asked = dict(info)
        k.call(f, info)
        k.check("the request is not changed", asked == info)
        new = calls[before:]
        k.check("no other evaluation is made", len(new) == sum(info.values()))
        want = Counter()
        for i, c in info.items():
            want[xs[i].tobytes()] += c
            total[i] = total.get(i, 0) + c
        k.check("each point is evaluated the requested number of times at the stored vector",
                Counter(x.tobytes() for x, _ in new) == +want)
        where = {xs[i].tobytes(): i for i in range(p)}
        for x, v in new:
            expected[where[x.tobytes()]].append(recorded_value(v, m))
    k.check("the number of recorded evaluations is exact", h.get_n_fun() == len(calls))
    for i in range(p):
        if not expected[i]:
            k.check("no other evaluation is recorded", len(h.index_mapper[i]) == 0 if i in h.index_mapper else True)
            continue
        got = h.get_fvecs(i)
        k.check("each result is recorded under its point, failures as plus infinity", same_evaluations(got, expected[i]),
                lambda: f"point {i}: recorded {got}, expected {expected[i]}")


@contract("C06", FN, prove=False, rac_n=120, rac_s=15)
def along_runs(k):
    c = draw_case(k)
    within = [0]

    def monitor(orig, args, run):
        h = args["history"]

        def monitored(info):
            req = dict(info)
            before, n0 = len(run.calls), h.get_n_fun()
            have = {i: len(h.index_mapper[i]) for i in range(h.get_n_xs())}
            orig(info)
            new = run.calls[before:]
            within[0] += len(new)
            want = Counter()
            for i, r in req.items():
                want[h.get_xs(int(i)).tobytes()] += int(r)
            k.check("each requested point is evaluated the requested number of times", Counter(np.asarray(x, dtype=float).tobytes() for x in new) == +want,
                    c.describe)
            k.check("one record per evaluation", h.get_n_fun() - n0 == len(new), c.describe)
            for i in range(h.get_n_xs()):
                k.check("records are made for the requested points only", len(h.index_mapper[i]) - have.get(i, 0) == int(req.get(i, 0)), c.describe)
            res = {}
            for x, v in zip(new, run.rec.results[before:]):
                res.setdefault(np.asarray(x, dtype=float).tobytes(), []).append(recorded_value(v, c.m))
            dup = Counter(h.get_xs(int(i)).tobytes() for i in req)
            for i, r in req.items():
                key = h.get_xs(int(i)).tobytes()
                if dup[key] == 1 and r:
                    got = np.asarray(h.get_fvecs(int(i)))[-int(r):]
                    k.check("each result is recorded under its point, failures as plus infinity", same_evaluations(got, res[key]), c.describe)
        return monitored

    run = c.run(wrap={"evaluate_criterion": monitor})
    k.assume(run.res is not None)
    k.check("no evaluation happens outside a request", len(run.calls) == within[0], c.describe)
