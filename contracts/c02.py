"""C02: the reported solution is an evaluated point with its recorded value."""
import numpy as np

from contracts.common import draw_case
from contracts.mainloop import Drive, LOOP, OPTS
from pyvc.contract import contract


@contract("C02", [LOOP], **OPTS)
def solution(k):
    def each(d):
        b, e = d.begin, d.end
        k.check("the value of the accepted point never increases", e.fval <= b.fval)

    d = Drive(k, post_iteration=each)
    res = d.run()
    st = res["states"][-1]
    k.check("the solution is the last accepted point", d.is_x(res["solution_x"], st.index))
    k.check("the solution is an evaluated point", k.land(st.index >= 0, st.index < d.hist.n_xs))
    k.check("the solution value is the value recorded for that point", k.eq(res["solution_criterion"], d.F(st.index)))
    k.check("the solution is never worse than the start", res["solution_criterion"] <= d.F(0))


@contract("C02", [LOOP], **OPTS)
def solution_noisy(k):
    d = Drive(k, noisy=True)
    res = d.run()
    st = res["states"][-1]
    k.check("the solution is the last accepted point", d.is_x(res["solution_x"], st.index))
    k.check("the solution is an evaluated point", k.land(st.index >= 0, st.index < d.hist.n_xs))
    k.check("the solution value is the one of the last record", k.eq(res["solution_criterion"], st.fval))


@contract("C02", [LOOP], prove=False, rac_n=400, rac_s=25, chunks=3)
def along_runs(k):
    c = draw_case(k)
    r = c.run()
    k.assume(r.res is not None)
    res = r.res
    st, h = res["states"], res["tranquilo_history"]
    evaluated = {np.asarray(x).tobytes() for x in r.calls}
    x, v = np.asarray(res["solution_x"]), res["solution_criterion"]
    k.check("the solution is a point at which the criterion was evaluated", x.tobytes() in evaluated, c.describe)
    k.check("the solution is the last accepted point", np.array_equal(x, st[-1].x) and k.same(v, st[-1].fval), c.describe)
    agg = {"scalar": lambda f: float(f), "least_squares": lambda f: float(np.sum(np.asarray(f) ** 2)),
           "likelihood": lambda f: float(np.sum(f))}[c.functype]

    def values(x):
        out = []
        for a, b in zip(r.calls, r.rec.results):
            if np.array_equal(a, x):
                if isinstance(b, str):
                    out.append(np.inf)
                else:
                    b = np.where(np.isnan(b), np.inf, b)
                    out.append(agg(b))
        return np.array(out)

    for i, s in enumerate(st):
        k.check("a record's point is stored under its index", np.array_equal(h.get_xs(s.index), s.x), c.describe)
        k.check("a record's candidate is stored under its index", np.array_equal(h.get_xs(s.candidate_index), s.candidate_x), c.describe)
        k.check("a record's point was evaluated", np.asarray(s.x).tobytes() in evaluated, c.describe)
        dup = np.sum(np.all(h.get_xs() == s.x, axis=1)) > 1
        # a vector that was stored twice has evaluations under two indices
        vals = np.asarray(h.get_fvals(s.index)) if dup and c.noisy else values(s.x)
        with np.errstate(all="ignore"):
            means = np.cumsum(vals) / np.arange(1, len(vals) + 1)
        if not c.noisy and i > 0:
            means = vals[:1]
        k.check("a record's value is the (mean) value at its point", any(k.same(m, s.fval) or abs(m - s.fval) <= 1e-9 * (1 + abs(m)) for m in means),
                lambda: f"{s.fval} {vals} {c.describe()}")
        if i:
            new, used, gone = (set(np.asarray(z, dtype=int).tolist()) for z in (s.new_indices, s.old_indices_used, s.old_indices_discarded))
            model = set(np.asarray(s.model_indices, dtype=int).tolist())
            k.check("the model's points are its new and its reused points", new | used == model and not new & used and not gone & model, c.describe)
            k.check("the region of a record is centred at the point before", np.array_equal(s.trustregion.center, st[i - 1].x), c.describe)
            if not c.noisy:
                k.check("the value of the accepted point never increases", s.fval <= st[i - 1].fval, c.describe)
    if not c.noisy:
        k.check("the solution is never worse than the start", v <= st[0].fval, c.describe)
