"""C07: budgets bound the work done."""
import numpy as np

from contracts.common import draw_case
from contracts.mainloop import Drive, LOOP, OPTS
from pyvc.contract import contract

P = "tranquilo.process_arguments:"
MSG = "Maximum number of criterion evaluations reached."


@contract("C07", [P + "next_multiple"])
def rounding_to_batches(k):
    n = k.int("n", lo=0, cap=100)
    b = k.int("base", lo=1, cap=20)
    m = k.call(k.get(P + "next_multiple"), n, base=b)
    k.check("at least the number asked for", m >= n)
    k.check("the smallest whole number of batches", k.eq(m, k.np.ceil(n / b) * b))
    k.check("not a whole batch too many", m < n + b)


@contract("C07", [LOOP], **OPTS)
def budgets(k):
    def each(d):
        k.check("no more iterations than configured", d.item < d.max_iter)
        k.check("no iteration begins after the evaluation budget is used up", k.lor(d.item <= 0, d.begin_fun < d.max_eval))
        k.check("points are sampled", len(d.sampled) >= 1 and len(d.batches_kept) == 1)
        reg, m = d.sampled[0]
        kept = d.batches_kept[0]
        k.check("the target sample size is reached", m + kept >= d.target)
        near = [q for q in d.multiples if q[2] is m]
        k.check("new points come in whole batches", len(near) == 1 and k.truth(k.eq(near[0][1], d.batch)))
        k.check("no batch is sampled without need", k.lor(m <= 0, k.lor(m - d.batch < d.target - kept)))

    d = Drive(k, post_iteration=each)
    res = d.run()
    first = d.first_request
    q = [m for m in d.start_multiples if m[2] is first]
    k.check("start evaluations come in whole batches", k.land(len(q) == 1, k.eq(q[0][1], d.batch), k.eq(q[0][0], d.n_evals_at_start))
            if q else k.land(d.n_evals_at_start <= 1, k.eq(first, 1)))
    if d.hist.n_fun >= d.max_eval and d.stopped and not (d.conv and k.truth(d.conv[-1][2])):
        k.check("the message names the evaluation budget", res["message"] == MSG)


class FakeHistory:
    def __init__(self, counts):
        self.counts = counts

    def get_n_evals(self, idx):
        return {int(i): self.counts[int(i)] for i in idx}


@contract("C07", ["tranquilo.tranquilo:_get_additional_eval_info"], prove=False)
def missing_evaluations(k):
    m = k.int("n_points", lo=0, cap=6)
    counts = {i: k.int("count", lo=0, cap=5) for i in range(m)}
    idx = k.rng.permutation(m)
    per = k.int("per_point", lo=1, cap=5)
    out = k.call(k.get("tranquilo.tranquilo:_get_additional_eval_info"), model_indices=idx, history=FakeHistory(counts), n_evals_per_point=per)
    k.check("each point is raised to the number of evaluations per point and not above",
            {int(a): int(b) for a, b in out.items()} == {i: per - c for i, c in counts.items() if c < per})


@contract("C07", [LOOP], prove=False, rac_n=300, rac_s=25, chunks=3)
def along_runs(k):
    c = draw_case(k)
    r = np.random.default_rng(c.seed)
    c.options["stopping_max_criterion_evaluations"] = int(r.choice([1, 5, 12, 25, 40, 2000]))
    c.options["stopping_max_iterations"] = int(r.choice([1, 2, 3, 5, 8]))
    log = {"sampled": [], "asked": [], "kept": []}

    def mon_sample(f, args, run):
        def g(*a, **kw):
            out = f(*a, **kw)
            log["sampled"].append((len(run_accepts), kw.get("n_points"), len(kw.get("existing_xs", ())), len(out)))
            return out
        return g

    run_accepts = []
    marks = []

    def mon_accept(f, args, run):
        def g(*a, **kw):
            h = args["history"]
            marks.append("accept")
            out = f(*a, **kw)
            run_accepts.append(h.get_n_fun())
            marks.clear()
            log["sampled"] = [s for s in log["sampled"]]
            return out
        return g

    def mon_eval(f, args, run):
        h = args["history"]

        def g(info):
            before = {i: len(h.index_mapper[i]) for i in info}
            log["asked"].append((len(run_accepts), "accept" in marks, dict(info), before, h.get_n_fun()))
            return f(info)
        return g

    n_max = c.options["stopping_max_criterion_evaluations"]
    run = c.run(wrap={"sample_points": mon_sample, "accept_candidate": mon_accept, "evaluate_criterion": mon_eval})
    args = run.args
    b, target = args["batch_size"], args["target_sample_size"]
    it_max = args["stop_options"].max_iter
    n_start = args["n_evals_at_start"]
    k.check("the configured limits reach the loop", it_max == c.options["stopping_max_iterations"] and args["stop_options"].max_eval == n_max, c.describe)
    k.check("no more iterations than configured", len(run_accepts) <= it_max, c.describe)
    first = log["asked"][0]
    want = 1 if n_start == 1 else -(-n_start // b) * b
    k.check("start evaluations come in whole batches", first[2] == {0: want}, lambda: f"{first} {c.describe()}")
    seen = set()
    for it, m, kept, got in log["sampled"]:
        if it in seen or m is None:
            continue
        seen.add(it)  # the first sample of an iteration
        need = max(0, target - kept)
        k.check("new points: the smallest number of whole batches that reaches the target", m == -(-need // b) * b,
                lambda: f"{m} {kept} {target} {b} {c.describe()}")
    for it, acc, info, before, n_fun in log["asked"]:
        if acc or it == 0 and info.keys() == {0}:
            continue
        per = None
        for i, q in info.items():
            if before[i] > 0:
                others = [v for j, v in info.items() if before[j] == 0]
                if others:
                    k.check("existing points are evaluated only up to the number per point", before[i] + q == others[0],
                            lambda: f"{info} {before} {c.describe()}")
    if run.res is not None:
        k.check("iterations recorded", len(run.res["states"]) <= it_max + 1, c.describe)
        # number of evaluations at the end of every iteration
        for n in run_accepts[:-1]:
            k.check("no iteration begins after the evaluation budget is used up", n < n_max, c.describe)
        if run_accepts and run_accepts[-1] >= n_max:
            msg = run.res["message"]
            k.check("the message names the evaluation budget", isinstance(msg, str) and (msg == MSG or "smaller than tolerance" in msg), c.describe)
            if "smaller than tolerance" not in msg:
                k.check("the message names the evaluation budget", msg == MSG, c.describe)
        elif len(run_accepts) < it_max:
            k.check("a run below its budgets stops only because it converged", "smaller than tolerance" in (run.res["message"] or ""), c.describe)
        else:
            k.check("the message does not name a budget that was not used up", run.res["message"] != MSG, c.describe)
