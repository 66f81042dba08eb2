"""C04: the trust-region radius rule."""
from types import SimpleNamespace

import numpy as np

from contracts.common import draw_case
from contracts.mainloop import Drive, OPTS
from pyvc.contract import contract


def options(k, ratio=True):
    o = SimpleNamespace(
        min_radius=k.pos("min_radius"), max_radius=k.pos("max_radius"),
        initial_radius=None,
        rho_decrease=k.real("rho_decrease", choices=[0.1, 0.0]),
        rho_increase=k.real("rho_increase", choices=[0.1, 0.5]),
        shrinking_factor=k.pos("shrinking_factor", hi=1.0),
        expansion_factor=k.pos("expansion_factor", lo=1.0),
        large_step=k.pos("large_step"),
        max_radius_to_step_ratio=k.choice("ratio", [np.inf, None]),
    )
    if o.max_radius_to_step_ratio is None:
        o.max_radius_to_step_ratio = k.pos("max_radius_to_step_ratio")
    return o


def top(k, o, step):
    """the maximum radius, with the optional limit relative to the step"""
    if not k.sym and not np.isfinite(o.max_radius_to_step_ratio) or o.max_radius_to_step_ratio is np.inf:
        return o.max_radius
    m = k.np.minimum(o.max_radius, step * o.max_radius_to_step_ratio)
    return k.np.maximum(m, o.min_radius)


@contract("C04", ["tranquilo.adjust_radius:adjust_radius"])
def radius_rule(k):
    radius = k.pos("radius")
    rho = k.ext("rho")
    step = k.real("step_length", lo=0)
    inc = k.bool("n_evals_is_increased")
    o = options(k)
    k.assume(o.min_radius <= o.max_radius)
    f = k.get("tranquilo.adjust_radius:adjust_radius")
    new = k.call(f, radius=radius, rho=rho, step_length=step, options=o, n_evals_is_increased=inc)
    k.check("the new radius is at least the minimum radius", new >= o.min_radius)
    k.check("the new radius is at most the maximum radius", new <= o.max_radius)
    if k.land(rho >= o.rho_increase, step / radius >= o.large_step):
        raw = radius * o.expansion_factor
    elif k.lor(rho >= o.rho_decrease, inc):
        raw = radius
    else:
        raw = radius * o.shrinking_factor
    k.check("the new radius follows the rule", k.eq(new, k.np.minimum(k.np.maximum(raw, o.min_radius), top(k, o, step))))


LOOP_ = "tranquilo.tranquilo:_internal_tranquilo"


@contract("C04", [LOOP_], **OPTS)
def in_the_loop(k):
    def each(d):
        k.check("the rule is applied once per iteration", len(d.adjusted) == 1)
        radius, rho, step, inc, new = d.adjusted[0]
        _, ok, _, rho_, step_ = d.decisions[-1]
        k.check("the rule gets the radius of this iteration", k.eq(radius, d.begin.trustregion.radius))
        k.check("the rule gets the improvement ratio and step of this iteration", k.land(k.same(rho, rho_), k.same(step, step_)))
        k.check("the next radius is the one of the rule", k.eq(d.end.trustregion.radius, new))
        k.check("the radius is within its limits after the iteration",
                k.land(d.end.trustregion.radius >= d.radius_options.min_radius, d.end.trustregion.radius <= d.radius_options.max_radius))
        k.check("without noise no increase of evaluations is signalled", k.lnot(inc))

    Drive(k, post_iteration=each).run()


@contract("C04", [LOOP_], **OPTS)
def in_the_loop_noisy(k):
    def each(d):
        k.check("the rule is applied once per iteration", len(d.adjusted) == 1)
        radius, rho, step, inc, new = d.adjusted[0]
        k.check("the rule gets the radius of this iteration", k.eq(radius, d.begin.trustregion.radius))
        k.check("the next radius is the one of the rule", k.eq(d.end.trustregion.radius, new))
        k.check("the rule learns whether the number of evaluations was increased", k.iff(inc, d.more[-1]))

    Drive(k, noisy=True, post_iteration=each).run()


@contract("C04", [LOOP_], prove=False, rac_n=250, rac_s=20, chunks=3)
def along_runs(k):
    c = draw_case(k)
    r = np.random.default_rng(c.seed)
    if r.random() < 0.7:
        ro = {"initial_radius": float(r.choice([0.01, 0.1, 1.0])), "max_radius": float(r.choice([1.0, 1.5, 8.0])),
              "min_radius": float(r.choice([1e-6, 0.005, 0.01])), "rho_increase": float(r.choice([0.1, 0.5])),
              "rho_decrease": float(r.choice([0.1, 0.05])), "shrinking_factor": float(r.choice([0.5, 0.3])),
              "expansion_factor": float(r.choice([2.0, 1.5])), "large_step": float(r.choice([0.5, 0.1, 0.9]))}
        if r.random() < 0.4:
            ro["max_radius_to_step_ratio"] = float(r.choice([1.0, 2.0, 10.0]))
        c.options["radius_options"] = ro
    steps = []
    inc = {}

    def mon_accept(f, args, run):
        def g(*a, **kw):
            out = f(*a, **kw)
            steps.append((kw["state"].trustregion, out))
            return out
        return g

    run = c.run(wrap={"accept_candidate": mon_accept})
    k.assume(run.res is not None)
    o = run.args["radius_options"]
    st = run.res["states"]
    r0 = st[0].trustregion.radius
    inside = o.min_radius <= r0 <= o.max_radius
    user = (c.options.get("radius_options") or {}).get("initial_radius")
    if user is not None:
        k.check("the initial radius is the configured one", r0 == user, c.describe)
    regs = [s[0] for s in steps]
    for i, (reg, out) in enumerate(steps):
        if inside or i > 0:
            k.check("the radius is within its limits", o.min_radius <= reg.radius <= o.max_radius, c.describe)
        if i + 1 < len(steps):
            new = steps[i + 1][0].radius
            rho, step = out.rho, out.step_length
            n_now, n_next = st[i + 1].n_evals_per_point, st[i + 2].n_evals_per_point if i + 2 < len(st) else None
            up = n_next is not None and n_next > n_now
            large = step / reg.radius >= o.large_step * (1 - 1e-12)
            surely = step / reg.radius >= o.large_step * (1 + 1e-12)
            want = []
            if rho >= o.rho_increase and large:
                want.append(reg.radius * o.expansion_factor)
            if not (rho >= o.rho_increase and surely):
                want.append(reg.radius if (rho >= o.rho_decrease or up) else reg.radius * o.shrinking_factor)
            top = max(min(o.max_radius, o.max_radius_to_step_ratio * step) if np.isfinite(o.max_radius_to_step_ratio) else o.max_radius, o.min_radius)
            alts = [min(max(w, o.min_radius), top) for w in want]
            k.check("the radius follows the rule", any(abs(new - w) <= 1e-9 * w for w in alts),
                    lambda: f"{reg.radius} -> {new}, expected {alts}, rho {rho}, step {step} {c.describe()}")
