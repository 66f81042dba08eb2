"""C16: noise-driven sample sizes stay within their limits."""
from types import SimpleNamespace

import numpy as np

from contracts.common import draw_case
from pyvc.contract import contract

N = "tranquilo.adjust_n_evals:adjust_n_evals"
S = "tranquilo.acceptance_sample_size:"


@contract("C16", [N])
def adjustment(k):
    rho = k.ext("rho")
    m = k.int("n_draws", lo=1, cap=8)
    rn = k.array("rho_noise", (m,), ext=True, gen=lambda r, s: r.choice([-np.inf, 0.0, 0.05, 0.3, 0.65, 2.0, np.inf], size=s,
                                                                       p=[0.05, 0.1, 0.15, 0.2, 0.2, 0.2, 0.1]))
    o = SimpleNamespace(high_rho=k.real("high_rho", choices=[0.6]), low_rho=k.real("low_rho", choices=[0.1]),
                        min_share_high_rho=k.real("share_high", choices=[0.7]), min_share_low_rho=k.real("share_low", choices=[0.9]),
                        good_rho_threshold=k.real("good", choices=[0.1]),
                        min_n_evals=k.int("min_n", lo=1, cap=4), max_n_evals=k.int("max_n", lo=1, cap=9))
    n = k.int("n_evals", lo=1, cap=6)
    k.assume(o.min_n_evals <= o.max_n_evals, n >= o.min_n_evals, n <= o.max_n_evals)
    new, inc = k.call(k.get(N), n_evals=n, rho=rho, rho_noise=rn, options=o)
    k.check("changes by at most one", k.land(new - n <= 1, n - new <= 1))
    k.check("stays within its limits", k.land(new >= o.min_n_evals, new <= o.max_n_evals))
    high = k.np.mean(rn > o.high_rho)
    low = k.np.mean(rn > o.low_rho)
    if new > n:
        k.check("rises only if too few simulated ratios are acceptable",
                k.lnot(k.lor(high > o.min_share_high_rho, low > o.min_share_low_rho, rho >= o.good_rho_threshold)))
    if new < n:
        k.check("falls only if most simulated ratios are high", high > o.min_share_high_rho)
    if high > o.min_share_high_rho:
        want = k.np.maximum(n - 1, o.min_n_evals)
    elif k.lor(low > o.min_share_low_rho, rho >= o.good_rho_threshold):
        want = n
    else:
        want = k.np.minimum(n + 1, o.max_n_evals)
    k.check("the number of evaluations follows the rule", k.eq(new, want))
    k.check("the increase is reported", k.iff(inc, new > n))


@contract("C16", [S + "get_acceptance_sample_sizes", S + "_get_optimal_sample_sizes", S + "_compute_factor"], deadline=120)
def sample_sizes(k):
    sigma = k.real("sigma", lo=0, choices=[0.0, 1.0, 1e-9])
    existing = k.int("existing_n1", lo=1, cap=12)
    ei = k.real("expected_improvement", lo=0, choices=[0.0, 1e-9, 1.0])
    power = k.real("power_level", lo=0, hi=1, choices=[0.95])
    conf = k.real("confidence_level", lo=0, hi=1, choices=[0.95])
    k.assume(power > 0, power < 1, conf > 0, conf < 1)
    n_min = k.int("n_min", lo=0, cap=5)
    n_max = k.int("n_max", lo=0, cap=9)
    k.assume(n_min <= n_max)
    n1, n2 = k.call(k.get(S + "get_acceptance_sample_sizes"), sigma=sigma, existing_n1=existing, expected_improvement=ei,
                    power_level=power, confidence_level=conf, n_min=n_min, n_max=n_max)
    k.check("never a negative number at the current point", n1 >= 0)
    k.check("the current point is not brought above the maximum by requesting more",
            k.lor(n1 == 0, n1 + existing <= n_max))
    k.check("evaluations at the trial point are at least the minimum", n2 >= n_min)
    k.check("evaluations at the trial point are at most the maximum", n2 <= n_max)
    k.check("whole numbers", k.is_int(n1) and k.is_int(n2))


@contract("C16", ["tranquilo.tranquilo:_internal_tranquilo"], prove=False, rac_n=120, rac_s=25, chunks=3)
def along_runs(k):
    c = draw_case(k, noisy=True, faults="none", max_iter=8)
    o = c.options["acceptance_decider_options"]
    na = c.options["noise_adaptation_options"]
    r = c.run()
    k.assume(r.res is not None)
    st = r.res["states"]
    h = r.res["tranquilo_history"]
    naive = c.options.get("acceptance_decider") == "naive_noisy"
    prev = None
    for s in st[1:]:
        if not naive:
            k.check("acceptance evaluations within limits", o["n_min"] <= s.n_evals_acceptance <= o["n_max"], c.describe)
        n = s.n_evals_per_point
        k.check("evaluations per point within limits", na["min_n_evals"] <= n <= na["max_n_evals"], c.describe)
        if prev is not None:
            k.check("evaluations per point change by at most one", abs(n - prev) <= 1, c.describe)
        prev = n
