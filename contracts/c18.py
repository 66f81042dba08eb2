"""C18: convergence is reported exactly when an enabled criterion is met."""
from types import SimpleNamespace

import numpy as np

from contracts.common import Case, draw_case, serial_batch
from contracts.mainloop import Drive, OPTS
from pyvc.contract import contract

F = "tranquilo.tranquilo:_is_converged"
NAMES = ["Relative gradient norm", "Absolute gradient norm", "Relative criterion change", "Absolute criterion change",
         "Relative params change", "Absolute params change"]
TOLS = ["gtol_rel", "gtol_abs", "ftol_rel", "ftol_abs", "xtol_rel", "xtol_abs"]


def measures(k, old, new):
    """the six quantities, as documented"""
    np_ = k.np
    fabs = np_.abs(old.fval - new.fval)
    frel = fabs / np_.maximum(np_.abs(old.fval), 1)
    d = old.x - new.x
    xabs = np_.linalg.norm(d)
    xrel = np_.linalg.norm(d / np_.maximum(np_.abs(old.x), 1))
    gabs = np_.linalg.norm(new.model.linear_terms)
    grel = gabs / np_.maximum(gabs, 1)
    return [grel, gabs, frel, fabs, xrel, xabs]


@contract("C18", [F], deadline=100)
def criteria(k):
    n = k.int("n", lo=1, cap=3)
    st = []
    for i in range(2):
        g = k.array(f"gradient{i}", (n,), gen=lambda r, s: r.normal(size=s) * r.choice([0, 1e-9, 1.0, 5.0]))
        st.append(SimpleNamespace(x=k.array(f"x{i}", (n,)), fval=k.real(f"fval{i}"), model=SimpleNamespace(linear_terms=g)))
    if not k.sym and k.rng.random() < 0.5 and "x1" not in k.replay:
        st[1].x = st[0].x + k.rng.choice([0, 1e-9, 1e-3]) * k.rng.normal(size=n)
        k.log["x1"] = st[1].x
    first = SimpleNamespace(x=st[0].x * 2 + 1, fval=st[0].fval * 3 + 5, model=st[0].model)
    o = SimpleNamespace(**{t: k.real(t, lo=0, choices=[0.0, 1e-8, 0.5, 2.0]) for t in TOLS})
    conv, msg = k.call(k.get(F), states=[first, *st], options=o)
    vals = measures(k, *st)
    met = [v <= getattr(o, t) for v, t in zip(vals, TOLS)]
    k.check("convergence is reported iff a criterion is met", k.iff(conv, k.lor(*met)))
    if conv:
        hit = [m for name, m in zip(NAMES, met) if isinstance(msg, str) and msg.startswith(name)]
        k.check("the message names a criterion", len(hit) == 1)
        k.check("the named criterion is met", hit[0] if hit else False)
    else:
        k.check("no message without convergence", msg is None)


ARGS = {"gtol_rel": "convergence_relative_gradient_tolerance", "gtol_abs": "convergence_absolute_gradient_tolerance",
        "ftol_rel": "convergence_relative_criterion_tolerance", "ftol_abs": "convergence_absolute_criterion_tolerance",
        "xtol_rel": "convergence_relative_params_tolerance", "xtol_abs": "convergence_absolute_params_tolerance"}
MSG = {t: n for t, n in zip(TOLS, NAMES)}


@contract("C18", ["tranquilo.process_arguments:process_arguments"], prove=False, rac_n=60)
def tolerances_reach_their_test(k):
    vals = {a: k.pos(a) for a in ARGS.values()}
    dis = k.bool("disable")
    out = k.call(k.get("tranquilo.process_arguments:process_arguments"), functype="scalar", criterion=lambda x: 0.0,
                 x=np.zeros(2), disable_convergence=dis, batch_evaluator=serial_batch, **vals)
    o = out["conv_options"]
    for t, a in ARGS.items():
        k.check(f"{a} reaches its test", getattr(o, t) == vals[a])
    k.check("the switch reaches the loop", bool(o.disable) == dis)


@contract("C18", ["tranquilo.tranquilo:_internal_tranquilo", "tranquilo.process_arguments:process_arguments"], prove=False,
          rac_n=200, rac_s=20, chunks=3)
def along_runs(k):
    c = draw_case(k, noisy=False)
    r = np.random.default_rng(c.seed)
    tols = {}
    for t, a in ARGS.items():
        u = r.random()
        tols[t] = 0.0 if u < 0.5 else float(r.choice([1e-8, 1e-3, 0.1, 0.5]))
        c.options[a] = tols[t]
    run = c.run()
    k.assume(run.res is not None)
    st, msg = run.res["states"], run.res["message"]
    dis = bool(c.options.get("disable_convergence"))
    named = [t for t in TOLS if isinstance(msg, str) and msg.startswith(MSG[t])]
    for i in range(1, len(st)):
        last = i == len(st) - 1
        vals = dict(zip(TOLS, measures(k, st[i - 1], st[i])))
        met = [t for t in TOLS if vals[t] <= tols[t] and st[i].accepted]
        sure = [t for t in met if vals[t] <= tols[t] * (1 - 1e-9)]
        if not last:
            k.check("no iteration follows a met criterion", dis or not sure, c.describe)
        elif named:
            k.check("no convergence is reported when disabled", not dis, c.describe)
            k.check("convergence only after an accepted step", bool(st[i].accepted), c.describe)
            k.check("the named criterion is met", vals[named[0]] <= tols[named[0]] * (1 + 1e-9) + 1e-300, c.describe)
        else:
            k.check("a met criterion is reported", dis or not sure, c.describe)
    k.check("a run has at least one iteration", len(st) >= 2 or named == [])


@contract("C18", ["tranquilo.tranquilo:_internal_tranquilo"], **OPTS)
def in_the_loop(k):
    def each(d):
        ok = d.decisions[-1][1]
        k.check("the criteria are looked at only after an accepted step", k.lor(len(d.conv) == 0, ok))
        k.check("the criteria are looked at only if enabled", k.lor(len(d.conv) == 0, k.lnot(d.disable)))
        k.check("the criteria are looked at after every accepted step if enabled", k.lor(len(d.conv) == 1, k.lnot(ok), d.disable))
        if d.conv:
            old, new, met = d.conv[-1]
            k.check("the last two records are compared", k.land(k.eq(new.x, d.end.x), k.eq(new.fval, d.end.fval), k.eq(old.x, d.begin.x),
                                                                k.eq(old.fval, d.begin.fval)))
            k.check("the run ends if a criterion is met", k.lor(k.lnot(met), d.stopped))

    d = Drive(k, post_iteration=each)
    res = d.run()
    met = d.stopped and d.conv and k.truth(d.conv[-1][2])
    msg = res["message"]
    if met:
        k.check("the reported criterion is the one that was met", msg == "Absolute criterion change smaller than tolerance.")
    else:
        k.check("no criterion is reported unless it was met", msg is None or "tolerance" not in msg)
