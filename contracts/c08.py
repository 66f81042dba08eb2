"""C08: trust-region geometry."""
import numpy as np

from contracts.c10 import val
from contracts.common import draw_case
from pyvc.contract import contract

R = "tranquilo.region:"
FNS = [R + f for f in ["Region", "_get_shape", "_any_bounds_binding", "_get_cube_bounds", "_create_cube_bounds", "_get_cube_center",
                       "_get_effective_center", "_get_effective_radius"]] + ["tranquilo.bounds:Bounds", "tranquilo.bounds:_any_finite"]
MAPS = [R + f for f in ["Region.map_to_unit", "Region.map_from_unit", "_map_to_unit_cube", "_map_to_unit_sphere", "_map_from_unit_cube",
                        "_map_from_unit_sphere"]]
ASSUME = ["the centre lies inside the bounds and every lower bound is below its upper bound (the start vector is inside the bounds and C01 keeps every "
          "accepted point there)"]
OPT = dict(deadline=120, assumptions=ASSUME)
KINDS = ["none", "absent", "lower", "upper", "both"]


def make(k, n, kind=None):
    """a region with bounds that contain its centre; returns region, lower, upper (None: absent)"""
    kind = str(k.choice("bounds", KINDS)) if kind is None else kind
    B = k.get("tranquilo.bounds:Bounds")
    c = k.array("center", (n,), gen=lambda g, s: g.integers(-24, 25, size=s) / 8 if g.random() < 0.4 else g.normal(size=s) * g.choice([0.5, 3.0, 100.0, 1e4]))
    r = k.pos("radius")
    lo = up = None
    if kind in ("lower", "both"):
        lo = k.array("lower", (n,), ext=True, gen=lambda g, s: np.where(g.random(s) < 0.3, -np.inf, c - g.choice([0.0, 0.5, 1.0, 3.0], size=s) * r * g.choice([1.0, g.random()])))
        k.assume(k.forall([n], lambda i: k.land(lo[i] <= c[i], k.lnot(k.has_kind(lo[i], "pinf")))))
    if kind in ("upper", "both"):
        up = k.array("upper", (n,), ext=True, gen=lambda g, s: np.where(g.random(s) < 0.3, np.inf, c + g.choice([0.0, 0.5, 1.0, 3.0], size=s) * r * g.choice([1.0, g.random()])))
        k.assume(k.forall([n], lambda i: k.land(up[i] >= c[i], k.lnot(k.has_kind(up[i], "ninf")))))
    if kind == "both":
        k.assume(k.forall([n], lambda i: lo[i] < up[i]))
    bounds = None if kind == "none" else B(lower=lo, upper=up)
    reg = k.call(k.get(R + "Region"), center=c, radius=r, bounds=bounds)
    return reg, c, r, lo, up


def dyadic(*arrays):
    """the differences of these numbers are computed without rounding"""
    a = np.concatenate([np.ravel(x) for x in arrays if x is not None])
    a = a[np.isfinite(a)]
    return bool(np.all(a * 256 == np.round(a * 256)) and np.all(np.abs(a) < 2.0 ** 30))


def tie(c, r, lo, up):
    if dyadic(c, r, lo, up):
        return False
    gaps = np.concatenate([np.ravel(g) for g in ([c - lo] if lo is not None else []) + ([up - c] if up is not None else []) + [[np.inf]]])
    return bool(np.any(np.abs(gaps - r) <= 1e-9 * (r + np.max(np.abs(c)))))


@contract("C08", FNS, **OPT)
def shape_and_box(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n)
    far = []
    if lo is not None:
        far.append(k.forall([n], lambda i: k.lnot(c[i] - lo[i] <= r)))
    if up is not None:
        far.append(k.forall([n], lambda i: k.lnot(up[i] - c[i] <= r)))
    box = reg.shape == "cube"
    k.check("a region is a ball or a box", box or reg.shape == "sphere")
    if not k.sym and tie(c, r, lo, up):
        pass  # exactly one radius away: decided by rounding
    elif not box:
        for f in far:
            k.check("a region is a ball only if every bound is more than one radius away", f)
    elif not k.sym:
        k.check("a region is a box only if some bound lies within one radius", not all(far))
    elif bool(k.bool("every_bound_is_far")):
        for f in far:
            k.assume(f)
        k.check("a region is a box only if some bound lies within one radius", False)
        return
    if not box:
        k.check("the effective centre of a ball is its centre", k.same(reg.effective_center, c))
        k.check("the effective radius of a ball is its radius", k.same(reg.effective_radius, r))
        k.check("a ball has no box bounds", k.raises(AttributeError, lambda: reg.cube_bounds) and k.raises(AttributeError, lambda: reg.cube_center))
        return
    rc = k.get("tranquilo.volume:get_radius_of_cube_with_volume_of_sphere")(r, n)
    b = reg.cube_bounds
    k.check("the box has the volume-equivalent side length, cut off at the lower bounds",
            k.eq(b.lower, k.np.maximum(c - rc, lo) if lo is not None else c - rc))
    k.check("the box has the volume-equivalent side length, cut off at the upper bounds",
            k.eq(b.upper, k.np.minimum(c + rc, up) if up is not None else c + rc))
    if lo is not None:
        k.check("the box does not extend below the lower bounds", k.forall([n], lambda i: b.lower[i] >= lo[i]))
    if up is not None:
        k.check("the box does not extend above the upper bounds", k.forall([n], lambda i: b.upper[i] <= up[i]))
    k.check("the box contains the centre and is not empty", k.forall([n], lambda i: k.land(b.lower[i] <= c[i], c[i] <= b.upper[i], b.lower[i] < b.upper[i])))
    k.check("the effective centre is the middle of the box", k.land(k.eq(reg.effective_center, (b.lower + b.upper) / 2), k.eq(reg.cube_center, reg.effective_center)))
    k.check("the effective radius is half the side length", k.eq(reg.effective_radius, (b.upper - b.lower) / 2))


def point(k, n, name):
    """one point or a stack of points; returns array and the row used in the checks"""
    if bool(k.bool("stack")):
        s = k.int("n_points", lo=1, cap=4)
        a = k.array(name, (s, n))
        j = k.int("row", lo=0, hi=s - 1)
        return a, j
    return k.array(name, (n,)), None


def at(k, a, j, i):
    return val(k, a, i) if j is None else val(k, a, j, i)


@contract("C08", FNS + MAPS, **OPT)
def unit_mapping(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n)
    ball = reg.shape == "sphere"
    x, j = point(k, n, "x")
    keep = x.copy()
    u = k.call(reg.map_to_unit, x)
    k.check("the argument is not changed", k.same(x, keep))
    k.check("unit coordinates have the shape of the points", k.shape_is(u, *([n] if j is None else [k.len(x), n])))
    er = (lambda i: reg.effective_radius) if ball else (lambda i: val(k, reg.effective_radius, i))
    k.check("effective centre and radius describe the mapping",
            k.forall([n], lambda i: k.eq(at(k, u, j, i) * er(i), at(k, x, j, i) - val(k, reg.effective_center, i))))
    z = k.call(reg.map_to_unit, reg.effective_center)
    k.check("the effective centre is the origin of the unit coordinates", k.eq(z, z * 0.0, atol=1e-7))
    if ball:
        k.check("points in the ball, and only they, are in the unit ball",
                k.close_iff(k.sum(n, lambda i: (at(k, x, j, i) - val(k, c, i)) * (at(k, x, j, i) - val(k, c, i))), r * r,
                            k.sum(n, lambda i: at(k, u, j, i) * at(k, u, j, i)), 1.0))
    else:
        b = reg.cube_bounds
        k.check("points in the box, and only they, are in the unit cube", k.forall([n], lambda i: k.land(
            k.close_iff(val(k, b.lower, i), at(k, x, j, i), -1.0, at(k, u, j, i)), k.close_iff(at(k, x, j, i), val(k, b.upper, i), at(k, u, j, i), 1.0))))


@contract("C08", FNS + MAPS, **OPT)
def mapping_back(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n)
    ball = reg.shape == "sphere"
    v, j = point(k, n, "u")
    keep = v.copy()
    x = k.call(reg.map_from_unit, v)
    k.check("the argument is not changed", k.same(v, keep))
    k.check("points have the shape of the unit coordinates", k.shape_is(x, *([n] if j is None else [k.len(v), n])))
    if not ball:
        b = reg.cube_bounds
        k.check("whatever is mapped, the result is in the box, and so inside the bounds", k.forall([n], lambda i: k.land(
            at(k, x, j, i) >= val(k, b.lower, i), at(k, x, j, i) <= val(k, b.upper, i))))
    w = k.call(reg.map_to_unit, x)
    i = k.int("coordinate", lo=0, hi=n - 1)
    inside = True if ball else k.land(at(k, v, j, i) >= -1, at(k, v, j, i) <= 1)
    k.check("mapping to unit coordinates inverts mapping back", k.implies(inside, lambda: k.eq(at(k, w, j, i), at(k, v, j, i), atol=1e-6)))


@contract("C08", FNS + MAPS, **OPT)
def mapping_there_and_back(k):
    n = k.int("n_params", lo=1, cap=5)
    reg, c, r, lo, up = make(k, n)
    ball = reg.shape == "sphere"
    x, j = point(k, n, "x")
    if not ball and not k.sym:  # points inside, on the border and outside
        x = np.where(np.abs(x) < 1, reg.effective_center + reg.effective_radius * x, x)
    back = k.call(reg.map_from_unit, k.call(reg.map_to_unit, x))
    i = k.int("coordinate", lo=0, hi=n - 1)
    inside = True
    if not ball:
        b = reg.cube_bounds
        inside = k.land(at(k, x, j, i) >= val(k, b.lower, i), at(k, x, j, i) <= val(k, b.upper, i))
    k.check("mapping back inverts mapping to unit coordinates for every point of the region",
            k.implies(inside, lambda: k.eq(at(k, back, j, i), at(k, x, j, i))))


@contract("C08", FNS + MAPS, prove=False, rac_n=150, rac_s=15)
def along_runs(k):
    case = draw_case(k, faults="none")
    run = case.run()
    k.assume(run.res is not None)
    lo = np.full(case.n, -np.inf) if case.lower is None else case.lower
    up = np.full(case.n, np.inf) if case.upper is None else case.upper
    from tranquilo.volume import get_radius_of_cube_with_volume_of_sphere as vol
    for s in run.res["states"]:
        t = s.trustregion
        near = bool((t.center - lo <= t.radius).any() or (up - t.center <= t.radius).any())
        if tie(t.center, t.radius, lo, up):
            continue
        k.check("regions are boxes exactly if some bound is near", (t.shape == "cube") == near, case.describe)
        if near:
            rc = vol(t.radius, case.n)
            k.check("the box is the volume-equivalent cube, cut off at the user's bounds",
                    k.eq(t.cube_bounds.lower, np.maximum(t.center - rc, lo)) and k.eq(t.cube_bounds.upper, np.minimum(t.center + rc, up)), case.describe)
