"""C20: conversions between radii and volumes."""
from pyvc.contract import contract

V = "tranquilo.volume:"
FNS = [V + f for f in ["get_volume", "get_radius", "_sphere_volume", "_cube_volume", "_sphere_radius", "_cube_radius"]]
CONV = [V + "get_radius_of_sphere_with_volume_of_cube", V + "get_radius_of_cube_with_volume_of_sphere"]
NOTE = ["exp, log and the gamma function are exact inverses and real valued (floating-point rounding and overflow are left out)"]


def dim(k):
    return k.int("dim", lo=1, cap=60)


def shape(k):
    return k.choice("shape", ["sphere", "cube"])


def radius(k):
    return k.pos("radius")


def gamma_half(k, n):
    """gamma(n/2 + 1)"""
    if k.sym:
        from pyvc.npshim import sym_gamma

        return sym_gamma(n / 2 + 1)
    from scipy.special import gamma

    return gamma(n / 2 + 1)


@contract("C20", FNS, assumptions=NOTE)
def volume_and_radius(k):
    n, r, s = dim(k), radius(k), shape(k)
    vol, rad = k.get(V + "get_volume"), k.get(V + "get_radius")
    v = k.call(vol, r, n, s)
    k.check("volumes are positive", v > 0)
    k.check("the radius of the volume of a radius is that radius", k.log_eq(k.call(rad, v, n, s), r))
    w = k.pos("volume")
    k.check("the volume of the radius of a volume is that volume", k.log_eq(k.call(vol, k.call(rad, w, n, s), n, s), w))


@contract("C20", FNS, assumptions=NOTE)
def volumes_are_the_volumes(k):
    n, r = dim(k), radius(k)
    vol = k.get(V + "get_volume")
    cube = k.call(vol, r, n, "cube")
    k.check("a cube of radius r has volume (2 r)^n", k.log_eq(cube, (2 * r) ** n))
    sphere = k.call(vol, r, n, "sphere")
    k.check("a ball of radius r has volume pi^(n/2) r^n / gamma(n/2 + 1)", k.log_eq(sphere * gamma_half(k, n), k.np.pi ** (n / 2) * r ** n))


@contract("C20", FNS + CONV, assumptions=NOTE)
def shape_conversions(k):
    n, r = dim(k), radius(k)
    vol = k.get(V + "get_volume")
    to_s, to_c = [k.get(f) for f in CONV]
    kw, f = {}, 1
    if k.bool("scaled"):
        f = k.pos("scaling_factor")
        kw = dict(scaling_factor=f)
    s = k.call(to_s, r, n, **kw)
    k.check("the ball has the volume of the cube, times the factor", k.log_eq(k.call(vol, s, n, "sphere"), k.call(vol, r, n, "cube") * f))
    c = k.call(to_c, r, n, **kw)
    k.check("the cube has the volume of the ball, times the factor", k.log_eq(k.call(vol, c, n, "cube"), k.call(vol, r, n, "sphere") * f))
    if not kw:
        k.check("cube to ball to cube is the identity", k.log_eq(k.call(to_c, s, n), r))
        k.check("ball to cube to ball is the identity", k.log_eq(k.call(to_s, c, n), r))


@contract("C20", FNS + [V + "get_radius_after_volume_scaling"], assumptions=NOTE)
def volume_scaling(k):
    n, r, s, f = dim(k), radius(k), shape(k), k.pos("scaling_factor")
    vol = k.get(V + "get_volume")
    out = k.call(k.get(V + "get_radius_after_volume_scaling"), r, n, f)
    k.check("the scaled shape has the original volume times the factor", k.log_eq(k.call(vol, out, n, s), k.call(vol, r, n, s) * f))


@contract("C20", CONV, assumptions=NOTE)
def many_dimensions(k):
    """the conversions hold far beyond the dimensions in which the gamma function itself overflows"""
    n, r = k.int("dim", lo=1, cap=3000), radius(k)
    to_s, to_c = [k.get(f) for f in CONV]
    s, c = k.call(to_s, r, n), k.call(to_c, r, n)
    k.check("cube to ball to cube is the identity", k.log_eq(k.call(to_c, s, n), r))
    k.check("ball to cube to ball is the identity", k.log_eq(k.call(to_s, c, n), r))
    f = k.pos("scaling_factor")
    k.check("the factor scales the volume of the ball", k.log_eq(k.call(to_s, r, n, scaling_factor=f), s * f ** (1 / n)))
    k.check("the factor scales the volume of the cube", k.log_eq(k.call(to_c, r, n, scaling_factor=f), c * f ** (1 / n)))


@contract("C20", FNS, prove=False, rac_n=20)
def other_shapes(k):
    k.check("unknown shapes are rejected", k.raises(ValueError, k.get(V + "get_volume"), 1.0, 2, "ball") and k.raises(ValueError, k.get(V + "get_radius"), 1.0, 2, "ball"))
