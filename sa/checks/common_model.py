"""Expected value numbers of the coordinate pipeline of serial::Model, stated over its public getters."""
from spec import *

OPAQUE = [r"CRSTransformer::(transform|inverse_transform)\(", r"serial::Surface::query\(", r"serial::Block::(query|getZTop|getZBottom)\("]
M = "serial::Model"


def surface_ptr(F, getter):
    """value of the shared_ptr returned by getter (pointer part)"""
    return ld(None, F.get(getter), 0)


def az(F):
    r = F.get("getYAzimuth") * PI / 180
    return cos(r), sin(r)


def to_xy(F, xc, yc):
    c, s = az(F)
    xr = xc - F.arr("getOrigin", 0); yr = yc - F.arr("getOrigin", 1)
    return xr * c - yr * s, xr * s + yr * c


def from_xy(F, xm, ym):
    c, s = az(F)
    return xm * c + ym * s + F.arr("getOrigin", 0), -xm * s + ym * c + F.arr("getOrigin", 1)


def ground(F, R, getter, xm, ym):
    """(pointer, elevation of the surface at model coordinates)"""
    return surface_ptr(F, getter)


def one(ctx, R, rx, what):
    from core import AnalysisBroken
    es = R.calls(rx)
    if not es:
        raise AnalysisBroken(f"{R.fn.short}: no call matching {rx} ({what})")
    return es


def transform_inputs_ok(ctx, key, R, e, x, y, z, zneeded=True):
    for n, v, nm in ((4, x, "x"), (5, y, "y"), (6, z, "z")):
        if nm == "z" and not zneeded:
            continue
        ctx.ob(f"{key}: CRS transform receives the caller's {nm}", same(e.args[n], X(v).d, e.guard), e.loc(), f"argument is {txt(e.args[n])}, expected {txt(v)}; {diff(e.args[n], v, e.guard)}")


def tol_clamp(z, tol):
    return IF((z > 0) & (z < tol), 0, z)
