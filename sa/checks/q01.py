"""Model containment"""
import core
from common_model import *

MINIMUM = 5


def zmodel(F, R, xm, ym, z, key, ctx):
    """documented logical z, with every call to Surface::query resolved by its arguments"""
    top = surface_ptr(F, "getTopSurface")
    qs = R.calls(r"serial::Surface::query\(")
    zg = X(0)
    hit = None
    for e in qs:
        if same(e.args[0], top.d, e.guard) and same(e.args[1], xm.d, e.guard) and same(e.args[2], ym.d, e.guard):
            hit = e
    if hit is not None:
        zg = IF(top.nz(), X(hit.res), 0)
    d2 = F.arr("getDims", 2)
    return hit, -d2 * (zg - z) / (zg + d2)


def clamps(z):
    """accepted snapping of round-off just above the surface: up to 1e-3 m"""
    for t in (1.0e-4,):
        yield IF((z > 0) & (z < t), 0, z)
    yield z


def check(ctx):
    p = core.load(("lib",))
    R = Run(p, M + "::contains", OPAQUE)
    F = Fields(p, M, R.arg(0))
    tr = one(ctx, R, r"CRSTransformer::transform\(", "conversion of the point into the model CRS")
    for e in tr:
        transform_inputs_ok(ctx, "Model::contains", R, e, R.arg(1), R.arg(2), R.arg(3))
    e = tr[-1]
    xc, yc, zc = (R.outval(e, n) for n in (1, 2, 3))
    xm, ym = to_xy(F, xc, yc)
    hit, zm = zmodel(F, R, xm, ym, zc, "Model::contains", ctx)
    ctx.ob("Model::contains: top surface is evaluated at the model x,y of the point", hit is not None, R.fn.loc(), "no Surface::query on getTopSurface() at the rotated, translated coordinates; calls seen: " + "; ".join(f"({txt(e.args[1],90)} , {txt(e.args[2],90)})" for e in R.calls("Surface::query")))
    if hit is not None:
        d = [F.arr("getDims", i) for i in range(3)]
        best = None
        for z in clamps(zm):
            exp = (xm >= 0) & (xm <= d[0]) & (ym >= 0) & (ym <= d[1]) & (z <= 0) & (z >= -d[2])
            if same(tob(R.ret), exp.d, R.guard):
                best = z
            last = exp
        ctx.ob("Model::contains: result is 0<=x<=dim_x && 0<=y<=dim_y && -dim_z<=z<=0 in model coordinates", best is not None, R.fn.loc(), "differs when " + " / ".join(x[:400] for x in diff(tob(R.ret), last.d, R.guard)))
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)
