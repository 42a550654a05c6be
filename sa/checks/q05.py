"""Squashing"""
from common_query import *

MINIMUM = 6


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("query", main, ctx, p)
    ctx.guard("setters", setters, ctx, p)


def main(ctx, p):
    R = run_query(p)
    for e in one(ctx, R, r"serial::Model::contains\(", "containment test"):
        for l in care_leaves(e.args[0], e.guard):
            sq, mn, en, z, t, b = squash_expected(p, R, l)
            g = AND(e.guard, app1("s", lambda x: ONE if x is l else ZERO, e.args[0]))
            known = ZERO
            for v in en.values():
                known = OR(known, sq.eq(v).d)
            def formula(s):
                return s + z * (mn - s) / mn
            for nm, surf in (("SQUASH_TOP_SURFACE", t), ("SQUASH_TOPOGRAPHY_BATHYMETRY", b)):
                gg = AND(AND(g, sq.eq(en[nm]).d), (z > mn).d)
                if surf is None:
                    ctx.ob(f"{nm}: elevation of the surface is queried", False, e.loc(), "the surface used for squashing is never queried"); continue
                ok = same(e.args[3], formula(surf).d, gg)
                ctx.ob(f"{nm}: z above the minimum elevation becomes surf + z*(min-surf)/min", ok, e.loc(), f"z is {txt(e.args[3], 200)}: " + " / ".join(diff(e.args[3], formula(surf), gg))[:300])
                gb = AND(AND(g, sq.eq(en[nm]).d), (z <= mn).d)
                ctx.ob(f"{nm}: z at or below the minimum elevation is unchanged", same(e.args[3], z.d, gb), e.loc(), " / ".join(diff(e.args[3], z, gb))[:300])
            ctx.ob("SQUASH_NONE: z is unchanged", same(e.args[3], z.d, AND(g, sq.eq(en["SQUASH_NONE"]).d)), e.loc(), " / ".join(diff(e.args[3], z, AND(g, sq.eq(en["SQUASH_NONE"]).d)))[:300])
    for e in R.calls(r"serial::Model::query(Top|Topo)"):
        ctx.ob(f"squashing surface {e.callee.split('(')[0].split('::')[-1]} is evaluated at the caller's x,y", same(e.args[1], R.arg(2).d, e.guard) and same(e.args[2], R.arg(3).d, e.guard), e.loc(), f"({txt(e.args[1])}, {txt(e.args[2])})")
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def setters(ctx, p):
    """setSquashMinElev turns squashing on (top surface) only when it is off; setSquashing sets the mode; defaults off"""
    en = enum(p, "Query::SquashingEnum")
    so = setter_field(p, QQ, "setSquashing"); mo = setter_field(p, QQ, "setSquashMinElev")
    ctx.ob("setSquashing stores the mode, setSquashMinElev the elevation", so is not None and mo is not None, "", "argument is not stored")
    if so is None or mo is None:
        return
    R = Run(p, QQ + "::setSquashMinElev")
    a = X(padd(R.arg(0).d, gvn.const(so)))
    old = ld(None, a); new = cur(R, a, "i32", 4)
    ctx.ob("setSquashMinElev turns squashing on if it is off and keeps the mode otherwise", same(new.d, IF(old.eq(en["SQUASH_NONE"]), en["SQUASH_TOP_SURFACE"], old).d, R.guard), R.fn.loc(), f"mode becomes {txt(new)}")
    C = Run(p, QQ + "::Query")
    v = cur(C, X(padd(C.arg(0).d, gvn.const(so))), "i32", 4)
    ctx.ob("squashing is off by default", isinstance(v.d, Leaf) and v.d.const == en["SQUASH_NONE"], C.fn.loc(), f"mode is {txt(v)}")
    S = Run(p, QQ + "::setSquashing")
    v = cur(S, X(padd(S.arg(0).d, gvn.const(so))), "i32", 4)
    ctx.ob("setSquashing sets exactly the requested mode", v.d is S.arg(1).d, S.fn.loc(), txt(v))
    m = ld(None, X(padd(S.arg(0).d, gvn.const(mo)))); v = cur(S, X(padd(S.arg(0).d, gvn.const(mo))))
    ctx.ob("setSquashing keeps the minimum elevation", v.d is m.d, S.fn.loc(), txt(v))
