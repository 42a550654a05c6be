"""NODATA propagates through 3-D interpolation: the result is NODATA_VALUE exactly when a corner that is used holds it"""
from common_slab import *
from q07 import final_values, sub_leaves, isval, leaf_guards

MINIMUM = 8
NODATA = -1.0e20
SINGLE = Fraction(-100000002004087734272)     # NODATA_VALUE as it comes back from a dataset stored in single precision
ORDINARY = [Fraction(2), Fraction(0), Fraction(1), Fraction(-1), Fraction(5000), Fraction(-5000), Fraction(10) ** 6, Fraction(-999), Fraction(1, 1000), Fraction(-10) ** 9]


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("block interpolation", interp, ctx, p, False)
    ctx.guard("block interpolation, last grid point", interp, ctx, p, True)
    ctx.guard("nearest", near, ctx, p)


def loads(S, dd, g):
    out = {}
    for l, gl in leaf_guards(dd, g):
        sub_leaves(l, isval(S), set(), out)
    return out


def interp(ctx, p, edge):
    S = Slab(p, 4)
    key = "block interpolation" + (" at the last grid point" if edge else "")
    if edge:
        st, asm = S.use_edge()
    else:
        st, asm = S.stgen.copy(), S.cached()
    R = S.run("interpolate", st, asm)
    fv = final_values(S, R)
    if not fv:
        ctx.und(key, "no loop writing the result array was recognised"); return
    for lp, g, v, hit in fv:
        g0 = AND(g, asm)
        e = hit[-1]
        # groups of corner loads that are combined into one result
        groups = {}
        for l, gl in leaf_guards(v, g0):
            if l.const is None:
                c = sub_leaves(l, isval(S), set(), {})
                if c:
                    k = tuple(sorted(c))
                    groups[k] = (c, OR(groups[k][1], gl) if k in groups else gl)
        if not groups:
            ctx.und(key, "no interpolated value was recognised"); continue
        for c, gl in groups.values():
            # paths on which these corners are the ones of the cell, whatever their values are
            gg = forget(gl, c)
            gg = AND(gg, g0)
            if len(c) > 8:
                ctx.und(key, f"{len(c)} grid values combined"); continue
            ok = True; why = ""
            for V in c.values():
                m = {x.fp: gvn.const(2) for x in c.values()}
                for nd in (gvn.const(NODATA), gvn.const(SINGLE)):
                    m[V.fp] = nd
                    bad = results(S, v, gg, m, lambda l: l.const != Fraction(NODATA))
                    if bad:
                        break
                if bad:
                    ok = False; why = f"corner value {txt(V, 120)} is NODATA_VALUE, the others 2: result {txt(bad[0][0], 80)} when {' / '.join(cubes(bad[0][1], ONE, 1))[-200:]}"
            ctx.ob(f"{key}: a corner holding NODATA_VALUE makes the result NODATA_VALUE", ok, e.loc(), why)
            m = {x.fp: gvn.const(NODATA) for x in c.values()}
            bad = results(S, v, gg, m, lambda l: l.const != Fraction(NODATA))
            ctx.ob(f"{key}: all corners holding NODATA_VALUE make the result NODATA_VALUE", not bad, e.loc(), "" if not bad else f"result {txt(bad[0][0], 80)}")
            for o in ORDINARY:
                m = {x.fp: gvn.const(o) for x in c.values()}
                bad = results(S, v, gg, m, lambda l: l.const == Fraction(NODATA))
                ctx.ob(f"{key}: ordinary corner values give an interpolated value (corners {float(o):g})", not bad, e.loc(), "" if not bad else f"NODATA_VALUE although every corner is {float(o):g}")
            ctx.count(corner_groups=1, corners=len(c))
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def results(S, v, g, m, wrong):
    d = restrict(v, m); gg = restrict(g, m)
    out = []
    for l, gl in leaf_guards(d, gg):
        l2 = subst(l, m)
        if sub_leaves(l2, isval(S), set(), {}):
            continue                # other grid values: another group
        if wrong(l2):
            out.append((l2, gl))
    return out


def forget(g, c):
    """g with every condition on the grid values in c forgotten (existential)"""
    memo = {}
    def dep(v):
        i = gvn._varinfo[v]
        return i is not None and any(sub_leaves(x, lambda q: q.fp in c, set(), {}) for x in gvn.var_leaf(v))
    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            a, b = go(x.hi), go(x.lo)
            r = OR(a, b) if dep(x.var) else ite(gvn.mk(x.var, ONE, ZERO), a, b)
            memo[x.id] = r
        return r
    return go(g)


def near(ctx, p):
    S = Slab(p, 4)
    R = S.run("nearest", S.stgen.copy(), S.cached())
    for lp, g, v, hit in final_values(S, R):
        g0 = AND(g, S.cached())
        c = loads(S, v, g0)
        m = {f: gvn.const(NODATA) for f in c}
        bad = results(S, v, forget(g0, c), m, lambda l: l.const != Fraction(NODATA))
        ctx.ob("nearest: a grid point holding NODATA_VALUE gives NODATA_VALUE", not bad, hit[-1].loc(), "" if not bad else f"result {txt(bad[0][0], 80)}")
        for o in ORDINARY:
            m = {f: gvn.const(o) for f in c}
            bad = results(S, v, forget(g0, c), m, lambda l: l.const == Fraction(NODATA))
            ctx.ob(f"nearest: an ordinary value is not replaced ({float(o):g})", not bad, hit[-1].loc(), "" if not bad else "NODATA_VALUE")
