"""Interpolated values are the multilinear interpolant of the 2^d corners of the cell containing the index"""
import itertools

from common_slab import *
from common_span import span

MINIMUM = 20


def check(ctx):
    p = core.load(("lib",))
    for nd in (3, 4):
        ctx.guard(f"interpolate rank {nd-1}", interp, ctx, p, nd)
        ctx.guard(f"interpolate rank {nd-1}, whole dataset", interp, ctx, p, nd, True)
        ctx.guard(f"nearest rank {nd-1}", nearest, ctx, p, nd)


def final_values(S, R):
    """[(loop, guard, DD of the value left in values[it])] for every loop that writes the result array"""
    out = []
    for lp in R.ev.loopinfo.values():
        if lp.get("it") is None:
            continue
        a = padd(S.vals, l_mul(lp["it"], gvn.const(8)))
        hit = [e for e in R.stores() if isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == ptrparts(S.vals)[0] and e.instr.fn is lp["fn"] or e.loops and isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == ptrparts(S.vals)[0]]
        if not hit:
            continue
        for f, g, s in lp["back"]:
            v = R.ev.load(s, a, "double", 8, None)
            if isinstance(v, Leaf) and v.tree[:2] == ("fn", "ld"):
                continue
            out.append((lp, g, v, hit))
    return out


def sub_leaves(l, pred, seen=None, out=None, depth=0):
    if out is None:
        out = {}; seen = set()
    if isinstance(l, Leaf):
        if l.fp in seen:
            return out
        seen.add(l.fp)
        if pred(l):
            out[l.fp] = l
        for x in l.tree[1:]:
            sub_leaves(x, pred, seen, out, depth + 1)
    return out


def isval(S):
    vb = ptrparts(S.VALS)[0]
    def f(l):
        a = deref(l)
        return a is not None and ptrparts(a)[0] == vb
    return f


def corner_candidates(S, l, i, g):
    """possible (lower corner along axis i, step to the upper corner), with the reason they are valid under g"""
    t = (S.t(i) - S.org(i)).d
    d = S.dim(i)
    out = []
    fl = sub_leaves(l, lambda x: x.tree[:2] in (("fn", "floor"), ("fn", "trunc"), ("fn", "round"), ("fn", "ceil"), ("fn", "rint"), ("fn", "nearbyint")))
    for x in fl.values():
        inner = x.tree[2]
        c = l_sub(inner, t).const if isinstance(inner, Leaf) else None
        # conversions nest: trunc(floor(..))
        while c is None and isinstance(inner, Leaf) and inner.tree[:2] in (("fn", "floor"), ("fn", "trunc")):
            inner = inner.tree[2]; c = l_sub(inner, t).const
        if c is None:
            continue
        good = x.tree[1] in ("floor", "trunc") and -1e-6 <= c <= 0
        if S.edge and c == 0 and not implies(g, (X(x) < d - 1).d):
            good = False            # at the last grid point the cell would lie outside the slab
        out.append((X(x), 1, good, f"{x.tree[1]}(index{float(c):+g})"))
        # already the upper corner of the last cell
    zero = X(0)
    ok = False
    for x in fl.values():
        inner = x.tree[2]
        c = l_sub(inner, t).const if isinstance(inner, Leaf) else None
        if c is not None and -1e-6 <= c <= 0 and (implies(g, (X(x) < 0).d) or implies(g, (X(x) <= 0).d)):
            ok = True
    for v in gvn.support(g, set(), set()):
        for x in gvn.var_leaf(v):
            for y in sub_leaves(x, lambda q: q.tree[:2] == ("fn", "floor")).values():
                c = l_sub(y.tree[2], t).const if isinstance(y.tree[2], Leaf) else None
                if c is not None and -1e-6 <= c <= 0 and (implies(g, (X(y) < 0).d) or implies(g, (X(y) <= 0).d)):
                    ok = True
    if implies(g, (X(t) < 1).d):
        ok = True
    out.append((zero, 1, ok, "0"))
    last = d - 2
    out.append((last, 1, implies(g, (X(t) >= last).d) or implies(g, (FN("floor", X(t)) > last).d) or implies(g, (FN("floor", X(t)) >= last).d), "dims-2"))
    one = implies(g, (d <= 1).d) or implies(g, d.eq(1).d)
    res = out + [(L, 0, ok2 and one, n + " (single point)") for L, s, ok2, n in out]
    return res


def expected(S, it, corners):
    """sum of the 2^d weighted corner values"""
    sd = S.sd
    stride = [None] * (sd + 1)
    stride[sd] = X(1); acc = S.dim(sd)
    strides = []
    for i in reversed(range(sd)):
        strides.insert(0, acc); acc = acc * S.dim(i)
    tot = None
    for bits in itertools.product((0, 1), repeat=sd):
        w = X(1); ix = it
        for i, b in enumerate(bits):
            L, step = corners[i]
            x = S.t(i) - S.org(i) - L
            w = w * (x if b else X(1) - x)
            ix = ix + (L + (step if b else 0)) * strides[i]
        v = w * ld(None, padd(S.VALS, (ix * 8).d), ver=S.ver)
        tot = v if tot is None else tot + v
    return tot


def extents(ctx, key, S, R):
    """the result array is written for exactly the values stored at a point"""
    seen = set()
    for e in R.stores():
        a = e.args[0]
        if not isinstance(a, Leaf) or ptrparts(a)[0] != ptrparts(S.vals)[0] or not e.loops:
            continue
        i = l_div(l_sub(a, S.vals), gvn.const(8))
        t = (i.fp, tuple(e.loops))
        if t in seen:
            continue
        seen.add(t)
        span(ctx, f"{key}: the values stored at a point are given, and no more", R.ev, e.loops, i, [S.dim(S.nd - 1).d], e.loc(), "values")


def interp(ctx, p, nd, edge=False):
    S = Slab(p, nd)
    key = f"interpolate in {nd-1}-D"
    if edge:
        key += " (index of the last grid point)"
        st, asm = S.use_edge()
    else:
        st, asm = S.stgen.copy(), S.cached()
    R = S.run("interpolate", st, asm)
    extents(ctx, key, S, R)
    fv = final_values(S, R)
    if not fv:
        ctx.und(key, "no loop writing the result array was recognised"); return
    n = 0
    rd = R.calls(r"serial::HDF5::readDatasetHyperslab\(")
    if edge:
        vs = {id(x): x for e in rd for k, x in e.outs.items() if x[0] is S.VALS}
        if len(rd) != 1 or not vs:
            ctx.und(key, "slab read not recognised"); return
        S.ver = list(vs.values())[0][1]
    for lp, g, v, hit in fv:
        it = X(lp["it"])
        g0 = AND(g, asm)
        e = hit[-1]
        # the loop covers all values stored at a point
        nval = S.dim(nd - 1)
        full = AND(AND(lp["guard"], asm), (it < nval).d)
        ctx.ob(f"{key}: every value stored at a point is interpolated", implies(AND(full, R.guard), g), e.loc(), "skipped when " + " / ".join(cubes(AND(AND(full, R.guard), NOT_(g)), ONE, 1))[-200:])
        # split on all conditions that select the value
        for l, gl in leaf_guards(v, g0):
            if l.const is not None:
                continue            # NODATA (decided by Q08)
            n += 1
            vals = sub_leaves(l, isval(S))
            cands = [corner_candidates(S, l, i, gl) for i in range(S.sd)]
            match = None
            for combo in itertools.product(*cands):
                if expected(S, it, [(c[0], c[1]) for c in combo]).d is l:
                    match = combo
                    if all(c[2] for c in combo):
                        break
            known = unknown_atoms(S, l, it)
            if match is None:
                if known:
                    ctx.und(key, f"value depends on {[txt(x, 60) for x in known][:3]}"); continue
                ctx.ob(f"{key}: value is the sum of the corner values of the cell weighted by the product of the distances to the opposite faces", False, e.loc(), f"{len(vals)} grid values are combined; no choice of cell corner makes the expression multilinear interpolation: {txt(l, 500)}")
                continue
            ctx.ob(f"{key}: value is the sum of the corner values of the cell weighted by the product of the distances to the opposite faces", True, e.loc(), "")
            for i, c in enumerate(match):
                ctx.ob(f"{key}: lower corner along axis {i} is the grid point at or below the index", c[2], e.loc(), f"lower corner is {c[3]} when " + " / ".join(cubes(gl, ONE, 1))[-300:])
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks, paths=n)


def leaf_guards(v, g):
    """[(leaf, guard of the paths leading to it)]: one entry per satisfying assignment of the conditions deciding v"""
    out = {}
    def go(x, acc):
        if acc is ZERO:
            return
        if not isinstance(x, Node):
            out[x.fp] = (x, OR(out[x.fp][1], acc) if x.fp in out else acc)
            return
        b = gvn.mk(x.var, ONE, ZERO)
        go(x.hi, AND(acc, b)); go(x.lo, AND(acc, NOT_(b)))
    go(ite(g, v, gvn.BOT), g)
    out.pop(gvn.BOT.fp, None)
    return [(l, gg) for l, gg in out.values() if gvn.feasible(gg)]


def unknown_atoms(S, l, it):
    """sub-expressions that are neither grid values, indices, origin, extents, the loop counter nor rounding of those"""
    bases = {ptrparts(S.VALS)[0], ptrparts(S.ORIG)[0], ptrparts(S.DIMS)[0], ptrparts(S.idx)[0]}
    bad = {}
    def go(x, seen):
        if not isinstance(x, Leaf) or x.fp in seen:
            return
        seen.add(x.fp)
        a = deref(x)
        if a is not None:
            if ptrparts(a)[0] in bases:
                if ptrparts(a)[0] == ptrparts(S.VALS)[0]:
                    go(ptrparts(a)[1], seen)
                return
            bad[x.fp] = x; return
        if x.const is not None or x is it.d:
            return
        if x.tree[0] in "+-*/" or x.tree[:2] in (("fn", "floor"), ("fn", "trunc"), ("fn", "round"), ("fn", "ceil"), ("fn", "fabs")):
            for y in x.tree[1:]:
                go(y, seen)
            return
        bad[x.fp] = x
    go(l, set())
    return list(bad.values())


def nearest(ctx, p, nd):
    S = Slab(p, nd)
    key = f"nearest in {nd-1}-D"
    R = S.run("nearest", S.stgen.copy(), S.cached())
    extents(ctx, key, S, R)
    fv = final_values(S, R)
    if not fv:
        ctx.und(key, "no loop writing the result array was recognised"); return
    for lp, g, v, hit in fv:
        it = X(lp["it"]); e = hit[-1]; g0 = AND(g, S.cached())
        acc = S.dim(S.sd); strides = []
        for i in reversed(range(S.sd)):
            strides.insert(0, acc); acc = acc * S.dim(i)
        got = False
        for l, gl in leaf_guards(v, g0):
            if l.const is not None and float(l.const) == -1.0e20:
                continue
            exp = None
            for fn in ("round", "rint", "nearbyint"):
                ix = it
                for i in range(S.sd):
                    ix = ix + FN(fn, S.t(i) - S.org(i)) * strides[i]
                x = ld(None, padd(S.VALS, (ix * 8).d))
                if x.d is l:
                    exp = x
            if exp is None and unknown_atoms(S, l, it):
                ctx.und(key, f"value {txt(l, 100)}"); continue
            got = True
            ctx.ob(f"{key}: value is that of the grid point nearest to the index", exp is not None, e.loc(), f"result is {txt(l, 300)}")
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)
