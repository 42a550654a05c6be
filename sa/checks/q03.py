"""Surface elevation queries"""
import core
from common_model import *
from common_span import span

MINIMUM = 14


def model_elev(ctx, p, name, getters):
    R = Run(p, f"{M}::{name}", OPAQUE)
    F = Fields(p, M, R.arg(0))
    key = f"Model::{name}"
    tr = R.calls(r"CRSTransformer::transform\(")
    inv = R.calls(r"CRSTransformer::inverse_transform\(")
    ctx.ob(f"{key}: point is converted to the model CRS and the elevation back", bool(tr) and bool(inv), R.fn.loc(), "conversion missing")
    if not tr or not inv:
        return
    for e in tr:
        transform_inputs_ok(ctx, key, R, e, R.arg(1), R.arg(2), X(0))
    xc, yc = R.outval(tr[0], 1), R.outval(tr[0], 2)
    xm, ym = to_xy(F, xc, yc)
    # which surface
    S = [surface_ptr(F, g) for g in getters]
    have = FALSE
    for s in S:
        have = have | s.nz()
    want = X(0)
    qs = R.calls(r"serial::Surface::query\(")
    for s in reversed(S):
        h = [e for e in qs if any(l is s.d for l in leaves(e.args[0]).values())]
        hh = None
        for e in h:
            sel = AND(e.guard, app1("s", lambda l: ONE if l is s.d else ZERO, e.args[0]))
            if same(e.args[1], xm.d, sel) and same(e.args[2], ym.d, sel):
                hh = e
        ctx.ob(f"{key}: surface {getters[S.index(s)]}() is evaluated at the model x,y of the point", hh is not None, R.fn.loc(), "; ".join(f"({txt(e.args[1],120)}, {txt(e.args[2],120)})" for e in h) or "surface never queried")
        if hh is None:
            return
        res = app1("r", lambda l: l, hh.res)
        want = IF(s.nz(), X(hh.res), want) if not isinstance(hh.args[0], Node) else X(hh.res)
    xo, yo = from_xy(F, xm, ym)
    for e in inv:
        g = AND(e.guard, R.guard)
        if g is ZERO:
            continue
        for n, v, nm in ((4, xo, "x"), (5, yo, "y")):
            ctx.ob(f"{key}: elevation is converted back at the point's model-CRS {nm}", same(e.args[n], v.d, g), e.loc(), f"argument is {txt(e.args[n], 400)}")
        ctx.ob(f"{key}: the surface elevation is what is converted back", same(e.args[6], want.d, g), e.loc(), f"argument is {txt(e.args[6])}, expected {txt(want)}")
    e = inv[-1]
    ctx.ob(f"{key}: returns the converted elevation, 0 when the model has no surface", same(R.ret, IF(have, R.outval(e, 3), 0).d, R.guard), R.fn.loc(), f"returns {txt(R.ret)}; " + " / ".join(diff(R.ret, IF(have, R.outval(e, 3), 0), R.guard))[:300])
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def query_elev(ctx, p, name):
    """Query::queryXxx: elevation of the first model that contains the point"""
    R = Run(p, f"serial::Query::{name}", [r"serial::Model::"])
    key = f"Query::{name}"
    cs = one(ctx, R, r"serial::Model::contains\(", "containment test")
    qs = one(ctx, R, rf"serial::Model::{name}\(", "model elevation")
    for e in R.calls(r"serial::Model::query(Top|Topo)"):
        ctx.ob(f"{key}: asks the models for the same surface", f"::{name}(" in e.callee, e.loc(), f"calls {e.callee}")
    for e in qs:
        for n, nm in ((1, "x"), (2, "y")):
            ctx.ob(f"{key}: passes the caller's {nm} to the model", same(e.args[n], R.arg(n).d, e.guard), e.loc(), f"passes {txt(e.args[n])}")
    for c in cs:
        q = [e for e in qs if e.args[0] is c.args[0]]
        if not q:
            ctx.ob(f"{key}: containment is tested on the model that supplied the elevation", False, c.loc(), "different model object")
            continue
        q = q[0]
        ctx.ob(f"{key}: containment is tested at the caller's x,y", same(c.args[1], R.arg(1).d, c.guard) and same(c.args[2], R.arg(2).d, c.guard), c.loc(), f"({txt(c.args[1])},{txt(c.args[2])})")
        d = X(q.res) - X(c.args[3])
        off = [l.const for l in care_leaves(d.d, c.guard)]
        ctx.ob(f"{key}: containment is tested just below the surface", all(o is not None and 0 < o <= 1 for o in off), c.loc(), f"offset below the surface is {[None if o is None else float(o) for o in off]}")
        if any(gvn._varinfo[v] and gvn._varinfo[v][0] == "sticky" for v in gvn.support(c.guard, set(), set())):
            ctx.und("the search for the model containing the point", "goes on with a flag set"); continue
        inside = X(c.res).nz()
        lp = None
        for v in R.ev.loopinfo.values():
            if c.instr.bb in c.instr.fn.loops().get(v["header"], ()) and v["fn"] is c.instr.fn:
                lp = v
        if lp is None:
            ctx.und(key, "no loop over the models recognised"); continue
        ctx.ob(f"{key}: the search goes on only while the point is outside", AND(backguard(lp), inside.d) is ZERO, c.loc(), "a later model can replace the elevation of an earlier one containing the point")
        exits = [g for f, t, g, s in lp["exits"] if AND(g, inside.d) is not ZERO]
        ok = True
        # the elevation returned when the point is inside, NODATA otherwise
        gin = ZERO
        for g in exits:
            gin = OR(gin, AND(AND(g, inside.d), c.guard))
        r1 = care_leaves(R.ret, AND(R.guard, gin))
        ctx.ob(f"{key}: returns the elevation of that model", all(l is q.res for l in r1) and bool(r1), c.loc(), f"returns {[txt(l, 80) for l in r1]}")
        gout = AND(R.guard, NOT_(gin))
        r2 = care_leaves(R.ret, gout)
        ctx.ob(f"{key}: returns NODATA_VALUE when no model contains the point", all(l.const == -10**20 for l in r2) and bool(r2), c.loc(), f"returns {[txt(l, 80) for l in r2]}")
        for k in c.loops:
            it = R.ev.loopinfo.get(k, {}).get("it")
            if it is not None and tree_contains(c.args[0], it.fp):
                ns = [l_div(l_sub(ld(None, padd(x, gvn.const(8))).d, ld(None, x).d), gvn.const(8)) for x in (padd(R.arg(0).d, gvn.const(o)) for o in range(0, 400, 8))]
                span(ctx, f"{key}: every model is tried, and nothing else", R.ev, c.loops, it, ns, c.loc(), "models tried")
        idx = elem_idx_unique(R, c.args[0])
        ctx.ob(f"{key}: models are tried in the order given", idx, c.loc(), f"model is {txt(c.args[0])}")
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def elem_idx_unique(R, leaf):
    """leaf is element IT (0,1,2,...) of a vector of unique_ptr member"""
    a = deref(leaf) if isinstance(leaf, Leaf) else None
    if a is None:
        return False
    for v in R.ev.loopinfo.values():
        it = v.get("it")
        if it is None:
            continue
        d = l_sub(a, l_mul(it, gvn.const(8)))
        if deref(d) is not None and not tree_contains(d, it.fp):
            return True
        b, o = ptrparts(a)
        if o.fp == l_mul(it, gvn.const(8)).fp:
            return True
    return False


def surface(ctx, p):
    S = "serial::Surface"
    R = Run(p, S + "::query", [r"Indexing\w*::getIndex\(", r"Hyperslab::(interpolate|nearest)\("])
    F = Fields(p, S, R.arg(0))
    gi = R.calls("getIndex")
    ip = one(ctx, R, r"Hyperslab::interpolate\(", "interpolation")
    L = Run(p, S + "::loadMetadata", [r"HDF5::", r"Indexing\w+::Indexing\w+\("])
    LF = Fields(p, S, L.arg(0))
    from q02 import getter_addr
    axis = {}
    for e in L.calls(r"Indexing\w+::Indexing\w+\("):
        for s in L.stores():
            if any(x.fp == X(e.args[0]).d.fp for x in leaves(s.args[1]).values()):
                o = ptrparts(s.args[0])[1]
                a = None
                for i, n in enumerate("XY"):
                    res = cur(L, getter_addr(p, S, "getResolution" + n, L.arg(0)))
                    co = cur(L, getter_addr(p, S, "getCoordinates" + n, L.arg(0)), "ptr")
                    for c in (res, co):
                        if {k for k, l in leaves(c.d).items() if l.const is None} & {l.fp for l in care_leaves(e.args[1], e.guard)}:
                            a = i if a is None or a == i else "mixed"
                axis.setdefault(int(o.const), set()).add(a)
                if "IndexingVariable" in e.callee and a in (0, 1):
                    dim = cur(L, padd(LF.get("getDims").d, gvn.const(8 * a)))
                    ctx.ob(f"Surface::loadMetadata: variable indexing of axis {'xy'[a]} covers that axis' points", same(e.args[2], dim.d, e.guard), e.loc(), txt(e.args[2]))
                    ctx.ob(f"Surface::loadMetadata: {'xy'[a]} coordinates are ascending", len(e.args) < 4 or X(e.args[3]).d.const == 0, e.loc(), "order")
    ctx.ob("Surface::loadMetadata: one indexing object per axis, built from that axis' resolution or coordinates", sorted(map(str, (x for v in axis.values() for x in v))) == ["0", "1"] and all(len(v) == 1 for v in axis.values()), L.fn.loc(), f"{axis}")
    ind = []
    for i in range(2):
        hit = None
        for q in gi:
            o = deref(q.args[0])
            ax = axis.get(int(ptrparts(o)[1].const)) if o is not None and ptrparts(o)[1].const is not None else None
            if ax == {i} and same(q.args[1], R.arg(1 + i).d, q.guard):
                hit = q
        ctx.ob(f"Surface::query: index along {'xy'[i]} is that of {'xy'[i]}", hit is not None, R.fn.loc(), "no such getIndex call")
        if hit is None:
            return
        ind.append(X(hit.res))
    n = [F.arr("getDims", i) for i in range(2)]
    dom = (ind[0] >= 0) & (ind[0] <= n[0] - 1) & (ind[1] >= 0) & (ind[1] <= n[1] - 1)
    for e in ip:
        g = AND(e.guard, R.guard)
        ctx.ob("Surface::query: interpolates exactly on the surface's grid", same(g, AND(dom.d, R.guard), ONE), e.loc(), "differs when " + " / ".join(diff(g, AND(dom.d, R.guard)))[:400])
        c = e.extra.get(2, {})
        for i in range(2):
            ctx.ob(f"Surface::query: interpolation index {i}", c.get(8 * i) is not None and same(c[8 * i], ind[i].d, g), e.loc(), txt(c.get(8 * i)))
        ov = R.outval(e, 1)
        ctx.ob("Surface::query: returns the interpolated elevation, NODATA_VALUE off the grid", ov is not None and same(R.ret, IF(dom, ov, -1.0e20).d, R.guard), R.fn.loc(), f"returns {txt(R.ret)}")
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("top", model_elev, ctx, p, "queryTopElevation", ["getTopSurface"])
    ctx.guard("topo", model_elev, ctx, p, "queryTopoBathyElevation", ["getTopoBathy", "getTopSurface"])
    ctx.guard("qtop", query_elev, ctx, p, "queryTopElevation")
    ctx.guard("qtopo", query_elev, ctx, p, "queryTopoBathyElevation")
    ctx.guard("surface", surface, ctx, p)
