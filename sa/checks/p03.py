"""Isosurfaces: the raster image, and the search in each column"""
import math

from common_exc import *
import strmodels as SM
import models as MD
import appmodels as AM
import h01, h03, c01, p01
from h01 import exits
from h04 import nodes, why, eqc1
from p01 import cases, feasible, field, offset, before, THIS, QUERY
from spec import deref, backguard, subst, restrict
from gvn import constrain

MINIMUM = 60
NODATA = p01.NODATA
PROG = "geomodelgrids_isosurface"
CRS = r"utils::CRSTransformer::"
TIFF = r"utils::GeoTiff::"
C = gvn.const


def check(ctx):
    p = core.load(("lib", "bin"))
    f = root(p)
    ctx.guard(PROG, program, ctx, p, f)
    ctx.guard(f"{PROG}: status", p01.status, ctx, p, "Isosurface", PROG)


def root(p):
    fs = [f for f in p.repo_fns() if re.search(r"apps::Isosurface::run\(", f.dem) and f.blocks]
    if not fs:
        raise core.AnalysisBroken("apps::Isosurface::run vanished")
    return fs[0]


def program(ctx, p, f):
    R = p01.Run(p, f)
    if R.st is None:
        ctx.ob(f"{PROG}: returns", False, R.loc, "never returns normally"); return
    R.name = PROG; R.cls = "Isosurface"
    if not R.calls(QUERY + r"initialize\("):
        (ctx.ob if not R.calls(QUERY) else lambda k, *a: ctx.und(k, "not recognised"))(f"{PROG}: opens the models", False, R.loc, "never opened"); return
    ctx.guard(f"{PROG}: setup", setup, ctx, R)
    ctx.guard(f"{PROG}: image", image, ctx, R)
    ctx.guard(f"{PROG}: pixels", pixels, ctx, R)
    d = direction(R)
    if d is None:
        ctx.und(f"{PROG}: search", "direction of the search not recognised"); return
    R.flag = d
    S = surfaces(ctx, R)
    if S is None:
        return
    R.surface = S
    down = {}
    for v in (1, 0):
        I = Iso(p, f, d, v)
        ctx.guard(f"{PROG}: column", column, ctx, R, I, down)
    shallow(ctx, p, R, down)
    return R


# ---- set up ------------------------------------------------------------------------------------
def isos(R):
    """(member, begin, number) of the list of isosurfaces: the list whose names are given to the query"""
    if hasattr(R, "_isos"):
        return R._isos
    R._isos = None
    init = R.calls(QUERY + r"initialize\(")[0]
    beg = (init.extra or {}).get(2, {}).get(0)
    R.namestores = []
    for s in R.ev:
        if s.kind == "store" and len(s.loops) == 1 and before(s, init) and isinstance(s.args[0], Leaf):
            for l, c in cases(s.args[1], s.guard):
                a = deref(l) or (deref(MD.parts_of(l)[0]) if MD.parts_of(l) and isinstance(MD.parts_of(l)[0], Leaf) else None)
                if a is None and AM.is_fn(l, "str") and isinstance(l.tree[2], Leaf):
                    a = deref(l.tree[2])
                it = (R.E.loopinfo.get(s.loops[0]) or {}).get("it")
                if a is None or it is None:
                    continue
                a0 = h03.subst_ptr(a, it, ZERO); st = l_sub(h03.subst_ptr(a, it, ONE), a0)
                b = deref(a0)
                if st.const == 40 and b is not None and offset(b) is not None:
                    R._isos = (offset(b), a0, it)
                    R.namestores.append((s, l_sub(a, l_add(a0, l_mul(it, C(40))))))
    if not R._isos:
        # not indexed there: the only list of the program object with elements of that size that is
        seen = {}; vars_ = set()
        for e in R.ev:
            its = [x for x in ((R.E.loopinfo.get(k) or {}).get("it") for k in e.loops or ()) if x is not None]
            if not its:
                continue
            xs = [l for a in e.args or () if isinstance(a, (Leaf, Node)) for l in gvn.leaves(a).values()]
            for v in nodes(e.guard):
                if v not in vars_:
                    vars_.add(v)
                    if gvn._varinfo[v] and gvn._varinfo[v][0] in ("<0", "pos", "=="):
                        xs += list(gvn.var_leaf(v))
            for x in {y.fp: y for l in xs if isinstance(l, Leaf) for y in sub(l)}.values():
                d = deref(x)
                if not isinstance(d, Leaf):
                    continue
                for it in its:
                    if not h03.gvn_contains(d, it.fp):
                        continue
                    d0 = h03.subst_ptr(d, it, ZERO); st = l_sub(h03.subst_ptr(d, it, ONE), d0)
                    for off in (0, 32):
                        b = deref(l_sub(d0, C(off)))
                        if st.const == 40 and b is not None and offset(b) is not None:
                            seen[offset(b)] = (offset(b), l_sub(d0, C(off)), it)
        if len(seen) == 1:
            R._isos = next(iter(seen.values()))
    if R._isos:
        R.isobeg = R._isos[1]
    return R._isos


def number(R, l):
    """l is the number of isosurfaces"""
    if not isinstance(l, Leaf) or not isos(R):
        return None
    o = isos(R)[0]
    b = R.isobeg
    # (end - begin) / 40
    x = l_add(l_mul(l, C(40)), b)
    d = deref(x)
    if d is not None and offset(d) == o + 8:
        return True
    # as a difference of members
    if AM.is_fn(l, "ld"):
        return False
    for t in sub(l):
        if AM.is_fn(t, "ld") and isinstance(t.tree[2], Leaf) and offset(t.tree[2]) == o + 8:
            dd = l_sub(l, l_div(l_sub(t, b), C(40)))
            return dd.const == 0 if dd.const is not None else None
    return None


def sub(l, depth=0):
    if not isinstance(l, Leaf) or depth > 10:
        return []
    return [l] + [y for x in l.tree[1:] if isinstance(x, Leaf) for y in sub(x, depth + 1)]


def setup(ctx, R):
    init = R.calls(QUERY + r"initialize\("); ask = R.calls(QUERY + r"query\(")
    tops = R.calls(QUERY + r"query(Top|TopoBathy)Elevation\(")
    if len(init) != 1 or not tops:
        ctx.und(f"{PROG}: models", "not recognised"); return
    i = init[0]
    k = f"{PROG}: models are opened once, before they are queried"
    ctx.ob(k, not i.loops and all(before(i, e) for e in ask + tops), i.loc(), "not so")
    offs = [offset(a) for a in i.args[1:4]]
    R.offs = offs
    ig = nothrow(i.guard)
    other = AND(nothrow(R.ret), NOT(ig))
    p01helponly(ctx, R, other)
    fin = R.calls(QUERY + r"finalize\(")
    for e in fin:
        ctx.ob(f"{PROG}: the query is not closed before its last use", not e.loops and all(before(x, e) for x in ask + tops), e.loc(), "closed before")
    # names
    k = f"{PROG}: the values queried are those of the isosurfaces, in order"
    if not isos(R):
        ctx.und(k, "not recognised")
    else:
        n = 0
        for s, off in R.namestores:
            it = R.E.loopinfo[s.loops[0]]["it"]
            beg = (i.extra or {}).get(2, {}).get(0)
            a0 = h03.subst_ptr(s.args[0], it, ZERO); st = l_sub(h03.subst_ptr(s.args[0], it, ONE), a0)
            bs = [l for l, c in cases(beg, i.guard)] if beg is not None else []
            if not any(h03.eqp(a0, b) for b in bs):
                continue
            n += 1
            ctx.ob(k, st.const == 32 and off.const == 0, s.loc(), "name taken from another place")
            it2, cnt = h03.trip(R, s.loops[0])
            q = number(R, cnt) if cnt is not None else None
            if q is None:
                ctx.und(f"{k}: all of them", f"number of iterations {txt(cnt, 60) if cnt is not None else ''}")
            else:
                ctx.ob(f"{k}: all of them", q, s.loc(), f"{txt(cnt, 60)} of them")
            m = AND(AND(going(R, s.loops[0]), NOT(nothrow(s.guard))), ONE)
            ctx.ob(f"{k}: all of them", not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
        if not n:
            beg = (i.extra or {}).get(2, {}).get(0)
            bs = [l for l, c in cases(beg, i.guard)] if beg is not None else []
            for s in R.ev:
                if s.kind != "store" or len(s.loops) != 1 or not before(s, i) or not isinstance(s.args[0], Leaf) or not any(ptrparts(s.args[0])[0] == ptrparts(b)[0] for b in bs):
                    continue
                for l, c in cases(s.args[1], s.guard):
                    n += 1
                    if not feasible(c):
                        continue
                    if bounded(R, l) and not h03.gvn_contains(l, R.E.loopinfo[s.loops[0]]["it"].fp):
                        ctx.ob(k, False, s.loc(), f"all names are {txt(l, 60)}")
                    else:
                        ctx.und(k, "not recognised")
            if not n:
                ctx.und(k, "not recognised")
    # log
    log = R.calls(r"ErrorHandler::setLogFilename\("); on = R.calls(r"ErrorHandler::setLoggingOn\(")
    if not log:
        ctx.ob(f"{PROG}: log file", False, R.loc, "the log file is never given to the error handler")
    for e in log:
        v = MD.cval(e.args[1])
        R.log = field(R, v)
        if R.log is None:
            ctx.und(f"{PROG}: log file", f"name not recognised: {txt(v, 60)}"); continue
        empty = eqc1(MD.strlength(v), 0)
        miss = AND(AND(ig, NOT(empty)), NOT(nothrow(e.guard)))
        ctx.ob(f"{PROG}: log file is set before the first column", not feasible(miss) and before(e, tops[0]), e.loc(), f"not set when {why(miss)}" if feasible(miss) else "set after")
        g2 = ZERO
        for x in on:
            if before(x, tops[0]) and x.args[0].fp == e.args[0].fp:
                g2 = OR(g2, AND(nothrow(x.guard), NOT(eqc1(x.args[1], 0))))
        miss = AND(AND(ig, NOT(empty)), NOT(g2))
        ctx.ob(f"{PROG}: logging is switched on before the first column", not feasible(miss), e.loc(), f"not when {why(miss)}" if feasible(miss) else "")
        miss = AND(AND(ig, empty), g2)
        ctx.ob(f"{PROG}: no log is written when no log file is given", not feasible(miss), e.loc(), f"switched on when {why(miss)}" if feasible(miss) else "")


def p01helponly(ctx, R, other):
    R.help = None
    if other is ZERO:
        return
    vs = [gvn._varinfo[v] for v in nodes(other)]
    flds = {field(R, i[1]) for i in vs if i and i[0] == "==" and field(R, i[1]) is not None}
    k = f"{PROG}: returns without querying only when help is asked for"
    if len(nodes(other)) != 1 or len(flds) != 1:
        ctx.und(k, why(other)); return
    R.help = flds.pop()
    ctx.ob(k, True, R.loc)
    out = ZERO
    for e in R.calls(r"^(token|write)$"):
        if "_ZSt4cout" in str(e.args[0].base):
            out = OR(out, nothrow(e.guard))
    ctx.ob(f"{PROG}: help is printed", not feasible(AND(other, NOT(out))), R.loc, "returns without printing")
    op = ZERO
    for e in R.calls(TIFF + r"create\(") + R.calls(r"^open$"):
        op = OR(op, nothrow(e.guard))
    ctx.ob(f"{PROG}: help opens no file", not feasible(AND(op, other)), R.loc, "opens files")
    bad = [l for l, c in cases(R.res, other) if l.const != 0]
    ctx.ob(f"{PROG}: help succeeds", not bad, R.loc, f"status {txt(bad[0], 30)}" if bad else "")
    wr = ZERO
    for e in R.calls(TIFF + r"write\("):
        wr = OR(wr, nothrow(e.guard))
    bad = [l for l, c in cases(R.res, AND(nothrow(R.ret), AND(wr, NOT(other)))) if l.const != 0]
    ctx.ob(f"{PROG}: succeeds after writing the image", not bad, R.loc, f"status {txt(bad[0], 30)}" if bad else "")


# ---- the image ---------------------------------------------------------------------------------
def arg(e, n):
    """the value of an argument, no call raising"""
    ls = {l.fp: l for l, c in cases(e.args[n], e.guard)}
    return next(iter(ls.values())) if len(ls) == 1 else None


def outval(R, e, n, ty="double", off=0):
    """what a call wrote through its pointer argument"""
    if n not in e.outs:
        return None
    l, token = e.outs[n]
    st = EV.State()
    R.E.clobber(st, l, token)
    return R.E.load1(st, padd(l, C(off)), ty, 8, None)


def box(ctx, R):
    """corners of the box in x-y order: (minX, minY, maxX, maxY)"""
    if hasattr(R, "_box"):
        return R._box
    R._box = None
    ts = [e for e in R.calls(CRS + r"transform\(") if not e.loops]
    mk = R.calls(CRS + r"createGeoToXYAxisOrder\(")
    k = f"{PROG}: bounding box"
    if len(ts) < 2 and len(mk) == 1 and R.calls(CRS + r"inverse_transform\("):
        ctx.ob(f"{k}: both corners are put in the axis order in which the points are computed", False, mk[0].loc(), f"{len(ts)} of them"); return None
    if len(ts) != 2 or len(mk) != 1:
        ctx.und(k, "transformation of the corners not recognised"); return None
    for e in ts:
        if e.loops or any(not isinstance(a, Leaf) for a in e.args):
            ctx.und(k, "transformation of the corners not recognised"); return None
    ctx.ob(f"{k}: axes are put in x-y order for the coordinate system given", field(R, MD.cval(arg(mk[0], 0))) is not None and all(e.args[0].fp == mk[0].res.fp for e in ts), mk[0].loc(), "another transformation")
    R.crs = field(R, MD.cval(arg(mk[0], 0)))
    src = [[offset(deref(e.args[n]) if deref(e.args[n]) is not None else e.args[n]) for n in (4, 5)] for e in ts]
    if any(o is None for s in src for o in s):
        ctx.und(k, "corners not recognised"); return None
    R.corners = src                                # [[minX, minY], [maxX, maxY]] or the other way round
    return ts, src


def corner_leaves(R, ts):
    """where the transformed corners are after the transformation"""
    out = []
    for e in ts:
        out.append([outval(R, e, n) if n in e.outs else None for n in (1, 2)])
    return out


def image(ctx, R):
    b = box(ctx, R)
    new = {n: R.calls(TIFF + n + r"\(") for n in ("setNumCols", "setNumRows", "setNumBands", "setBandLabels", "setCRS", "setBBox", "setNoDataValue", "create", "getBands", "write", "close")}
    for n, es in new.items():
        if not es and n != "close":
            ctx.ob(f"{PROG}: image: {n}", False, R.loc, "is never called")
        if any(e.loops for e in es) or len(es) > 1:
            ctx.und(f"{PROG}: image: {n}", "called several times"); return
    if any(not es for n, es in new.items() if n != "close"):
        return
    R.tiff = t = {n: es[0] for n, es in new.items() if es}
    cr = t["create"]
    R.output = field(R, MD.cval(arg(cr, 1)))
    if R.output is None:
        ctx.und(f"{PROG}: image: file", "name not recognised")
    w = arg(cr, 0)
    for n, e in t.items():
        ctx.ob(f"{PROG}: image: one image is made", isinstance(w, Leaf) and arg(e, 0) is not None and arg(e, 0).fp == w.fp, e.loc(), f"{n} of another one")
        if n.startswith("set"):
            ctx.ob(f"{PROG}: image: {n} comes before the file is made", before(e, cr), e.loc(), "comes after")
    ret = AND(nothrow(R.ret), nothrow(R.calls(QUERY + r"initialize\(")[0].guard))
    ok = ZERO
    for l, c in cases(R.res, ret):
        if l.const is None or l.const == 0:
            ok = OR(ok, c)
    ret = AND(ret, ok)
    for n, e in t.items():
        m = AND(ret, NOT(nothrow(e.guard)))
        ctx.ob(f"{PROG}: image: {n} is called whenever the program succeeds", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    last = [e for e in R.ev if e.kind == "store" and e.loops and isinstance(e.args[0], Leaf) and isinstance(t["getBands"].res, Leaf) and ptrparts(e.args[0])[0] == ptrparts(t["getBands"].res)[0]]
    R.pix = last
    ctx.ob(f"{PROG}: image: is written after the last pixel", not last or before(last[-1], t["write"]), t["write"].loc(), "written before")
    ctx.ob(f"{PROG}: image: file is made before it is written", before(cr, t["write"]) and before(t["getBands"], t["write"]), t["write"].loc(), "made after")
    if "close" in t:
        ctx.ob(f"{PROG}: image: file is closed after it is written", before(t["write"], t["close"]), t["close"].loc(), "closed before")
    # coordinate system, missing values
    crs = field(R, MD.cval(arg(t["setCRS"], 1)))
    R.offs = getattr(R, "offs", [None] * 3)
    init = R.calls(QUERY + r"initialize\(")[0]
    want = offset(init.args[3])
    fixed = [MD.const_string(MD.cval(arg(t["setCRS"], 1))), next((MD.const_string(l) for l in gvn.leaves((init.extra or {}).get(3, {}).get(0, ZERO)).values() if isinstance(l, Leaf)), None)]
    if crs is None and fixed[0] is not None or want is None and fixed[1] is not None:
        ctx.ob(f"{PROG}: image: coordinate system is that of the bounding box and the query", False, t["setCRS"].loc() if crs is None else init.loc(), f"always {[x for x in fixed if x is not None][0]}")
    elif crs is None or want is None:
        ctx.und(f"{PROG}: image: coordinate system", "not recognised")
    else:
        ctx.ob(f"{PROG}: image: coordinate system is that of the bounding box and the query", crs == want and (not b or R.crs == crs), t["setCRS"].loc(), "another one")
    v = arg(t["setNoDataValue"], 1)
    ctx.ob(f"{PROG}: image: value where there is none", v is not None and v.const is not None and abs(float(v.const) - NODATA) <= 1e13, t["setNoDataValue"].loc(), f"is {txt(v, 30) if v is not None else '?'}")
    # bands
    v = arg(t["setNumBands"], 1)
    q = number(R, v) if v is not None else None
    if q is None:
        ctx.und(f"{PROG}: image: bands", f"number not recognised: {txt(v, 80) if v is not None else ''}")
    else:
        ctx.ob(f"{PROG}: image: one band for each isosurface", q, t["setNumBands"].loc(), f"{txt(v, 60)} bands")
    ctx.guard(f"{PROG}: image: labels", labels, ctx, R, t["setBandLabels"])
    if b:
        ctx.guard(f"{PROG}: image: size", size, ctx, R, t, b)


def labels(ctx, R, e):
    k = f"{PROG}: image: label of a band"
    beg = (e.extra or {}).get(1, {}).get(0)
    bs = [l for l, c in cases(beg, e.guard)] if beg is not None else []
    st = [s for s in R.ev if s.kind == "store" and len(s.loops) == 1 and before(s, e) and isinstance(s.args[0], Leaf) and any(ptrparts(s.args[0])[0] == ptrparts(b)[0] for b in bs) and feasible(nothrow(s.guard))]
    if len(st) != 1 or not isos(R):
        ctx.und(k, "not recognised"); return
    s = st[0]; it, n = h03.trip(R, s.loops[0])
    v = arg(s, 1)
    if it is None or n is None or v is None:
        ctx.und(k, "loop not recognised"); return
    a0 = h03.subst_ptr(s.args[0], it, ZERO); step = l_sub(h03.subst_ptr(s.args[0], it, ONE), a0)
    q = number(R, n)
    if q is None:
        ctx.und(f"{k}: all bands", f"number of iterations {txt(n, 60)}")
    else:
        ctx.ob(f"{k}: all bands", q and step.const == 32 and any(h03.eqp(a0, b) for b in bs), s.loc(), f"{txt(n, 60)} of them" if not q else "not each its own")
    m = AND(going(R, s.loops[0]), NOT(nothrow(s.guard)))
    ctx.ob(f"{k}: all bands", not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
    # text of a stream
    parts = []
    ps = MD.parts_of(v)
    for x in ps:
        if AM.is_fn(x, "text of"):
            for tk in R.tokens(x.tree[2]):
                if tk.loops == s.loops and before(tk, s):
                    parts.append((tk.extra[0], tk.args[1], tk))
        else:
            parts.append(("text", x, s))
    elem = l_add(R.isobeg, l_mul(it, C(40)))
    got = []
    for kind, x, tk in parts:
        xs = [l for l, c in cases(x, tk.guard)] if isinstance(x, (Leaf, Node)) else []
        x = xs[0] if len(xs) == 1 else None
        if kind in ("number", "integer"):
            a = deref(x) if x is not None else None
            got.append(("value", a is not None and h03.eqp(a, padd(elem, C(32)))) if kind == "number" else ("other", False))
            continue
        cs = x if isinstance(x, str) else MD.const_string(x) if x is not None else None
        if cs is not None:
            got.append((cs, True)); continue
        y = x
        ps2 = MD.parts_of(x) if x is not None else []
        y = ps2[0] if len(ps2) == 1 and isinstance(ps2[0], Leaf) else x
        for _ in range(3):
            if y is not None and (AM.is_fn(y, "str") or AM.is_fn(y, "cstr")) and isinstance(y.tree[2], Leaf):
                y = y.tree[2]
        a = deref(y) if y is not None else None
        got.append(("name", a is not None and h03.eqp(a, elem)))
    names = [g[0] for g in got]
    if names != ["name", "=", "value"]:
        if set(names) <= {"name", "=", "value"} or all(isinstance(n, str) for n in names) and names:
            ctx.ob(f"{k}: is NAME=VALUE", False, s.loc(), "is " + "".join(names)[:60])
        else:
            ctx.und(f"{k}: is NAME=VALUE", "text not recognised")
        return
    ctx.ob(f"{k}: is NAME=VALUE", True, s.loc())
    ctx.ob(f"{k}: name and value are those of the isosurface", all(g[1] for g in got), s.loc(), "of another one")


def pixelsize(R, ctx, t, b):
    pass


def size(ctx, R, t, b):
    ts, src = b
    (e1, e2) = ts
    # which of the transformations is that of the lower corner: the one whose outputs are the first of the box
    bb = t["setBBox"]
    vals = [arg(bb, n) for n in (1, 2, 3, 4)]
    if any(v is None for v in vals):
        ctx.und(f"{PROG}: image: box", "not recognised"); return
    x0, x1, y0, y1 = vals
    outs = [[outval(R, e, n) for n in (1, 2)] for e in ts]
    lo = next((n for n in (0, 1) if outs[n][0] is not None and x0.fp == outs[n][0].fp), None)
    k = f"{PROG}: image: box"
    if lo is None:
        if any(o is not None and x0.fp == o.fp for os in outs for o in os):
            ctx.ob(f"{k}: starts at the lower corner", False, bb.loc(), f"starts at {txt(x0, 60)}")
        else:
            ctx.und(k, f"not recognised: {txt(x0, 80)}")
        return
    hi = 1 - lo
    ctx.ob(f"{k}: starts at the lower corner", outs[lo][1] is not None and y0.fp == outs[lo][1].fp, bb.loc(), f"y starts at {txt(y0, 60)}")
    for n in (0, 1):
        want = [offset(ts[n].args[1]), offset(ts[n].args[2])]
    nx, ny = arg(t["setNumCols"], 1), arg(t["setNumRows"], 1)
    R.nx, R.ny = nx, ny; R.x0, R.y0 = x0, y0; R.lo = lo
    if nx is None or ny is None:
        ctx.und(f"{k}: number of pixels", "not recognised"); return
    rs = []
    for what, n, a0, a1, top in (("columns", nx, x0, x1, outs[hi][0]), ("rows", ny, y0, y1, outs[hi][1])):
        res = l_div(l_sub(a1, a0), n)
        o = field(R, res)
        r = None
        for l in sub(n):
            if AM.is_fn(l, "ld") and field(R, l) is not None and top is not None:
                for w in (l_fn("trunc", l_div(l_sub(l_add(top, l_mul(C(0.5), l)), a0), l)),):
                    if w.fp == n.fp:
                        r = l
                q = same_number(n, top, a0, l)
                if r is None and q:
                    r = l
        if r is None:
            fl = [l for l in sub(n) if AM.is_fn(l, "ld") and field(R, l) is not None]
            w = refute(n, top, a0, fl[0]) if len({l.fp for l in fl}) == 1 and top is not None else None
            if w:
                ctx.ob(f"{k}: number of {what}", False, t["setNumCols"].loc(), w)
            else:
                ctx.und(f"{k}: number of {what}", f"not recognised: {txt(n, 100)}")
            continue
        rs.append(r)
        ctx.ob(f"{k}: number of {what}", True, t["setNumCols"].loc())
        ctx.ob(f"{k}: pixels are as large as asked for ({what})", h03.eqp(l_sub(a1, a0), l_mul(n, r)), bb.loc(), f"box ends at {txt(a1, 80)}")
    if len(rs) == 2:
        ctx.ob(f"{k}: pixels are square", rs[0].fp == rs[1].fp, bb.loc(), "two sizes")
        R.res = rs[0]; R.hres = field(R, rs[0])


def same_number(n, top, a0, r):
    q = l_div(l_sub(top, a0), r)
    for w in (l_fn("trunc", l_add(q, C(0.5))), l_fn("floor", l_add(q, C(0.5))), l_fn("round", q), l_fn("rint", q), l_fn("trunc", l_fn("floor", l_add(q, C(0.5)))), l_fn("trunc", l_fn("round", q)), l_fn("ceil", l_sub(q, C(0.5)))):
        if w.fp == n.fp:
            return True
    return False


def value(l, env, depth=0):
    """value of a formula"""
    if l.fp in env:
        return env[l.fp]
    if l.const is not None:
        return float(l.const)
    t = l.tree
    if depth < 40:
        if t[0] in ("+", "-", "*", "/") and len(t) == 3:
            a, b = value(t[1], env, depth + 1), value(t[2], env, depth + 1)
            if a is None or b is None or t[0] == "/" and b == 0:
                return None
            return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if t[0] == "/" else 0}[t[0]]
        if t[0] == "fn" and len(t) == 3 and isinstance(t[2], Leaf):
            a = value(t[2], env, depth + 1)
            try:
                return None if a is None else {"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), "rint": round, "log": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp, "sqrt": math.sqrt, "fabs": abs, "sext": lambda v: v, "zext": lambda v: v}[t[1]](a)
            except (KeyError, ValueError, OverflowError):
                return None
    return None


def refute(n, top, a0, r):
    """a box for which the number of pixels is not that which fits best"""
    for lo, hi, d in ((0.0, 10.0, 1.0), (0.0, 10.4, 1.0), (0.0, 10.6, 1.0), (2.0, 5.0, 0.1), (-118.0, -117.0, 0.1), (34.0, 34.95, 0.1), (100.0, 130.0, 10.0)):
        v = value(n, {top.fp: hi, a0.fp: lo, r.fp: d})
        w = math.floor((hi - lo) / d + 0.5)
        if v is not None and abs((hi - lo) / d - (math.floor((hi - lo) / d) + 0.5)) > 1e-6 and v != w:
            return f"{v:g} for {lo:g} to {hi:g} in steps of {d:g}"
    return None


# ---- pixels ------------------------------------------------------------------------------------
def going(R, key):
    """the loop goes on, no call raising"""
    i = R.E.loopinfo[key]
    return nothrow(AND(backguard(i), i["guard0"]))


def affine(l, it):
    """(value at iteration 0, step)"""
    a = subst(l, {it.fp: ZERO}); b = subst(l, {it.fp: ONE})
    return a, l_sub(b, a)


def pixels(ctx, R):
    k = f"{PROG}: pixel"
    inv = R.calls(CRS + r"inverse_transform\(")
    tops = R.calls(QUERY + r"query(Top|TopoBathy)Elevation\(")
    if len(inv) != 1 or not hasattr(R, "res"):
        if not inv and tops and hasattr(R, "x0"):
            ctx.ob(f"{k}: is queried in the axis order of the coordinate system", False, tops[0].loc(), "the x-y order is not undone")
        else:
            ctx.und(k, "not recognised")
        return
    e = inv[0]
    mk = R.calls(CRS + r"createGeoToXYAxisOrder\(")[0]
    ctx.ob(f"{k}: is queried in the axis order of the coordinate system", arg(e, 0) is not None and arg(e, 0).fp == mk.res.fp, e.loc(), "another transformation")
    if len(e.loops) != 2:
        ctx.und(f"{k}: loops", "not recognised"); return
    xy = [arg(e, 4), arg(e, 5)]
    if None in xy:
        ctx.und(f"{k}: centre", "not recognised"); return
    # (x - x0) / res - 1/2: the number of the column
    idx = [l_sub(l_div(l_sub(v, a), R.res), C(0.5)) for v, a in zip(xy, (R.x0, R.y0))]
    done = []
    for what, i, n in (("column", idx[0], R.nx), ("row", idx[1], R.ny)):
        hit = None
        for key in e.loops:
            it, cnt = h03.trip(R, key)
            if it is None:
                continue
            a, s = affine(i, it)
            if s.const == 0:
                continue
            hit = (it, cnt, a, s, key)
        kk = f"{k}: {what}: centres of all pixels are queried"
        if hit is None:
            (ctx.ob(kk, False, e.loc(), "the same for all pixels") if i.const is not None else ctx.und(kk, f"not recognised: {txt(i, 60)}")); continue
        it, cnt, a, s, key = hit
        if cnt is None:
            ctx.und(kk, "number of iterations not recognised"); continue
        up = s.const == 1 and a.const == 0
        dn = s.const == -1 and l_sub(a, l_sub(n, ONE)).const == 0
        if not up and not dn:
            if a.const is not None and s.const is not None or s.const is not None:
                ctx.ob(kk, False, e.loc(), f"coordinate is {txt(xy[0] if what == 'column' else xy[1], 100)}")
            else:
                ctx.und(kk, f"not recognised: {txt(i, 60)}")
            continue
        d = l_sub(cnt, n)
        if d.const is None:
            (ctx.ob if cnt.fp in (R.nx.fp, R.ny.fp) else lambda q, *a: ctx.und(q, f"number of iterations {txt(cnt, 60)}"))(kk, False, e.loc(), "as many as there are pixels in the other direction")
            continue
        ctx.ob(kk, d.const == 0, e.loc(), f"{txt(cnt, 60)} iterations for {txt(n, 60)}")
        m = AND(going(R, key), NOT(nothrow(R.E.loopinfo[e.loops[-1]]["guard"]) if key != e.loops[-1] else nothrow(e.guard)))
        done.append(it)
    for a in (e,):
        m = AND(going(R, e.loops[-1]), NOT(nothrow(e.guard)))
        ctx.ob(f"{k}: none is left out", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    # where the result goes
    q = [outval(R, e, n) for n in (1, 2)]
    for t in tops:
        a = [arg(t, 1), arg(t, 2)]
        if None in a or None in q:
            ctx.und(f"{k}: is queried at its centre", "not recognised"); continue
        ctx.ob(f"{k}: is queried at its centre", [x.fp for x in a] == [x.fp for x in q], t.loc(), f"at {txt(a[0], 60)}, {txt(a[1], 60)}")
    R.q = q
    if not R.pix:
        ctx.ob(f"{k}: is stored", False, R.loc, "nothing is stored in the image") if not R.calls(r"memcpy|copy") else ctx.und(f"{k}: is stored", "not recognised"); return
    base = R.tiff["getBands"].res
    for s in R.pix:
        kk = f"{k}: is stored"
        if s.loops[:2] != e.loops or len(s.loops) != 3:
            ctx.und(kk, "loops not recognised"); continue
        it, n = h03.trip(R, s.loops[2])
        c = number(R, n) if n is not None else None
        if c is None:
            ctx.und(kk, "number of bands not recognised"); continue
        ctx.ob(f"{kk}: for all isosurfaces", c, s.loc(), f"{txt(n, 60)} of them")
        m = AND(going(R, s.loops[2]), NOT(nothrow(s.guard)))
        ctx.ob(f"{kk}: for all isosurfaces", not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
        v = arg(s, 1)
        a = deref(v) if v is not None else None
        if a is None:
            ctx.und(f"{kk}: value", f"not recognised: {txt(v, 60) if v is not None else ''}"); continue
        R.vals = a0 = h03.subst_ptr(a, it, ZERO); st = l_sub(h03.subst_ptr(a, it, ONE), a0)
        b = R.pixit = it
        off = l_div(l_sub(s.args[0], base), C(4))
        want = l_add(l_mul(b, l_mul(R.ny, R.nx)), l_add(l_mul(l_sub(l_sub(R.ny, ONE), idx[1]), R.nx), idx[0]))
        ctx.ob(f"{kk}: at its place, bands one after another, first row at the top", l_sub(off, want).const == 0, s.loc(), f"place {txt(off, 160)}")
        ctx.ob(f"{kk}: band i has the values of isosurface i", st.const == 8, s.loc(), "values of another one")


# ---- a column ----------------------------------------------------------------------------------
def direction(R):
    """leaf of the member that decides in which direction is searched"""
    out = {}
    for e in R.calls(r"^virtual::"):
        d = e.args[-1] if isinstance(e.args[-1], Node) else None
        if d is None:
            continue
        d = constrain(nothrow(d), nothrow(e.guard))
        for v in nodes(d):
            i = gvn._varinfo[v]
            if i and i[0] == "==" and field(R, i[1]) is not None and i[2].const == 0:
                out[i[1].fp] = i[1]
    if not out:
        for e in R.calls(QUERY + r"query\("):
            if len(e.loops) > 3:
                for v in nodes(nothrow(e.guard)):
                    i = gvn._varinfo[v]
                    if i and i[0] == "==" and field(R, i[1]) is not None and i[2].const == 0:
                        a = restrict(nothrow(e.guard), {i[1].fp: ZERO}); b = restrict(nothrow(e.guard), {i[1].fp: ONE})
                        if (a is ZERO) != (b is ZERO):
                            out[i[1].fp] = i[1]
    return next(iter(out.values())) if len(out) == 1 else None


def surfaces(ctx, R):
    """(leaf of the member, its value for topography/bathymetry, its value for the top surface)"""
    k = f"{PROG}: column"
    es = {n: R.calls(QUERY + f"query{n}Elevation\\(") for n in ("TopoBathy", "Top")}
    for n, e in es.items():
        if not e:
            ctx.ob(f"{k}: depths can be those below {'the top surface' if n == 'Top' else 'topography/bathymetry'}", False, R.loc, "its elevation is not queried"); return None
    leafs = {}
    vals = {}
    for n, e in es.items():
        g = nothrow(e[0].guard)
        for v in nodes(g):
            i = gvn._varinfo[v]
            if i and i[0] == "==" and field(R, i[1]) is not None and i[2].const is not None:
                leafs.setdefault(i[1].fp, (i[1], set()))[1].add(int(i[2].const))
    for fp, (l, cs) in leafs.items():
        got = {}
        for c in cs | {max(cs) + 1}:
            for n, e in es.items():
                if feasible(restrict(nothrow(e[0].guard), {fp: C(c)})):
                    got.setdefault(n, []).append(c)
        if all(len(v) >= 1 for v in got.values()) and len(got) == 2 and not set(got["Top"]) & set(got["TopoBathy"]):
            return l, got["TopoBathy"][0], got["Top"][0], es["TopoBathy"][0], es["Top"][0]
    ctx.und(f"{k}: surface", "not recognised")
    return None


class Iso:
    """run() with one direction of search"""
    def __init__(self, p, f, flag, v):
        self.v = v; self.m = {flag.fp: C(v)}

        def assume(d, g):
            if not isinstance(d, Node):
                return d
            d = restrict(nothrow(d), self.m)
            return constrain(d, restrict(nothrow(g), self.m))
        self.R = p01.Run(p, f, assume)
        self.R.name = PROG

    def g(self, d):
        return restrict(nothrow(d), self.m) if isinstance(d, Node) else d

    def val(self, d, care):
        return constrain(self.g(d), care) if isinstance(d, Node) else d


def column(ctx, R0, I, down):
    R = I.R
    k = f"{PROG}: column"
    surf, topo, top, e1, e2 = R0.surface
    for which, c in (("topography/bathymetry", topo), ("top surface", top)):
        I.m[surf.fp] = C(c)
        ts = [e for e in R.calls(QUERY + r"query(Top|TopoBathy)Elevation\(") if feasible(I.g(e.guard))]
        if len(ts) != 1:
            ctx.und(f"{k}: {which}", "elevation queried several times"); continue
        ctx.guard(f"{k}: {which}", column1, ctx, R0, I, R, ts[0], f"{k}", down)


def dist(l):
    return isinstance(l, Leaf)


def column1(ctx, R0, I, R, t, k, down):
    E = t.res
    outer = I.g(t.guard)
    none = gvn.l_feq(E, C(NODATA))
    # ---- no surface
    vs = [s for s in R.ev if s.kind == "store" and len(s.loops) == 3 and s.loops[:2] == t.loops and isinstance(s.args[0], Leaf) and feasible(I.g(s.guard)) and before(t, s) and samebase(R0, s.args[0])]
    asks = [e for e in R.calls(QUERY + r"query\(") if feasible(I.g(e.guard))]
    if not vs:
        ctx.und(f"{k}: values", "not recognised"); return
    qs = [e for e in asks if len(e.loops) == 3 and e.loops[:2] == t.loops]
    ss = [e for e in asks if len(e.loops) == 5 and e.loops[:2] == t.loops]
    if len(qs) != 2 or len(ss) != 1 or len(qs) + len(ss) != len(asks) or qs[0].loops != qs[1].loops or ss[0].loops[:3] != qs[0].loops:
        ctx.und(f"{k}: search", "queries not recognised"); return
    q1, q2 = qs; s = ss[0]
    vkey = q1.loops[2]; lkey, skey = s.loops[3], s.loops[4]
    # ---- the loop over the values
    vit, vn = h03.trip(R, vkey)
    if vit is None or vn is None:
        ctx.und(f"{k}: isosurfaces", "loop not recognised"); return
    for lp in {x.loops[2] for x in vs}:
        it, n = h03.trip(R, lp)
        if it is None or n is None:
            ctx.und(f"{k}: isosurfaces", "loop not recognised"); return
        cnt = number(R0, n)
        if cnt is None:
            ctx.und(f"{k}: all isosurfaces", f"number of iterations {txt(n, 60)}")
        else:
            ctx.ob(f"{k}: all isosurfaces", cnt, vs[0].loc(), f"{txt(n, 60)} of them")
        es = [x for x in vs if x.loops[2] == lp]
        got = ZERO
        for x in es:
            got = OR(got, I.g(x.guard))
            a0 = h03.subst_ptr(x.args[0], it, ZERO); st = l_sub(h03.subst_ptr(x.args[0], it, ONE), a0)
            ctx.ob(f"{k}: every isosurface has its place", st.const == 8 and same_array(R0, a0), x.loc(), f"stored at {txt(x.args[0], 60)}")
        m = AND(I.g(going(R, lp)), NOT(got))
        ctx.ob(f"{k}: every isosurface gets a value", not feasible(m), es[0].loc(), f"not when {why(m)}" if feasible(m) else "")
    lost = ZERO
    for x in vs:
        if x.loops[2] != vkey:
            for l, c in cases(I.g(x.args[1]), I.g(x.guard)):
                ctx.ob(f"{k}: has no values where there is no surface", l.const == NODATA, x.loc(), f"is {txt(l, 40)}")
            m = AND(I.g(x.guard), NOT(none))
            ctx.ob(f"{k}: has values where there is a surface", not feasible(m), x.loc(), f"none when {why(m)}" if feasible(m) else "")
    searched = AND(I.g(s.guard), none)
    ctx.ob(f"{k}: is not searched where there is no surface", not feasible(AND(I.g(q1.guard), none)) and not feasible(searched), q1.loc(), "is searched")
    # ---- the search
    lv = R.E.loopinfo.get(lkey)
    ph = {lv["atoms"][i.id].fp: i for i in lv["phis"] if i.t == "double"}
    z1, z2 = (I.val(q.args[4], I.g(q.guard)) for q in (q1, q2))
    if not (dist(z1) and dist(z2)) or z1.fp not in ph or z2.fp not in ph or z1.fp == z2.fp:
        ctx.und(f"{k}: interval searched", "not recognised"); return
    target = l_add(R0.isobeg, C(0))
    D, n = None, None
    def init(z):
        return I.val(lv["init"][ph[z.fp].id], I.g(q1.guard))
    i1, i2 = init(z1), init(z2)
    vl = R.E.loopinfo.get(vkey) or {}
    carried = {x.fp for x in (vl.get("atoms") or {}).values() if isinstance(x, Leaf)} - {vit.fp if vit is not None else None}
    for z in (i1, i2):
        if isinstance(z, Leaf) and z.fp in carried:
            ctx.ob(f"{k}: search of every isosurface starts afresh", False, s.loc(), "starts with the interval of the isosurface before"); return
    if not (dist(i1) and dist(i2)):
        ctx.und(f"{k}: interval searched", "start not recognised"); return
    # T is the upper end
    d1, d2 = l_sub(E, i1), l_sub(E, i2)
    if d1.const is not None and d2.const is None:
        T, B, dT, dB, qT, qB = z1, z2, d1, d2, q1, q2
    elif d2.const is not None and d1.const is None:
        T, B, dT, dB, qT, qB = z2, z1, d2, d1, q2, q1
    else:
        if d1.const is None and d2.const is None or d1.const is not None and d2.const is not None:
            ctx.ob(f"{k}: search covers the depths from the surface to the maximum depth", False, s.loc(), f"from {txt(i1, 60)} to {txt(i2, 60)}") if bounded(R0, d1) and bounded(R0, d2) else ctx.und(f"{k}: interval searched", f"starts at {txt(i1, 60)}, {txt(i2, 60)}")
        return
    ctx.ob(f"{k}: search starts within 1 mm of the surface", 0 <= float(dT.const) <= 1e-3, s.loc(), f"starts {float(dT.const):g} below it")
    dep = field(R0, dB)
    if dep is None:
        (ctx.ob(f"{k}: search ends at the maximum depth", False, s.loc(), f"ends {txt(dB, 60)} below the surface") if bounded(R0, dB) else ctx.und(f"{k}: search ends at the maximum depth", f"{txt(dB, 60)}"))
        return
    R0.maxdepth = dep
    # one level
    sg = I.g(s.guard)
    sl = R.E.loopinfo.get(skey); it = sl.get("it")
    if it is None:
        ctx.und(f"{k}: points of a level", "loop not recognised"); return
    care = gvn.exists(sg, lambda v: any(h03.gvn_contains(x, it.fp) for x in gvn.var_leaf(v)))
    z = I.val(s.args[4], sg)
    if not dist(z):
        ctx.und(f"{k}: points of a level", "elevation not recognised"); return
    xy = [I.val(s.args[n], sg) for n in (2, 3)] + [I.val(q.args[n], I.g(q.guard)) for q in (q1, q2) for n in (2, 3)]
    txy = [I.val(t.args[n], I.g(t.guard)) for n in (1, 2)]
    ctx.ob(f"{k}: all points are below the pixel's centre", all(dist(a) and dist(b) and a.fp == b.fp for a, b in zip(xy, txy * 3)), s.loc(), "another place")
    ns = {l.fp: l for x in (z, s.guard) for l in (sub(x) if isinstance(x, Leaf) else []) if AM.is_fn(l, "ld") and field(R0, l) is not None}
    ns = {fp: l for fp, l in ns.items() if field(R0, l) != dep}
    if len(ns) != 1:
        ctx.und(f"{k}: points of a level", f"number of points not recognised: {txt(z, 80)}"); return
    n = next(iter(ns.values())); R0.npoints = field(R0, n)
    iv = l_sub(n, ONE)
    dz = l_div(l_sub(T, B), iv)
    kk = l_div(l_sub(T, z), dz)
    a, st = affine(kk, it)
    kp = f"{k}: points of a level"
    if st.const not in (1, -1):
        if st.const is not None and not h03.gvn_contains(a, T.fp) and not h03.gvn_contains(a, B.fp) or bounded(R0, st, (T, B, it)):
            ctx.ob(f"{kp}: divide the interval", False, s.loc(), f"elevation {txt(z, 100)}")
        else:
            ctx.und(kp, f"elevation {txt(z, 100)}")
        return
    dn = st.const == 1
    down[I.v] = dn
    first = a.const if dn else l_sub(a, iv).const
    if first is None:
        (ctx.ob(f"{kp}: divide the interval", False, s.loc(), f"elevation {txt(z, 100)}") if bounded(R0, a, (T, B)) else ctx.und(kp, f"elevation {txt(z, 100)}")); return
    word = "down" if dn else "up"
    if (first == 0):
        ctx.und(f"{kp}: searched {word}", "first point is the end of the interval"); return
    ctx.ob(f"{kp}: searched {word}: none is skipped at the start", first == (1 if dn else -1), s.loc(), f"starts {'above' if dn and first < 0 or not dn and first > 0 else 'at'} point {first}")
    # the value looked at
    v = value_after(R, I, s, vit)
    tg = None
    if v is None:
        ctx.und(f"{kp}: value", "not recognised"); return
    v, bufA = v
    lost = reaches(ctx, R0, R, I, s, sl, it, care, v, vit, dn, n, kk, kp, word)
    if lost is None:
        return
    tgt, found, none_ = lost
    # ---- the next level
    nT, nB = lv["next"][ph[T.fp].id], lv["next"][ph[B.fp].id]
    for what, g, wt, wb in (("found", found, l_sub(T, l_mul(l_sub(kk, ONE) if dn else kk, dz)), None), ("not found", none_, T, None)):
        g = AND(g, care)
        if not feasible(g):
            continue
        wb = l_sub(wt, dz)
        for nm, d, w in (("top", nT, wt), ("bottom", nB, wb)):
            for l, c in cases(I.val(d, g), g):
                if not feasible(AND(c, g)):
                    continue
                q = f"{k}: searched {word}: next level is the interval {'before the first point that reaches the value' if what == 'found' and dn else 'above the first point below the value' if what == 'found' else 'at the top where no point does'} ({nm})"
                ok = l.fp == w.fp
                if ok or bounded(R0, l, (T, B, it, n)):
                    ctx.ob(q, ok, s.loc(), f"{nm} is {txt(l, 120)}")
                else:
                    ctx.und(q, f"{nm} is {txt(l, 120)}")
    ctx.guard(f"{k}: levels", levels, ctx, R0, I, R, lkey, dep, n, k)
    ctx.guard(f"{k}: depth", depth, ctx, R0, I, R, vs, vkey, vit, E, T, B, qT, qB, tgt, bufA, k, none)


def bounded(R, l, also=(), depth=0):
    """a formula of settings and the names given"""
    if not isinstance(l, Leaf) or depth > 12:
        return False
    if l.const is not None or any(l.fp == a.fp for a in also) or field(R, l) is not None:
        return True
    ps = MD.parts_of(l) or [l]
    d = deref(ps[0]) if len(ps) == 1 and isinstance(ps[0], Leaf) else None
    if isinstance(d, Leaf) and getattr(R, "isobeg", None) is not None and l_sub(d, R.isobeg).const is not None:
        return True
    t = l.tree
    if t[0] in ("+", "-", "*", "/") or t[0] == "fn" and t[1] in ("log", "ceil", "floor", "trunc", "round", "sqrt", "fabs"):
        return all(bounded(R, x, also, depth + 1) for x in t[1:] if isinstance(x, Leaf))
    return AM.is_fn(l, "queryTopElevation") or AM.is_fn(l, "queryTopoBathyElevation")


def samebase(R, a):
    """the array of values of a pixel"""
    return getattr(R, "vals", None) is not None and ptrparts(a)[0] == ptrparts(R.vals)[0]


def same_array(R, a):
    return h03.eqp(a, R.vals)


def value_after(R, I, e, vit):
    """the element of the queried buffer looked at"""
    buf = I.val(e.args[1], I.g(e.guard))
    if not dist(buf):
        return None
    ov = outval2(R, I, e, buf, l_mul(vit, C(8)))
    return (ov, buf) if ov is not None else None


def outval2(R, I, e, buf, off):
    for n, (l, token) in e.outs.items():
        if n == 1:
            st = EV.State()
            for x in leaves(e.args[1]).values() if isinstance(e.args[1], Node) else [e.args[1]]:
                R.E.clobber(st, x, token)
            return R.E.load1(st, padd(buf, off), "double", 8, None)
    return None


def reaches(ctx, R0, R, I, s, sl, it, care, v, vit, dn, n, kk, kp, word):
    """the search stops at the first point that reaches the value: (target, found, not found)"""
    back = AND(I.val(backguard(sl), care), care)
    # comparisons of a queried value
    cmp = {}
    exs = [(x[2], x[3]) for x in sl["exits"]]
    for d in [back] + [I.val(g, care) for g, _ in exs]:
        for w in nodes(d):
            i = gvn._varinfo[w]
            x = i[1] if i and i[0] == "<0" else i[1][1] if i and i[0] == "pos" else None
            if not isinstance(x, Leaf):
                continue
            for l in sub(x):
                if l.fp == v.fp:
                    r = l_sub(v, x); r2 = l_add(v, x)
                    t = r if not h03.gvn_contains(r, v.fp) else r2
                    cmp[t.fp] = t
    wrong = None
    if not cmp:
        # another element
        for d in [back] + [I.val(g, care) for g, _ in exs]:
            for w in nodes(d):
                for x in gvn.var_leaf(w):
                    for l in sub(x):
                        a = deref(l)
                        b = I.val(s.args[1], I.g(s.guard))
                        if a is not None and dist(b) and ptrparts(a)[0] == ptrparts(b)[0]:
                            wrong = l
        if wrong is not None:
            ctx.ob(f"{kp}: value looked at is that of the isosurface", False, s.loc(), f"is {txt(wrong, 80)}")
        else:
            ctx.und(f"{kp}: value", "comparison with the target not recognised")
        return None
    if len(cmp) != 1:
        ctx.und(f"{kp}: value", "several comparisons"); return None
    t = next(iter(cmp.values()))
    a = deref(t)
    want = l_add(l_add(R0.isobeg, l_mul(vit, C(40))), C(32))
    ok = a is not None and h03.eqp(a, want)
    if not ok and not (t.const is not None or a is not None):
        ctx.und(f"{kp}: target", f"not recognised: {txt(t, 60)}"); return None
    ctx.ob(f"{kp}: target is the value of the isosurface", ok, s.loc(), f"is {txt(t, 80)}")
    hit = NOT(dd_lt(v, t)) if dn else dd_lt(v, t)
    q = AND(I.val(I.g(s.guard), care), care)
    go = AND(back, hit)
    ctx.ob(f"{kp}: searched {word}: stops at the first point that {'reaches the value' if dn else 'is below the value'}", not feasible(go), s.loc(), f"goes on when {why(go)}" if feasible(go) else "")
    found = ZERO; nf = ZERO
    lastk = l_sub(n, ONE) if dn else ZERO
    for g, st in exs:
        g = AND(I.val(g, care), care)
        if not feasible(g):
            continue
        # after looking at a point, or before
        after = any(gvn._varinfo[w] and any(h03.gvn_contains(x, v.fp) for x in gvn.var_leaf(w)) for w in nodes(g))
        if after:
            found = OR(found, AND(g, hit)); r = AND(g, NOT(hit))
            # stops though the point does not reach it: only at the last
            m = AND(r, dd_lt(kk, lastk)) if dn else AND(r, dd_lt(lastk, kk))
            nf = OR(nf, r)
        else:
            m = AND(g, NOT(dd_lt(lastk, kk))) if dn else AND(g, NOT(dd_lt(kk, lastk)))
            nf = OR(nf, g)
            if not dn:
                # the lowest counted point is next to the bottom; all up to the top
                pass
        ctx.ob(f"{kp}: searched {word}: goes on to the last point", not feasible(m), s.loc(), f"stops when {why(m)}" if feasible(m) else "")
    m = AND(I.g(sl["guard"]) if False else ZERO, ONE)
    # every iteration looks at a point
    m = AND(back, NOT(q))
    ctx.ob(f"{kp}: searched {word}: every point is looked at", not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
    # points beyond the interval
    m = AND(q, NOT(dd_lt(kk, l_add(lastk, ONE)))) if dn else AND(q, NOT(dd_lt(l_sub(lastk, ONE), kk)))
    ctx.ob(f"{kp}: searched {word}: no point outside of the interval", not feasible(m), s.loc(), f"when {why(m)}" if feasible(m) else "")
    if found is ZERO:
        ctx.ob(f"{kp}: searched {word}: stops at the first point that {'reaches the value' if dn else 'is below the value'}", False, s.loc(), "never stops there"); return None
    return t, found, nf


def levels(ctx, R0, I, R, lkey, dep, n, k):
    """spacing at the finest level"""
    lv = R.E.loopinfo[lkey]; it = lv.get("it")
    if it is None:
        ctx.und(f"{k}: levels", "loop not recognised"); return
    g = I.g(backguard(lv))
    vs = [w for w in nodes(g) if gvn._varinfo[w] and gvn._varinfo[w][0] in ("<0", "pos", "==")]
    leafs = {}
    num = [w for w in vs if any(h03.gvn_contains(x, it.fp) for x in gvn.var_leaf(w))]
    for w in num:
        for x in gvn.var_leaf(w):
            for l in sub(x):
                if AM.is_fn(l, "ld") and field(R0, l) is not None:
                    leafs[l.fp] = l
    fl = {field(R0, l): l for l in leafs.values()}
    rest = [l for o, l in fl.items() if o not in (dep, field(R0, n))]
    if dep not in fl or field(R0, n) not in fl or len(rest) > 2 or not num:
        ctx.und(f"{k}: levels", "number of levels not recognised"); return
    D = fl[dep]; N = fl[field(R0, n)]
    # the vertical resolution: not a condition of the column
    cand = [l for l in rest if any(h03.gvn_contains(x, l.fp) and (h03.gvn_contains(x, D.fp)) for w in vs for x in gvn.var_leaf(w))]
    if len(cand) != 1:
        ctx.und(f"{k}: levels", "number of levels not recognised"); return
    r = cand[0]; R0.vres = field(R0, r)
    q = f"{k}: points of the finest level are no farther apart than asked for, with no more levels than that takes"
    lg = lambda x: l_fn("log", x)
    good = [l_fn(f, l_div(a, b)) for f in ("ceil",) for a in (lg(l_div(D, r)), l_sub(lg(D), lg(r))) for b in (lg(l_sub(N, ONE)),)]
    good += [l_fn("trunc", x) for x in good]
    ok = None
    h = about(g, it, r)
    for x in good:
        want = dd_lt(it, x)
        # whole numbers from 0: 0 < it < x says 1 < x
        first, more = eqc(it, 0), dd_lt(ONE, x)
        ax = NOT(OR(AND(AND(NOT(first), want), NOT(more)), AND(AND(first, NOT(want)), more)))
        w = OR(want, first)
        a = AND(AND(h, ax), NOT(w)); b = AND(AND(w, ax), NOT(h))
        if not feasible(a) and not feasible(b):
            ok = True
    if ok:
        ctx.ob(q, True, R.loc); return
    w = coarse(g, it, D, r, N)
    if w:
        ctx.ob(q, False, R.loc, w)
    else:
        ctx.und(q, "formula not recognised")


def about(g, it, r):
    """what g says about the number of levels"""
    return gvn.exists(g, lambda v: not any(h03.gvn_contains(x, it.fp) or h03.gvn_contains(x, r.fp) for x in gvn.var_leaf(v)))


def decide(g, env):
    """g, its conditions decided by values"""
    def dec(v):
        i = gvn._varinfo[v]
        if not i or i[0] not in ("<0", "pos", "=="):
            return None
        if i[0] == "==":
            a, b = value(i[1], env), value(i[2], env)
            return None if a is None or b is None else a == b
        x = i[1] if i[0] == "<0" else i[1][1]
        a = value(x, env)
        return None if a is None else (a < 0 if i[0] == "<0" else a > 0)
    return gvn.restrict_vars(g, dec)


def coarse(g, it, D, r, N):
    for d in (45000.0, 3000.0, 1000.0, 50.0, 5.0):
        for v in (1.0, 10.0, 30.0, 500.0):
            for n in (3.0, 4.0, 10.0, 21.0):
                L = 0
                while L < 60:
                    x = decide(g, {it.fp: float(L), D.fp: d, r.fp: v, N.fp: n})
                    if not feasible(x):
                        break
                    L += 1
                if L == 0:
                    return None
                s = d / (n - 1) ** L
                case = f"maximum depth {d:g}, resolution {v:g}, {n:g} points: {L} levels, points {s:g} apart"
                if s > v * (1 + 1e-9):
                    return case
                if L > 1 and d / (n - 1) ** (L - 1) < v * (1 - 1e-9):
                    return case
    return None


def depth(ctx, R0, I, R, vs, vkey, vit, E, T, B, qT, qB, t, buf, k, none):
    """linear interpolation within the last interval"""
    vT, vB = outval2(R, I, qT, I.val(qT.args[1], I.g(qT.guard)), l_mul(vit, C(8))), outval2(R, I, qB, I.val(qB.args[1], I.g(qB.guard)), l_mul(vit, C(8)))
    if vT is None or vB is None:
        ctx.und(f"{k}: depth", "values not recognised"); return
    interp = l_sub(E, l_add(T, l_div(l_mul(l_sub(t, vT), l_sub(B, T)), l_sub(vB, vT))))
    attop = l_sub(E, T); atbot = l_sub(E, B)
    le = lambda a, b: NOT(dd_lt(b, a))
    inside = OR(AND(le(vT, t), le(t, vB)), AND(le(t, vT), le(vB, t)))
    eq = gvn.l_feq(vT, t); eqB = gvn.l_feq(vB, t)
    above = dd_lt(t, vT)
    for s in vs:
        if s.loops[2] != vkey:
            continue
        sg = I.g(s.guard)
        for l, c in cases(I.val(s.args[1], sg), sg):
            c = AND(c, sg)
            if not feasible(c):
                continue
            kk = f"{k}: depth"
            if l.fp == interp.fp:
                m = AND(c, NOT(inside))
                ctx.ob(f"{kk}: is interpolated where the value lies within the last interval", not feasible(m), s.loc(), f"also when {why(m)}" if feasible(m) else "")
                m = AND(AND(c, eq), eqB)
                ctx.ob(f"{kk}: is a number where the values are uniform", not feasible(m), s.loc(), "0/0 where both values are that of the isosurface")
            elif l.fp == attop.fp:
                m = AND(c, NOT(eq))
                ctx.ob(f"{kk}: is that of the top of the interval only where the value is there", not feasible(m), s.loc(), f"also when {why(m)}" if feasible(m) else "")
            elif l.fp == atbot.fp:
                m = AND(c, NOT(eqB))
                ctx.ob(f"{kk}: is that of the bottom of the interval only where the value is there", not feasible(m), s.loc(), f"also when {why(m)}" if feasible(m) else "")
            elif l.const == 0:
                m = AND(AND(c, NOT(AND(inside, dd_lt(interp, ZERO)))), OR(inside, NOT(above)))
                ctx.ob(f"{kk}: is 0 where all values are above the value of the isosurface", not feasible(m), s.loc(), f"also when {why(m)}" if feasible(m) else "")
            elif l.const == NODATA:
                m = AND(c, OR(inside, above))
                ctx.ob(f"{kk}: is missing where the value is not reached", not feasible(m), s.loc(), f"also when {why(m)}" if feasible(m) else "")
            elif l.const is not None or bounded(R0, l, (T, B, vT, vB, t, E)):
                ctx.ob(f"{kk}: is that of the linear interpolation below the surface", False, s.loc(), f"is {txt(l, 120)}")
            else:
                ctx.und(kk, f"not recognised: {txt(l, 120)}")


def shallow(ctx, p, R, down):
    """each direction can be asked for; downwards is the default"""
    if len(down) != 2:
        return
    k = f"{PROG}: search"
    ctx.ob(f"{k}: both directions can be asked for", down[0] != down[1], R.loc, "both are the same")
    if down[0] == down[1]:
        return
    R.shallow = 1 if down[1] else 0
    fs = [g for g in p.repo_fns() if re.search(r"apps::Isosurface::Isosurface\(", g.dem) and g.blocks]
    if not fs:
        return
    E = EV.Evaluator(p, models={**SM.STREAMS, **SM.VECMUT})
    E.run(fs[0], None, EV.State())
    v = E.load(E.state, padd(THIS, C(field(R, R.flag))), "i8", 1, None)
    if isinstance(v, Leaf) and v.const is not None:
        ctx.ob(f"{k}: is from the top down unless asked otherwise", v.const == R.shallow, fs[0].loc(), "is from the bottom up")
    else:
        ctx.und(f"{k}: is from the top down unless asked otherwise", txt(v, 40))
