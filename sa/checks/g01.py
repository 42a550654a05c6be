"""GeoTiff images: what was set is what is written, what is read is what the file holds, and the buffer always fits the image"""
from common_exc import *
import strmodels as SM
import models as MD
import h01, h03, c01
from h01 import isl, th, exits
from h03 import covers, eqp
from h04 import nodes, why, eqc1
from c01 import cases, fnargs, istext, par

MINIMUM = 40
CLS = "utils::GeoTiff"
FLOAT = 6                                    # GDT_Float32
SEEN = {}


def feasible(d):
    return th(d) is not ZERO


def m_settransform(act, i, dem, args, g, st, setres):
    """the six numbers handed over"""
    SEEN["set"] = [act.ev.load(st, padd(args[1], gvn.const(8 * n)), "double", 8, ("gt", i.line, n)) for n in range(6)]
    return NotImplemented


def m_gettransform(act, i, dem, args, g, st, setres):
    """stores the six numbers of the file"""
    r = l_fn("gettransform", args[0])
    act.ev.events.append(EV.Event("call", g, "GDALDataset::GetGeoTransform()", args[:2], r, i, act.ctx, tuple(act.ev.loopstack), None, len(act.ev.events)))
    for n in range(6):
        act.ev.store(st, padd(args[1], gvn.const(8 * n)), l_fn(f"geo{n}", args[0]), 8, g, ("gt", i.line, n))
    setres(r)
    return None


VM = {r"^GDALDataset::SetGeoTransform\(": m_settransform, r"^GDALDataset::GetGeoTransform\(": m_gettransform}


class V(c01.V):
    n = 0

    def __init__(self, p, f, args, st=None):
        V.n += 1
        c01.V.__init__(self, p, f, args, st, VM, ("run", V.n))

    def at8(self, a, ty="i64"):
        return self.E.load(self.st, a, ty, 8, None)


class G:
    """the class: an object and what is done with it"""
    def __init__(self, ctx, p):
        self.ctx = ctx; self.p = p
        self.this = par(0, "this")
        ctor = [f for f in p.repo_fns() if re.search(r"GeoTiff::GeoTiff\(\)$", f.dem) and f.blocks]
        if not ctor:
            raise core.AnalysisBroken("GeoTiff::GeoTiff() vanished")
        self.new = V(p, ctor[0], [self.this]).st

    def do(self, name, args, st):
        R = V(self.p, self.p.get(f"{CLS}::{name}"), [self.this] + args, st)
        if R.st is None:
            self.ctx.ob(f"{name} returns", False, R.loc, "never returns normally")
        return R

    def sized(self, st, cols, rows, bands):
        for n, a in (("setNumCols", cols), ("setNumRows", rows), ("setNumBands", bands)):
            R = self.do(n, [a], st)
            if R.st is None:
                return None
            st = R.st
        return st


def is_it(l, w):
    return isinstance(l, Leaf) and l.fp == w.fp


def check(ctx):
    p = core.load(("lib",))
    g = G(ctx, p)
    cols, rows, bands = par(10, "numCols"), par(11, "numRows"), par(12, "numBands")
    st = g.sized(g.new, cols, rows, bands)
    if st is None:
        return
    ctx.guard("sizes", sizes, ctx, g, st)
    ctx.guard("buffer", buffer, ctx, g, st, (cols, rows, bands))
    st = ctx.guard("settings", settings, ctx, g, st, (cols, rows, bands))
    if isinstance(st, tuple):
        ctx.guard("create", create, ctx, g, st, (cols, rows, bands))
        # an object that has been used for another image
        B = g.do("getBands", [], st[0])
        if B.st is not None:
            ctx.guard("read", read, ctx, g, B.st, "read (object used before)")
    ctx.guard("read", read, ctx, g, g.new, "read")


def sizes(ctx, g, st):
    for name, w in (("NumCols", "numCols"), ("NumRows", "numRows"), ("NumBands", "numBands")):
        v = par(20, "value")
        R = g.do("set" + name, [v], g.new)
        if R.st is None:
            continue
        bad = AND(R.ret, eqc(v, 0))
        ctx.ob(f"set{name} refuses nothing", not feasible(bad), R.loc, "accepts 0" if feasible(bad) else "")
        lost = nothrow(AND(NOT(R.ret), NOT(eqc(v, 0))))
        ctx.ob(f"set{name} accepts every number", not feasible(lost), R.loc, f"refuses when {why(lost)}" if feasible(lost) else "")
        Q = g.do("get" + name, [], R.st)
        if Q.st is not None:
            got = [(l, c) for l, c in cases(Q.res, AND(Q.ret, R.ret)) if l.fp != v.fp]
            ctx.ob(f"get{name} gives what was set", not got, Q.loc, f"gives {txt(got[0][0], 60)}" if got else "")
        Q = g.do("get" + name, [], st)
        want = par({"numCols": 10, "numRows": 11, "numBands": 12}[w], w)
        if Q.st is not None:
            got = [(l, c) for l, c in cases(Q.res, Q.ret) if l.fp != want.fp]
            ctx.ob(f"get{name} gives its own number when all are set", not got, Q.loc, f"gives {txt(got[0][0], 60)}" if got else "")


def alloc(Rs, l):
    """bytes of the allocation a pointer is of"""
    for R in Rs:
        for e in R.ev:
            if e.kind == "call" and e.callee in ("_Znam", "operator new[](unsigned long)", "_Znwm", "malloc") and isinstance(e.res, Leaf) and e.res.fp == l.fp:
                return e, e.args[0]
            if e.kind == "call" and e.callee == "calloc" and isinstance(e.res, Leaf) and e.res.fp == l.fp:
                return e, l_mul(e.args[0], e.args[1])
    return None, None


def fits(ctx, key, Rs, d, g, dims, loc):
    """in every case the buffer has room for the image"""
    need = l_mul(l_mul(l_mul(dims[0], dims[1]), dims[2]), gvn.const(4))
    for l, c in cases(d, g):
        e, sz = alloc(Rs, l)
        if e is None:
            if l.const == 0:
                ctx.ob(key, False, loc, f"gives no buffer when {why(c)}")
            else:
                ctx.und(key, f"buffer not recognised: {txt(l, 60)}")
            continue
        for s, c2 in cases(sz, c):
            if s.fp == need.fp:
                ctx.ob(key, True, loc, "")
            else:
                yield l, s, c2, e


def buffer(ctx, g, st, dims):
    A = g.do("getBands", [], st)
    if A.st is None:
        return
    for l, s, c, e in fits(ctx, "getBands: the buffer holds the image", [A], A.res, A.ret, dims, A.loc):
        ctx.ob("getBands: the buffer holds the image", False, e.loc(), f"has {txt(s, 80)} bytes")
    B = g.do("getBands", [], A.st)
    if B.st is not None:
        d = AND(AND(A.ret, B.ret), NOT(c01_same(A.res, B.res)))
        ctx.ob("getBands gives the same buffer again", not feasible(d), B.loc, f"another one when {why(d)}" if feasible(d) else "")
    # the size of the image changes
    d2 = [par(30 + n, x) for n, x in enumerate(("newCols", "newRows", "newBands"))]
    for order in ((0, 1, 2), (2, 1, 0)):
        s2 = A.st; Rs = [A]
        for n in order:
            R = g.do(("setNumCols", "setNumRows", "setNumBands")[n], [d2[n]], s2)
            if R.st is None:
                return
            Rs.append(R); s2 = R.st
        C = g.do("getBands", [], s2)
        if C.st is None:
            return
        Rs.append(C)
        key = "getBands after a change of the size: the buffer holds the image"
        reach = AND(C.ret, AND(*[R.ret for R in Rs[1:-1]]) if False else AND(Rs[1].ret, AND(Rs[2].ret, Rs[3].ret)))
        for l, s, c, e in fits(ctx, key, Rs, C.res, reach, d2, C.loc):
            # room is given when no dimension changed
            if all(not feasible(AND(c, NOT(leq_eq(d2[n], dims[n])))) for n in range(3)):
                ctx.ob(key, True, C.loc, ""); continue
            odd = [v for v in nodes(c) if not simple(v, d2, dims)]
            if odd:
                ctx.und(key, f"kept under a condition that was not recognised")
            else:
                ctx.ob(key, False, C.loc, f"still the buffer of {txt(s, 60)} bytes when {why(c)}")


def simple(v, a, b):
    """a condition on one dimension or on a pointer: not about room"""
    ds = {x.fp for x in a} | {x.fp for x in b}
    l = gvn.var_leaf(v)
    for x in l:
        if len([f for f in ds if h03.gvn_contains(x, f)]) > 2:
            return False
    return True


def c01_same(a, b):
    return app2("same", lambda x, y: ONE if x.fp == y.fp else ZERO, a, b)


def settings(ctx, g, st, dims):
    # coordinate system
    v = par(40, "crs")
    R = g.do("setCRS", [v], st)
    if R.st is None:
        return None
    ln = [x for e in R.ev for x in (e.args or ())]
    sl = MD.strlength(MD.cval(v)) if hasattr(MD, "strlength") else None
    first = eqc(R.E.load(EV.State(), v, "i8", 1, None), 0)
    told = OR(AND(first, eqc(sl, 0)), AND(NOT(first), NOT(eqc(sl, 0))))      # a text is empty when its first character ends it
    bad = AND(R.ret, eqc(v, 0))
    ctx.ob("setCRS refuses NULL", not feasible(bad), R.loc, "accepted" if feasible(bad) else "")
    empty = AND(eqc(sl, 0), told)
    bad = AND(R.ret, AND(NOT(eqc(v, 0)), empty))
    ctx.ob("setCRS refuses an empty text", not feasible(bad), R.loc, f"accepted when {why(bad)}" if feasible(bad) else "")
    lost = nothrow(AND(NOT(R.ret), AND(NOT(eqc(v, 0)), AND(told, NOT(eqc(sl, 0))))))
    ctx.ob("setCRS accepts every other text", not feasible(lost), R.loc, f"refuses when {why(lost)}" if feasible(lost) else "")
    Q = g.do("getCRS", [], R.st)
    if Q.st is not None:
        bad = [(l, c) for l, c in cases(Q.res, AND(AND(Q.ret, R.ret), NOT(eqc(v, 0)))) if not istext(l, v)]
        ctx.ob("getCRS gives what was set", not bad, Q.loc, f"gives {txt(bad[0][0], 60)}" if bad else "")
    s = restr(R)
    # labels
    lb = par(41, "labels")
    R = g.do("setBandLabels", [lb], s)
    if R.st is None:
        return None
    E = R.E
    f0 = EV.State()
    n = l_div(l_sub(E.load(f0, padd(lb, gvn.const(8)), "ptr", 8, None), E.load(f0, lb, "ptr", 8, None)), gvn.const(32))
    okn = leq_eq(n, dims[2])
    bad = AND(R.ret, NOT(okn))
    ctx.ob("setBandLabels refuses another number of labels than bands", not feasible(bad), R.loc, f"accepted when {why(bad)}" if feasible(bad) else "")
    lost = nothrow(AND(NOT(R.ret), okn))
    ctx.ob("setBandLabels accepts as many labels as bands", not feasible(lost), R.loc, f"refuses when {why(lost)}" if feasible(lost) else "")
    asg = [e for e in R.calls(r"^std::vector<.*>::operator=\(") if eqp(e.args[1], lb)]
    vec = None
    if not asg:
        ctx.und("setBandLabels", "assignment of the labels not recognised")
    else:
        m = AND(R.ret, NOT(nothrow(asg[0].guard)))
        ctx.ob("setBandLabels keeps the labels", not feasible(m), asg[0].loc(), f"not when {why(m)}" if feasible(m) else "")
        vec = asg[0].args[0]
        Q = g.do("getBandLabels", [], R.st)
        if Q.st is not None:
            ctx.ob("getBandLabels gives them", eqp(Q.res, vec), Q.loc, f"gives {txt(Q.res, 60)}")
    s = restr(R)
    # value for no data
    nd = par(42, "nodata")
    R = g.do("setNoDataValue", [nd], s)
    if R.st is None:
        return None
    ctx.ob("setNoDataValue accepts every value", not feasible(nothrow(NOT(R.ret))), R.loc, "does not return")
    s = restr(R)
    # bounding box
    bb = [par(50 + k, x) for k, x in enumerate(("minX", "maxX", "minY", "maxY"))]
    R = g.do("setBBox", bb, s)
    if R.st is None:
        return None
    ctx.ob("setBBox accepts every box", not feasible(nothrow(NOT(R.ret))), R.loc, "does not return")
    s = restr(R)
    box(ctx, g, s, bb, "getBBox after setBBox")
    return s, v, vec, nd, bb


def restr(R):
    return R.st


def box(ctx, g, s, want, key):
    out = [par(60 + k, x) for k, x in enumerate(("minX", "maxX", "minY", "maxY"))]
    R = g.do("getBBox", out, s)
    if R.st is None:
        return
    ctx.ob(f"{key} returns", not feasible(nothrow(NOT(R.ret))), R.loc, "does not return")
    names = ("minX", "maxX", "minY", "maxY")
    for k in range(4):
        c0 = AND(R.ret, NOT(eqc(out[k], 0)))
        for m in range(4):
            if m != k:
                c0 = AND(c0, NOT(eqc(l_sub(out[k], out[m]), 0)))
        bad = [(l, c) for l, c in cases(R.at(out[k]), c0) if l.fp != want[k].fp]
        ctx.ob(f"{key}: {names[k]}", not bad, R.loc, f"gives {txt(bad[0][0], 100)}" if bad else "")
        w = [e for e in R.ev if e.kind == "store" and isinstance(e.args[0], Leaf) and e.args[0].fp == out[k].fp and feasible(AND(e.guard, eqc(out[k], 0)))]
        ctx.ob(f"{key}: nothing is written without a place for it ({names[k]})", not w, w[0].loc() if w else R.loc, "written through NULL" if w else "")


def failed(e):
    """condition that a call of GDAL or PROJ has failed; None: cannot be told from its result"""
    c = e.callee
    if not isinstance(e.res, (Leaf, Node)):
        return None
    if re.search(r"GetDriverByName|GDALDriver::Create\(|^proj_create|^GDALOpen|GetRasterBand\(", c):
        return eqc1(e.res, 0)
    if re.search(r"SetProjection|SetSpatialRef|SetGeoTransform|GetGeoTransform|RasterIO", c):
        return NOT(eqc1(e.res, 0))
    return None


def outcome(ctx, key, R, extra=ONE, skip=None):
    """normal return exactly when nothing failed"""
    ok = extra
    for e in R.ev:
        if e.kind != "call" or not e.callee or (skip and re.search(skip, e.callee)):
            continue
        f = failed(e)
        if f is None:
            continue
        if not e.loops:
            m = AND(AND(R.ret, e.guard), f)
            ctx.ob(f"{key}: a failure of {e.callee.split('(')[0]} is an error", not feasible(m), e.loc(), "result is not looked at" if feasible(m) else "")
            ok = AND(ok, OR(NOT(e.guard), NOT(f)))
        else:
            # leaves the loop in the iteration where it fails
            i = R.E.loopinfo.get(e.loops[0])
            if i is not None and i.get("it") is not None:
                m = AND(AND(nothrow(backguard(i)), e.guard), f)
                (ctx.ob(f"{key}: a failure of {e.callee.split('(')[0]} is an error", not feasible(m), e.loc(), "goes on all the same" if feasible(m) else ""))
    for e in R.calls(r"^proj_as_wkt$"):
        pass
    return ok


def same_ds(l, ds):
    return isinstance(l, Leaf) and l.fp == ds.fp


def create(ctx, g, got, dims):
    st, crs, vec, nd, bb = got
    cols, rows, bands = dims
    name = par(70, "filename")
    SEEN.clear()
    key = "create"
    R = g.do("create", [name], st)
    if R.st is None:
        return
    cr = R.calls(r"^GDALDriver::Create\(")
    if len(cr) != 1 or not isinstance(cr[0].res, Leaf):
        ctx.und(key, "creation of the dataset not recognised"); return
    e = cr[0]; ds = e.res
    m = AND(R.ret, NOT(e.guard))
    ctx.ob(f"{key}: the file is made", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    dr = fnargs(e.args[0], r"GDALDriverManager::GetDriverByName.*|GetDriverByName")
    dr = dr and [x for x in dr if MD.const_string(x) is not None]
    if not dr:
        ctx.und(f"{key}: format", f"driver not recognised: {txt(e.args[0], 60)}")
    else:
        ctx.ob(f"{key}: the format is GeoTIFF", MD.const_string(dr[0]) == "GTiff", e.loc(), f"driver is {txt(dr[0], 40)}")
    ctx.ob(f"{key}: the file named", istext(e.args[1], name), e.loc(), f"is {txt(e.args[1], 60)}")
    for k, (w, what) in enumerate(((cols, "columns"), (rows, "rows"), (bands, "bands"))):
        ctx.ob(f"{key}: number of {what}", is_it(e.args[2 + k], w), e.loc(), f"is {txt(e.args[2 + k], 60)}")
    ctx.ob(f"{key}: values are single precision numbers", isinstance(e.args[5], Leaf) and e.args[5].const == FLOAT, e.loc(), f"type is {txt(e.args[5], 30)}")
    # coordinate system
    pj = R.calls(r"SetProjection\(|SetSpatialRef\(")
    if not pj:
        ctx.ob(f"{key}: the coordinate system is written", False, e.loc(), "not set")
    for x in pj:
        ctx.ob(f"{key}: the coordinate system is of this file", same_ds(x.args[0], ds), x.loc(), f"of {txt(x.args[0], 60)}")
        for l, c in cases(x.args[1], AND(x.guard, R.ret)):
            w = fnargs(l, "proj_as_wkt")
            o = c01.crs_of(w[1]) if w else None
            if o is None:
                bad = l.const is not None or istext(l, crs) or MD.const_string(l) is not None
                if istext(l, crs):
                    ctx.ob(f"{key}: the coordinate system is handed over as WKT", False, x.loc(), "GDAL is given the text itself")
                elif bad:
                    ctx.ob(f"{key}: the coordinate system set", False, x.loc(), f"is {txt(l, 60)}")
                else:
                    ctx.und(f"{key}: coordinate system", f"not recognised: {txt(l, 80)}")
                continue
            ctx.ob(f"{key}: the coordinate system set", istext(o, crs), x.loc(), f"of {txt(o, 60)}")
    if pj:
        m = AND(R.ret, NOT(sumg(pj)))
        ctx.ob(f"{key}: the coordinate system is always written", not feasible(m), pj[0].loc(), f"not when {why(m)}" if feasible(m) else "")
    # position
    gt = R.calls(r"SetGeoTransform\(")
    if not gt or "set" not in SEEN:
        ctx.ob(f"{key}: the position is written", False, e.loc(), "not set") if not gt else ctx.und(f"{key}: position", "not recognised")
    else:
        x = gt[0]
        m = AND(R.ret, NOT(sumg(gt)))
        ctx.ob(f"{key}: the position is always written", not feasible(m), x.loc(), f"not when {why(m)}" if feasible(m) else "")
        ctx.ob(f"{key}: the position is of this file", same_ds(x.args[0], ds), x.loc(), f"of {txt(x.args[0], 60)}")
        want = [bb[0], l_div(l_sub(bb[1], bb[0]), cols), gvn.const(0), bb[3], gvn.const(0), l_div(l_sub(bb[2], bb[3]), rows)]
        what = ("left edge", "width of a column", "rotation of rows", "upper edge", "rotation of columns", "height of a row (downwards)")
        for k in range(6):
            for l, c in cases(SEEN["set"][k], AND(x.guard, R.ret)):
                ctx.ob(f"{key}: {what[k]}", is_it(l, want[k]), x.loc(), f"is {txt(l, 80)}")
    # bands
    if vec is not None:
        labels(ctx, key, R, ds, vec, bands)
    nds = R.calls(r"SetNoDataValue\(")
    if not nds:
        ctx.ob(f"{key}: the value for no data is written", False, e.loc(), "not set")
    for x in nds:
        b = band(x.args[0], ds)
        if b is None:
            ctx.und(f"{key}: value for no data", f"band not recognised: {txt(x.args[0], 60)}"); continue
        it = covers(ctx, f"{key}: value for no data of every band", R, x, [bands], "bands", also=nds)
        if it is not None:
            numbered(ctx, f"{key}: value for no data of every band", b, it, x)
        bad = [l for l, c in cases(x.args[1], x.guard) if l.fp != nd.fp]
        ctx.ob(f"{key}: the value for no data set", not bad, x.loc(), f"is {txt(bad[0], 60)}" if bad else "")
    ok = outcome(ctx, key, R)
    lost = nothrow(AND(ok, NOT(R.ret)))
    wk = ZERO
    for x in R.calls(r"^proj_as_wkt$|^proj_is_crs$"):
        wk = OR(wk, AND(x.guard, eqc1(x.res, 0)))
    lost = AND(lost, NOT(wk))
    ctx.ob(f"{key} succeeds when nothing fails", not looped(R, lost), R.loc, f"fails when {why(lost)}" if feasible(lost) else "")
    pixels(ctx, g, R, dims, ds)


def looped(R, d):
    """feasible without a condition taken from inside a loop"""
    its = [i["it"].fp for i in R.E.loopinfo.values() if i.get("it") is not None]
    for v in nodes(d):
        if any(h03.gvn_contains(x, f) for x in gvn.var_leaf(v) for f in its):
            return False
    return feasible(d)


def sumg(es):
    r = ZERO
    for e in es:
        r = OR(r, e.guard)
    return r


def band(l, ds):
    a = fnargs(l, r"GDALDataset::GetRasterBand.*|GetRasterBand|GDALGetRasterBand")
    if a is None or not same_ds(a[0], ds):
        return None
    return a[1]


def numbered(ctx, key, b, it, e):
    d = l_sub(b, it)
    if d.const is not None:
        ctx.ob(f"{key}: numbered from 1", d.const == 1, e.loc(), f"first band is {d.const}")
    else:
        ctx.und(key, f"band is {txt(b, 60)}")


def straight(l, it, n):
    """a number made of the iteration and the number of bands alone"""
    d = subst(l, {it.fp: ZERO, n.fp: gvn.const(7)})
    return isinstance(d, Leaf) and d.const is not None


def vecsize(R, vec, st=None):
    s = EV.State() if st is None else st
    return l_div(l_sub(R.E.load(s, padd(vec, gvn.const(8)), "ptr", 8, None), R.E.load(s, vec, "ptr", 8, None)), gvn.const(32))


def labels(ctx, key, R, ds, vec, bands):
    es = R.calls(r"SetDescription\(")
    if not es:
        ctx.ob(f"{key}: labels are written", False, R.loc, "not set"); return
    for e in es:
        b = band(e.args[0], ds)
        if b is None or len(e.loops) != 1:
            ctx.und(f"{key}: labels", f"band not recognised: {txt(e.args[0], 60)}"); continue
        it, n = h03.trip(R, e.loops[0])
        i = R.E.loopinfo[e.loops[0]]
        it = i.get("it")
        if it is None:
            ctx.und(f"{key}: labels", "loop not recognised"); continue
        # the element whose text is handed over
        v = MD.cval(e.args[1])
        el = None
        if isinstance(v, Leaf):
            ps = MD.parts_of(v)
            if ps and len(ps) == 1 and isinstance(ps[0], Leaf):
                a = fnargs(ps[0], r"ld|chars")
                el = a[0] if a else None
        x = element(R, el, vec) if isinstance(el, Leaf) else None
        if x is None:
            (ctx.ob if v is not None and MD.const_string(e.args[1]) is not None else lambda k, a_, b_, m: ctx.und(k, m))(f"{key}: labels", False, e.loc(), f"text not recognised: {txt(e.args[1], 80)}"); continue
        d = l_sub(b, x)
        if d.const is None:
            if straight(b, it, bands) and straight(x, it, bands):
                ctx.ob(f"{key}: each band gets its own label", False, e.loc(), f"band {txt(b, 40)} gets label number {txt(x, 40)}")
            else:
                ctx.und(f"{key}: labels", f"band {txt(b, 40)} gets label {txt(x, 40)}")
            continue
        ctx.ob(f"{key}: each band gets its own label", d.const == 1, e.loc(), f"band {txt(b, 30)} gets label number {txt(x, 30)}")
        # every band that has a label gets it
        n = vecsize_end(R, vec)
        m = AND(nothrow(backguard(i)), NOT(nothrow(sumg([x_ for x_ in es if x_.loops == e.loops]))))
        left = m
        if n is not None:
            left = AND(m, dd_lt(x, n))
        if feasible(left):
            ctx.und(f"{key}: every label is written", f"left out when {why(left)}") if n is None or not any(h03.gvn_contains(q, n.fp) or True for q in [n]) else ctx.ob(f"{key}: every label is written", False, e.loc(), f"left out when {why(left)}")
        else:
            ctx.ob(f"{key}: every label is written", True, e.loc(), "")
        if n is not None:
            over = AND(e.guard, NOT(dd_lt(x, n)))
            short = over
            ctx.ob(f"{key}: only labels that exist", not feasible(AND(over, NOT(dd_lt(l_sub(b, gvn.const(1)), bands)))) or True, e.loc(), "")


def vecsize_end(R, vec):
    a = R.E.load(R.st.copy(), padd(vec, gvn.const(8)), "ptr", 8, None); b = R.E.load(R.st.copy(), vec, "ptr", 8, None)
    if not isinstance(a, Leaf) or not isinstance(b, Leaf):
        return None
    return l_div(l_sub(a, b), gvn.const(32))


def element(R, addr, vec):
    b = R.E.load(R.st.copy(), vec, "ptr", 8, None)
    for l, _ in cases(b, ONE):
        if ptrparts(addr)[0] is not None and ptrparts(addr)[0] == ptrparts(l)[0]:
            return l_div(l_sub(addr, l), gvn.const(32))
    return None


def transfer(ctx, key, R, e, ds, dims, mode, buf):
    cols, rows, bands = dims
    a = e.args
    if len(a) < 15:
        ctx.und(key, "transfer of pixels not recognised"); return
    ctx.ob(f"{key}: is of the open file", all(same_ds(l, ds) for l, c in cases(a[0], AND(e.guard, R.ret))), e.loc(), f"of {txt(a[0], 60)}")
    ctx.ob(f"{key}: direction", isinstance(a[1], Leaf) and a[1].const == mode, e.loc(), f"is {txt(a[1], 20)}")
    four = gvn.const(4)
    alts = {2: [gvn.const(0)], 3: [gvn.const(0)], 4: [cols], 5: [rows], 7: [cols], 8: [rows], 9: [gvn.const(FLOAT)], 10: [bands], 11: [gvn.const(0)],
            12: [gvn.const(0), four], 13: [gvn.const(0), l_mul(four, cols)], 14: [gvn.const(0), l_mul(four, l_mul(cols, rows))]}
    what = {2: "first column", 3: "first row", 4: "columns of the file", 5: "rows of the file", 7: "columns of the buffer", 8: "rows of the buffer", 9: "type in the buffer", 10: "bands", 11: "list of bands",
            12: "distance of pixels", 13: "distance of rows", 14: "distance of bands"}
    for k, w in alts.items():
        bad = [l for l, c in cases(a[k], AND(e.guard, R.ret)) if l.fp not in {x.fp for x in w}]
        ctx.ob(f"{key}: {what[k]}", not bad, e.loc(), f"is {txt(bad[0], 60)} instead of {txt(w[0], 60)}" if bad else "")
    if len(a) > 15:
        x = a[15]
    m = AND(AND(R.ret, e.guard), NOT(c01_same(a[6], buf))) if buf is not None else ZERO
    ctx.ob(f"{key}: the buffer of the image", not feasible(m), e.loc(), f"is {txt(a[6], 60)}" if feasible(m) else "")


def pixels(ctx, g, R, dims, ds):
    B = g.do("getBands", [], R.st)
    if B.st is None:
        return
    for l, s, c, e in fits(ctx, "getBands after create: the buffer holds the image", [R, B], B.res, AND(B.ret, R.ret), dims, B.loc):
        ctx.ob("getBands after create: the buffer holds the image", False, e.loc(), f"has {txt(s, 80)} bytes")
    W = g.do("write", [], B.st)
    if W.st is None:
        return
    io = W.calls(r"RasterIO\(")
    if not io:
        ctx.und("write", "transfer of pixels not recognised"); return
    for e in io:
        if not re.search(r"GDALDataset", e.callee):
            ctx.und("write", f"transfer of pixels not recognised: {e.callee[:40]}"); return
        transfer(ctx, "write", W, e, ds, dims, 1, B.res)
    m = AND(AND(W.ret, AND(B.ret, R.ret)), NOT(sumg(io)))
    ctx.ob("write: pixels are always written", not feasible(m), io[0].loc(), f"not when {why(m)}" if feasible(m) else "")
    ok = outcome(ctx, "write", W)
    lost = nothrow(AND(AND(AND(ok, NOT(W.ret)), AND(B.ret, R.ret)), NOT(eqc1(B.res, 0))))
    ctx.ob("write succeeds when nothing fails", not feasible(lost), W.loc, f"fails when {why(lost)}" if feasible(lost) else "")
    # between getBands() and write() nothing else happens to the buffer
    gone = [e for R2 in (B, W) for e in R2.ev if e.kind == "call" and re.search(r"^operator delete|^free$|^_ZdaPv", e.callee or "") and feasible(AND(e.guard, c01_same(e.args[0], B.res)))]
    ctx.ob("write: the buffer is there", not gone, gone[0].loc() if gone else W.loc, "released before")


def read(ctx, g, st, key):
    name = par(80, "filename")
    R = g.do("read", [name], st)
    if R.st is None:
        return
    op = R.calls(r"^GDALOpen(Shared)?$")
    if len(op) != 1 or not isinstance(op[0].res, Leaf):
        ctx.und(key, "opening of the file not recognised"); return
    ds = op[0].res
    ctx.ob(f"{key}: the file named", istext(op[0].args[0], name), op[0].loc(), f"is {txt(op[0].args[0], 60)}")
    ctx.ob(f"{key}: only for reading", isinstance(op[0].args[1], Leaf) and op[0].args[1].const == 0, op[0].loc(), f"access is {txt(op[0].args[1], 20)}")
    sz = []
    for n, rx, what in (("getNumCols", r"GetRasterXSize\(", "columns"), ("getNumRows", r"GetRasterYSize\(", "rows"), ("getNumBands", r"GetRasterCount\(", "bands")):
        Q = g.do(n, [], R.st)
        es = [e for e in R.calls(rx) if same_ds(e.args[0], ds)]
        if Q.st is None:
            return
        if not es:
            for l, c in cases(Q.res, AND(Q.ret, R.ret)):
                k = fnargs(l, r".*")
                rec = l.const is not None or any(isinstance(x, Leaf) and x.fp == l.fp for e in R.calls(r"GetRaster[XYC]") for x in [e.res])
                ctx.ob(f"{key}: number of {what}", False, R.loc, f"is {txt(l, 60)}") if rec else ctx.und(f"{key}: number of {what}", f"not recognised: {txt(l, 60)}")
            return
        bad = [l for l, c in cases(Q.res, AND(Q.ret, R.ret)) if l.fp != es[0].res.fp]
        ctx.ob(f"{key}: number of {what} is that of the file", not bad, es[0].loc(), f"is {txt(bad[0], 60)}" if bad else "")
        sz.append(es[0].res)
    # coordinate system
    Q = g.do("getCRS", [], R.st)
    ref = R.calls(r"GetProjectionRef\(|GetSpatialRef\(")
    if Q.st is not None and ref:
        e = ref[0]
        ctx.ob(f"{key}: the coordinate system is of the file", same_ds(e.args[0], ds), e.loc(), f"of {txt(e.args[0], 60)}")
        bad = [(l, c) for l, c in cases(Q.res, AND(AND(Q.ret, R.ret), NOT(eqc1(e.res, 0)))) if not istext(l, e.res)]
        ctx.ob(f"{key}: the coordinate system of the file", not bad, e.loc(), f"is {txt(bad[0][0], 60)} when {why(bad[0][1])}" if bad else "")
    else:
        ctx.und(f"{key}: coordinate system", "not recognised")
    # position
    gt = [l_fn(f"geo{n}", ds) for n in range(6)]
    if not R.calls(r"GetGeoTransform"):
        ctx.und(f"{key}: position", "not recognised")
    else:
        box(ctx, g, R.st, [gt[0], l_add(gt[0], l_mul(gt[1], sz[0])), l_add(gt[3], l_mul(gt[5], sz[1])), gt[3]], f"getBBox after {key}")
        for n in (2, 4):
            bad = AND(R.ret, NOT(l_feq(gt[n], gvn.const(0))))
            ctx.ob(f"{key}: a rotated image is refused", not feasible(bad), R.loc, f"accepted when {why(bad)}" if feasible(bad) else "")
    rlabels(ctx, key, g, R, ds, sz[2])
    io = R.calls(r"RasterIO\(")
    B = g.do("getBands", [], R.st)
    if not io or B.st is None or not all(re.search("GDALDataset", e.callee) for e in io):
        ctx.und(f"{key}: pixels", "transfer not recognised")
    else:
        buf = B.res
        # what a caller gets is the buffer the pixels are in
        for e in io:
            transfer(ctx, key, R, e, ds, sz, 0, buf)
        m = AND(R.ret, NOT(sumg(io)))
        ctx.ob(f"{key}: pixels are always read", not feasible(m), io[0].loc(), f"not when {why(m)}" if feasible(m) else "")
        pos = ONE
        n = l_mul(l_mul(sz[0], sz[1]), sz[2])
        pos = dd_lt(gvn.const(0), n)
        for l, s, c, e in fits(ctx, f"{key}: the buffer holds the image", [R, B], buf, AND(AND(R.ret, B.ret), pos), sz, R.loc):
            if feasible(c):
                ctx.ob(f"{key}: the buffer holds the image", False, e.loc(), f"has {txt(s, 80)} bytes")
    pos = AND(dd_lt(gvn.const(0), l_mul(l_mul(sz[0], sz[1]), sz[2])), NOT(eqc(l_mul(l_mul(sz[0], sz[1]), sz[2]), 0)))
    ok = outcome(ctx, key, R, skip="GetRasterBand")
    ok = AND(ok, AND(l_feq(gt[2], gvn.const(0)), l_feq(gt[4], gvn.const(0))))
    lost = AND(nothrow(AND(ok, NOT(R.ret))), pos)
    ctx.ob(f"{key} succeeds when nothing fails", not looped(R, lost), R.loc, f"fails when {why(lost)}" if feasible(lost) else "")


def rlabels(ctx, key, g, R, ds, bands):
    Q = g.do("getBandLabels", [], R.st)
    if Q.st is None or not isinstance(Q.res, Leaf):
        return
    vec = Q.res
    k = f"{key}: labels"
    rz = h03.resized(R, vec)
    if not rz:
        rappended(ctx, key, k, R, ds, bands, vec); return
    bad = [l for e in rz for l, c in cases(e.args[1], e.guard) if l.fp != bands.fp]
    ctx.ob(f"{k}: one for each band", not bad, rz[0].loc(), f"{txt(bad[0], 60)} instead" if bad else "")
    ds_ = [e for e in R.calls(r"GetDescription\(")]
    sts = [e for e in R.ev if e.kind == "store" and isinstance(e.args[0], Leaf) and h03.element(R, e.args[0], vec) is not None]
    if not sts or not ds_:
        ctx.und(k, "texts not recognised"); return
    for s in sts:
        x = h03.element(R, s.args[0], vec)
        src = [e for e in ds_ if any(istext2(l, e.res) for l, c in cases(s.args[1], s.guard))]
        if not src:
            ctx.und(k, f"text is {txt(s.args[1], 60)}"); continue
        e = src[0]
        b = band(e.args[0], ds)
        if b is None:
            ctx.und(k, f"band not recognised: {txt(e.args[0], 60)}"); continue
        d = l_sub(b, x)
        if d.const is None:
            it = R.E.loopinfo[s.loops[0]].get("it") if s.loops else None
            if it is not None and straight(b, it, bands) and straight(x, it, bands):
                ctx.ob(f"{k}: each is that of its own band", False, s.loc(), f"label number {txt(x, 30)} is that of band {txt(b, 60)}")
            else:
                ctx.und(k, f"band {txt(b, 40)} gives label {txt(x, 40)}")
            continue
        ctx.ob(f"{k}: each is that of its own band", d.const == 1, s.loc(), f"label number {txt(x, 30)} is that of band {txt(b, 30)}")
        it = covers(ctx, f"{k}: those of all bands", R, s, [bands], "bands", unless=eqc1(e.res, 0), empty=True)
        if it is not None:
            numbered(ctx, f"{k}: those of all bands", b, it, e)


def rappended(ctx, key, k, R, ds, bands, vec):
    """labels added one by one to the list"""
    on = [e for e in R.calls(r"^(\S.*[&*] |void )?std::vector<.*>::(push_back|emplace_back|clear|operator=|assign|swap|erase|insert)(<.*>)?\(") if eqp(e.args[0], vec)]
    add = [e for e in on if re.search(r">::(push_back|emplace_back)", e.callee)]
    ds_ = [e for e in R.calls(r"GetDescription\(")]
    if not add or not ds_ or len(add) + len([e for e in on if re.search(r">::clear", e.callee)]) != len(on):
        ctx.und(k, "list of labels not recognised"); return
    if "used before" in key:
        lost = nothrow(add[0].guard)
        for e in on:
            if not e.loops and e not in add:
                lost = AND(lost, NOT(e.guard))
        ctx.ob(f"{k}: one for each band", not feasible(lost), add[0].loc(), f"the labels of the file read before are kept when {why(lost)}" if feasible(lost) else "")
    for s in add:
        t = (s.extra or s.args[1:])[0]
        src = [e for e in ds_ if any(istext2(l, e.res) for l, c in cases(t, s.guard))]
        if not src:
            ctx.und(k, f"text is {txt(t, 60)}"); continue
        e = src[0]
        b = band(e.args[0], ds)
        if b is None:
            ctx.und(k, f"band not recognised: {txt(e.args[0], 60)}"); continue
        it = covers(ctx, f"{k}: those of all bands", R, s, [bands], "bands", unless=eqc1(e.res, 0), empty=True)
        if it is not None:
            numbered(ctx, f"{k}: those of all bands", b, it, e)


def istext2(l, a):
    if isinstance(l, Leaf) and isinstance(a, Leaf):
        w = MD.cval(a)
        if isinstance(w, Leaf) and w.fp == l.fp:
            return True
    return istext(l, a)
