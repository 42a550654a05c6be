"""Creation: points at which the surfaces and blocks are evaluated"""
import core
import gvn
from gvn import Leaf, l_add, l_sub, l_mul, l_div, l_fn, l_neg, atom, const, ZERO, ONE
import pyev
from pyev import B, Obj, traces, cond

MINIMUM = 20
MODEL = "geomodelgrids.create.core.model"
META = ("origin_x", "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z")


def fl(name):
    return l_fn("float", atom("meta", name, tree=("fn", name)))


def meta(m):
    o = Obj(m.get(MODEL, "ModelMetadata"), "meta")
    for n in META:
        o.attrs[n] = fl(n)
    return o


CFG = atom("cfg", tree=("fn", "config")); STORAGE = atom("storage", tree=("fn", "storage"))


def make(m, cls, cfg=CFG, name="name"):
    a = [name, meta(m), cfg] + ([STORAGE] if cls == "Surface" else [])
    o = m.call(m.get(MODEL, cls), a, {}, None)
    for k, v in o.attrs.items():
        if k.endswith("_resolution") and isinstance(v, Leaf) and v.const is None and v is not pyev.NONE:
            m.learn(B("lt", l_neg(v)))      # resolutions are positive
    return o


def item(cfg, key):
    return l_fn("[]", cfg, pyev.S(key))


def same(a, b):
    return isinstance(a, Leaf) and isinstance(b, Leaf) and a.fp == b.fp


def txt(l, n=160):
    return (gvn.show(l.tree) if isinstance(l, Leaf) else repr(l))[:n]


IX = {a: atom("index", a, tree=("fn", a)) for a in "ijk"}
pyev.INTS |= {x.fp for x in IX.values()}


def batch(m, dim):
    o = Obj(pyev.Ext("Batch"), "b")
    for a in "xyz"[:dim]:
        pyev.INTS |= {atom("b0", a).fp, atom("b1", a).fp}
        o.attrs[f"{a}_range"] = (atom("b0", a, tree=("fn", f"{a}_start")), atom("b1", a, tree=("fn", f"{a}_end")))
    return o


def nonneg(m, *ls):
    for l in ls:
        m.learn(B("lt", l, True))


def dims_of(m, o):
    d = m.call(m.attr(o, "get_dims", None), [], {}, None)
    return list(d) if isinstance(d, tuple) else list(d.items)


def ranges(m, o, b, dim, I=IX):
    d = dims_of(m, o)
    if b is None:
        for n, i in zip(d, "ijk"[:dim]):
            m.learn(B("lt", l_sub(I[i], n)))
        return [(ZERO, n) for n in d[:dim]], d
    rs = [b.attrs[f"{a}_range"] for a in "xyz"[:dim]]
    for (lo, hi), n, i in zip(rs, d, "ijk"[:dim]):
        nonneg(m, lo, l_sub(n, hi)); m.learn(B("lt", l_sub(lo, hi)))
        m.learn(B("lt", l_sub(I[i], l_sub(hi, lo))))
    return rs, d


def coord(o, cfg, a, i):
    """coordinate of a grid point: (term, uniform?, why not understood)"""
    res, cs = o.attrs.get(f"{a}_resolution"), o.attrs.get(f"{a}_coordinates")
    if isinstance(res, Leaf) and res is not pyev.NONE:
        return l_mul(res, i), True
    if isinstance(cs, pyev.Arr):
        return cs.at([i]), False
    return None, None


def attrs_ok(ctx, m, o, cfg, key, names, where):
    """resolutions and coordinates are those of the configuration"""
    for a in names:
        res, cs = o.attrs.get(f"{a}_resolution"), o.attrs.get(f"{a}_coordinates")
        if isinstance(res, Leaf) and res is not pyev.NONE:
            want = l_fn("float", item(cfg, f"{a}_resolution"))
            ctx.ob(f"{key} {a}_resolution", same(res, want), where, f"{a}_resolution is {txt(res)}")
        elif isinstance(cs, pyev.Arr):
            e = cs.at([IX["i"]])
            src = [t for t in m.events if t.name == "string_to_list" and t.args and same(pyev.leaf(t.args[0]), item(cfg, f"{a}_coordinates"))]
            ok = any(same(e, l_fn("float", l_fn("item", pyev.leaf(t.res), IX["i"]))) for t in src)
            ctx.ob(f"{key} {a}_coordinates", ok, where, f"element i of {a}_coordinates is {txt(e)}")
    return True


def world(o, X, Y):
    az = l_div(l_mul(fl("y_azimuth"), gvn.mkleaf(gvn.PI_FP, ("fn", "pi"))), const(180))
    c, s = l_fn("cos", az), l_fn("sin", az)
    return l_add(l_add(fl("origin_x"), l_mul(X, c)), l_mul(Y, s)), l_add(l_sub(fl("origin_y"), l_mul(X, s)), l_mul(Y, c))


def pts_of(m, v, rank, I=IX):
    """components of an array of points"""
    if not isinstance(v, pyev.Arr) or v.shape is None or len(v.shape) != rank + 1:
        raise pyev.Unknown(f"array of rank {len(v.shape) if isinstance(v, pyev.Arr) and v.shape is not None else '?'}")
    ix = [I[a] for a in "ijk"[:rank]]
    return [v.at(ix + [const(k)]) for k in range(3)]


MODELPY = "geomodelgrids/create/core/model.py"


def where_of(prog, cls, fn):
    md = prog.mod(MODEL)
    for n in md.tree.body:
        if getattr(n, "name", "") == cls:
            for f in n.body:
                if getattr(f, "name", "") == fn:
                    return f"{md.path}:{f.lineno}"
    raise core.AnalysisBroken(f"{cls}.{fn} vanished")


def kindtxt(o, axes):
    return "".join("u" if isinstance(o.attrs.get(f"{a}_resolution"), Leaf) and o.attrs[f"{a}_resolution"] is not pyev.NONE else "v" for a in axes)


def surfaces(ctx, prog, withb):
    loc = where_of(prog, "Surface", "generate_points")

    def f(m):
        o = make(m, "Surface")
        b = batch(m, 2) if withb else None
        nonneg(m, *IX.values())
        rs, d = ranges(m, o, b, 2)
        v = m.call(m.attr(o, "generate_points", None), [b] if withb else [], {}, None)
        return o, rs, d, v.shape if isinstance(v, pyev.Arr) else None, pts_of(m, v, 2)
    n = 0
    for t in traces(prog, f, opaque={"string_to_list"}):
        ctx.count(paths=1)
        key = f"Surface {'batch' if withb else 'all'}"
        if t.kind == "unknown":
            ctx.und(key, t.value); continue
        if t.kind == "raises":
            ctx.ob(key + " raises", False, t.loc, f"{t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''} when {cond(t.m)[:300]}"); continue
        o, rs, d, shape, c = t.value
        key += " " + kindtxt(o, "xy"); n += 1
        attrs_ok(ctx, t.m, o, CFG, key, "xy", loc)
        X, _ = coord(o, CFG, "x", l_add(rs[0][0], IX["i"])); Y, _ = coord(o, CFG, "y", l_add(rs[1][0], IX["j"]))
        if X is None or Y is None:
            ctx.und(key, "coordinates not understood"); continue
        we, wn = world(o, X, Y)
        for nm, got, want in (("x", c[0], we), ("y", c[1], wn), ("z", c[2], ZERO)):
            ctx.ob(f"{key} {nm}", same(got, want), loc, f"{nm} of point (i, j) is {txt(got, 300)}" if not same(got, want) else f"{nm} is {txt(want)}")
        want = [l_sub(r[1], r[0]) for r in rs] + [const(3)]
        ctx.ob(f"{key} shape", len(shape) == 3 and all(same(a, b) for a, b in zip(shape, want)), loc, f"shape {[txt(x) for x in shape]}, expected {[txt(x) for x in want]}")
        if not withb:
            dims(ctx, o, d, "Surface", key, "xy", loc)
    if not n:
        ctx.und(f"Surface {'batch' if withb else 'all'}", "no points returned")


def dims(ctx, o, d, cls, key, axes, loc):
    for a, n in zip(axes, d):
        res, cs = o.attrs.get(f"{a}_resolution"), o.attrs.get(f"{a}_coordinates")
        if isinstance(res, Leaf) and res is not pyev.NONE:
            ext = l_sub(o.attrs["z_top"], o.attrs["z_bot"]) if a == "z" else fl(f"dim_{a}")
            want = l_add(ONE, l_fn("trunc", l_div(ext, res)))
        else:
            want = cs.shape[0]
        ctx.ob(f"{key} num_{a}", same(n, want), loc, f"num_{a} is {txt(n)}, expected {txt(want)}")
    if cls == "Surface":
        ctx.ob(f"{key} dims", len(d) == 3 and d[2].const == 1, loc, f"dimensions of the surface's dataset: {[txt(x) for x in d]}")


# ---- blocks ---------------------------------------------------------------------------------------
SCFG = atom("scfg", tree=("fn", "surface_config"))


def find(l, name, out=None, d=0, seen=None):
    """sub-terms that are applications of a function"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(l, Leaf):
        if l.fp in seen or d > 40:
            return out
        seen.add(l.fp)
        if l.tree[0] == "fn" and l.tree[1] == name:
            out[l.fp] = l
        l = l.tree
    if isinstance(l, tuple):
        for x in l[1:]:
            if isinstance(x, (Leaf, tuple)):
                find(x, name, out, d + 1, seen)
    return out


TOL = 0.01
SIGN = "Block z: z_coordinates taken as distances below z_top, with the sign reversed"


def close(m, a, b):
    """the trace has found |a - b| to be at most the tolerance: the tolerance, or None"""
    fs = [l_fn("fabs", l_sub(a, b)), l_fn("fabs", l_sub(b, a))]
    best = None
    for ss, d in m.signs.values():
        for dd, flip in ((d, 1), (l_neg(d), -1)):
            if {x * flip for x in ss} <= {-1, 0}:
                for f in fs:
                    c = l_sub(f, dd).const      # f - dd = tol: f <= tol
                    if c is not None and (best is None or c < best):
                        best = c
    return best


def far(m):
    """a comparison with a tolerance was found to fail"""
    for d, _ in trail(m):
        for f in find(d, "fabs").values():
            c = l_add(f, d).const           # d <= 0: f >= c
            if c is not None and c > 0:
                return True
    for ss, d in m.signs.values():
        for dd, flip in ((d, 1), (l_neg(d), -1)):
            if {x * flip for x in ss} <= {1}:
                for f in find(dd, "fabs").values():
                    c = l_sub(f, dd).const
                    if c is not None and c > 0:
                        return True
    return False


def row(ctx, m, o, s, a, i, got, lo, hi, bi, bn, b0, key, loc):
    """row of the surface that is used is the one at the coordinate of the block's point"""
    bc, bu = coord(o, CFG, a, bi); 
    bres, sres = o.attrs.get(f"{a}_resolution"), s.attrs.get(f"{a}_resolution")
    pos = l_add(lo, got)
    if bu:
        skips = {x.fp: x for l in [pos] + [d for _, d in m.signs.values()] for nm in ("trunc", "round", "floor", "int") for x in find(l, nm).values()}
        sk = next((x for x in skips.values() if same(l_mul(x, bi), pos)), None)
        if sk is None:
            ctx.ob(f"{key} row {a}", False, loc, f"block point {txt(bi, 60)} takes row {txt(pos, 200)} of the surface"); return
        tol = close(m, l_mul(sk, sres), bres)
        ctx.ob(f"{key} row {a}", True, loc, f"row {txt(pos)}")
        ctx.ob(f"{key} multiple {a}", tol is not None and tol <= TOL * 1.0001, loc, "the resolution of the block is not checked to be a multiple of that of the surface" if tol is None else f"compared with a tolerance of {float(tol)}")
        last = l_add(lo, l_sub(got, l_mul(sk, l_sub(IX[i], l_sub(bn, ONE)))))
        if hi is not None:
            room = l_sub(hi, last)
            ok = room.const is not None and room.const > 0 or same(room, sk)
            if ok or room.const is not None:
                ctx.ob(f"{key} rows {a}", ok, loc, f"the part of the surface that is read ends {txt(room)} after the last row used")
            else:
                ctx.und(f"{key} rows {a}", f"part read ends {txt(room)} after the last row")
        return
    scs = s.attrs.get(f"{a}_coordinates")
    ss = [x for x in find(pos, "searchsorted").values()]
    if not any(same(x, pos) for x in ss):
        ctx.ob(f"{key} row {a}", False, loc, f"block point {txt(bi, 60)} takes row {txt(pos, 240)} of the surface"); return
    x = pos
    val = x.tree[3] if len(x.tree) > 3 else None
    ctx.ob(f"{key} row {a}", same(val, bc), loc, f"row where {txt(val)} is, the coordinate is {txt(bc)}")
    tols = [c for c in [closev(m, o, s, a, b0)] if c is not None]
    ctx.ob(f"{key} match {a}", bool(tols) and tols[0] <= TOL * 1.0001, loc, "the coordinates of the surface are not checked to match" if not tols else f"compared with a tolerance of {float(tols[0])}")


def trail(m):
    """terms the conditions of the trace have found to be at most 0 (within loops: for the loop's index), and those above 0"""
    for b, v in m.trail:
        if b.kind != "lt":
            continue
        neg = v != b.neg
        yield (b.l if neg else l_neg(b.l)), True
        yield (b.l if neg else l_neg(b.l)), False


def closev(m, o, s, a, lo):
    """tolerance with which the coordinates of the surface are compared with those of the block, point by point"""
    its = [x["it"] for x in m.loopinfo.values()] + [IX["i"], IX["j"]]
    best = None
    for d, _ in trail(m):
        for f in find(d, "fabs").values():
            c = l_sub(f, d).const           # f - d: f <= c
            if c is None or c <= 0:
                continue
            for it in its:
                v, _ = coord(o, CFG, a, l_add(lo, it))
                if v is None:
                    continue
                if any(len(x.tree) > 3 and same(x.tree[3], v) for x in find(f, "searchsorted").values()):
                    best = c if best is None else max(best, c)
    return best


def blocks(ctx, prog, withb, withs):
    for k in (False, True):
        for z in ((False, True) if withb else (True,)):
            block(ctx, prog, withb, withs, k, z)


def block(ctx, prog, withb, withs, k0, z0):
    """k0: the first layer of the points returned, z0: that layer is at the top of the block"""
    I = dict(IX)
    if k0:
        I["k"] = ZERO
    loc = where_of(prog, "Block", "generate_points"); gl = where_of(prog, "Block", "get_surface")

    def f(m):
        o = make(m, "Block")
        s = make(m, "Surface", SCFG, "surface") if withs else None
        b = batch(m, 3) if withb else None
        nonneg(m, *I.values())
        if not k0:
            m.learn(B("lt", l_sub(I["k"], ONE), True))
        if withb:
            if z0:
                b.attrs["z_range"] = (ZERO, b.attrs["z_range"][1])
            else:
                m.learn(B("lt", l_sub(b.attrs["z_range"][0], ONE), True))
        rs, d = ranges(m, o, b, 3, I)
        m.learn(B("lt", l_neg(fl("dim_z"))))
        v = m.call(m.attr(o, "generate_points", None), [s] + ([b] if withb else []), {}, None)
        return o, s, rs, d, v.shape if isinstance(v, pyev.Arr) else None, pts_of(m, v, 3, I)
    base = f"Block {'batch' if withb else 'all'} {'surface' if withs else 'flat'}"
    n = 0
    for t in traces(prog, f, limit=4000, opaque={"string_to_list"}):
        ctx.count(paths=1)
        m = t.m
        if t.kind == "unknown":
            ctx.und(base, t.value); continue
        if t.kind == "raises":
            mixed = any(b.kind == "t" and v and f"'{a}_resolution'" in gvn.show(b.l.tree) and "surface_config" not in gvn.show(b.l.tree) and
                        any(b2.kind == "t" and not v2 and f"'{a}_resolution'" in gvn.show(b2.l.tree) and "surface_config" in gvn.show(b2.l.tree) for b2, v2 in m.trail)
                        or b.kind == "t" and not v and f"'{a}_resolution'" in gvn.show(b.l.tree) and "surface_config" not in gvn.show(b.l.tree) and
                        any(b2.kind == "t" and v2 and f"'{a}_resolution'" in gvn.show(b2.l.tree) and "surface_config" in gvn.show(b2.l.tree) for b2, v2 in m.trail)
                        for a in "xy" for b, v in m.trail)
            if t.value[0] == "ValueError" and (mixed or far(m)):
                ctx.ob(base + " mismatch refused", True, t.loc, "ValueError when the surface has no row at the coordinates of the block")
            elif t.value[0] == "ValueError":
                ctx.und(base + " raises", f"{t.loc}: ValueError when {cond(m)[:200]}")
            else:
                ctx.ob(base + " raises", False, t.loc, f"{t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''} when {cond(m)[:300]}")
            continue
        o, s, rs, d, shape, c = t.value
        for e in m.events:
            if e.kind == "squeeze":
                ctx.ob(base + " one point", False, e.loc(), f"squeeze() drops every axis with one point: for {txt(e.args[1])} == 1 the points cannot be generated")
        key = base + " " + kindtxt(o, "xyz"); n += 1
        attrs_ok(ctx, m, o, CFG, key, "xyz", loc)
        gi = [l_add(rs[q][0], I[a]) for q, a in enumerate("ijk")]
        X, _ = coord(o, CFG, "x", gi[0]); Y, _ = coord(o, CFG, "y", gi[1]); Z, zu = coord(o, CFG, "z", gi[2])
        if X is None or Y is None or Z is None:
            ctx.und(key, "coordinates not understood"); continue
        we, wn = world(o, X, Y)
        for nm, got, want in (("x", c[0], we), ("y", c[1], wn)):
            ctx.ob(f"{key} {nm}", same(got, want), loc, f"{nm} of point (i, j, k) is {txt(got, 300)}" if not same(got, want) else f"{nm} is {txt(want)}")
        want = [l_sub(r[1], r[0]) for r in rs] + [const(3)]
        ctx.ob(f"{key} shape", len(shape) == 4 and all(same(a, b) for a, b in zip(shape, want)), loc, f"shape {[txt(x) for x in shape]}, expected {[txt(x) for x in want]}")
        # z
        top = o.attrs["z_top"]
        zl = l_sub(top, Z) if zu else Z
        zbad = l_sub(top, Z)
        bot = l_neg(fl("dim_z"))
        off = o.attrs.get("z_top_offset")
        elev = None
        if withs:
            dat = list(find(c[2], "data").values())
            ld = [e for e in m.events if e.name == ".load_surface"]
            if len(dat) != 1 or len(ld) != 1:
                ctx.ob(f"{key} surface", False, gl, f"z of point (i, j, k) is {txt(c[2], 300)}: the elevation of the surface is not one element of what the storage gives") if not dat and ld else ctx.und(f"{key} surface", "elevation not understood")
                continue
            elev = dat[0]; e = ld[0]
            idx = list(elev.tree[3:])
            if not same(elev.tree[2], pyev.leaf(e.res)) or len(idx) != 3:
                ctx.und(f"{key} surface", "elevation not understood"); continue
            a = [x for x in e.args if x is not e.args[0]] if same(pyev.leaf(e.args[0]), STORAGE) else list(e.args)
            bs = (a[1] if len(a) > 1 else e.kw.get("batch"))
            ctx.ob(f"{key} surface", a and a[0] is s, gl, "the elevation is that of the surface given")
            if bs is None:
                los = [(ZERO, None), (ZERO, None)]
            elif isinstance(bs, Obj) and all(isinstance(bs.attrs.get(f"{x}_range"), tuple) for x in "xy"):
                los = [bs.attrs["x_range"], bs.attrs["y_range"]]
            else:
                ctx.und(f"{key} surface", "part of the surface that is read not understood"); continue
            for q, (ax, ii) in enumerate((("x", "i"), ("y", "j"))):
                row(ctx, m, o, s, ax, ii, idx[q], los[q][0], los[q][1], gi[q], l_sub(rs[q][1], rs[q][0]), rs[q][0], key, gl)
            ctx.ob(f"{key} value", idx[2].const == 0, gl, f"component {txt(idx[2])} of the elevation")

        def zof(q, o1):
            z = l_add(bot, l_mul(l_div(l_sub(elev, bot), l_sub(ZERO, bot)), l_sub(q, bot))) if withs else q
            return l_add(z, off) if o1 else z
        first = k0 and z0
        nm = "z first" if first else "z"
        want = zof(zl, first)
        if not zu and not same(c[2], want) and same(c[2], zof(zbad, first)):
            if not any(q[0] == SIGN for q in ctx.obs):
                ctx.ob(SIGN, False, loc, f"z of point (i, j, k) is {txt(c[2], 300)}: with z_top - z_coordinates for the depth the points are above the top (for z_coordinates 0, -2000, -5000 at 0, 2000, 5000)")
        else:
            ctx.ob(f"{key} {nm}", same(c[2], want), loc, f"z is {txt(want)}" if same(c[2], want) else
                   f"z of point (i, j, {'0' if k0 else 'k'}){' at the top of the block' if first else ', not at the top of the block' if k0 else ''} is {txt(c[2], 420)}, expected {txt(want, 300)}")
        if not withb and not withs and not k0:
            if not zu:
                zc = o.attrs["z_coordinates"]
                mx = [l_fn(f, pyev.leaf(zc)) for f in ("max",)]
                ctx.ob(f"{key} z_top", any(same(top, x) for x in mx) and same(o.attrs["z_bot"], l_fn("min", pyev.leaf(zc))), loc, f"with z_coordinates, z_top is {txt(top)} and z_bot {txt(o.attrs['z_bot'])}")
            dims(ctx, o, d, "Block", key, "xyz", loc)
            if zu:
                ctx.ob(f"{key} z_top", same(o.attrs["z_top"], l_fn("float", item(CFG, "z_top"))) and same(o.attrs["z_bot"], l_fn("float", item(CFG, "z_bot"))), loc, f"z_top {txt(o.attrs['z_top'])}, z_bot {txt(o.attrs['z_bot'])}")
            ctx.ob(f"{key} z_top_offset", same(off, l_fn("float", item(CFG, "z_top_offset"))), loc, f"z_top_offset is {txt(off)}")
    if not n:
        ctx.und(base, "no points returned")


def check(ctx):
    prog = pyev.Program()
    for wb in (True, False):
        ctx.guard(f"Surface {wb}", surfaces, ctx, prog, wb)
        for ws in (True, False):
            ctx.guard(f"Block {wb} {ws}", blocks, ctx, prog, wb, ws)
