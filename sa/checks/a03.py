"""Python bindings: arrays of points are checked and handed over point by point; names and constants denote their C++ counterparts"""
from common_exc import *
import strmodels as SM

MINIMUM = 100
NDIM, SHAPE = 56, 64


def m_anycont(act, i, dem, args, g, st, setres):
    """pybind11 shape from an initializer list: record the extents given"""
    ev = act.ev
    if len(args) < 2 or isinstance(args[1], (Node, tuple)) or "initializer_list" not in dem:
        return NotImplemented
    b = ev.load(st, args[1], "ptr", 8, None); n = ev.load(st, padd(args[1], gvn.const(8)), "i64", 8, None)
    if isinstance(b, (Node, tuple)) or isinstance(n, (Node, tuple)) or n.const is None or n.const > 8:
        return NotImplemented
    vals = {k: ev.load(st, padd(b, gvn.const(8 * k)), "i64", 8, None) for k in range(int(n.const))}
    ev.events.append(EV.Event("call", AND(act.guard0, g), "shape", [args[0]], None, i, act.ctx, tuple(ev.loopstack), {0: vals}, len(ev.events)))
    return None


def m_vecidx(act, i, dem, args, g, st, setres):
    """element of a vector of 8-byte items"""
    ev = act.ev
    if len(args) != 2 or any(isinstance(a, (Node, tuple)) for a in args):
        return NotImplemented
    b = ev.load(st, args[0], "ptr", 8, None)
    if isinstance(b, (Node, tuple)):
        return NotImplemented
    setres(padd(b, gvn.l_mul(gvn.const(8), args[1])))
    return None


MODELS = {r"^std::vector<long, .*>::(operator\[\]|at)\(": m_vecidx, **SM.STREAMS, **SM.VECMUT, r"any_container<.*>::any_container<": m_anycont}


def norm(s):
    return s.replace("_", "").lower()


def check(ctx):
    p = core.load(("lib", "mod"))
    for cls, base, names in (("PyModel", "serial::Model", {"contains": ("contains", 3), "query_top_elevation": ("queryTopElevation", 2), "query_topobathy_elevation": ("queryTopoBathyElevation", 2), "query": ("query", 3)}),
                             ("PyQuery", "serial::Query", {"query_top_elevation": ("queryTopElevation", 2), "query_topobathy_elevation": ("queryTopoBathyElevation", 2), "query": ("query", 3)})):
        bound = bindings(p, cls)
        for py, (cxx, dim) in names.items():
            ctx.guard(f"{cls[2:]}.{py}", points, ctx, p, cls, base, py, cxx, dim, bound.get(py))
    ctx.guard("get_dims", arrays, ctx, p)
    ctx.guard("names", wiring, ctx, p)


def inits(p):
    return [f for f in p.repo_fns() if re.search(r"(^|::)init_\w+\(|pybind11_init", f.dem)]


_ev = {}


def init_events(p):
    if p not in _ev:
        out = []
        for f in inits(p):
            E = EV.Evaluator(p, opaque=[r"pybind11|std::"], models={})
            E.inline_pred = lambda fn, dem: None if fn.repo and not re.search(r"pybind11::", dem.split("(")[0]) else False
            E.run(f)
            out.append((f, E))
        _ev[p] = out
    return _ev[p]


def cstring(l):
    import models as MD
    return MD.const_string(l)


def defs(p):
    """[(class, kind, python name, C++ function symbol, event)]"""
    out = []
    for f, E in init_events(p):
        for e in E.events:
            if e.kind != "call":
                continue
            m = re.search(r"pybind11::class_<geomodelgrids::(?:\w+::)*(\w+)[ ,>].*?>::(def|def_property_readonly|def_readonly_static|def_static)<", e.callee)
            if not m or len(e.args) < 3 or isinstance(e.args[1], (Node, tuple)):
                continue
            name = cstring(e.args[1])
            if name is None:
                continue
            t = None
            x = (e.extra or {}).get(2, {}).get(0)
            if m.group(2) == "def_readonly_static":
                x = e.args[2]
            if isinstance(x, Leaf) and x.base is not None and x.base[0] in ("g", "fn"):
                t = x.base[1]
            out.append((m.group(1), m.group(2), name, t, e))
    return out


def bindings(p, cls):
    return {n: t for c, k, n, t, e in defs(p) if c == cls}


def wiring(ctx, p):
    ds = defs(p)
    if len(ds) < 30:
        raise core.AnalysisBroken(f"only {len(ds)} Python names found")
    for c, k, n, t, e in ds:
        key = f"{c.replace('Py', '')}.{n}"
        if t is None:
            ctx.und(key, "target is not a function of the library"); continue
        if k == "def_readonly_static":
            v = gvn_global(p, t)
            ctx.ob(f"{key} is the C++ constant of that name", norm(n) in norm(p.dem(t)), e.loc(), f"refers to {p.dem(t)}")
            continue
        fn = p.dem(t)
        base = re.sub(r"\[abi:\w+\]", "", fn).split("(")[0].split("::")[-1]
        ctx.ob(f"{key} is bound to the C++ function of that name", norm(base) in [q + norm(n) + r for q in ("", "get") for r in ("", "string")], e.loc(), f"bound to {fn}")
    need = {"PyQuery": ["initialize", "finalize", "set_squash_min_elev", "set_squashing", "query", "query_top_elevation", "query_topobathy_elevation", "get_error_handler", "NODATA_VALUE"],
            "PyModel": ["open", "close", "load_metadata", "initialize", "set_input_crs", "contains", "query", "query_top_elevation", "query_topobathy_elevation", "value_names", "value_units", "data_layout", "dims", "origin", "y_azimuth", "crs", "get_info"],
            "ErrorHandler": ["reset_status", "get_status"]}
    for c, ns in need.items():
        have = {n for cc, k, n, t, e in ds if cc == c}
        for n in ns:
            ctx.ob(f"{c.replace('Py', '')}.{n} exists", n in have, "modulesrc", "not defined")
    # enumerations
    en = 0
    for f, E in init_events(p):
        for e in E.events:
            m = e.kind == "call" and re.search(r"pybind11::enum_<geomodelgrids::([\w:]+)>::value\(", e.callee)
            if not m:
                continue
            name = cstring(e.args[1]); val = e.args[2]
            en += 1
            try:
                es = enum(p, "::".join(m.group(1).split("::")[-2:]))
            except core.AnalysisBroken:
                es = enum(p, m.group(1).split("::")[-1])
            ctx.ob(f"{m.group(1).split('::')[-1]}.{name} has the C++ value", name in es and isinstance(val, Leaf) and val.const == es.get(name), e.loc(), f"value {txt(val)}, C++ {es.get(name)}")
    ctx.count(names=len(ds), enumerators=en)
    # C header, C++ and documentation agree on the constants
    hdr = (core.REPO / "libsrc/geomodelgrids/serial/cquery.h").read_text() + (core.REPO / "libsrc/geomodelgrids/utils/cerrorhandler.h").read_text()
    se = enum(p, "Query::SquashingEnum"); st = enum(p, "ErrorHandler::StatusEnum")
    for m in re.finditer(r"#\s*define\s+GEOMODELGRIDS_(SQUASH_\w+)\s+\(?\s*(-?\d+)", hdr):
        ctx.ob(f"GEOMODELGRIDS_{m.group(1)} has the C++ value", se.get(m.group(1)) == int(m.group(2)), "libsrc/geomodelgrids/serial/cquery.h", f"{m.group(2)}, C++ {se.get(m.group(1))}")
    m = re.search(r"#\s*define\s+GEOMODELGRIDS_NODATA_VALUE\s+\(?\s*(-?[\d.eE+-]+)", hdr)
    nd = gvn_global(p, None)
    if m and nd is not None:
        ctx.ob("GEOMODELGRIDS_NODATA_VALUE has the C++ value", float(m.group(1)) == float(nd), "libsrc/geomodelgrids/serial/cquery.h", f"{m.group(1)}, C++ {float(nd)}")
        ctx.ob("NODATA_VALUE is -1.0e+20", float(nd) == -1e20, "libsrc/geomodelgrids/utils/constants.hh", f"it is {float(nd)}")
    try:
        ce = enum(p, "GeomodelgridsStatusEnum")
    except core.AnalysisBroken:
        ce = {}
    for k, v in ce.items():
        ctx.ob(f"{k} has the C++ value", st.get(k.replace("GEOMODELGRIDS_", "")) == v, "libsrc/geomodelgrids/utils/cerrorhandler.h", f"{v}, C++ {st.get(k.replace('GEOMODELGRIDS_', ''))}")


def gvn_global(p, sym):
    E = EV.Evaluator(p)
    for f in p.repo_fns():
        if f.dem.startswith("geomodelgrids_squery_queryTopElevation") or f.name == "geomodelgrids_squery_queryTopElevation":
            E2 = EV.Evaluator(p, opaque=[r"serial::Query::"], models=SM.STREAMS)
            E2.run(f)
            for l in leaves(E2.ret).values():
                if l.const is not None:
                    return l.const
    return None


def arrays(ctx, p):
    for fn, getter, n in (("get_dims", "getDims", 3), ("get_origin", "getOrigin", 2)):
        f = p.get(f"PyModel::{fn}")
        this = atom("arg", 0, tree=("fn", "this"))
        E = EV.Evaluator(p, opaque=[r"serial::Model::(?!get)"])
        ret = E.run(f)
        a0 = None
        for e in E.events:
            if e.kind == "call" and re.search(r"^std::vector<double.*>::vector<.*\(", e.callee) and len(e.args) >= 3:
                a0 = e
        if a0 is None:
            ctx.und(fn, "construction of the list not recognised"); continue
        this = atom("arg", 1, tree=("fn", "this")) if f.args and len(f.args) > 1 else atom("arg", 0)
        Fd = Fields(p, "serial::Model", this)
        want = Fd.get(getter)
        ok = isinstance(a0.args[1], Leaf) and isinstance(a0.args[2], Leaf)
        d = l_sub(a0.args[2], a0.args[1]) if ok else None
        ctx.ob(f"Model.{fn[4:]}: all {n} values of {getter}()", ok and a0.args[1].fp == want.d.fp and d.const == 8 * n, a0.loc(), f"takes {txt(a0.args[1])} up to {txt(a0.args[2])}")


def points(ctx, p, cls, base, py, cxx, dim, sym):
    key = f"{cls[2:]}.{py}"
    f = p.fns.get(sym) if sym else None
    if f is None or not f.blocks:
        f = p.get(f"{cls}::{py}")
    rs = None
    E = EV.Evaluator(p, opaque=[rf"{base}::(?!getErrorHandler|getValueNames)", r"utils::ErrorHandler::", r"^pybind11::"], models=MODELS)
    E.throwing = lambda dem: False
    E.run(f)
    ctx.count(functions=len(E.inlined))
    loc = f.loc()
    fl = re.search(r"array_t<double, (\d+)>", f.dem)
    if not fl:
        ctx.und(key, "parameter is not an array of double"); return
    ctx.ob(f"{key}: arrays of any layout and type are converted to contiguous doubles", int(fl.group(1)) & 1 and int(fl.group(1)) & 16, loc, f"flags {fl.group(1)} do not request a contiguous array in C order with conversion")
    prm = next((atom("arg", n, tree=("fn", a["n"])) for n, a in enumerate(f.args) if a["n"] and n > 0 and "this" not in a["n"]), None)
    req = [e for e in E.events if e.kind == "call" and re.search(r"pybind11::buffer::request\(", e.callee)]
    inp = [e for e in req if isinstance(e.args[1], Leaf) and e.args[1].base is None or isinstance(e.args[1], Leaf) and ptrparts(e.args[1])[0][0] not in ("al",) and "result" not in txt(e.args[1])]
    inp = [e for e in req if e.args[1].tree[:2] == ("fn", f.args[-1]["n"])] or inp
    if len(inp) != 1:
        ctx.und(key, "access to the array not recognised"); return
    inp = inp[0]
    R = Run.__new__(Run); R.ev = E
    pts = R.outval(inp, 0, 0, "ptr", 8).d; ndim = R.outval(inp, 0, NDIM, "i64", 8).d
    shp = {}
    for k in (0, 1):
        if k not in shp:
            b = R.outval(inp, 0, SHAPE, "ptr", 8).d
            shp[k] = ld(None, padd(b, gvn.const(8 * k))).d
    calls = [e for e in E.events if e.kind == "call" and re.search(rf"{base}::{cxx}\(", e.callee)]
    if not ctx.ob(f"{key}: queries the points", bool(calls), loc, f"{cxx} is never called"):
        return
    if len(calls) != 1:
        ctx.und(key, "more than one call"); return
    c = calls[0]
    okshape = AND(tob(X(ndim).eq(2).d), tob(X(shp[1]).eq(dim).d))
    bad = AND(c.guard, NOT(okshape))
    ctx.ob(f"{key}: only arrays of shape [n,{dim}] are used", bad is ZERO, c.loc(), bad is not ZERO and f"used when {' / '.join(cubes(bad, ONE, 1))[-250:]}" or "")
    info = None
    for k, v in E.loopinfo.items():
        if v.get("it") is not None and any(k2 == k for k2 in c.loops):
            info = v
    if info is None or len(c.loops) != 1:
        ctx.und(key, "loop over the points not recognised"); return
    it = info["it"]; n = shp[0]
    it = find_index(c, pts, shp[1], dim, it)
    begins(ctx, f"{key}: the first point is queried", E, c.loops, it, c.loc())
    lt = dd_lt(it, n)
    th = lambda d: AND(d, theory(d))
    nt = nothrow(c.guard)
    over = th(AND(nt, NOT(lt)))
    ctx.ob(f"{key}: not more points than given", over is ZERO, c.loc(), "a point beyond the array is used")
    under = AND(AND(AND(okshape, lt), NOT(dd_lt(it, gvn.const(0)))), NOT(nt)); under = th(under)
    ctx.ob(f"{key}: every point given is queried", under is ZERO, c.loc(), under is not ZERO and f"not when {' / '.join(cubes(under, ONE, 1))[-250:]}" or "")
    m = {shp[1].fp: gvn.const(dim)}
    off = 2 if cls == "PyQuery" and py == "query" else 1
    for j in range(dim):
        a = c.args[off + j]
        want = ld(None, padd(pts, gvn.l_mul(gvn.const(8), gvn.l_add(gvn.l_mul(it, gvn.const(dim)), gvn.const(j))))).d
        d = deref(a) if isinstance(a, Leaf) else None
        if d is None:
            ctx.und(f"{key}: coordinate {j}", f"is {txt(a, 100)}"); continue
        got = subst(d, m)
        ctx.ob(f"{key}: coordinate {j} of the point is passed", ld(None, got).d.fp == want.fp, c.loc(), f"passes the value at {txt(d, 200)}")
    # results
    res_req = [e for e in req if e is not inp]
    rp = [(e, R.outval(e, 0, 0, "ptr", 8).d) for e in res_req]
    nv = None
    st = [e for e in E.events if e.kind == "store"]
    def at(addr):
        for e, b in rp:
            if tree_contains(addr, b.fp):
                return e, l_sub(addr, b)
        return None
    if py == "query":
        g = Fields(p, base, E.args_this if hasattr(E, "args_this") else c.args[0]).get("getValueNames")
        b = ld(None, g).d; en_ = ld(None, padd(g.d, gvn.const(8))).d
        nv = l_div(l_sub(en_, b), gvn.const(32))
    if cls == "PyQuery" and py == "query":
        w = at(c.args[1])
        if w is None:
            ctx.und(f"{key}: results", "not recognised")
        else:
            want = gvn.l_mul(gvn.const(8), gvn.l_mul(it, nv))
            ctx.ob(f"{key}: the values of a point are stored in its row", w[1].fp == want.fp, c.loc(), f"row starts at byte {txt(w[1], 120)}")
            shape_of(ctx, p, E, key, w[0], n, nv)
        es = [(e, at(e.args[0])) for e in st if at(e.args[0])]
        good = [e for e, w in es if w[1].fp == gvn.l_mul(gvn.const(4), it).fp and isinstance(e.args[1], Leaf) and e.args[1].fp == c.res.fp]
        ctx.ob(f"{key}: the status of every point is returned", bool(good) and th(AND(AND(nt, NOT(nothrow(or_(good)))), ONE)) is ZERO, good[0].loc() if good else loc, "the status is not stored for its point")
        se = enum(p, "ErrorHandler::StatusEnum")
        raised = ZERO
        for e in E.events:
            if e.kind == "noreturn" and e.callee == "__cxa_throw" and AND(e.guard, NOT(c.guard)) is ZERO:
                raised = OR(raised, e.guard)
        want = AND(c.guard, tob(X(c.res).eq(se["ERROR"]).d))
        miss = th(AND(want, NOT(raised))); extra = th(AND(raised, NOT(want)))
        ctx.ob(f"{key}: an error raises an exception", miss is ZERO, c.loc(), "returns normally after an error")
        ctx.ob(f"{key}: no exception without an error", extra is ZERO, c.loc(), extra is not ZERO and f"raised when {' / '.join(cubes(extra, ONE, 1))[-200:]}" or "")
    elif py == "query":
        inner = [e for e in st if at(e.args[0])]
        if len(inner) != 1 or len(inner[0].loops) != 2:
            ctx.und(f"{key}: results", "not recognised"); return
        e = inner[0]; w = at(e.args[0])
        j = None
        for k, v in E.loopinfo.items():
            if k == e.loops[-1] and v.get("it") is not None:
                j = v["it"]
        val = deref(e.args[1]) if isinstance(e.args[1], Leaf) else None
        idx = index_into(val, c.res, 8) if val is not None else None
        if idx is None or j is None:
            ctx.und(f"{key}: results", "value stored not recognised"); return
        want = gvn.l_mul(gvn.const(8), gvn.l_add(gvn.l_mul(it, nv), idx))
        ctx.ob(f"{key}: value k of a point is stored in column k of its row", w[1].fp == want.fp, e.loc(), f"value {txt(idx, 40)} at byte {txt(w[1], 120)}")
        begins(ctx, f"{key}: the first value is stored", E, e.loops, idx, e.loc())
        lt2 = AND(dd_lt(idx, nv), NOT(dd_lt(idx, gvn.const(0))))
        un = th(AND(AND(nt, lt2), NOT(nothrow(e.guard))))
        un = AND(un, theory(un, lt2))
        ctx.ob(f"{key}: all values are stored", un is ZERO, e.loc(), un is not ZERO and f"not when {' / '.join(cubes(un, ONE, 1))[-250:]}" or "")
        ov = th(AND(e.guard, NOT(dd_lt(idx, nv))))
        ctx.ob(f"{key}: only the values of the model are stored", ov is ZERO, e.loc(), "more values than there are names")
        shape_of(ctx, p, E, key, w[0], n, nv)
    else:
        esz = 1 if py == "contains" else 8
        es = [(e, at(e.args[0])) for e in st if at(e.args[0])]
        good = [e for e, w in es if w[1].fp == gvn.l_mul(gvn.const(esz), it).fp and val_is(e.args[1], c.res)]
        wrong = [(e, w) for e, w in es if e not in good]
        ctx.ob(f"{key}: the result of point i is element i", bool(good) and not wrong and th(AND(nt, NOT(nothrow(or_(good))))) is ZERO, (wrong[0][0].loc() if wrong else loc), (f"stores {txt(wrong[0][0].args[1], 80)} at byte {txt(wrong[0][1][1], 60)}" if wrong else "not stored for every point"))
        for e in res_req:
            cons = [x for x in E.events if x.kind == "call" and re.search(r"pybind11::array_t<\w+, 16>::array_t\(long", x.callee) and x.args[0].fp == e.args[1].fp]
            for x in cons:
                ctx.ob(f"{key}: one result for each point", isinstance(x.args[1], Leaf) and x.args[1].fp == n.fp, x.loc(), f"array of {txt(x.args[1], 60)}")
    # arrays of another shape are rejected
    thr = ZERO
    for e in E.events:
        if e.kind == "noreturn" and e.callee == "__cxa_throw" and AND(e.guard, NOT(c.guard)) is not ZERO:
            thr = OR(thr, e.guard)
    silent = th(AND(NOT(okshape), NOT(thr)))
    ctx.ob(f"{key}: arrays of another shape raise an exception", silent is ZERO, loc, silent is not ZERO and f"accepted when {' / '.join(cubes(silent, ONE, 1))[-250:]}" or "")
    wrong = th(AND(okshape, thr))
    ctx.ob(f"{key}: arrays of shape [n,{dim}] are accepted", wrong is ZERO, loc, wrong is not ZERO and f"rejected when {' / '.join(cubes(wrong, ONE, 1))[-250:]}" or "")


def begins(ctx, key, E, loops, idx, loc):
    """the index starts at 0"""
    for k in loops:
        i = E.loopinfo.get(k)
        if i and i.get("it") is not None and tree_contains(idx, i["it"].fp):
            v0 = subst(idx, {i["it"].fp: gvn.const(0)}); v1 = subst(idx, {i["it"].fp: gvn.const(1)})
            if l_sub(v1, v0).const == 1:
                if v0.const is None:
                    ctx.und(key, f"starts at {txt(v0, 60)}")
                else:
                    ctx.ob(key, v0.const == 0, loc, f"starts at {int(v0.const)}")


def val_is(v, res):
    if isinstance(v, Leaf):
        return v.fp == res.fp
    ls = [l for l in leaves(v).values()] if isinstance(v, Node) else []
    if all(l.const in (0, 1) for l in ls):
        b = AND(tob(v), NOT(tob(res))); b2 = AND(NOT(tob(v)), tob(res))
        return b is ZERO and b2 is ZERO
    return False


def or_(es):
    g = ZERO
    for e in es:
        g = OR(g, e.guard)
    return g


def find_index(c, pts, s1, dim, it):
    return it


def shape_of(ctx, p, E, key, req, n, nv):
    """the array of the results has the shape [n, nv]"""
    arr = req.args[1]
    cons = [x for x in E.events if x.kind == "call" and re.search(r"pybind11::array_t<\w+, 16>::array_t\(pybind11::detail::any_container", x.callee) and x.args[0].fp == arr.fp]
    shapes = [x for x in E.events if x.kind == "call" and x.callee == "shape" and cons and x.args[0].fp == cons[0].args[1].fp]
    if len(shapes) != 1:
        ctx.und(f"{key}: shape of the results", "not recognised"); return
    v = shapes[0].extra[0]
    ok = len(v) == 2 and v[0].fp == n.fp and v[1].fp == nv.fp
    ctx.ob(f"{key}: the results have one row for each point and one column for each value", ok, shapes[0].loc(), f"shape {[txt(x, 60) for x in v.values()]}")
