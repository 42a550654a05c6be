"""C functions of a query: forwarding, status, exceptions, NULL handles"""
from common_exc import *
import strmodels as SM

MINIMUM = 40
C = "geomodelgrids_squery_"
OPAQUE = [r"serial::Query::(?!getErrorHandler)", r"utils::ErrorHandler::"]
MODELS = {**SM.STREAMS, **SM.VECMUT}
LEVEL = "other"


def check(ctx):
    p = core.load(("lib",))
    rs = raisers(p)
    ctx.rule("every C function of a query is evaluated with the Query and ErrorHandler methods as uninterpreted calls that may raise when a throw is reachable from them")
    en = enum(p, "ErrorHandler::StatusEnum")
    def run(name):
        f = p.get(C + name)
        E = EV.Evaluator(p, opaque=OPAQUE, models=MODELS)
        E.throwing = lambda dem: dem in rs and "::~" not in dem or re.search(r"^std::__throw_", dem) is not None
        args = [atom("arg", ("c", name, i), tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args)]
        E.run(f, args)
        ctx.count(functions=len(E.inlined) + 1)
        return f, E, args

    for name in ("initialize", "setSquashMinElev", "setSquashing", "queryTopElevation", "queryTopoBathyElevation", "query", "finalize"):
        ctx.guard(name, one, ctx, p, run, name, en)
    ctx.guard("create", create, ctx, p, run)
    ctx.guard("destroy", destroy, ctx, p, run)
    ctx.guard("getErrorHandler", handler, ctx, p, run)


def one(ctx, p, run, name, en):
    f, E, args = run(name)
    loc = f.loc()
    h = args[0]
    null = tob(X(h).eq(0).d); nn = NOT(null)
    calls = [e for e in E.events if e.kind == "call" and re.search(r"serial::Query::|ErrorHandler::", e.callee)]
    # NULL handle
    bad = [e for e in calls if AND(e.guard, null) is not ZERO]
    ctx.ob(f"{name}: a NULL handle is not used", not bad, bad[0].loc() if bad else loc, bad and fn_(bad[0]) + " is called with a NULL handle" or "")
    elev = "Elevation" in name and name.startswith("query")
    want = -10**20 if elev else en["ERROR"]
    ls = care_leaves(E.ret, AND(null, E.retguard))
    ctx.ob(f"{name}: a NULL handle gives {'NODATA_VALUE' if elev else 'ERROR'}", AND(null, E.retguard) is not ZERO and all(l.const == want for l in ls), loc, f"gives {[txt(l, 60) for l in ls]}")
    # exceptions
    esc = [(g, s) for g, s in E.unwound if g is not ZERO]
    ctx.ob(f"{name}: no exception escapes", not esc, loc, esc and f"an exception escapes when {' / '.join(cubes(esc[0][0], ONE, 1))[-300:]}" or "")
    ab = [e for e in E.events if e.kind == "abort" and AND(nn, e.guard) is not ZERO]
    ctx.ob(f"{name}: does not abort for a query object", not ab, ab[0].loc() if ab else loc, ab and f"aborts when {' / '.join(cubes(AND(nn, ab[0].guard), ONE, 1))[-300:]}" or "")
    # forwarding
    target = rf"serial::Query::{name}\("
    fw = [e for e in calls if re.search(target, e.callee)]
    if not ctx.ob(f"{name}: calls Query::{name}", bool(fw), loc, "never called"):
        return
    once = ZERO; twice = ZERO
    for e in fw:
        twice = OR(twice, AND(once, e.guard)); once = OR(once, e.guard)
    need = nn
    if name == "initialize":
        crs = args[5]
        need = AND(need, NOT(tob(X(crs).eq(0).d)))
    miss = AND(need, NOT(nothrow(once)))
    ctx.ob(f"{name}: calls Query::{name} whenever there is a query object", miss is ZERO, loc, miss is not ZERO and f"not when {' / '.join(cubes(miss, ONE, 1))[-300:]}" or "")
    ctx.ob(f"{name}: calls Query::{name} once", nothrow(twice) is ZERO, loc, "called twice")
    for e in fw:
        forward(ctx, p, E, name, e, args)
    # status
    def sets(kind):
        g = ZERO
        for e in calls:
            if re.search(rf"ErrorHandler::{kind}\(", e.callee):
                g = OR(g, e.guard)
        return g
    hs = []
    for e in calls:
        if re.search(r"ErrorHandler::", e.callee) and e.args[0].fp not in [x.fp for x in hs]:
            hs.append(e.args[0])
    own = handler_of(p, h)
    ctx.ob(f"{name}: uses the error handler of the query object", all(x.fp == own.fp for x in hs), loc, f"uses {[txt(x, 80) for x in hs]}, the query's is {txt(own, 80)}")
    thr = ZERO
    for e in fw:
        t = AND(throw_of(e), e.guard)
        thr = OR(thr, t)
    serr = sets("setError")
    if thr is not ZERO:
        miss = AND(thr, NOT(serr))
        ctx.ob(f"{name}: an exception puts the error handler in the ERROR state", miss is ZERO, loc, miss is not ZERO and f"not when {' / '.join(cubes(miss, ONE, 1))[-200:]}" or "")
    ok = AND(nn, nothrow(E.retguard))
    if name != "setSquashing" and name != "initialize":
        extra = AND(ok, nothrow(serr))
        ctx.ob(f"{name}: no ERROR state without an exception", extra is ZERO, loc, extra is not ZERO and f"set when {' / '.join(cubes(extra, ONE, 1))[-200:]}" or "")
    swarn = nothrow(sets("setWarning"))
    res = X(fw[0].res)
    if elev:
        wantw = AND(ok, tob(app1("nodata", lambda l: l_feq(l, gvn.const(-10**20)), res.d)))
        cmp_sets(ctx, f"{name}: WARNING exactly when no model contains the point", swarn, wantw, ok, loc)
    elif name == "query":
        wantw = AND(ok, tob(res.eq(en["WARNING"]).d))
        cmp_sets(ctx, f"{name}: WARNING exactly when no model contains the point", swarn, wantw, ok, loc)
    else:
        ctx.ob(f"{name}: no WARNING state", AND(ok, swarn) is ZERO, loc, "setWarning is called")
    # the order of changes: nothing overrides the ERROR state
    for e in calls:
        if re.search(r"ErrorHandler::(setWarning|resetStatus)\(", e.callee):
            for x in calls:
                if x.n < e.n and re.search(r"ErrorHandler::setError\(", x.callee) and AND(x.guard, e.guard) is not ZERO:
                    ctx.ob(f"{name}: the ERROR state is kept", False, e.loc(), f"{fn_(e)} after setError")
    # result
    if elev:
        d = diff(E.ret, res, AND(AND(ok, E.retguard), NOT(thr)))
        ctx.ob(f"{name}: returns the elevation", not d, loc, "; ".join(d)[:300])
        x = AND(thr, E.retguard)
        ls = care_leaves(E.ret, x)
        ctx.ob(f"{name}: NODATA_VALUE after an exception", all(l.const == -10**20 for l in ls), loc, f"gives {[txt(l, 60) for l in ls]}")
    else:
        gs = [e for e in calls if re.search(r"ErrorHandler::getStatus\(", e.callee)]
        ls = care_leaves(E.ret, AND(nn, E.retguard))
        okr = bool(ls) and all(any(l.fp == e.res.fp for e in gs) for l in ls)
        ctx.ob(f"{name}: returns the status of the error handler", okr, loc, f"returns {[txt(l, 60) for l in ls]}")
        late = [x for e in gs for x in calls if re.search(r"ErrorHandler::set(Error|Warning)\(|serial::Query::", x.callee) and x.n > e.n and AND(x.guard, e.guard) is not ZERO and len(gs) == 1]
        ctx.ob(f"{name}: the status is taken last", not late, late[0].loc() if late else loc, late and f"{fn_(late[0])} is called after the status was taken" or "")
    ctx.count(calls=len(calls))


def fn_(e):
    return e.callee.split("(")[0]


def throw_of(e):
    """condition: the call e raises"""
    return e.thr if e.thr is not None else ZERO


def cmp_sets(ctx, key, got, want, care, loc):
    th = theory(got, want, care)
    a = AND(AND(AND(want, NOT(got)), care), th); b = AND(AND(AND(got, NOT(want)), care), th)
    d = [f"not set when {x}"[-250:] for x in cubes(a, ONE, 1)] + [f"set when {x}"[-250:] for x in cubes(b, ONE, 1)]
    ctx.ob(key, not d, loc, "; ".join(d))


def handler_of(p, h):
    E = EV.Evaluator(p)
    f = p.get("serial::Query::getErrorHandler")
    r = E.run(f, [h])
    return E.load(E.state, r, "ptr", 8, None)


def forward(ctx, p, E, name, e, args):
    got = e.args
    if name == "initialize":
        ctx.ob(f"{name}: forwards the query object", got[0] is args[0], e.loc(), f"called for {txt(got[0])}")
        for what, gi, ai in (("model filenames", 1, 1), ("value names", 2, 3)):
            strings(ctx, E, name, what, e, gi, args[ai], args[ai + 1])
        c = e.extra.get(3, {}).get(0) if e.extra else None
        ok = c is not None and gvn.showdd(c, 6) in (f"chars({txt(args[5])})", f"str(chars({txt(args[5])}))") or c is not None and mentions(c, args[5]) and not any(mentions(c, a) for a in args[:5])
        if c is None:
            ctx.und(f"{name}: the CRS is forwarded", "the string passed is not followed")
        else:
            ctx.ob(f"{name}: the CRS is forwarded", ok, e.loc(), f"passes {txt(c)}")
        return
    if name == "setSquashing":
        se = enum(p, "Query::SquashingEnum")
        hdr = {"GEOMODELGRIDS_SQUASH_NONE": "SQUASH_NONE", "GEOMODELGRIDS_SQUASH_TOP_SURFACE": "SQUASH_TOP_SURFACE", "GEOMODELGRIDS_SQUASH_TOPOGRAPHY_BATHYMETRY": "SQUASH_TOPOGRAPHY_BATHYMETRY"}
        cv = header_ints(p)
        ctx.ob(f"{name}: forwards the query object", got[0] is args[0], e.loc(), f"called for {txt(got[0])}")
        for c, n in hdr.items():
            g = AND(e.guard, tob(X(args[1]).eq(cv[c]).d))
            ls = care_leaves(got[1], g)
            ctx.ob(f"{name}: {c} sets {n}", g is not ZERO and all(l.const == se[n] for l in ls), e.loc(), f"sets {[txt(l, 40) for l in ls]}")
            bad = [x for x in E.events if x.kind == "call" and re.search(r"ErrorHandler::setError\(", x.callee) and AND(x.guard, g) is not ZERO]
            ctx.ob(f"{name}: {c} is no error", not bad, e.loc(), "sets the ERROR state")
        un = ONE
        for c in hdr:
            un = AND(un, NOT(tob(X(args[1]).eq(cv[c]).d)))
        un = AND(AND(un, e.guard), theory(un))
        se_ = ZERO
        for x in E.events:
            if x.kind == "call" and re.search(r"ErrorHandler::setError\(", x.callee):
                se_ = OR(se_, x.guard)
        miss = AND(un, NOT(se_))
        ctx.ob(f"{name}: any other value is an ERROR", miss is ZERO, e.loc(), f"no error when {' / '.join(cubes(miss, ONE, 1))[-200:]}")
        return
    for i, a in enumerate(args):
        g = got[i] if i < len(got) else None
        d = diff(g, a, e.guard) if g is not None and not isinstance(g, tuple) else ["missing"]
        ctx.ob(f"{name}: argument {i} is forwarded unchanged", not d, e.loc(), f"passes {txt(g)} for {txt(a)}")


def header_ints(p):
    src = (core.REPO / "libsrc/geomodelgrids/serial/cquery.h").read_text()
    out = {m.group(1): int(m.group(2)) for m in re.finditer(r"#\s*define\s+(GEOMODELGRIDS_SQUASH_\w+)\s+\(?\s*(\d+)\s*\)?", src)}
    for n in ("GEOMODELGRIDS_SQUASH_NONE", "GEOMODELGRIDS_SQUASH_TOP_SURFACE", "GEOMODELGRIDS_SQUASH_TOPOGRAPHY_BATHYMETRY"):
        if n not in out:
            m = re.search(rf"\b{n}\s*=\s*(\d+)", src)
            if not m:
                raise core.AnalysisBroken("cquery.h does not define " + n)
            out[n] = int(m.group(1))
    return out


def mentions(d, a):
    return any(tree_contains(l, X(a).d.fp) for l in leaves(d).values())


def strings(ctx, E, name, what, e, gi, arr, n):
    """the vector passed as argument gi holds the strings arr[0..n)"""
    begin = e.extra.get(gi, {}).get(0) if e.extra else None
    if begin is None or isinstance(begin, (Node, tuple)):
        ctx.und(f"{name}: {what}", "the vector passed is not followed"); return
    b0, _ = ptrparts(begin)
    st = [x for x in E.events if x.kind == "store" and x.n < e.n and isinstance(x.args[0], Leaf) and tree_contains(x.args[0], begin.fp)]
    if not st:
        V = e.args[gi]
        touch = [x for x in E.events if x.n < e.n and any(isinstance(a, Leaf) and (isinstance(V, Leaf) and tree_contains(a, V.fp) or tree_contains(a, begin.fp)) for a in x.args or ())]
        if touch and all(x.kind == "call" and re.search(r"std::vector<.*>::(vector\(unsigned long|resize\(unsigned long\)|reserve\()", x.callee or "") for x in touch):
            ctx.ob(f"{name}: {what} are forwarded in order", False, e.loc(), "no element is set"); return
        ctx.und(f"{name}: {what}", "the elements of the vector are not stored one by one"); return
    for s in st:
        idx = index_into(s.args[0], begin, 32)
        val = s.args[1]
        if idx is None:
            ctx.und(f"{name}: {what}", "element not recognised"); return
        want = ld(None, padd(arr, gvn.l_mul(idx, gvn.const(8)))).d
        m = val is not None and not isinstance(val, (Node, tuple)) and tree_contains(val, want.fp)
        ctx.ob(f"{name}: {what} are forwarded in order", m, s.loc(), f"element {txt(idx, 40)} is {txt(val, 120)}")
        info = None
        for k, v in E.loopinfo.items():
            if v.get("it") is not None and tree_contains(idx, v["it"].fp):
                info = v
        if info is None:
            if idx.const is None:
                ctx.und(f"{name}: {what}", "loop over the elements not recognised")
            continue
        it = info["it"]
        lt = dd_lt(idx, n)
        over = AND(nothrow(s.guard), NOT(lt)); over = AND(over, theory(over))
        ctx.ob(f"{name}: {what}: not more than given are read", over is ZERO, s.loc(), "reads beyond the number given")
        under = AND(AND(nothrow(e.guard), lt), NOT(nothrow(s.guard))); under = AND(under, theory(under))
        under = AND(under, NOT(dd_lt(it, gvn.const(0)))); under = AND(under, theory(under, dd_lt(it, gvn.const(0))))
        ctx.ob(f"{name}: {what}: every one given is read", under is ZERO and idx.fp == it.fp, s.loc(), under is not ZERO and f"not read when {' / '.join(cubes(under, ONE, 1))[-200:]}" or f"element {txt(idx, 60)} in step {txt(it, 40)}")


def create(ctx, p, run):
    f, E, args = run("create")
    ls = care_leaves(E.ret, E.retguard)
    c = [e for e in E.events if e.kind == "call" and re.search(r"serial::Query::Query\(", e.callee)]
    ctx.ob("create: returns a new query object", bool(c) and all(any(l.fp == e.args[0].fp for e in c) for l in ls), f.loc(), f"returns {[txt(l, 60) for l in ls]}")


def destroy(ctx, p, run):
    f, E, args = run("destroy")
    h = args[0]; q = ld(None, h).d
    null = tob(X(h).eq(0).d)
    c = [e for e in E.events if e.kind == "call" and re.search(r"serial::Query::~Query\(", e.callee)]
    need = AND(NOT(null), NOT(tob(X(q).eq(0).d)))
    g = ZERO
    for e in c:
        ctx.ob("destroy: destroys the query object of the handle", e.args[0].fp == q.fp, e.loc(), f"destroys {txt(e.args[0])}")
        ctx.ob("destroy: nothing is destroyed for NULL", AND(e.guard, NOT(need)) is ZERO, e.loc(), "NULL is dereferenced")
        g = OR(g, e.guard)
    miss = AND(need, NOT(g))
    ctx.ob("destroy: the query object is always destroyed", miss is ZERO, f.loc(), f"not when {' / '.join(cubes(miss, ONE, 1))[-200:]}")
    fin = E.load(E.state, h, "ptr", 8, None)
    ls = care_leaves(fin, AND(E.retguard, NOT(null)))
    ctx.ob("destroy: the handle is set to NULL", all(l.const == 0 for l in ls), f.loc(), f"the handle is {[txt(l, 60) for l in ls]}")


def handler(ctx, p, run):
    f, E, args = run("getErrorHandler")
    h = args[0]; null = tob(X(h).eq(0).d)
    ls = care_leaves(E.ret, AND(null, E.retguard))
    ctx.ob("getErrorHandler: NULL for a NULL handle", all(l.const == 0 for l in ls), f.loc(), f"gives {[txt(l, 60) for l in ls]}")
    d = diff(E.ret, handler_of(p, h), AND(NOT(null), E.retguard))
    ctx.ob("getErrorHandler: the error handler of the query object", not d, f.loc(), "; ".join(d)[:300])
