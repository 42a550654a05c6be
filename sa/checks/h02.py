"""Failures of the HDF5, PROJ and GDAL libraries raise exceptions, are never used as results, and never abort"""
from common_exc import *
import h01
from h01 import isl, th, evaluate, exits, roots, short, releases

MINIMUM = 80
NEG, NULL, NZ, ZR = "negative", "null", "not CE_None", "zero"
FAIL = [
    (r"^H5(Fopen|Fcreate|Fclose|Gopen|Gcreate|Dopen|Dcreate|Dget_space|Dget_type|Aopen|Acreate|Aget_space|Aget_type|Oopen|Pcreate|Screate|Scopy|Tcopy|Tcreate)", NEG),
    (r"^H5(Aread|Awrite|Dread|Dwrite|Dvlen_reclaim|Treclaim|Sselect_|Pset_|Gget_info|Gget_num_objs|Oget_info|Sget_simple_extent_|Sget_select_npoints|Lget_name_by_idx|Lget_info|Literate|Lvisit|Ovisit|Diterate|Aiterate)", NEG),
    (r"^H5Tget_class", NEG),
    (r"^proj_(create|normalize_for_visualization|crs_create)", NULL),
    (r"^GDALOpen|^GDALDriver::Create|^GDALDriverManager::GetDriverByName|^GDALGetDriverByName", NULL),
    (r"^GDAL(Dataset|RasterBand)::(RasterIO|GetGeoTransform|SetGeoTransform|SetProjection|SetSpatialRef)\(|^GDAL(Dataset)?RasterIO|^GDALGetGeoTransform", NZ),
]
# looked up to learn whether something exists, or to describe it where unknown is an answer
LOOKUPS = re.compile(r"::(getCRSUnits|~\w+)\(")
QUIET = re.compile(r"^(proj_errno|proj_errno_string|proj_context_errno|H5I|H5E)")
_fc = {}


def failing(callee):
    r = _fc.get(callee)
    if r is None:
        r = _fc[callee] = next((k for rx, k in FAIL if re.search(rx, callee)), 0)
    return r


def failed(kind, l):
    if kind == NEG:
        return dd_lt(l, gvn.const(0))
    if kind == NULL or kind == ZR:
        return eqc(l, 0)
    return NOT(eqc(l, 0))


def check(ctx):
    p = core.load(("lib",))
    n = 0; calls = 0
    rs = roots(p)
    rs += [f for f in p.repo_fns() if f not in rs and f.blocks and f.dem.startswith("geomodelgrids") and any(
        i.o in ("call", "invoke") and (i.callee and failing(p.dem(i.callee)) or str(i.d.get("vc", "")).startswith("GDAL")) for i in f.instrs())]
    for f in rs:
        if re.search(r"[CD]0Ev|C1E|D1E", f.name) or h01.is_dtor(f) or f.dem.endswith("::_HDF5Access()"):
            continue
        n += 1
        ctx.guard(short(f), one, ctx, p, f)
    for f in p.repo_fns():
        if f.blocks:
            asserts(ctx, p, f)
    ctx.count(functions=n)


def one(ctx, p, f):
    E = _ev[f.name] = evaluate(p, f)
    xs = exits(E)
    ret = ZERO
    for w, g, st, r in xs:
        if w == "returning":
            ret = OR(ret, g)
    key = short(f)
    # counts given by the caller are not negative
    counts = [atom("arg", k, tree=("fn", a["n"])) for k, a in enumerate(f.args) if a.get("t") == "i32"]
    seen = {}
    for e in E.events:
        if e.kind != "call" or not e.callee or not isinstance(e.res, Leaf):
            continue
        kind = failing(e.callee)
        if not kind or e.instr.fn.tu != f.tu and not e.instr.fn.loc().split(":")[0].endswith((".hh", ".icc")) or LOOKUPS.search(f.dem) or LOOKUPS.search(e.instr.fn.dem):
            continue
        base = f"{key}: {e.callee.split('(')[0]} in {e.instr.fn.dem.split('(')[0].split('::')[-1]}"
        seen[base] = seen.get(base, 0) + 1
        k = base if seen[base] == 1 else f"{base} #{seen[base]}"
        fl = AND(e.guard, failed(kind, e.res))
        for c in counts if kind == NEG else ():
            fl = AND(fl, NOT(AND(gvn.leq_eq(e.res, c), failed(kind, e.res))))
        if th(fl) is ZERO:
            continue
        if e.loops:         # in a loop: an exception is thrown in the same iteration
            thrown = ZERO
            for e2 in E.events:
                if e2.n > e.n:
                    if e2.kind == "noreturn" and e2.callee in ("__cxa_throw", "__cxa_rethrow"):
                        thrown = OR(thrown, e2.guard)
                    elif e2.thr is not None:
                        thrown = OR(thrown, AND(e2.guard, e2.thr))
            d = OR(th(AND(fl, NOT(thrown))), th(AND(fl, ret)))
        else:
            d = th(AND(fl, ret))
        ctx.ob(f"{k}: failure raises an exception", d is ZERO, e.loc(),
               "" if d is ZERO else f"returns normally after it gave {kind}: {' / '.join(cubes(d, ONE, 1))[-300:]}")
        use = None
        for e2 in E.events:
            if e2.n <= e.n or e2.kind != "call" or releases(e2.callee or "") or QUIET.search(e2.callee or "") or not (e2.callee or "").startswith(("H5", "proj_", "GDAL")):
                continue
            for a in e2.args or []:
                if isinstance(a, (Leaf, Node)) and isl(a, e.res.fp) is not ZERO and th(AND(AND(fl, e2.guard), isl(a, e.res.fp))) is not ZERO:
                    use = e2
        ctx.ob(f"{k}: a failed result is not used", use is None, use.loc() if use else e.loc(), f"passed to {use.callee[:60]} although it may be {kind}" if use else "")


# ---------------------------------------------------------------------------------------------
FROMFILE = re.compile(r"^(H5(?!T_|open|check)|proj_|GDAL)|geomodelgrids::serial::HDF5::(read|get|has)")


def sources(p, f):
    """callees whose results (or outputs written to a variable of the function or a member) a value depends on"""
    defs = f.defs
    stores = {}; outs = {}
    for i in f.instrs():
        if i.o == "store":
            stores.setdefault(place(i.a[1], defs), []).append(i.a[0])
        elif i.o in ("call", "invoke") and i.callee:
            d = p.dem(i.callee)
            for a in i.a:
                r = place(a, defs)
                if r is not None:
                    outs.setdefault(r, set()).add(d)
    memo = {}

    def go(op):
        if op[0] != "%":
            return set()
        k = op[1]
        if k in memo:
            return memo[k]
        memo[k] = set()
        i = defs.get(k)
        if i is None:
            return set()
        r = set()
        if i.o in ("call", "invoke"):
            if i.callee:
                d = p.dem(i.callee); r.add(d)
                if not FROMFILE.search(d):
                    for a in i.a:
                        r |= go(a)
        elif i.o == "load":
            b = place(i.a[0], defs)
            if b is not None:
                for v in stores.get(b, ()):
                    r |= go(v)
                r |= {d for d in outs.get(b, ()) if FROMFILE.search(d)}
            elif i.a[0][0] == "%":
                r |= go(i.a[0])
        else:
            for a in i.a:
                if a and isinstance(a, (list, tuple)):
                    r |= go(a)
        memo[k] = r
        return r
    return go


def place(op, defs):
    """the variable or member an address denotes"""
    off = 0
    while True:
        if op[0] == "p":
            return ("p", op[1], off)
        if op[0] != "%":
            return None
        i = defs.get(op[1])
        if i is None:
            return None
        if i.o == "alloca":
            return ("a", i.id)
        if i.o == "getelementptr" and "var" not in i.d:
            off += i.d.get("off", 0); op = i.a[0]
        elif i.o == "bitcast":
            op = i.a[0]
        else:
            return None


_ev = {}


def reached(p, f, call):
    """whether the program can stop there"""
    if f.name not in _ev:
        try:
            _ev[f.name] = evaluate(p, f)
        except (gvn.Blowup, gvn.Unsupported):
            _ev[f.name] = None
    E = _ev[f.name]
    if E is None:
        return True
    es = [e for e in E.events if e.kind in ("abort", "noreturn") and e.instr.fn is f and e.instr is call]
    return any(th(e.guard) is not ZERO for e in es)


STOPS = ("__assert_fail", "abort", "_ZSt9terminatev", "exit", "_exit")


def asserts(ctx, p, f):
    go = None
    for bi, b in enumerate(f.blocks):
        call = next((i for i in b if i.o in ("call", "invoke") and i.callee in STOPS), None)
        if call is None or any(i.o == "landingpad" for i in b):
            continue
        if go is None:
            go = sources(p, f)
        src = set()
        for b2 in f.blocks:
            t = b2[-1]
            if t.o == "br" and t.a and bi in t.succs():
                src |= go(t.a[0])
        bad = sorted(s for s in src if FROMFILE.search(s))
        if bad and not reached(p, f, call):
            bad = []
        ctx.ob(f"{short(f)}: assertions do not depend on what was read", not bad, f.loc(call),
               f"stops the program depending on {bad[0][:80]}" if bad else "")
