"""Coordinate systems: transformations are PROJ's between the two systems asked for, units are those of the system's own axes"""
from common_exc import *
import strmodels as SM
import models as MD
import h01
from h01 import isl, th, exits
from h04 import same, nodes, why, eqc1

MINIMUM = 30
CLS = "utils::CRSTransformer"
FWD, INV, IDENT = 1, -1, 0


def feasible(d):
    return th(d) is not ZERO


def m_coord(act, i, dem, args, g, st, setres):
    """the four values of a PROJ coordinate are kept as they are"""
    if not i.d.get("sret") or len(args) != 5:
        return NotImplemented
    for n in range(4):
        act.ev.store(st, padd(args[0], gvn.const(8 * n)), args[n + 1], 8, g, ("coord", i.line, n))
    return None


def m_trans(act, i, dem, args, g, st, setres):
    """PROJ's transformation of the coordinate given: four values that depend on transformation, direction and coordinate"""
    if not i.d.get("sret") or len(args) != 4:
        return NotImplemented
    ev = act.ev
    vs = [ev.load(st, padd(args[3], gvn.const(8 * n)), "double", 8, ("coordin", i.line, n)) for n in range(4)]
    for n in range(4):
        def one(x, a, b, c, _n=n):
            return l_fn(f"proj{_n}", x, a, b, c)
        pd = app2("projpd", lambda a, b: l_fn("pd", a, b), args[1], args[2])
        xy = app2("projxy", lambda a, b: l_fn("xy", a, b), vs[0], vs[1])
        zt = app2("projzt", lambda a, b: l_fn("zt", a, b), vs[2], vs[3])
        c = app2("projc", lambda a, b: l_fn("coord", a, b), xy, zt)
        ev.store(st, padd(args[0], gvn.const(8 * n)), app2(f"projt{n}", lambda a, b, _n=n: l_fn(f"proj.{'xyzt'[_n]}", a, b), pd, c), 8, g, ("trans", i.line, n))
    return None


MODELS = {r"^proj_coord$": m_coord, r"^proj_trans$": m_trans}


class V:
    def __init__(self, p, f, args, st=None, vmodels=None, tag=()):
        self.p = p; self.f = f; self.args = args
        E = self.E = EV.Evaluator(p, models={**MODELS, **h01.OWNERS, **SM.STREAMS, **SM.VECMUT})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        E.vmodels = vmodels or {}; E.tag = tag
        E.inline_pred = lambda fn, dem: None if fn.tu == f.tu or not fn.repo else False
        E.run(f, args, st.copy() if st is not None else EV.State())
        self.ev = E.events; self.loc = f.loc()
        self.ret = ZERO; self.st = None; self.res = None
        for w, g, s, r in exits(E):
            if w == "returning":
                self.ret = OR(self.ret, g); self.st = s; self.res = r

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]

    def at(self, a, ty="double", sz=8):
        return self.E.load(self.st, a, ty, sz, None)


def par(n, name):
    return atom("arg", n, tree=("fn", name))


def pick(p, name):
    """(function, index of the first parameter) — a value returned through memory comes first"""
    return p.get(f"{CLS}::{name}")


def check(ctx):
    p = core.load(("lib",))
    fs = {n: pick(p, n) for n in ("setSrc", "setDest", "initialize", "transform", "inverse_transform", "createGeoToXYAxisOrder", "getCRSUnits")}
    ctx.guard("transform", plain, ctx, p, fs)
    ctx.guard("createGeoToXYAxisOrder", normal, ctx, p, fs)
    ctx.guard("getCRSUnits", units, ctx, p, fs["getCRSUnits"])


def fnargs(l, name):
    if isinstance(l, Leaf) and l.tree[0] == "fn" and re.fullmatch(name, str(l.tree[1])):
        return list(l.tree[2:])
    return None


def cases(d, g):
    if d is ZERO or d is ONE or isinstance(d, Leaf):
        return [(d, g)]
    r = []
    for l in gvn.leaves(d).values():
        c = AND(g, isl(d, l.fp))
        if feasible(c):
            r.append((l, c))
    return r


def istext(l, a):
    """a character pointer denotes the text parameter a points to"""
    if not isinstance(l, Leaf):
        return False
    if l.fp == a.fp:
        return True
    v = MD.cval(l); w = MD.cval(a)
    return isinstance(v, Leaf) and isinstance(w, Leaf) and v.fp == w.fp


def crs_of(l, depth=0):
    """text a PROJ object was created from, as the character pointer"""
    a = fnargs(l, "proj_create")
    return a[1] if a else None


def pair(l):
    """(source, destination) of a transformation object: character pointers or objects"""
    a = fnargs(l, "proj_create_crs_to_crs")
    if a:
        return a[1], a[2], a[3]
    a = fnargs(l, "proj_create_crs_to_crs_from_pj")
    if a:
        return crs_of(a[1]) or a[1], crs_of(a[2]) or a[2], a[3]
    return None


# ---- transformations ---------------------------------------------------------------------------
def points(ctx, p, fs, key, proj_ok, st, this):
    """both directions applied to a point, in a state where the transformation is known"""
    for name, dirn in (("transform", FWD), ("inverse_transform", INV)):
        f = fs[name]
        a = [this] + [par(200 + n, f.args[n + 1]["n"]) for n in range(6)]
        R = V(p, f, a, st)
        k = f"{key}: {name}"
        if R.st is None:
            ctx.ob(f"{k} returns", False, R.loc, "never returns normally"); continue
        pre = AND(NOT(eqc(a[1], 0)), NOT(eqc(a[2], 0)))
        lost = AND(pre, NOT(R.ret))
        ctx.ob(f"{k} accepts every point", not feasible(lost), R.loc, f"does not return when {why(lost)}" if feasible(lost) else "")
        for n in range(3):
            g = AND(R.ret, NOT(eqc(a[1 + n], 0)))
            for m in range(3):
                if m != n:
                    g = AND(g, NOT(eqc(l_sub(a[1 + n], a[1 + m]), 0)))
            v = R.at(a[1 + n])
            und = []
            for l, c in cases(v, g):
                q = fnargs(l, r"proj\.[xyzt]")
                if q is None:
                    rec = isinstance(l, Leaf) and (l.const is not None or l.fp in {x.fp for x in a} or (l.tree[:2] == ("fn", "ld")))
                    if rec:
                        ctx.ob(f"{k}: {'xyz'[n]} is a coordinate of the transformed point", not feasible(c), R.loc, f"gives {txt(l, 60)} when {why(c)}")
                    else:
                        und.append(txt(l, 80))
                    continue
                ctx.ob(f"{k}: {'xyz'[n]} is that coordinate", l.tree[1] == "proj." + "xyz"[n], R.loc, f"gives coordinate {l.tree[1][-1]} for {'xyz'[n]}")
                pd, co = q
                P, D = pd.tree[2:]
                xy, zt = co.tree[2:]
                got = list(xy.tree[2:]) + [zt.tree[2]]
                bad = [m for m in range(3) if got[m].fp != a[4 + m].fp]
                ctx.ob(f"{k}: transforms the point given, coordinates in order", not bad, R.loc, f"{'xyz'[bad[0]]} of the point transformed is {txt(got[bad[0]], 60)}" if bad else "")
                t = zt.tree[3]
                if t.const is not None or t.tree[:2] != ("fn", "inf"):
                    ctx.ob(f"{k}: the point has no time", t.const is not None and t.const == 0 or "inf" in txt(t, 40), R.loc, f"time is {txt(t, 60)}")
                ctx.ob(f"{k}: direction", D.fp == gvn.const(dirn).fp, R.loc, f"direction is {txt(D, 40)}")
                proj_ok(k, P, c, R)
            for u in und:
                ctx.und(f"{k}: {'xyz'[n]}", f"value not recognised: {u}")
        wr = [e for e in R.ev if e.kind == "store" and isinstance(e.args[0], Leaf) and feasible(AND(e.guard, R.ret)) and ptrparts(e.args[0])[0][0] != "al" and e.args[0].fp not in {x.fp for x in a[1:4]}]
        ctx.ob(f"{k} writes only the coordinates", not wr, wr[0].loc() if wr else R.loc, f"writes {txt(wr[0].args[0], 60)}" if wr else "")
        for n in range(3):
            w = [e for e in R.ev if e.kind == "store" and isinstance(e.args[0], Leaf) and e.args[0].fp == a[1 + n].fp and feasible(AND(e.guard, eqc(a[1 + n], 0)))]
            ctx.ob(f"{k} writes no coordinate ({'xyz'[n]}) without a place for it", not w, w[0].loc() if w else R.loc, "written through NULL" if w else "")


def plain(ctx, p, fs):
    ctor = [f for f in p.repo_fns() if re.search(r"CRSTransformer::CRSTransformer\(\)$", f.dem) and f.blocks]
    if not ctor:
        raise core.AnalysisBroken("CRSTransformer::CRSTransformer() vanished")
    this = par(0, "this")
    src, dst = par(101, "source"), par(102, "destination")
    for order in ("source first", "destination first"):
        A = V(p, ctor[0], [this])
        st = A.st
        for n, t in ((("setSrc", src), ("setDest", dst)) if order == "source first" else (("setDest", dst), ("setSrc", src))):
            B = V(p, fs[n], [this, t], st)
            if B.st is None:
                ctx.und(n, "does not return"); return
            st = B.st
        I = V(p, fs["initialize"], [this], st)
        if I.st is None:
            ctx.ob("initialize returns", False, I.loc, "never returns normally"); return

        def ok(k, P, c, R):
            q = pair(P)
            c = AND(c, I.ret)
            if not feasible(c):
                return
            if q is None:
                bad = P.const is not None or P.tree[:2] == ("fn", "ld")
                (ctx.ob if bad else lambda k_, a_, b_, m_: ctx.und(k_, m_))(f"{k}: is of the coordinate systems set", False, I.loc, f"uses {txt(P, 100)}")
                return
            ctx.ob(f"{k}: from the source set", istext(q[0], src), I.loc, f"source is {txt(q[0], 80)}")
            ctx.ob(f"{k}: to the destination set", istext(q[1], dst), I.loc, f"destination is {txt(q[1], 80)}")
            ctx.ob(f"{k}: in no particular area", isinstance(q[2], Leaf) and q[2].const == 0, I.loc, f"area is {txt(q[2], 60)}")
        points(ctx, p, fs, f"after initialize ({order})", ok, I.st, this)
        if order == "source first":
            # again, with other systems: the newest ones count
            s2, d2 = par(111, "source2"), par(112, "destination2")
            st = I.st
            for n, t in (("setSrc", s2), ("setDest", d2)):
                st = V(p, fs[n], [this, t], st).st
            I2 = V(p, fs["initialize"], [this], st)
            if I2.st is None:
                ctx.ob("initialize again returns", False, I2.loc, "never returns normally"); return
            R = V(p, fs["transform"], [this] + [par(200 + n, "q") for n in range(6)], I2.st)
            for l, c in cases(R.at(R.args[1]), AND(AND(R.ret, I2.ret), AND(NOT(eqc(l_sub(R.args[1], R.args[2]), 0)), NOT(eqc(l_sub(R.args[1], R.args[3]), 0))))):
                q = fnargs(l, r"proj\.[xyzt]")
                P = q[0].tree[2] if q else None
                q = pair(P) if P is not None else None
                if q is None:
                    ctx.und("initialize again", "not recognised"); continue
                ctx.ob("initialized again: uses the systems set last", istext(q[0], s2) and istext(q[1], d2), I2.loc, f"still from {txt(q[0], 60)} to {txt(q[1], 60)}")
        # a transformation that could be made is accepted
        made = ONE
        for e in I.calls(r"^proj_create"):
            if isinstance(e.res, Leaf):
                made = AND(made, OR(NOT(e.guard), NOT(eqc(e.res, 0))))
        lost = nothrow(AND(made, NOT(I.ret)))
        ctx.ob(f"initialize accepts what PROJ can transform ({order})", not feasible(lost), I.loc, f"fails when {why(lost)}" if feasible(lost) else "")


def normal(ctx, p, fs):
    f = fs["createGeoToXYAxisOrder"]
    crs = par(0, "crs")
    I = V(p, f, [crs])
    if I.st is None:
        ctx.ob("createGeoToXYAxisOrder returns", False, I.loc, "never returns normally"); return

    def isnorm(l):
        a = fnargs(l, "proj_normalize_for_visualization")
        return a is not None and istext(crs_of(a[1]) or ZERO, crs)

    def ok(k, P, c, R):
        c = AND(c, I.ret)
        if not feasible(c):
            return
        a = fnargs(P, "proj_create_crs_to_crs_from_pj")
        if a is None:
            bad = P.const is not None or fnargs(P, "proj_create_crs_to_crs|proj_normalize_for_visualization|proj_create") is not None
            (ctx.ob if bad else lambda k_, a_, b_, m_: ctx.und(k_, m_))(f"{k}: from the system to its x/y order", False, I.loc, f"uses {txt(P, 100)}")
            return
        ctx.ob(f"{k}: from the coordinate system given", istext(crs_of(a[1]) or ZERO, crs), I.loc, f"from {txt(a[1], 80)}")
        ctx.ob(f"{k}: to the same system in x/y order", isnorm(a[2]), I.loc, f"to {txt(a[2], 80)}")
        ctx.ob(f"{k}: in no particular area", isinstance(a[3], Leaf) and a[3].const == 0, I.loc, f"area is {txt(a[3], 60)}")
    for l, c in cases(I.res, I.ret):
        if l.const == 0:
            ctx.ob("createGeoToXYAxisOrder gives a transformation", False, I.loc, f"gives NULL when {why(c)}"); continue
        points(ctx, p, fs, "createGeoToXYAxisOrder", ok, I.st, l)
    made = ONE
    for e in I.calls(r"^proj_(create|normalize)"):
        if isinstance(e.res, Leaf):
            made = AND(made, OR(NOT(e.guard), NOT(eqc(e.res, 0))))
    lost = nothrow(AND(made, NOT(I.ret)))
    ctx.ob("createGeoToXYAxisOrder accepts what PROJ can transform", not feasible(lost), I.loc, f"fails when {why(lost)}" if feasible(lost) else "")


# ---- units -------------------------------------------------------------------------------------
DEFAULT = ("unknown", "unknown", "meter (assumed)")
WORDS = {"metre": "meter", "meter": "meter", "kilometre": "kilometer"}


def derives(l, crs, depth=0):
    """the coordinate system object is of the system given, possibly of its source system: 'own', 'source' or None"""
    if not isinstance(l, Leaf) or depth > 8:
        return None
    a = fnargs(l, "proj_create")
    if a is not None:
        if istext(a[1], crs):
            return "own"
        w = fnargs(a[1], r"proj_as_wkt|proj_as_projjson")
        return derives(w[1], crs, depth + 1) if w else None
    a = fnargs(l, "proj_get_source_crs")
    if a is not None:
        return "source" if derives(a[1], crs, depth + 1) else None
    a = fnargs(l, r"proj_clone")
    if a is not None:
        return derives(a[1], crs, depth + 1)
    return None


def units(ctx, p, f):
    bound = 19                   # PJ_TYPE_BOUND_CRS of PROJ's stable interface
    ps = [par(n, ("xUnit", "yUnit", "zUnit", "crs")[n]) for n in range(4)]
    R = V(p, f, ps)
    crs = ps[3]
    key = "getCRSUnits"
    if R.st is None:
        ctx.ob(f"{key} returns", False, R.loc, "never returns normally"); return
    lost = nothrow(NOT(R.ret))
    ctx.ob(f"{key} answers for every coordinate system", not feasible(lost), R.loc, f"does not return when {why(lost)}" if feasible(lost) else "")
    infos = [e for e in R.calls(r"^proj_cs_get_axis_info$")]
    if not infos:
        ctx.und(key, "units of axes are not read with proj_cs_get_axis_info"); return
    apart = ONE
    for n in range(3):
        for m in range(n):
            apart = AND(apart, OR(NOT(eqc(l_sub(ps[n], ps[m]), 0)), eqc(ps[n], 0)))
    have = {}                    # (system, axis) -> condition under which the unit of that axis is known
    for e in infos:
        for cs, c in cases(e.args[1], e.guard):
            a = fnargs(cs, "proj_crs_get_coordinate_system")
            d = derives(a[1], crs) if a else None
            if d is None:
                ctx.und(f"{key}: axes", f"coordinate system not recognised: {txt(cs, 80)}"); return
            for ax, c2 in cases(e.args[2], c):
                if ax.const is None:
                    ctx.und(f"{key}: axes", f"axis not recognised: {txt(ax, 60)}"); return
                cnt = [x for x in R.calls(r"^proj_cs_get_axis_count$") if isinstance(x.args[1], Leaf) and x.args[1].fp == cs.fp]
                if not cnt:
                    ctx.ob(f"{key}: the axis exists ({d})", False, e.loc(), "number of axes is not looked at"); return
                beyond = AND(c2, NOT(dd_lt(ax, cnt[0].res)))
                ctx.ob(f"{key}: the axis exists ({d}, {int(ax.const)})", not feasible(beyond), e.loc(), f"reads an axis the system does not have when {why(beyond)}" if feasible(beyond) else "")
                have.setdefault((d, int(ax.const)), []).append((e, cs, a[1], cnt[0].res, c2))
    sysd = {}
    for (d, ax), xs in have.items():
        sysd.setdefault(d, xs[0])
    ctx.ob(f"{key}: units of the system's own axes are read", "own" in sysd, R.loc, "never read" if "own" not in sysd else "")
    ctx.ob(f"{key}: units of a bound system are those of its source system", "source" in sysd, R.loc, "never read" if "source" not in sysd else "")
    if "own" not in sysd:
        return
    given = AND(NOT(eqc(crs, 0)), ONE)
    given = AND(given, NOT(eqc(MD.strlength(MD.cval(crs)), 0)))
    given = AND(given, NOT(eqc(R.E.load1(EV.State(), crs, "i8", 1, None), 0)))
    for n in range(3):
        k = f"{key}: unit of {'xyz'[n]}"
        val = MD.sval(R.E, R.st, ps[n])
        g = AND(AND(R.ret, apart), NOT(eqc(ps[n], 0)))
        # the unit of the axis must be given
        must = {}
        for d in sysd:
            e, cs, pj, cnt, c2 = sysd[d]
            m = AND(AND(given, NOT(eqc(cs, 0))), NOT(dd_lt(cnt, gvn.const(n + 1))))
            if d == "source":
                own = sysd["own"][1]
                m = AND(m, eqc(own, 0))
                for x in R.calls(r"^proj_(create|get_source_crs)$"):
                    if isinstance(x.res, Leaf):
                        m = AND(m, OR(NOT(x.guard), NOT(eqc(x.res, 0))))
                tys = [x for x in R.calls(r"^proj_get_type$") if isinstance(x.res, Leaf)]
                if not tys:
                    ctx.und(f"{k}, bound systems", "type of the system is not looked at"); continue
                m = AND(m, eqc(tys[0].res, bound))
            else:
                m = AND(m, NOT(eqc(pj, 0)))
            must[d] = m
        for l, c in cases(val, g):
            s = MD.const_string(l)
            src = None
            if s is None:
                # verbatim name of an axis
                for (d, ax), xs in have.items():
                    for e, cs, pj, cnt, c2 in xs:
                        nm = name_of(R, e)
                        if isinstance(nm, Leaf) and nm.fp == l.fp:
                            src = (d, ax, e, cs, pj)
                if src is None:
                    oth = [(m, e) for (d, ax), xs in have.items() for e, *_ in xs for m in e.outs if m != 7 and getattr(name_of(R, e, m), "fp", 0) == l.fp]
                    if oth:
                        ctx.ob(f"{k} is the name of the unit", False, oth[0][1].loc(), f"is output {oth[0][0]} of proj_cs_get_axis_info")
                    elif l.tree[:2] == ("fn", "ld") or any(isinstance(q, Leaf) and q.tree[:2] == ("fn", "ld") for q in MD.parts_of(l)):
                        ctx.ob(f"{k} is always given", not feasible(c), R.loc, f"is left as it was when {why(c)}")
                    else:
                        ctx.und(k, f"not recognised: {txt(l, 80)}")
                    continue
                d, ax, e, cs, pj = src
                ctx.ob(f"{k} is that of its own axis ({d})", ax == n, e.loc(), f"is the unit of axis {ax} when {why(c)}")
                for w in WORDS:
                    ws = word(R, w, l)
                    if not ws and not words(R, l):
                        ctx.und(f"{k}: {w}", "comparison not recognised"); continue
                    if not ws and w == WORDS[w]:
                        continue
                    w_ = AND(c, OR_(ws)) if ws else c
                    ctx.ob(f"{k}: {w} is called {WORDS[w]} ({d})", not feasible(w_), e.loc(), f"is kept as {w}")
                continue
            if s in set(WORDS.values()):
                # only when the axis has a unit of that name
                ok = ZERO; seen = False
                for (d, ax), xs in have.items():
                    if ax != n:
                        continue
                    for e, cs, pj, cnt, c2 in xs:
                        nm = name_of(R, e)
                        seen = seen or bool(words(R, nm))
                        for w, v in list(WORDS.items()) + [(s, s)]:
                            if v == s:
                                ws = word(R, w, nm)
                                ok = OR(ok, AND(AND(e.guard, isl(e.args[1], cs.fp)), OR_(ws)))
                if not seen:
                    ctx.und(f"{k}: {s}", "comparison not recognised"); continue
                bad = AND(c, NOT(ok))
                ctx.ob(f"{k} is {s} only if the axis says so", not feasible(bad), R.loc, f"is {s} when {why(bad)}" if feasible(bad) else "")
                continue
            if s in DEFAULT or s == "":
                ctx.ob(f"{k}: what stands for no unit", s == DEFAULT[n], R.loc, f"is '{s}'")
                for d, m in must.items():
                    bad = AND(c, m)
                    ctx.ob(f"{k} is given when the system has one ({d})", not feasible(bad), R.loc, f"is '{s}' when {why(bad)}" if feasible(bad) else "")
                continue
            ctx.ob(f"{k}: names of units", False, R.loc, f"is '{s}' when {why(c)}")
        others = [e for e in R.ev if e.kind == "store" and isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == ptrparts(ps[n])[0] and feasible(AND(e.guard, eqc(ps[n], 0)))]
        ctx.ob(f"{k} is written only where there is a place for it", not others, others[0].loc() if others else R.loc, "written through NULL" if others else "")


def OR_(xs):
    g = ZERO
    for x in xs:
        g = OR(g, x)
    return g


def name_of(R, e, n=7):
    """text of the unit that a reading of an axis gave (argument 7)"""
    if n not in e.outs:
        return None
    l, token = e.outs[n]
    st = EV.State()
    R.E.clobber(st, l, token)
    return MD.cval(R.E.load1(st, l, "ptr", 8, None))


def word(R, w, name):
    """conditions under which the comparison of a text with the word finds them equal"""
    if not isinstance(name, Leaf):
        return []
    r = []
    ww = MD.strleaf([w]).fp
    for e in R.ev:
        for l in seen_cmp(R):
            x, y = l.tree[2], l.tree[3]
            if {getattr(x, "fp", None), getattr(y, "fp", None)} == {ww, name.fp}:
                r.append(eqc(l, 0))
        break
    return r


def words(R, name):
    """the constant words a text is compared with"""
    r = []
    for l in seen_cmp(R):
        x, y = l.tree[2], l.tree[3]
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Leaf) and isinstance(name, Leaf) and a.fp == name.fp and MD.const_string(b) is not None:
                r.append(MD.const_string(b))
    return r


def seen_cmp(R):
    c = getattr(R, "_cmp", None)
    if c is None:
        c = {}
        ds = [R.ret] + [e.guard for e in R.ev]
        for d in ds:
            for v in nodes(d):
                for l in gvn.var_leaf(v):
                    if isinstance(l, Leaf) and l.tree[:1] == ("fn",) and str(l.tree[1]) in ("strcasecmp", "strcmp"):
                        c[l.fp] = l
        R._cmp = c = list(c.values())
    return c
