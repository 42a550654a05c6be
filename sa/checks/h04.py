"""Metadata: every attribute and dataset the file format documents reaches the value its getter returns, nothing missing is accepted"""
from common_exc import *
import strmodels as SM
import models as MD
import h01
from h01 import isl, th, exits, OWNERS
from ev import params_of

MINIMUM = 100
INFO = [(g, a, k) for g, a, k in (
    ("getTitle", "title", "s"), ("getId", "id", "s"), ("getDescription", "description", "s"), ("getKeywords", "keywords", "l"), ("getHistory", "history", "s"),
    ("getComment", "comment", "s"), ("getCreatorName", "creator_name", "s"), ("getCreatorInstitution", "creator_institution", "s"),
    ("getCreatorEmail", "creator_email", "s"), ("getAcknowledgement", "acknowledgement", "s"), ("getAuthors", "authors", "l"), ("getReferences", "references", "l"),
    ("getRepositoryName", "repository_name", "s"), ("getRepositoryURL", "repository_url", "s"), ("getRepositoryDOI", "repository_doi", "s"),
    ("getVersion", "version", "s"), ("getLicense", "license", "s"), ("getAuxiliary", "auxiliary", "o"))]
MODEL = [("getValueNames", "data_values", "l"), ("getValueUnits", "data_units", "l"), ("getDims", "dim_x", 0), ("getDims", "dim_y", 1), ("getDims", "dim_z", 2),
         ("getOrigin", "origin_x", 0), ("getOrigin", "origin_y", 1), ("getYAzimuth", "y_azimuth", "d"), ("getCRSString", "crs", "s")]
API = re.compile(r"serial::HDF5::(readAttribute|hasAttribute|hasGroup|hasDataset|getGroupDatasets|getDatasetDims|isOpen|open|close|readDatasetHyperslab)\b")
PARTS = re.compile(r"serial::(ModelInfo::load|(Surface|Block)::(loadMetadata|openQuery|closeQuery|Surface|Block|~Surface|~Block|setHyperslabDims)|Hyperslab::|_Hyperslab)|utils::(CRSTransformer|Indexing\w*)::")


def check(ctx):
    p = core.load(("lib",))
    ctx = Quiet(ctx)
    ctx.guard("ModelInfo::load", info, ctx, p)
    ctx.guard("Model::loadMetadata", model, ctx, p)
    ctx.guard("Model::initialize", initialize, ctx, p)
    for c in ("Block", "Surface"):
        ctx.guard(f"{c}::loadMetadata", part, ctx, p, c)
        ctx.guard(f"{c}::openQuery", openq, ctx, p, c)


class Ev:
    """evaluation of a loading function: its events and its state when it returns normally"""

    def __init__(self, p, name, state=None, give=None):
        self.p = p
        self.f = f = p.get(name)
        E = self.E = EV.Evaluator(p, models={**OWNERS, **SM.STREAMS, **SM.VECMUT})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        # where the reading functions put what was read, as decided by H03
        E.extents = [(r"HDF5::readAttribute\(char const\*, char const\*, long, void\*\*", {4: (8, "ptr"), 5: (8, "i64")}),
                     (r"HDF5::readAttribute\(char const\*, char const\*, long, void\*\)", {4: (8, "double")}),
                     (r"HDF5::getDatasetDims\(", {1: (8, "ptr"), 2: (4, "i32")})]

        def pred(fn, dem):
            if not fn.repo or API.search(dem):
                return False if fn.repo else None
            if PARTS.search(dem) and fn.tu != f.tu:
                return False
            return None
        E.inline_pred = pred
        args = None
        if give is not None:
            args = [give.get(i, atom("arg", i, tree=("fn", a["n"] or f"arg{i}"))) for i, a in enumerate(f.args)]
        E.run(f, args, state.copy() if state is not None else None)
        self.this = atom("arg", 0, tree=("fn", f.args[0]["n"]))
        self.ret = ZERO; self.st = None
        for w, g, st, r in exits(E):
            if w == "returning":
                self.ret = OR(self.ret, g); self.st = st
        self.key = "::".join(name.split("::")[-2:])
        for i in E.loopinfo.values():
            Carried.atoms |= {a.fp for a in i["atoms"].values()}
        Carried.memo.clear()
        self.ev = E.events
        self.loc = f.loc()

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]

    def getter(self, cls, name):
        g = self.p.get(f"{cls}::{name}")
        return EV.Evaluator(self.p).run(g, [self.this], self.st.copy()), g

    def out(self, e, n, ty, sz, off=0):
        if n not in e.outs:
            return None
        l, token = e.outs[n]
        st = EV.State()
        self.E.clobber(st, l, token)
        return self.E.load1(st, padd(l, gvn.const(off)), ty, sz, None)

    def outstr(self, e, n):
        if n not in e.outs:
            return None
        l, token = e.outs[n]
        st = EV.State()
        self.E.clobber(st, l, token)
        return MD.sval(self.E, st, l)

    def reads(self, path, attr):
        """[(event, kind, value)] of readings of an attribute"""
        r = []
        for e in self.calls(r"HDF5::readAttribute\b"):
            o = 1 if e.instr.d.get("sret") else 0
            if not samestr(e.args[o + 1], path) or not samestr(e.args[o + 2], attr):
                continue
            ps = params_of(e.callee) or []
            if o:
                r.append((e, "s", self.outstr(e, 0)))
            elif len(ps) == 3:
                r.append((e, "l", self.out(e, 3, "ptr", 8)))
            elif len(ps) == 4:
                r.append((e, "d", self.out(e, 4, "double", 8)))
            elif len(ps) == 5:
                r.append((e, "a", self.out(e, 4, "ptr", 8)))
        return r

    def has(self, path, attr):
        return [e for e in self.calls(r"HDF5::hasAttribute\b") if samestr(e.args[1], path) and samestr(e.args[2], attr)]

    def value(self, V, kind):
        """the value a getter's result denotes in the final state"""
        E = self.E; st = self.st.copy()
        if kind in ("s", "o"):
            return MD.sval(E, st, V)
        if kind == "l":
            return E.load(st, V, "ptr", 8, None)
        if kind == "d":
            return V
        return E.load(st, padd(V, gvn.const(8 * kind)), "double", 8, None)


def samestr(a, want):
    """whether the text an argument denotes is certainly `want` (a text or a list of parts)"""
    ok = True
    for l in gvn.leaves(a).values() if isinstance(a, Node) else [a]:
        if not isinstance(l, Leaf):
            return False
        v = MD.cval(l)
        ok = ok and isinstance(v, Leaf) and norm(v).fp == norm(MD.strleaf([want] if isinstance(want, str) else want)).fp
    return ok


def norm(l):
    """a path from the root of a file may be written with or without a leading /"""
    ps = MD.parts_of(l)
    if ps and isinstance(ps[0], str) and ps[0].startswith("/") and (len(ps) > 1 or len(ps[0]) > 1):
        ps = [ps[0].lstrip("/")] + ps[1:]
    return MD.strleaf(ps)


def same(a, b):
    """condition that two values are the same"""
    return app2("same", lambda x, y: ONE if x.fp == y.fp else ZERO, a, b)


class Carried:
    """what a failure depends on: values carried around a loop that were not recognised"""
    atoms = set(); hit = False
    memo = {}


def is_carried(v):
    r = Carried.memo.get(v)
    if r is None:
        r = Carried.memo[v] = any(carried_leaf(x) for x in gvn.var_leaf(v))
    return r


def carried_leaf(l, depth=0):
    if not isinstance(l, Leaf) or depth > 12:
        return False
    return l.fp in Carried.atoms or l.tree[:2] == ("fn", "loopval") or any(carried_leaf(x, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf))


def feasible(d):
    d = th(d)
    if d is ZERO:
        return False
    if isinstance(d, Node) and gvn.forall(d, is_carried) is ZERO:
        Carried.hit = True
        return False
    return True


def unclear(V):
    """whether the function returns normally depends on such values"""
    return any(is_carried(v) for v in nodes(V.ret))


class Quiet:
    """obligations that hold only because such a value was left out are undecided"""

    def __init__(self, ctx):
        self.c = ctx

    def ob(self, key, ok, loc="", msg=""):
        h, Carried.hit = Carried.hit, False
        if ok and h:
            self.c.und(key, "depends on a value carried around a loop")
            return True
        return self.c.ob(key, ok, loc, msg)

    def __getattr__(self, n):
        return getattr(self.c, n)


def why(d):
    return " / ".join(cubes(th(d), ONE, 1))[-300:]


def holds(ctx, key, V, rds, v, what, cond=ONE, loc=None):
    """V.ret => one of the readings happened and its result is v"""
    good = ZERO; read = ZERO
    for e, k, val in rds:
        if val is None:
            ctx.und(key, "result of the reading not recognised"); return
        read = OR(read, e.guard)
        good = OR(good, AND(e.guard, OR(same(v, val), AND(eqc1(v, 0), eqc1(val, 0)))))
    need = AND(V.ret, cond)
    m = AND(need, NOT(read))
    if feasible(m):
        ctx.ob(key, False, loc or V.loc, f"returns normally without reading {what}: {why(m)}"); return
    m = AND(need, NOT(good))
    bad = feasible(m)
    ctx.ob(key, not bad, loc or (rds[0][0].loc() if rds else V.loc), f"is not what was read from {what}: {txt(v, 160)} when {why(m)}" if bad else "")


def is_double(e):
    t = e.args[3]
    a = deref(t) if isinstance(t, Leaf) else None
    return a is not None and a.base is not None and a.base[0] == "g" and "H5T_NATIVE_DOUBLE" in str(a.base[1])


def fetch(ctx, V, cls, tab, path):
    for g, a, k in tab:
        key = f"{V.key}: {a} -> {g}" + (f"[{k}]" if isinstance(k, int) else "")
        rds = V.reads(path, a)
        want = {"s": "s", "o": "s", "l": "l"}.get(k, "d")
        rds = [r for r in rds if r[1] == want]
        if not rds:
            other = []
            for e in V.calls(r"HDF5::readAttribute\b"):
                o = 1 if e.instr.d.get("sret") else 0
                if not isinstance(e.args[o + 2], Leaf) or MD.const_string(e.args[o + 2]) is None and (path is None or samestr(e.args[o + 1], path)):
                    other.append(e)
            ctx.ob(key, False, V.loc, f"the attribute {a} is never read") if not other else ctx.und(key, f"reading of {a} not recognised")
            continue
        if want == "d":
            bad = [e for e, _, _ in rds if not is_double(e)]
            ctx.ob(f"{key}: converted to double", not bad, rds[0][0].loc(), "the value is stored as another type")
        r, gf = V.getter(cls, g)
        v = V.value(r, k)
        cond = ONE
        if k == "o":
            hs = V.has(path, a)
            cond = ZERO
            for h in hs:
                cond = OR(cond, AND(h.guard, NOT(eqc(h.res, 0))))
            absent = V.ret
            for h in hs:
                absent = AND(absent, OR(NOT(h.guard), eqc(h.res, 0)))
            ctx.ob(f"{key}: optional", bool(hs) and feasible(absent), V.loc, "a file without it is not accepted")
            if not hs:
                continue
        holds(ctx, key, V, rds, v, a, cond)


def accepted(ctx, V, assume, what):
    """with everything documented present and no call failing, the function returns normally"""
    d = V.ret
    for k, i in V.E.loopinfo.items():
        for w, (var, c) in (i.get("sticky") or {}).items():
            b = ZERO
            for _, g, st in i["back"]:
                if w[0] == "phi":
                    v = i["next"][w[1]]
                else:
                    v = st.mem[w[1]][1] if w[1] in st.mem else gvn.const(0)
                b = OR(b, AND(g, same(v, c)))
            if not feasible(nothrow(gvn.restrict_vars(AND(assume, b), lambda x, var=var: False if x == var else None))):
                d = gvn.restrict_vars(d, lambda x, var=var: False if x == var else None)
    its = set(V.E.its)
    d = gvn.exists(nothrow(d), lambda v: any(gvn_contains(x, fp) for x in gvn.var_leaf(v) for fp in its))    # loops end
    miss = AND(assume, NOT(d))
    bad = feasible(miss)
    ctx.ob(f"{V.key}: a complete {what} is accepted", not bad, V.loc, f"raises an exception when {why(miss)}" if bad else "")


def present(V, path, attrs):
    a = ONE
    for e in V.calls(r"HDF5::hasAttribute\b"):
        if any(samestr(e.args[1], path) and samestr(e.args[2], x) for x in attrs):
            a = AND(a, NOT(eqc(e.res, 0)))
    return a


def info(ctx, p):
    V = Ev(p, "serial::ModelInfo::load")
    fetch(ctx, V, "serial::ModelInfo", INFO, "/")
    h5 = atom("arg", 1, tree=("fn", V.f.args[1]["n"]))
    accepted(ctx, V, AND(NOT(eqc(h5, 0)), present(V, "/", [a for _, a, k in INFO if k != "o"])), "description")
    ctx.count(functions=1)


def usesh5(ctx, V, key, e, n, h5):
    a = e.args[n]
    ok = isinstance(a, Leaf) and a.fp == h5.fp or isinstance(a, Node) and not feasible(AND(AND(V.ret, e.guard), NOT(isl(a, h5.fp))))
    ctx.ob(f"{key}: from the model's file", ok, e.loc(), f"given {txt(a, 100)}")


def leak(V, e):
    """a flag of a loop that says whether something failed, but is not set, or is reset by a later iteration"""
    for k in e.loops:
        i = V.E.loopinfo[k]
        for n, a in i["atoms"].items():
            z = eqc(a, 0)
            if not isinstance(z, Node) or not isinstance(i["next"].get(n), (Node, Leaf)):
                continue
            at = lambda d, b: gvn.restrict_vars(d, lambda v: (b if z.hi is ONE else not b) if v == z.var else None)
            v = i["next"][n]
            if any(l.const not in (0, 1) and l.fp != a.fp for l in (gvn.leaves(v).values() if isinstance(v, Node) else [v])):
                continue
            quiet = [b for b in (True, False) if not feasible(at(V.ret, b))]
            if len(quiet) != 1:
                continue
            zero = not quiet[0]              # the flag is zero when nothing failed
            good = same(v, gvn.const(0)) if zero else NOT(same(v, gvn.const(0)))
            for _, g, st in i["back"]:
                f = at(AND(AND(g, AND(e.guard, e.thr)), good), zero)
                if feasible(f):
                    return f"not remembered: {why(f)}"
                f = at(AND(g, good), not zero)
                if feasible(f):
                    return f"forgotten in a later iteration: {why(f)}"
    return None


def caught(ctx, V, key, e, what):
    d = AND(V.ret, AND(e.guard, e.thr)) if e.thr is not None else ZERO
    ok = not feasible(d); w = why(d) if not ok else ""
    if e.thr is None:
        ctx.und(f"{key}: {what} is not ignored", "cannot raise"); return
    if not ok and e.loops and not any(feasible(AND(x[2], AND(e.guard, e.thr))) for k in e.loops for x in V.E.loopinfo[k]["exits"]):
        ok = True       # the loop goes on after it
    # an iteration in which it failed: either the loop is not continued, or that is remembered
    for k in e.loops:
        i = V.E.loopinfo[k]
        for _, g, st in i["back"]:
            f = AND(g, AND(e.guard, e.thr))
            if not feasible(f):
                continue
            for wh, (var, c) in (i.get("sticky") or {}).items():
                v = i["next"][wh[1]] if wh[0] == "phi" else st.mem[wh[1]][1] if wh[1] in st.mem else gvn.const(0)
                if not feasible(AND(V.ret, mk(var, ONE, ZERO))):
                    f = AND(f, NOT(same(v, c)))
            if feasible(f):
                ok = False; w = why(f)
    if not ok and unclear(V):
        w = leak(V, e)
        if w:
            ctx.ob(f"{key}: {what} is not ignored", False, e.loc(), w); return
        ctx.und(f"{key}: {what} is not ignored", "depends on a value carried around a loop"); return
    ctx.ob(f"{key}: {what} is not ignored", ok, e.loc(), f"returns normally although it failed: {w}" if not ok else "")


def made(V, l, cls):
    """(name given, guard) of the construction of the object a pointer denotes"""
    r = []
    for e in V.ev:
        if e.kind == "new" and isinstance(e.res, Leaf) and e.res.fp == l.fp and e.callee.split("::")[-1] == cls:
            r.append((e, given(e, 0), e.extra))
        elif e.kind == "call" and e.callee and re.search(rf"::{cls}::{cls}\(", e.callee) and isinstance(e.args[0], Leaf) and e.args[0].fp == l.fp:
            r.append((e, e.args[1], None))
    return r


def given(e, n):
    """n-th argument passed on to a constructor by make_shared (by reference)"""
    if len(e.args) <= n:
        return None
    c = (e.extra or {}).get(n + 1)
    return c[0] if c and 0 in c else e.args[n]


def model(ctx, p):
    V = Ev(p, "serial::Model::loadMetadata")
    C = "serial::Model"
    opened = [e for e in V.calls(r"HDF5::hasAttribute\b")]
    if not opened:
        ctx.und(V.key, "reading of attributes not recognised"); return
    h5 = opened[0].args[0]
    fetch(ctx, V, C, MODEL, "/")
    # layout
    key = f"{V.key}: data_layout"
    rds = [r for r in V.reads("/", "data_layout") if r[1] == "s"]
    if not rds:
        ctx.ob(key, False, V.loc, "the attribute data_layout is never read")
    else:
        val = rds[0][2]
        vs = set()
        for n in nodes(V.ret):
            i = gvn._varinfo[n]
            if i and i[0] in ("==", "str==") and any(isinstance(x, Leaf) and (x.fp == val.fp or gvn_contains(x, val.fp)) for x in i[1:]):
                vs.add(n)
        if len(vs) != 1:
            if not vs and not unclear(V):
                ctx.ob(key, False, rds[0][0].loc(), "the layout is not looked at")
            else:
                ctx.und(key, "test of the layout not recognised")
        else:
            n = vs.pop(); i = gvn._varinfo[n]
            cand = [x for x in i[1:] if isinstance(x, Leaf)]
            text = " ".join(show(x) for x in cand)
            strs = [s for x in cand for s in consts(x)]
            ctx.ob(f"{key}: compared with vertex", any(s.lower() == "vertex" for s in strs), rds[0][0].loc(), f"compared with {strs}")
            other = gvn.restrict_vars(V.ret, lambda v: False if v == n else None)
            ctx.ob(f"{key}: another layout is refused", not feasible(other), rds[0][0].loc(), f"accepted: {why(other)}" if feasible(other) else "")
            lay, gf = V.getter(C, "getDataLayout")
            en = enum(p, "Model::DataLayout")
            bad = AND(V.ret, NOT(eqc1(lay, en["VERTEX"])))
            ctx.ob(f"{key} -> getDataLayout", not feasible(bad), gf.loc(), f"is {txt(lay, 100)}")
    # description
    key = f"{V.key}: getInfo"
    a, _ = V.getter(C, "getInfo")
    v = V.E.load(V.st.copy(), a, "ptr", 8, None)
    ld_ = V.calls(r"ModelInfo::load\(")
    good = ZERO
    for e in ld_:
        good = OR(good, AND(e.guard, same(v, e.args[0])))
        caught(ctx, V, key, e, "an incomplete description")
        usesh5(ctx, V, key, e, 1, h5)
    m = AND(V.ret, NOT(good))
    ctx.ob(key, not feasible(m), V.loc, f"the description is not loaded: {txt(v, 100)} when {why(m)}" if feasible(m) else "")
    # surfaces
    for g, name in (("getTopSurface", "top_surface"), ("getTopoBathy", "topography_bathymetry")):
        surface(ctx, V, C, g, name, h5)
    blocks(ctx, V, C, h5)
    assume = AND(NOT(eqc1(h5, 0)), present(V, "/", [a for _, a, _ in MODEL] + ["data_layout"]))
    for n in nodes(V.ret):
        i = gvn._varinfo[n]
        if i and i[0] in ("==", "str==") and any("vertex" in [s.lower() for s in consts(x)] for x in i[1:] if isinstance(x, Leaf)):
            assume = AND(assume, mk(n, ONE, ZERO))
    accepted(ctx, V, assume, "model")
    ctx.count(functions=1)


def eqc1(d, c):
    return app1(("eqc", c), lambda l: eqc(l, c), d)


def nodes(d):
    out = set(); seen = set(); st = [d]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id); out.add(x.var); st += [x.hi, x.lo]
    return out


def gvn_contains(l, fp, depth=0):
    if not isinstance(l, Leaf) or depth > 12:
        return False
    if l.fp == fp:
        return True
    return any(gvn_contains(x, fp, depth + 1) for x in (l.tree or ())[1:] if isinstance(x, Leaf))


def consts(l, depth=0):
    if not isinstance(l, Leaf) or depth > 12:
        return []
    s = MD.const_string(l)
    if s is not None:
        return [s]
    return [s for x in (l.tree or ())[1:] for s in consts(x, depth + 1)]


def entries(ctx, key, e, rank, loc):
    """what entry 0 .. rank-1 of the sizes of the window are"""
    x = e.extra.get(3) if e.extra else None
    if not isinstance(x, dict):
        ctx.und(key, "sizes of the window not recognised"); return None
    d = {float(k): v for k, v in x.items()}
    out = []
    for k in range(rank):
        v = d.get(8.0 * k)
        at = None
        if isinstance(v, Leaf):
            at = v
        if v is None or isinstance(v, Leaf) and deref(v) is None and v.const is None and not v.tree[:1] == ("fn",):
            out.append(None); continue
        out.append(at)
    return out


def slabsizes(ctx, p, key, C, e, rank):
    """every axis of the window has the size kept for it, or the size asked for by setHyperslabDims()"""
    k = f"{key}: the window has a size along every axis"
    got = entries(ctx, k, e, rank, e.loc())
    if got is None:
        return
    adr = [deref(v) if v is not None else None for v in got]
    if any(a is None for a in adr[:1]) and all(a is None for a in adr):
        ctx.und(k, "sizes not recognised")
    else:
        this = ptrparts(atom("arg", 0, tree=("fn", "this")))[0]
        known = [(i, l_sub(a, gvn.const(8 * i))) for i, a in enumerate(adr) if a is not None and ptrparts(a)[0] != ptrparts(e.args[3])[0]]
        for i in range(rank):
            a = adr[i]
            if a is None:
                v = {float(x): y for x, y in e.extra[3].items()}.get(8.0 * i)
                if v is None and known:
                    ctx.ob(f"{k} ({i})", False, e.loc(), "the size given along this axis is never set")
                elif got[i] is None or got[i].const is None:
                    ctx.und(k, f"size along axis {i} not recognised")
                continue
            if ptrparts(a)[0] == ptrparts(e.args[3])[0]:
                ctx.ob(f"{k} ({i})", False, e.loc(), "the size given along this axis is never set"); continue
            ctx.ob(f"{k} ({i})", any(j != i and b.fp == l_sub(a, gvn.const(8 * i)).fp for j, b in known) or len(known) < 2, e.loc(), f"is {txt(got[i], 80)}")
    n = rank - 1
    S = Ev(p, C + "::setHyperslabDims", None, {2: gvn.const(n)})
    key2 = key.replace("openQuery", "setHyperslabDims")
    if S.st is None or not feasible(S.ret):
        ctx.ob(f"{key2}: accepts a size for every axis", False, S.loc, f"{n} sizes are refused"); return
    O = Ev(p, C + "::openQuery", S.st)
    w = O.calls(r"Hyperslab::Hyperslab\(")
    if len(w) != 1:
        ctx.und(key2, "window not recognised"); return
    got = entries(ctx, key2, w[0], n, w[0].loc())
    if got is None:
        return
    dims = atom("arg", 1, tree=("fn", S.f.args[1]["n"] or "arg1"))
    for i in range(n):
        a = deref(got[i]) if got[i] is not None else None
        if a is None:
            ctx.und(key2, f"size along axis {i} not recognised"); continue
        ctx.ob(f"{key2}: the size asked for along axis {i} is that of the window", l_sub(a, padd(dims, gvn.const(8 * i))).const == 0, w[0].loc(), f"is {txt(got[i], 80)}")


def surface(ctx, V, C, g, name, h5):
    key = f"{V.key}: {name} -> {g}"
    a, gf = V.getter(C, g)
    v = V.E.load(V.st.copy(), a, "ptr", 8, None)
    hs = [e for e in V.calls(r"HDF5::hasDataset\b") if samestr(e.args[1], "surfaces/" + name)]
    if not hs:
        lst = V.calls(r"HDF5::getGroupDatasets\b")
        if any(MD.const_string(e.args[2]) == "surfaces" for e in lst if isinstance(e.args[2], Leaf)):
            ctx.und(key, "surfaces found by listing")
        else:
            ctx.ob(key, False, gf.loc(), f"whether the file has surfaces/{name} is never looked up")
        return
    there = ZERO; asked = ZERO
    for h in hs:
        usesh5(ctx, V, key, h, 0, h5)
        there = OR(there, AND(h.guard, NOT(eqc(h.res, 0)))); asked = OR(asked, h.guard)
    nogroup = ZERO
    for e in V.calls(r"HDF5::hasGroup\b"):
        if samestr(e.args[1], "surfaces"):
            nogroup = OR(nogroup, AND(e.guard, eqc(e.res, 0)))
    un = AND(V.ret, NOT(OR(asked, nogroup)))
    ctx.ob(f"{key}: looked up", not feasible(un), hs[0].loc(), f"not when {why(un)}" if feasible(un) else "")
    ab = AND(AND(V.ret, NOT(there)), NOT(eqc1(v, 0)))
    ctx.ob(f"{key}: none without the dataset", not feasible(ab), hs[0].loc(), f"there is a surface {txt(v, 80)} when {why(ab)}" if feasible(ab) else "")
    lds = V.calls(r"Surface::loadMetadata\(")
    good = ZERO; named = ZERO
    for l in gvn.leaves(v).values() if isinstance(v, Node) else [v]:
        for e, arg, extra in made(V, l, "Surface"):
            if arg is not None and samestr(arg, name):
                named = OR(named, AND(e.guard, isl(v, l.fp)))
    m = AND(AND(V.ret, there), NOT(named))
    ctx.ob(f"{key}: the surface of that dataset", not feasible(m), hs[0].loc(), f"{g}() gives {txt(v, 80)} when {why(m)}" if feasible(m) else "")
    for e in lds:
        if feasible(AND(V.ret, AND(e.guard, same(v, e.args[0])))):
            good = OR(good, AND(e.guard, same(v, e.args[0])))
            usesh5(ctx, V, key, e, 1, h5)
            caught(ctx, V, key, e, "incomplete metadata")
    m = AND(AND(V.ret, there), NOT(good))
    ctx.ob(f"{key}: its metadata are loaded", not feasible(m), hs[0].loc(), f"not when {why(m)}" if feasible(m) else "")


def blocks(ctx, V, C, h5):
    key = f"{V.key}: blocks"
    ls = [e for e in V.calls(r"HDF5::getGroupDatasets\b") if samestr(e.args[2], "blocks")]
    if not ls:
        ctx.ob(key, False, V.loc, "the datasets of the group blocks are never listed"); return
    m = AND(V.ret, NOT(ls[0].guard))
    ctx.ob(f"{key}: listed", not feasible(m), ls[0].loc(), f"not when {why(m)}" if feasible(m) else "")
    usesh5(ctx, V, key, ls[0], 0, h5)
    b = V.out(ls[0], 1, "ptr", 8); e_ = V.out(ls[0], 1, "ptr", 8, 8)
    n = l_div(l_sub(e_, b), gvn.const(32))
    # construction of the blocks
    mk_ = [e for e in V.ev if e.kind == "new" and e.callee.split("::")[-1] == "Block"]
    if not mk_:
        ctx.und(f"{key}: construction", "not recognised")
    for e in mk_:
        per_name(ctx, V, key + ": one block per dataset", e, n)
        arg = given(e, 0)
        it = loopit(V, e)
        if it is None:
            continue
        want = MD.strleaf([])
        got = arg.tree[2] if isinstance(arg, Leaf) and arg.tree[:2] == ("fn", "cstr") else arg
        ps = MD.parts_of(got) if isinstance(got, Leaf) else []
        el = None
        if len(ps) == 1 and isinstance(ps[0], Leaf):
            el = ps[0].tree[2] if ps[0].tree[:2] in (("fn", "ld"), ("fn", "str")) else None
        if el is None:
            ctx.und(f"{key}: name of the block", f"is {txt(arg, 100)}"); continue
        ix = l_div(l_sub(el, b), gvn.const(32))
        ctx.ob(f"{key}: named after its dataset", ix.fp == it.fp, e.loc(), f"block is named after entry {txt(ix, 80)} of the list")
    lds = V.calls(r"Block::loadMetadata\(")
    if not lds:
        ctx.ob(f"{key}: metadata are loaded", False, V.loc, "never"); return
    for e in lds:
        per_name(ctx, V, key + ": metadata of every block are loaded", e, n)
        usesh5(ctx, V, key, e, 1, h5)
        caught(ctx, V, key, e, "incomplete metadata of a block")


def loopit(V, e):
    if len(e.loops) != 1:
        return None
    i = V.E.loopinfo.get(e.loops[0])
    return i["it"] if i and i.get("it") is not None else None


def per_name(ctx, V, key, e, n):
    it = loopit(V, e)
    if it is None:
        if not e.loops:
            ctx.ob(key, False, e.loc(), "done only once")
        else:
            ctx.und(key, "loop not recognised")
        return
    lt = dd_lt(it, n)
    nt = nothrow(e.guard)
    inl = V.E.loopinfo[e.loops[0]]
    ent = nothrow(inl["guard"]) if isinstance(inl["guard"], (Node, Leaf)) or inl["guard"] in (ONE, ZERO) else ONE
    over = AND(nt, NOT(lt)); under = AND(AND(AND(ent, lt), NOT(dd_lt(it, gvn.const(0)))), NOT(nt))
    ctx.ob(f"{key}: not more than there are", not feasible(over), e.loc(), f"done for entries beyond the end: {why(over)}" if feasible(over) else "")
    ctx.ob(key, not feasible(under), e.loc(), f"skipped when {why(under)}" if feasible(under) else "")


def initialize(ctx, p):
    V = Ev(p, "serial::Model::initialize")
    C = "serial::Model"
    F = Fields(p, C, V.this)
    E = V.E
    # the transformation used by queries
    Q = Run(p, "serial::Model::query", OPAQUE)
    tr = one(ctx, Q, r"CRSTransformer::transform\(", "conversion into the model CRS")[0]
    a = deref(tr.args[0]) if isinstance(tr.args[0], Leaf) else None
    key = f"{V.key}: coordinate transformation"
    if a is None:
        ctx.und(key, "object not recognised")
    else:
        t = E.load(V.st.copy(), a, "ptr", 8, None)
        st = Run(p, C + "::setInputCRS", models=None)
        insrc = [e for e in st.events if e.kind == "store" and ptrparts(e.args[0])[0] == ptrparts(V.this)[0]]
        src = insrc[0].args[0] if len(insrc) == 1 else None
        dst = F.get("getCRSString").d
        last = {}
        for m, what, addr in (("setSrc", "the input coordinate system", src), ("setDest", "the coordinate system of the model", dst)):
            es = V.calls(rf"CRSTransformer::{m}\(")
            got = ZERO
            if addr is None:
                ctx.und(f"{key}: {m}", "not recognised"); continue
            want = MD.parts_of(MD.sval(E, EV.State(), addr))
            for e in es:
                if samestr(e.args[1], want):
                    got = OR(got, AND(e.guard, same(t, e.args[0])))
            m_ = AND(V.ret, NOT(got))
            ctx.ob(f"{key}: {m} is given {what}", not feasible(m_), es[0].loc() if es else V.loc, f"not when {why(m_)}; given {[MD.show_string(e.args[1]) for e in es if isinstance(e.args[1], Leaf)]}" if feasible(m_) else "")
            last[m] = max([e.n for e in es] or [0])
        ini = V.calls(r"CRSTransformer::initialize\(")
        got = ZERO
        for e in ini:
            if e.n > max(last.values() or [0]):
                got = OR(got, AND(e.guard, same(t, e.args[0])))
        m_ = AND(V.ret, NOT(got))
        ctx.ob(f"{key}: initialised after both are set", not feasible(m_), ini[0].loc() if ini else V.loc, f"not when {why(m_)}" if feasible(m_) else "")
    h5 = None
    ops = V.calls(r"(Surface|Block)::openQuery\(")
    for g in ("getTopSurface", "getTopoBathy"):
        ptr = ld(None, F.get(g), 0).d
        key = f"{V.key}: {g}"
        got = ZERO
        for e in ops:
            if "Surface::" in e.callee:
                got = OR(got, AND(e.guard, same(e.args[0], ptr)))
        m_ = AND(AND(V.ret, NOT(eqc(ptr, 0))), NOT(got))
        ctx.ob(f"{key} is prepared for queries", not feasible(m_), V.loc, f"not when {why(m_)}" if feasible(m_) else "")
    bl = F.get("getBlocks").d
    n = l_div(l_sub(ld(None, bl, 8).d, ld(None, bl, 0).d), gvn.const(16))
    be = [e for e in ops if "Block::" in e.callee]
    if not be:
        ctx.ob(f"{V.key}: blocks are prepared for queries", False, V.loc, "never")
    for e in be:
        per_name(ctx, V, f"{V.key}: every block is prepared for queries", e, n)
        ix = elem_index(e.args[0], bl, 16) if isinstance(e.args[0], Leaf) else None
        it = loopit(V, e)
        if ix is None or it is None:
            ctx.und(f"{V.key}: block prepared", f"is {txt(e.args[0], 100)}"); continue
        ctx.ob(f"{V.key}: block of the iteration", ix.fp == it.fp, e.loc(), f"entry {txt(ix, 80)} of the blocks")
    for e in ops:
        if h5 is None:
            h5 = e.args[1]
        usesh5(ctx, V, f"{V.key}: {e.callee.split('::')[2]} prepared", e, 1, h5)
    hp = V.p.get("serial::Model::loadMetadata")
    ctx.count(functions=1)


def named(p, c):
    """(state of a new object, address of its name) after construction from a name"""
    f = next(g for g in p.repo_fns() if re.search(rf"serial::{c}::{c}\(char const\*", g.dem) and g.blocks)
    E = EV.Evaluator(p, models={**OWNERS, **SM.STREAMS})
    E.run(f)
    nm = [b for b in E.events if b.kind == "store" and isinstance(b.args[1], Leaf) and b.args[1].tree[0] == "str"]
    prm = atom("arg", 1, tree=("fn", f.args[1]["n"]))
    this = atom("arg", 0, tree=("fn", f.args[0]["n"]))
    a = [e.args[0] for e in nm if e.args[1].fp == MD.cval(prm).fp]
    return E.state, a, this, f


AXES = {"Block": "XYZ", "Surface": "XY"}
GROUP = {"Block": "blocks/", "Surface": "surfaces/"}


def part(ctx, p, c):
    C = f"serial::{c}"
    st, nm, this0, cf = named(p, c)
    key0 = f"{c}::loadMetadata"
    if len(nm) != 1:
        ctx.ob(f"{c}: keeps the name it is made with", False, cf.loc(), "the name is not stored") if not nm else ctx.und(f"{c}: name", "not recognised")
        return
    noff = l_sub(nm[0], this0)
    V = Ev(p, C + "::loadMetadata", st)
    naddr = padd(V.this, noff)
    if c == "Block":
        r, gf = V.getter(C, "getName")
        ctx.ob("Block: getName gives the name it was made with", isinstance(r, Leaf) and r.fp == naddr.fp, gf.loc(), f"gives {txt(r, 60)}")
    path = MD.parts_of(MD.cat(MD.strleaf([GROUP[c]]), MD.sval(V.E, V.st, naddr)))
    rank = 4 if c == "Block" else 3
    P = [e for e in V.calls(r"HDF5::(hasAttribute|readAttribute|getDatasetDims)\b")]
    bad = [e for e in P if not any(samestr(a, path) for a in e.args)]
    if not ctx.ob(f"{key0}: reads its own dataset", not bad, bad[0].loc() if bad else V.loc, f"reads {[MD.show_string(a) for a in bad[0].args if isinstance(a, Leaf)][-3:]}" if bad else ""):
        return
    # extents
    gd = V.calls(r"HDF5::getDatasetDims\b")
    if len(gd) != 1:
        ctx.und(f"{key0}: extents", "not recognised") if gd else ctx.ob(f"{key0}: extents", False, V.loc, "the extents of the dataset are never read")
        return
    gd = gd[0]
    m = AND(V.ret, NOT(gd.guard))
    ctx.ob(f"{key0}: the extents of the dataset are read", not feasible(m), gd.loc(), f"not when {why(m)}" if feasible(m) else "")
    hd = V.out(gd, 1, "ptr", 8); nd = V.out(gd, 2, "i32", 4)
    m = AND(V.ret, NOT(eqc1(nd, rank)))
    ctx.ob(f"{key0}: only a dataset of rank {rank} is accepted", not feasible(m), gd.loc(), f"any rank is accepted" if feasible(m) else "")
    dims, _ = V.getter(C, "getDims")

    def extent(k):
        return padd(hd, gvn.const(8 * k))

    def isat(v, addr):
        """condition that v is what an address holds"""
        return app1(("isat", addr.fp), lambda l: ONE if deref(l) is not None and deref(l).fp == addr.fp else ZERO, v)
    dv = []
    for k in range(rank - 1):
        v = V.E.load(V.st.copy(), padd(dims, gvn.const(8 * k)), "i64", 8, None)
        dv.append(v)
        m = AND(V.ret, NOT(isat(v, extent(k))))
        ctx.ob(f"{key0}: getDims[{k}] is extent {k} of the dataset", not feasible(m), gd.loc(), f"is {txt(v, 160)}" if feasible(m) else "")
    if c == "Block":
        v, gf = V.getter(C, "getNumValues")
        m = AND(V.ret, NOT(isat(v, extent(3))))
        ctx.ob(f"{key0}: getNumValues is extent 3 of the dataset", not feasible(m), gd.loc(), f"is {txt(v, 160)}" if feasible(m) else "")
    hasres = {}
    assume = ONE
    for k, ax in enumerate(AXES[c]):
        low = ax.lower()
        R = f"{low}_resolution"; K = f"{low}_coordinates"
        key = f"{key0}: {R}"
        hs = V.has(path, R); kh = V.has(path, K)
        rr = [x for x in V.reads(path, R) if x[1] == "d"]; kr = [x for x in V.reads(path, K) if x[1] == "a"]
        if not hs or not rr or not kr:
            w = R if not hs or not rr else K
            ctx.ob(f"{key0}: {w}", False, V.loc, f"{w} is never {'looked up' if not hs else 'read'}"); continue
        has = ZERO
        for h in hs:
            has = OR(has, AND(h.guard, NOT(eqc(h.res, 0))))
        one_ = {h.res.fp for h in hs}
        # the same question has the same answer
        sam = ONE
        for h in hs[1:]:
            sam = AND(sam, NOT(app2("x", lambda a, b: a if a is not b else ZERO, NOT(eqc(hs[0].res, 0)), NOT(eqc(h.res, 0))))) if h.res.fp != hs[0].res.fp else sam
        hasres[ax] = has
        bad = [e for e, _, _ in rr + kr if not is_double(e)]
        ctx.ob(f"{key}: converted to double", not bad, rr[0][0].loc(), "the value is stored as another type")
        v, gf = V.getter(C, f"getResolution{ax}")
        holds(ctx, f"{key} -> getResolution{ax}", V, rr, v, R, has)
        cv, _ = V.getter(C, f"getCoordinates{ax}")
        key = f"{key0}: {K}"
        m = AND(AND(V.ret, has), NOT(eqc1(cv, 0)))
        ctx.ob(f"{key}: none with a resolution", not feasible(m), rr[0][0].loc(), f"getCoordinates{ax}() gives {txt(cv, 60)}" if feasible(m) else "")
        holds(ctx, f"{key} -> getCoordinates{ax}", V, kr, cv, K, NOT(has))
        # their number
        for e, _, val in kr:
            cnt = V.out(e, 5, "i64", 8)
            neq = app2("ne", lambda a, b: NOT(gvn.leq_eq(a, b)), cnt, dv[k])
            m = AND(AND(AND(V.ret, e.guard), neq), NOT(eqc1(val, 0)))
            ctx.ob(f"{key}: as many as points along the axis", not feasible(m), e.loc(), f"another number is accepted when {why(m)}" if feasible(m) else "")
            srt = [x for x in V.calls(r"std::(stable_)?sort<") if isinstance(x.args[0], (Leaf, Node)) and feasible(AND(V.ret, AND(x.guard, same(x.args[0], val))))]
            if not srt:
                if any(x.kind == "call" and x.callee and re.search(r"std::\w+<", x.callee) and any(isinstance(a, Leaf) and isinstance(val, Leaf) and a.fp == val.fp for a in x.args or []) for x in V.ev):
                    ctx.und(f"{key}: in order", "not recognised")
                else:
                    ctx.ob(f"{key}: in order", False, e.loc(), "they are not sorted")
                continue
            s = srt[0]
            m = AND(AND(V.ret, e.guard), NOT(s.guard))
            end = padd(val, l_mul(gvn.const(8), cnt)) if isinstance(val, Leaf) and isinstance(cnt, Leaf) else None
            ctx.ob(f"{key}: in order", not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
            if end is not None and isinstance(s.args[1], Leaf):
                ctx.ob(f"{key}: all of them in order", s.args[1].fp == end.fp, s.loc(), f"sorted up to {txt(s.args[1], 120)}")
            down = order(p, s)
            if down is None:
                ctx.und(f"{key}: order", "comparison not recognised")
            else:
                ctx.ob(f"{key}: {'decreasing' if ax == 'Z' else 'increasing'}", down == (ax == "Z"), s.loc(), "sorted the other way")
    if c == "Block" and "Z" in hasres:
        has = hasres["Z"]
        rd = [x for x in V.reads(path, "z_top") if x[1] == "d"]
        v, gf = V.getter(C, "getZTop")
        if not rd:
            ctx.ob(f"{key0}: z_top", False, V.loc, "z_top is never read")
        else:
            ctx.ob(f"{key0}: z_top: converted to double", all(is_double(e) for e, _, _ in rd), rd[0][0].loc(), "the value is stored as another type")
            hz = same_has(V, path, "z_resolution")
            holds(ctx, f"{key0}: z_top -> getZTop", V, rd, v, "z_top", AND(has, hz))
            kr = [x for x in V.reads(path, "z_coordinates") if x[1] == "a"]
            good = ZERO
            for e, _, val in kr:
                good = OR(good, isat(v, val))
            m = AND(AND(AND(V.ret, NOT(has)), hz), NOT(good))
            ctx.ob(f"{key0}: getZTop is the first vertical coordinate", not feasible(m), gf.loc(), f"is {txt(v, 160)} when {why(m)}" if feasible(m) else "")
            # bottom
            b, bf = V.getter(C, "getZBottom")
            res, _ = V.getter(C, "getResolutionZ")
            cz, _ = V.getter(C, "getCoordinatesZ")
            want = X(v) - X(res) * (X(dv[2]) - 1)
            pos = AND(AND(V.ret, AND(has, hz)), (X(res) > 0).d)
            bad = th(AND(pos, NOT(same(b, want.d))))
            ctx.ob(f"{key0}: getZBottom with a resolution", bad is ZERO, bf.loc(), f"is {txt(b, 200)}" if bad is not ZERO else "")
            good = ZERO
            for e, _, val in kr:
                good = OR(good, app2("last", lambda l, d: ONE if deref(l) is not None and deref(l).fp == padd(val, l_mul(gvn.const(8), l_sub(d, gvn.const(1)))).fp else ZERO, b, dv[2]))
            m = AND(AND(AND(V.ret, NOT(has)), hz), NOT(good))
            ctx.ob(f"{key0}: getZBottom is the last vertical coordinate", not feasible(m), bf.loc(), f"is {txt(b, 160)} when {why(m)}" if feasible(m) else "")
    h5 = atom("arg", 1, tree=("fn", V.f.args[1]["n"]))
    base = AND(NOT(eqc(h5, 0)), eqc1(nd, rank))
    for e in V.calls(r"HDF5::isOpen\b"):
        base = AND(base, NOT(eqc(e.res, 0)))
    low = AXES[c].lower()
    uni = AND(base, present(V, path, [f"{a}_resolution" for a in low] + ["z_top"]))
    accepted(ctx, V, uni, "dataset with resolutions")
    var = AND(base, present(V, path, [f"{a}_coordinates" for a in low]))
    for h in V.calls(r"HDF5::hasAttribute\b"):
        if any(samestr(h.args[2], f"{a}_resolution") for a in low):
            var = AND(var, eqc(h.res, 0))
    for k, a in enumerate(low):
        for e, kind, val in V.reads(path, f"{a}_coordinates"):
            if kind == "a":
                cnt = V.out(e, 5, "i64", 8)
                var = AND(var, AND(NOT(eqc1(val, 0)), app2("eq", gvn.leq_eq, cnt, dv[k])))
    accepted(ctx, V, var, "dataset with coordinates")
    ctx.count(functions=1)


def same_has(V, path, attr):
    """a question asked twice has the same answer"""
    hs = V.has(path, attr)
    g = ONE
    for h in hs[1:]:
        if h.res.fp != hs[0].res.fp:
            a, b = eqc(hs[0].res, 0), eqc(h.res, 0)
            g = AND(g, OR(AND(a, b), AND(NOT(a), NOT(b))))
    return g


def order(p, e):
    """whether a sort is in decreasing order"""
    if len(e.args) < 3:
        return False
    a = e.args[2]
    nm = a.base[1] if isinstance(a, Leaf) and a.base is not None and a.base[0] in ("f", "g") else None
    f = next((g for g in p.repo_fns() if nm is not None and g.name == nm), None)
    if f is None:
        return True if "std::greater<" in e.callee else False if "std::less<" in e.callee else None
    R = Run(p, f)
    x, y = R.arg(0), R.arg(1)
    if same(tob(R.ret), (x < y).d if False else tob((x < y).d)) is ONE or tob(R.ret) is tob((x < y).d):
        return False
    if tob(R.ret) is tob((x > y).d):
        return True
    return None


def openq(ctx, p, c):
    C = f"serial::{c}"
    st, nm, this0, cf = named(p, c)
    if len(nm) != 1:
        return
    V = Ev(p, C + "::openQuery")
    naddr = padd(V.this, l_sub(nm[0], this0))
    path = MD.parts_of(MD.cat(MD.strleaf([GROUP[c]]), MD.sval(V.E, EV.State(), naddr)))
    key = f"{c}::openQuery"
    h5 = atom("arg", 1, tree=("fn", V.f.args[1]["n"]))
    cons = V.calls(r"Hyperslab::Hyperslab\(")
    if len(cons) != 1:
        ctx.und(key, "window of the data not recognised") if cons else ctx.ob(key, False, V.loc, "no window of the data is made")
        return
    e = cons[0]
    m = AND(V.ret, NOT(e.guard))
    ctx.ob(f"{key}: a window of the data is made", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    ctx.ob(f"{key}: of the file given", isinstance(e.args[1], Leaf) and e.args[1].fp == h5.fp, e.loc(), f"of {txt(e.args[1], 60)}")
    ctx.ob(f"{key}: of its own dataset", samestr(e.args[2], path), e.loc(), f"of {MD.show_string(e.args[2]) if isinstance(e.args[2], Leaf) else '?'}")
    rank = 4 if c == "Block" else 3
    ctx.ob(f"{key}: of the dataset's rank", isinstance(e.args[4], Leaf) and e.args[4].const == rank, e.loc(), f"rank {txt(e.args[4], 40)}")
    slabsizes(ctx, p, key, C, e, rank)
    if c == "Block":
        L = Ev(p, C + "::loadMetadata", st)
        W = Ev(p, C + "::openQuery", L.st)
        gd = L.calls(r"HDF5::getDatasetDims\b"); w = W.calls(r"Hyperslab::Hyperslab\(")
        if len(gd) == 1 and len(w) == 1 and w[0].extra and isinstance(w[0].extra.get(3), dict):
            want = padd(L.out(gd[0], 1, "ptr", 8), gvn.const(24))
            got = {float(k): v for k, v in w[0].extra[3].items()}.get(24.0)
            good = app1(("at", want.fp), lambda l: ONE if deref(l) is not None and deref(l).fp == want.fp else ZERO, got) if got is not None else None
            if good is None:
                ctx.und(f"{key}: all values of a point", "not recognised")
            else:
                m = AND(L.ret, NOT(good))
                ctx.ob(f"{key}: all values of a point are in the window", not feasible(m), e.loc(), f"{txt(got, 100)} values when {why(m)}" if feasible(m) else "")
        else:
            ctx.und(f"{key}: all values of a point", "not recognised")
    # kept for the queries
    Q = Run(p, C + "::query", [r"Indexing\w*::getIndex\(", r"Hyperslab::(interpolate|nearest)\("])
    ip = Q.calls(r"Hyperslab::(interpolate|nearest)\(")
    a = deref(ip[0].args[0]) if ip and isinstance(ip[0].args[0], Leaf) else None
    if a is None:
        ctx.und(f"{key}: kept for queries", "not recognised")
    else:
        v = V.E.load(V.st.copy(), a, "ptr", 8, None)
        m = AND(V.ret, NOT(same(v, e.args[0])))
        ctx.ob(f"{key}: kept for queries", not feasible(m), e.loc(), f"queries use {txt(v, 60)}" if feasible(m) else "")
    ctx.count(functions=1)
