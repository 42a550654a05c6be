"""Resources: every handle, object and array obtained is released exactly once on every path, or handed to an owner that releases it"""
from common_exc import *
import strmodels as SM
import models as MD

MINIMUM = 60
HID, PTR, NEW = "hid", "ptr", "new"
ACQ = [
    (r"^H5F(open|create)\(?", HID, "F"), (r"^H5G(open|create)", HID, "G"), (r"^H5D(open|create)", HID, "D"),
    (r"^H5(Dget_space|Aget_space|Screate|Scopy)", HID, "S"), (r"^H5A(open|create)", HID, "A"),
    (r"^H5(Aget_type|Dget_type|Tcopy|Tcreate|Topen)", HID, "T"), (r"^H5(Pcreate|Pcopy|Dget_create_plist|Fget_access_plist)", HID, "P"), (r"^H5Oopen", HID, "O"),
    (r"^proj_(create|normalize_for_visualization|crs_get_|get_source_crs|get_target_crs|clone|crs_create|identify)(?!.*context_create)", PTR, "PJ"),
    (r"^proj_context_(create|clone)", PTR, "PJCTX"),
    (r"^GDALOpen|GDALDriver::Create\(|GDALDriver::CreateCopy\(|GDALDataset::Open\(", PTR, "GDAL"),
    (r"^CSL(SetNameValue|AddNameValue|AddString|Duplicate|Merge)", PTR, "CSL"),
    (r"^_Znwm", NEW, "new"), (r"^_Znam", NEW, "new[]"), (r"^(malloc|calloc)", NEW, "malloc"),
]
REL = [
    (r"^H5Fclose", "F"), (r"^H5Gclose", "G"), (r"^H5Dclose", "D"), (r"^H5Sclose", "S"), (r"^H5Aclose", "A"), (r"^H5Tclose", "T"), (r"^H5Pclose", "P"),
    (r"^H5Oclose", "OGDT"), (r"^H5Idec_ref", "FGDSATPO"),
    (r"^proj_destroy", ("PJ",)), (r"^proj_context_destroy", ("PJCTX",)),
    (r"^GDALClose|GDALDataset::Close\(", ("GDAL",)), (r"^CSLDestroy", ("CSL",)),
    (r"^(operator delete\[\]\(|_ZdaPv)", ("new[]",)), (r"^(operator delete\(|_ZdlPv|virtual::slot1$)", ("new",)), (r"^free$", ("malloc",)),
    (r"^smart pointer disposes of array", ("new[]",)), (r"^smart pointer disposes of object", ("new",)), (r"^smart pointer disposes of", ("new", "new[]", "malloc", "PJ", "PJCTX", "GDAL", "CSL")),
]
DISPOSE = "smart pointer disposes of "
NOOWN = r"std::(__shared_ptr|shared_ptr|unique_ptr|__uniq_ptr_impl|auto_ptr)<.*>::"
_acqc, _relc = {}, {}


def m_own(act, i, dem, args, g, st, setres):
    """smart pointers: where the object they hold is disposed of"""
    from ev import params_of, Event
    ev = act.ev
    tail = re.search(r">::(~?\w+=?)(<.*>)?\(", dem)
    k = tail.group(1) if tail else ""
    ps = params_of(dem) or []
    uniq = "unique_ptr" in dem.split(">::")[0]

    def event(callee, v, **kw):
        if isinstance(v, (Leaf, Node)):
            e = Event("call", AND(act.guard0, g), callee, [args[0], v] if callee.startswith("std") else [v], None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events))
            ev.events.append(e)
    cur = ev.load(st, args[0], "ptr", 8, None) if args and not i.d.get("sret") else None
    moved = ps and re.match(r"std::(__)?(shared_ptr|unique_ptr)<.*&&$", ps[0])
    what = "array" if re.match(r"std::unique_ptr<[^<>]*\[\]", dem) else "object" if "default_delete" in dem else "resource"
    if uniq and (k.startswith("~") or k in ("reset", "operator=")):
        event(DISPOSE + what, cur)
    raw = ps and ps[0].endswith("*")
    if raw and not uniq:
        event("std::shared_ptr<>::shared_ptr", args[1])
    r = MD.m_sp(act, i, dem, args, g, st, setres)
    if r is NotImplemented:
        if uniq and k == "unique_ptr" and raw:
            ev.store(st, args[0], args[1], 8, g, ("sp", i.line)); r = None      # with its own deleter
    if moved and uniq and r is not NotImplemented and args[1:]:
        ev.store(st, args[1], ZERO, 8, g, ("sp", i.line))
    return r


OWNERS = {r"^std::(__shared_ptr|shared_ptr|unique_ptr)<.*>::(~?(__shared_ptr|shared_ptr|unique_ptr)|operator=|reset)(<.*>)?\(": m_own}


def acquires(callee):
    r = _acqc.get(callee)
    if r is None:
        r = _acqc[callee] = next(((k, what) for rx, k, what in ACQ if re.search(rx, callee)), 0)
    return r


def releases(callee):
    r = _relc.get(callee)
    if r is None:
        r = _relc[callee] = next((set(what) for rx, what in REL if re.search(rx, callee)), 0)
    return r


def valid(kind, l):
    if kind == HID:
        return NOT(dd_lt(l, gvn.const(0)))
    if kind == NEW:
        return ONE
    return NOT(eqc(l, 0))


def isl(d, fp):
    """condition that d denotes the value fp"""
    if isinstance(d, Leaf):
        return ONE if d.fp == fp else ZERO
    if not isinstance(d, Node):
        return ZERO
    return app1(("isl", fp), lambda x: ONE if x.fp == fp else ZERO, d)


def transfers(fn):
    """functions that hand an array to the caller through a parameter"""
    return "**" in re.sub(r"char\*\*", "", fn.dem.split("(", 1)[-1])


_rel = {}


def relevant(p, fn):
    """functions that may obtain, release or keep a resource: the others are not looked into"""
    if p not in _rel:
        _rel[p] = {f.name for f in roots(p)}
    return fn.name in _rel[p] or sum(len(b) for b in fn.blocks) <= 200


NARROW = set()


def evaluate(p, f):
    """evaluate with the functions of the same file looked into; when that gets too large, only those of headers"""
    if f.name not in NARROW:
        lim = gvn.LIMIT
        gvn.LIMIT = 250000
        try:
            return evaluate_(p, f)
        except (gvn.Blowup, gvn.Unsupported):
            NARROW.add(f.name)
        finally:
            gvn.LIMIT = lim
    return evaluate_(p, f, True)


def evaluate_(p, f, narrow=False):
    E = EV.Evaluator(p, models={**OWNERS, **SM.STREAMS, **SM.VECMUT})
    rs = raisers_of(p)
    E.throwing = lambda dem: dem in rs
    same = {g.name for g in p.repo_fns() if g.tu == f.tu}

    def pred(fn, dem):
        if not fn.repo:
            return None
        if fn.name in same and (narrow or not relevant(p, fn)):
            return False
        if fn.name in same or transfers(fn) or fn.loc().split(":")[0].endswith((".hh", ".icc", ".h")):
            return None
        return False
    E.inline_pred = pred
    E.run(f)
    return E


_rs = {}


def raisers_of(p):
    if p not in _rs:
        _rs[p] = raisers(p)
    return _rs[p]


class Res:
    def __init__(self, leaf, kind, what, guard, ev, loops):
        self.l = leaf; self.kind = kind; self.what = what; self.guard = guard; self.ev = ev; self.loops = loops


def collect(E, f=None):
    out = []; rel = []
    for e in E.events:
        if e.kind != "call" or not e.callee:
            continue
        a = acquires(e.callee)
        if a and isinstance(e.res, Leaf):
            # handles obtained inside a function of another file are that function's obligation
            if e.instr.fn.repo and (a[0] == NEW or f is None or e.instr.fn.tu == f.tu):
                out.append(Res(e.res, a[0], a[1], e.guard, e, e.loops))
        r = releases(e.callee)
        if r and e.args:
            rel.append((e, r, e.args[0]))
        if re.search(r"^CSL(SetNameValue|AddNameValue|AddString)", e.callee):
            rel.append((e, {"CSL"}, e.args[0]))
        if re.search(r"^H5Aread|^H5Dread", e.callee):
            pass
    return out, rel


def th(d):
    return AND(d, theory(d)) if isinstance(d, Node) else d


def escape(E, st, ret, fp, locals_ok, exclude=None, depth=0):
    """condition that the value is held by something that outlives the function"""
    g = ZERO
    if ret is not None and isinstance(ret, (Leaf, Node)):
        g = OR(g, isl(ret, fp))
    for (b, o), (off, v, sz) in st.mem.items():
        if b[0] == "al" or not isinstance(v, (Leaf, Node)):
            continue
        c = isl(v, fp)
        if c is ZERO:
            continue
        if exclude is not None and b == exclude:
            continue
        if b[0] == "new":
            if depth < 4:
                c = AND(c, escape(E, st, ret, H("addr", b), locals_ok, exclude, depth + 1))
            else:
                c = ZERO
        g = OR(g, c)
    return g


def handed(E, fp, tu=None):
    g = ZERO
    for e in E.events:
        if e.kind == "call" and e.callee and re.search(NOOWN, e.callee):
            for a in e.args[1:]:
                g = OR(g, AND(e.guard, isl(a, fp)))
        elif tu and e.kind == "call" and e.callee in tu:
            # not looked into: may keep or release it, and what its arguments refer to
            for a in list(e.args) + [v for c in (e.extra or {}).values() for v in c.values()]:
                if isinstance(a, (Leaf, Node)):
                    g = OR(g, AND(e.guard, isl(a, fp)))
    return g


def this_of(f):
    m = re.search(r"geomodelgrids::(?:\w+::)*", f.dem)
    return None


def is_ctor(f):
    q = re.sub(r"\(.*", "", f.dem).split("::")
    return len(q) > 1 and q[-1] == q[-2]


def is_dtor(f):
    return "::~" in re.sub(r"\(.*", "", f.dem)


def roots(p, pre=""):
    """repository functions from which a resource is obtained or released"""
    direct = {}
    calls = {}
    for f in p.repo_fns():
        n = f.dem
        for i in f.instrs():
            if i.o in ("call", "invoke") and i.callee:
                d = i.callee if i.callee.startswith(("_Zn", "_Zd")) else p.dem(i.callee)
                if acquires(d) or releases(d):
                    direct[n] = True
                calls.setdefault(n, set()).add(p.dem(i.callee))
    out = set(direct); ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n not in out and cs & out:
                out.add(n); ch = True
    return [f for f in p.repo_fns() if f.dem in out and f.dem.startswith("geomodelgrids") and f.blocks]


def check(ctx):
    p = core.load(("lib",))
    fields = {}
    seen = set()
    for f in roots(p):
        if f.name in seen or re.search(r"[CD]0Ev|C1E|D1E", f.name) and f.name.replace("C1E", "C2E").replace("D1E", "D2E") != f.name and p.fns.get(f.name.replace("C1E", "C2E").replace("D1E", "D2E")):
            continue
        seen.add(f.name)
        ctx.guard(short(f), one, ctx, p, f, fields)
    ctx.guard("copies", copies, ctx, p, fields)
    for (cls, off), (what, kind, where) in sorted(fields.items(), key=str):
        ctx.guard(f"{cls}+{off}", owner, ctx, p, cls, off, what, kind, where)
    ctx.count(functions=len(seen), owning_fields=len(fields))


def copies(ctx, p, fields):
    """an object that owns something is never copied member by member: both copies would release it"""
    for f in list(p.fns.values()):
        m = re.match(r"((?:\w+::)*(\w+))::(\2|operator=)\(\1 const&\)$", f.dem)
        if not m or not f.blocks:
            continue
        offs = [(o, v) for (c, o), v in fields.items() if c == m.group(1)]
        if not offs:
            continue
        E = EV.Evaluator(p)
        E.run(f)
        a, b = (atom("arg", k, tree=("fn", "this" if k == 0 else "other")) for k in (0, 1))
        for o, (what, kind, where) in offs:
            cur = E.load(E.state, padd(a, gvn.const(o)), "i64" if kind == HID else "ptr", 8, None) if E.state else None
            same = cur is not None and isl(cur, ld(None, padd(b, gvn.const(o))).d.fp)
            ctx.ob(f"{short(f)}: a copy does not share {fname(p, m.group(1), o)}", same is ZERO or cur is None, f.loc(), "the copy and the original both own it")


def short(f):
    return re.sub(r"geomodelgrids::(serial|utils|apps)::", "", re.sub(r"\(.*", "", f.dem))


def exits(E):
    out = []
    if E.retguard is not ZERO and E.state is not None:
        out.append(("returning", E.retguard, E.state, E.ret))
    for g, s in E.unwound:
        if th(g) is not ZERO:
            out.append(("raising an exception", g, s, None))
    return out


def one(ctx, p, f, fields):
    E = evaluate(p, f)
    key = short(f)
    acq, rel = collect(E, f)
    xs = exits(E)
    unseen = {g.dem for g in p.repo_fns() if g.tu == f.tu and (f.name in NARROW or not relevant(p, g))}
    thisb = None
    ctor = is_ctor(f)
    if f.args and f.args[0]["n"] == "this":
        thisb = ptrparts(atom("arg", 0, tree=("fn", "this")))[0]
    cls = "::".join(re.sub(r"\(.*", "", f.dem).split("::")[:-1])
    n = {}
    for r in acq:
        # the same call seen twice under different paths is one obligation
        k = f"{key}: {r.what} of {r.ev.callee.split('(')[0]} in {r.ev.instr.fn.dem.split('(')[0].split('::')[-1]}"
        n[k] = n.get(k, 0) + 1
        if n[k] > 1:
            k += f" #{n[k]}"
        v = AND(r.guard, valid(r.kind, r.l))
        rels = ZERO; wrongkind = None
        conds = []
        for e, kinds, a in rel:
            c = isl(a, r.l.fp)
            if c is ZERO:
                continue
            c = AND(e.guard, c)
            if r.what not in kinds:
                if th(AND(v, c)) is not ZERO:
                    wrongkind = e
                continue
            conds.append((e, c))
            rels = OR(rels, c)
        rels = OR(rels, handed(E, r.l.fp, unseen))
        lost = None
        for what, g, st, ret in xs:
            d = AND(v, AND(g, NOT(rels)))
            if r.loops:
                # an iteration that ends in another exit does not reach this one
                for w2, g2, _, _ in xs:
                    if g2 is not g and AND(g2, NOT(r.guard)) is ZERO:
                        d = AND(d, NOT(g2))
            d = th(d)
            if d is ZERO:
                continue
            es = escape(E, st, ret, r.l.fp, None, thisb if ctor and what != "returning" else None)
            d = th(AND(d, NOT(es)))
            if d is not ZERO:
                lost = (what, d); break
        if lost is not None and wrongkind is None and clobbered(E, r, rel):
            ctx.und(f"{k}: released or owned on every path", "it is kept in memory that is written again before what is there is released")
            lost = None
            continue
        ctx.ob(f"{k}: released or owned on every path", lost is None and wrongkind is None, (wrongkind or r.ev).loc(),
               "" if lost is None and wrongkind is None else (f"released by {wrongkind.callee}" if wrongkind else f"not released when {lost[0]}: {' / '.join(cubes(lost[1], ONE, 1))[-300:]}"))
        dbl = None
        for x in range(len(conds)):
            for y in range(x):
                if th(AND(AND(conds[x][1], conds[y][1]), v)) is not ZERO:
                    dbl = conds[x][0]
        ctx.ob(f"{k}: released once", dbl is None, dbl.loc() if dbl else r.ev.loc(), "released twice")
        use = None
        for e, c in conds:
            for e2 in E.events:
                if e2.n > e.n and e2.kind == "call" and e2.loops[:len(e.loops)] == e.loops and not releases(e2.callee or ""):
                    for a in e2.args or []:
                        if isinstance(a, (Leaf, Node)) and isl(a, r.l.fp) is not ZERO and th(AND(AND(c, e2.guard), AND(isl(a, r.l.fp), v))) is not ZERO:
                            use = e2
        ctx.ob(f"{k}: not used after its release", use is None, use.loc() if use else r.ev.loc(), use is not None and f"used by {use.callee[:80]}" or "")
        # fields that own it
        if thisb is not None:
            for what, g, st, ret in xs:
                for (b, o), (off, val, sz) in st.mem.items():
                    if b == thisb and off.const is not None and isinstance(val, (Leaf, Node)) and isl(val, r.l.fp) is not ZERO:
                        fields.setdefault((cls, int(off.const)), (r.what, r.kind, r.ev.loc()))
    strings(ctx, key, E, xs)
    # values a field had before
    if thisb is not None and not ctor and not is_dtor(f):
        this = atom("arg", 0, tree=("fn", "this"))
        offs = set()
        for e, kinds, a in rel:
            for l in (leaves(a).values() if isinstance(a, (Leaf, Node)) else ()):
                if l.tree[:2] == ("fn", "ld") and isinstance(l.tree[2], Leaf):
                    b, o = ptrparts(l.tree[2])
                    if b == thisb and o.const is not None and l.fp == ld(None, l.tree[2]).d.fp:
                        offs.add(int(o.const))
        for (c2, off), (what, kind, where) in list(fields.items()):
            if c2 == cls:
                offs.add(off)
        for off in sorted(offs):
            previous(ctx, p, key, f, E, rel, xs, this, off, fields.get((cls, off)))


def clobbered(E, r, rel):
    """it was stored in memory that a loop writes again, and what that memory holds is released later"""
    kept = set()
    for e in E.events:
        if e.kind == "store" and e.n > r.ev.n and isinstance(e.args[1], (Leaf, Node)) and isinstance(e.args[0], Leaf) and isl(e.args[1], r.l.fp) is not ZERO:
            kept.add(ptrparts(e.args[0])[0])
    if not kept:
        return False
    for e, kinds, a in rel:
        if r.what not in kinds or e.n < r.ev.n or not isinstance(a, (Leaf, Node)):
            continue
        for l in leaves(a).values():
            t = l.tree
            if t[:2] == ("fn", "ld") and len(t) > 3 and isinstance(t[2], Leaf) and ptrparts(t[2])[0] in kept:
                return True
    return False


def strings(ctx, key, E, xs):
    """memory the library allocates for variable-length strings is given back"""
    calls = [e for e in E.events if e.kind == "call" and e.callee]
    for e in calls:
        if not re.match(r"H5[AD]read$", e.callee) or not isinstance(e.res, Leaf):
            continue
        typ = e.args[1]
        var = ZERO
        for t in calls:
            if t.callee == "H5Tis_variable_str" and isinstance(typ, Leaf) and isl(t.args[0], typ.fp) is ONE and isinstance(t.res, Leaf):
                var = OR(var, AND(t.guard, NOT(eqc(t.res, 0))))
        got = AND(AND(e.guard, NOT(dd_lt(e.res, gvn.const(0)))), var)
        if th(got) is ZERO:
            continue
        buf = e.args[2] if e.callee == "H5Aread" else e.args[5]
        back = ZERO; early = False
        for t in calls:
            if re.match(r"H5(Dvlen_reclaim|Treclaim)$", t.callee) and t.n > e.n and t.args[3].fp == buf.fp:
                back = OR(back, t.guard)
        bad = None
        for what, g, st, ret in xs:
            d = th(AND(AND(got, g), NOT(back)))
            if d is not ZERO:
                bad = (what, d)
        ctx.ob(f"{key}: strings read with {e.callee} are reclaimed", bad is None, e.loc(),
               f"not when {bad[0]}: {' / '.join(cubes(bad[1], ONE, 1))[-300:]}" if bad else "")


def previous(ctx, p, key, f, E, rel, xs, this, off, info):
    addr = padd(this, gvn.const(off))
    v0 = ld(None, addr).d
    nm = fieldname(p, f, off)
    rels = ZERO; done = ZERO; kinds0 = None; loc = f.loc()
    for e, kinds, a in rel:
        c = AND(e.guard, isl(a, v0.fp))
        if c is not ZERO:
            rels = OR(rels, c); kinds0 = kinds; loc = e.loc()
            if kinds & set("FGDSATPO") and isinstance(e.res, Leaf):
                c = AND(c, NOT(dd_lt(e.res, gvn.const(0))))      # the library keeps the handle when closing it fails
            done = OR(done, c)
    kind = info[1] if info else (HID if kinds0 and kinds0 & set("FGDSATPO") else PTR)
    val = valid(PTR if kind == NEW else kind, v0)
    for what, g, st, ret in xs:
        cur = E.load(st, addr, "i64" if kind == HID else "ptr", 8, None)
        keep = isl(cur, v0.fp)
        lost = th(AND(AND(g, val), AND(NOT(keep), NOT(rels))))
        if info or lost is ZERO:
            moved = ZERO if lost is ZERO else escape(E, st, ret, v0.fp, None)
            lost = th(AND(lost, NOT(moved)))
            ctx.ob(f"{key}: {nm} is released before it is replaced ({what})", lost is ZERO, loc, lost is not ZERO and f"lost when {' / '.join(cubes(lost, ONE, 1))[-300:]}" or "")
        dang = th(AND(AND(g, val), AND(keep, done)))
        ctx.ob(f"{key}: {nm} is not kept after its release ({what})", dang is ZERO, loc, dang is not ZERO and f"kept when {' / '.join(cubes(dang, ONE, 1))[-300:]}" or "")


def fieldname(p, f, off):
    cls = "::".join(re.sub(r"\(.*", "", f.dem).split("::")[:-1])
    return fname(p, cls, off)


def fname(p, cls, off):
    t = p.types.get(cls)
    if t:
        for m in t.get("fields", t.get("members", [])):
            if m.get("off") in (off, off * 8):
                return m.get("n", str(off))
    return f"field at {off}"


def owner(ctx, p, cls, off, what, kind, where):
    nm = fname(p, cls, off)
    short_ = cls.split("::")[-1]
    d = [f for f in p.repo_fns() if re.sub(r"\(.*", "", f.dem) == f"{cls}::~{short_}"]
    key = f"{short_}: {nm}"
    if not ctx.ob(f"{key}: the class has a destructor", bool(d), where, "owns a resource but has no destructor"):
        return
    E = evaluate(p, d[0])
    v0 = ld(None, padd(atom("arg", 0, tree=("fn", "this")), gvn.const(off))).d
    acq, rel = collect(E)
    rels = ZERO; conds = []
    for e, kinds, a in rel:
        c = isl(a, v0.fp)
        if c is not ZERO and what in kinds:
            rels = OR(rels, AND(e.guard, c)); conds.append((e, AND(e.guard, c)))
    miss = th(AND(valid(PTR if kind == NEW else kind, v0), NOT(rels)))
    for e in E.events:
        if e.kind == "noreturn" and "terminate" in (e.callee or ""):
            miss = AND(miss, NOT(e.guard))
    ctx.ob(f"{key}: the destructor releases it", miss is ZERO, d[0].loc(), miss is not ZERO and f"not when {' / '.join(cubes(miss, ONE, 1))[-300:]}" or "")
    dbl = any(th(AND(conds[x][1], conds[y][1])) is not ZERO for x in range(len(conds)) for y in range(x))
    ctx.ob(f"{key}: the destructor releases it once", not dbl, d[0].loc(), "released twice")
