"""Value names: requested order, case-insensitive, unknown names rejected, inconsistent units rejected"""
from common_query import *
import models as MD
import strmodels as SM
from ev import params_of
from common_span import span, every, loop_of

MINIMUM = 18
ST = r"std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>|std::string"


def normaliser(p):
    """models treating repo functions 'vector<string> f(const vector<string>&)' / 'string f(const string&)' that reach
    tolower as lower-casing; each such function is itself verified by check_normaliser"""
    low = SM.tolower_reach(p)
    used = {}
    def kind(fn):
        if fn is None or fn.name not in low or not fn.args or not fn.args[0].get("sret") or len(fn.args) != 2:
            return None
        ps = params_of(fn.dem)
        if len(ps) != 1:
            return None
        if re.match(SM.VS.replace("(__cxx11::)", "(?:__cxx11::)") + r"\s*const&$|std::vector<std::string>\s*const&$", ps[0]) or re.match(r"std::vector<std::__cxx11::basic_string<char.*> const&$", ps[0]):
            return "vec"
        if re.match(r"(std::__cxx11::basic_string<char[^&]*>|std::string) const&$", ps[0]):
            return "str"
        return None
    def model(act, i, dem, args, g, st, setres):
        fn = act.ev.prog.internal.get(act.fn.tu, {}).get(i.callee) or act.ev.prog.fns.get(i.callee)
        k = kind(fn)
        if k is None or fn is act.ev.root:
            return NotImplemented
        ev = act.ev
        used[fn.name] = (fn, k)
        if k == "vec":
            def lowp(l):
                return mkleaf(H("lowvec", l.fp), ("fn", "lower", l))
            b = ev.load(st, args[1], "ptr", 8, None)
            e = ev.load(st, padd(args[1], const(8)), "ptr", 8, None)
            if isinstance(b, Node) or isinstance(e, Node):
                return NotImplemented
            ev.store(st, args[0], lowp(b), 8, g, ("low", i.line))
            ev.store(st, padd(args[0], const(8)), l_add(lowp(b), l_sub(e, b)), 8, g, ("low", i.line))
            return None
        v = MD.sval(ev, st, args[1])
        ev.store(st, args[0], app1("lows", lambda x: MD.strleaf([mkleaf(H("lows", x.fp), ("fn", "lower", x))]), v), 32, g, ("low", i.line))
        return None
    return model, used


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("initialize", main, ctx, p)


def islow(l):
    return isinstance(l, Leaf) and l.tree[0] == "fn" and l.tree[1] == "lower"


def strsrc(v):
    """address of the string object whose (initial) value v is"""
    if isinstance(v, Leaf) and v.tree[0] == "str" and len(v.tree) == 2 and isinstance(v.tree[1], Leaf) and v.tree[1].tree[:2] == ("fn", "ld"):
        return v.tree[1].tree[2]
    return None


def lowelem(v):
    """(vector begin pointer, index) if v is the lower-cased element of a string vector"""
    a = strsrc(v)
    if a is None:
        return None
    for x in walkleaves(a):
        if islow(x):
            return x.tree[2], l_div(l_sub(a, x), gvn.const(32))
    return None


def walkleaves(l, seen=None, depth=0):
    if seen is None:
        seen = set()
    if not isinstance(l, Leaf) or l.fp in seen or depth > 12:
        return
    seen.add(l.fp); yield l
    for x in l.tree[1:]:
        yield from walkleaves(x, seen, depth + 1)


def main(ctx, p):
    mdl, used = normaliser(p)
    M = {**SM.STREAMS, **SM.MAPS, **SM.FIND, **SM.VECS, r"^(.* )?geomodelgrids::|\)::": mdl}
    R = Run(p, QQ + "::initialize", [r"serial::Model::"], models=M)
    names = R.arg(2)
    qbegin = ld(None, names)
    finds = [e for e in R.calls(r"std::find<") if "basic_string" in e.callee or "string" in e.callee]
    if not finds:
        ctx.und("initialize", "no std::find over the model's value names"); return
    for e in finds:
        b = e.args[0]
        val = e.extra[2][0]
        ctx.ob("initialize: requested names are compared in lower case with the model's names in lower case", islow(b) and lowelem(val) is not None, e.loc(), f"searches {txt(b)} for {MD.show_string(val)}")
        le = lowelem(val)
        if le is None or not islow(b):
            continue
        ctx.ob("initialize: the names searched for are the requested value names", le[0] is qbegin.d, e.loc(), f"searched name comes from {txt(le[0])}")
        nn = l_div(l_sub(ld(None, padd(getattr(names, "d", names), gvn.const(8))).d, qbegin.d), gvn.const(32))
        k = span(ctx, "initialize: every requested name is searched for, and nothing else", R.ev, e.loops, le[1], [nn], e.loc(), "names searched for")
        gn = [c for c in R.calls(r"serial::Model::getValueNames") if tree_contains(b, c.res.fp)]
        if k is not None and gn:
            every(ctx, "initialize: no requested name is left out", R.ev, k, e.guard, e.loc(), given=gn[0].guard)
        ctx.ob("initialize: the names searched are the model's value names", bool(gn), e.loc(), f"searches {txt(b)}")
        d = l_sub(e.args[1], b)
        ctx.ob("initialize: all value names of the model are searched", bool(gn) and d is (X(ld(None, padd(gn[0].res, gvn.const(8)))) - X(ld(None, gn[0].res))).d, e.loc(), f"range is {txt(b)} .. {txt(e.args[1])}")
        found = X(NOT_(leq_eq(e.res, e.args[1])))
        idx = l_div(l_sub(e.res, b), gvn.const(32))
        # map entry
        ns = 0
        for s in R.stores():
            a = s.args[0]
            if isinstance(a, Leaf) and a.base and a.base[0] == "mapel" and any(tree_contains(l, e.res.fp) for l in leaves(s.args[1]).values()):
                ns += 1
                key = a.tree[3]
                ctx.ob("initialize: requested name i is mapped to the position of that name in the model", s.args[1] is idx and key is le[1], s.loc(), f"map[{txt(key)}] = {txt(s.args[1])} for name {txt(le[1])}")
                ctx.ob("initialize: a position is only recorded for a name that was found", implies(s.guard, found.d), s.loc(), " / ".join(cubes(AND(s.guard, NOT_(found.d)), ONE, 1))[-200:])
        ctx.ob("initialize: the position of each requested name is recorded", ns > 0, e.loc(), "no map entry is stored for the found name")
        bad = AND(AND(e.guard, NOT_(found.d)), ONE)
        cont = ZERO
        for v in R.ev.loopinfo.values():
            if e.instr.bb in v["fn"].loops().get(v["header"], ()) and v["fn"] is e.instr.fn:
                cont = OR(cont, AND(AND(backguard(v), bad), ONE))
        ctx.ob("initialize: a name the model does not provide is rejected", cont is ZERO, e.loc(), "initialisation continues although the name was not found")
        thr = [x for x in R.events if x.kind == "noreturn" and x.callee in ("__cxa_throw",) and AND(x.guard, bad) is not ZERO]
        ctx.ob("initialize: rejection is an exception", bool(thr), e.loc(), "no exception is thrown for a name that was not found")
    for fn, k in used.values():
        check_normaliser(ctx, p, fn, k)
    units(ctx, p, R)
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks, searches=len(finds))


def support_infos(g):
    return [(v, gvn._varinfo[v]) for v in gvn.support(g, set(), set())]


def units(ctx, p, R):
    """the units of a requested value are compared with those recorded for earlier models; disagreement is an exception"""
    gu = R.calls(r"serial::Model::getValueUnits")
    if not gu:
        ctx.ob("initialize: the units of the models' values are examined", False, R.fn.loc(), "getValueUnits() is never called"); return
    rec = []
    for s in R.stores():
        a = s.args[0]
        if isinstance(a, Leaf) and a.base and a.base[0] == "mapel" and any(tree_contains(l, c.res.fp) for l in leaves(s.args[1]).values() for c in gu):
            rec.append(s)
    if not rec:
        maps = [s for s in R.stores() if isinstance(s.args[0], Leaf) and s.args[0].base and s.args[0].base[0] == "mapel"]
        thr = [e for e in R.events if e.kind == "noreturn" and e.callee == "__cxa_throw" and any(i and i[0] == "str==" and any(tree_contains(x, c.res.fp) for c in gu for x in i[1:3] if isinstance(x, Leaf)) for v, i in support_infos(e.guard))]
        fresh = thr and all(isinstance(x, Leaf) for e in thr for v, i in support_infos(e.guard) if i and i[0] == "str==" for x in i[1:3])
        other = [i for e in thr for v, i in support_infos(e.guard) if i and i[0] == "str=="]
        local = [y for i in other for y in (strsrc(i[1]), strsrc(i[2])) if y is not None and y.base and y.base[0] == "mapel"]
        if R.calls(r"std::map<.*>::(insert|emplace|try_emplace|insert_or_assign|emplace_hint|swap|operator=|merge)\b"):
            local = []
        if local and not any(s.args[0].tree[2] is y.tree[2] for s in maps for y in local):
            ctx.ob("initialize: the units of a value are recorded for the models that follow", False, thr[0].loc(), "compared with an entry nothing is ever recorded in")
            return
        ctx.und("units", "no map entry records the units of a value"); return
    cmps = []
    for e in R.events:
        if e.kind == "noreturn" and e.callee == "__cxa_throw":
            for v, i in support_infos(e.guard):
                if i and i[0] == "str==":
                    cmps.append((e, v, i))
    ctx.ob("initialize: recorded units are compared with each model's units", bool(cmps), rec[0].loc(), "units are recorded but a mismatch never raises an exception")
    for e, v, i in cmps:
        eq = gvn.mk(v, ONE, ZERO)
        ctx.ob("initialize: models are rejected for units that differ, not for units that agree", AND(e.guard, eq) is ZERO, e.loc(), "exception although the units agree: " + " / ".join(cubes(AND(e.guard, eq), ONE, 1))[-200:])
        sides = [x for x in (strsrc(i[1]), strsrc(i[2])) if x is not None]
        old = [x for x in sides if x.base and x.base[0] == "mapel"]
        new = [x for x in sides if any(tree_contains(x, c.res.fp) for c in gu)]
        if len(old) != 1 or len(new) != 1:
            ctx.und("units", f"comparison of {showvar(v)[:200]}"); continue
        key = old[0].tree[3]
        for s in rec:
            if s.args[0].tree[2] is not old[0].tree[2]:
                continue
            ctx.ob("initialize: the units compared are those recorded for the same requested value", s.args[0].tree[3] is key, s.loc(), f"recorded under {txt(s.args[0].tree[3])}, compared under {txt(key)}")
            src = strsrc(s.args[1])
            ctx.ob("initialize: the units recorded and compared are the same model element", src is new[0], s.loc(), f"recorded {txt(src) if src else txt(s.args[1])}, compared {txt(new[0])}")
        # every requested value is looked at in every model
        lps = list(R.ev.loopinfo)
        ks = loop_of(R.ev, lps, key)
        if len(ks) == 1:
            from common_span import values_of
            r = values_of(R.ev, lps, key)
            wants = [l for l in walkleaves(r[2]) if l.tree[:2] == ("fn", "size")] if r else []
            ns = ld(None, R.arg(2).d)
            wants.append(l_div(l_sub(ld(None, padd(R.arg(2).d, gvn.const(8))).d, ns.d), gvn.const(32)))
            span(ctx, "initialize: the units of every requested value are examined", R.ev, lps, key, wants, e.loc(), "values examined")
        else:
            ctx.und("units", "loop over the requested values not recognised")
        # element selected through the map of the requested value
        b = [l for l in walkleaves(new[0]) if islow(l) or any(l is ld(None, c.res).d for c in gu)]
        idx = l_div(l_sub(new[0], b[0]), gvn.const(32)) if b else None
        ma = deref(idx) if idx is not None else None
        ok = ma is not None and ma.base and ma.base[0] == "mapel" and ma.tree[3] is key
        if ok:
            its = [R.ev.loopinfo[k]["it"] for c in gu if tree_contains(new[0], c.res.fp) for k in c.loops if R.ev.loopinfo.get(k, {}).get("it") is not None]
            where = ma.tree[2]
            local = isinstance(where, Leaf) and where.base is not None and where.base[0] == "al"
            ctx.ob("initialize: the positions used to find the units are those of the same model", local or not its or any(tree_contains(where, t.fp) for t in its), e.loc(), f"positions come from {txt(where)}, units from {txt(new[0])}")
        if not ok and any("_iterator" in str(l.tree[1]) for l in walkleaves(new[0]) if l.tree[0] == "fn"):
            ctx.und("initialize: the units examined belong to the model value the requested value is mapped to", f"units element {txt(idx) if idx is not None else txt(new[0])}"); continue
        ctx.ob("initialize: the units examined belong to the model value the requested value is mapped to", ok, e.loc(), f"units element {txt(idx) if idx is not None else txt(new[0])} for requested value {txt(key)}")
        cnt = [w for w, j in support_infos(e.guard) if j and j[0] == "==" and isinstance(j[1], Leaf) and j[1].tree[:2] == ("fn", "mapcount")]
        for w in cnt:
            absent = gvn.mk(w, ONE, ZERO)
            back = ZERO
            for lp in R.ev.loopinfo.values():
                if gvn.var_leaf(w) and any(s.instr.fn is lp["fn"] and s.instr.bb in lp["fn"].loops().get(lp["header"], ()) for s in rec):
                    if AND(backguard(lp), absent) is not ZERO or w in gvn.support(backguard(lp), set(), set()):
                        back = OR(back, backguard(lp))
            # restrict to the loop that contains the comparison
            inner = [lp for lp in R.ev.loopinfo.values() if v in gvn.support(backguard(lp), set(), set()) and w in gvn.support(backguard(lp), set(), set())]
            g = ZERO
            for lp in inner:
                g = OR(g, AND(AND(backguard(lp), NOT_(absent)), NOT_(eq)))
            ctx.ob("initialize: no model with units differing from the recorded ones is accepted", inner and g is ZERO or not inner and AND(e.guard, ONE) is not ZERO, e.loc(), "continues with differing units when " + " / ".join(cubes(g, ONE, 1))[-300:])
            for s in rec:
                ctx.ob("initialize: units are recorded the first time a value is seen, not overwritten", implies(s.guard, absent), s.loc(), "recorded units are replaced while " + " / ".join(cubes(AND(s.guard, NOT_(absent)), ONE, 1))[-200:])
    # the record outlives one model
    for s in rec:
        m = s.args[0].tree[2]
        lps = {k for n in R.events if n.kind == "new" for k in n.loops} & set(s.loops)
        ctor = [e for e in R.events if e.kind == "call" and re.match(r"std::map<.*>::(map|clear)\(", e.callee) and e.args and e.args[0] is m]
        inloop = [e for e in ctor if lps & set(e.loops)]
        if lps:
            ctx.ob("initialize: recorded units are kept from one model to the next", not inloop, s.loc(), "the record of units is emptied for every model")


def check_normaliser(ctx, p, fn, kind):
    """every element of the result is the same element of the argument with tolower applied to every character"""
    import strmodels
    R = Run(p, fn, [], models={**SM.STREAMS})
    tr = R.calls(r"std::transform<")
    nm = fname(fn.dem).split("::")[-1] if False else fn.short.split("::")[-1]
    if not tr:
        ctx.und(f"{nm}", "lower-casing without std::transform"); return
    for e in tr:
        f = e.args[3]
        tgt = f.base[1] if isinstance(f, Leaf) and f.base and f.base[0] == "g" else None
        if tgt in ("tolower",):
            ok = True
        elif tgt in p.fns and p.fns[tgt].blocks:
            T = Run(p, p.fns[tgt])
            tl = T.calls(r"^(std::)?tolower")
            ok = len(tl) == 1 and tl[0].args[0] is T.arg(0).d and isinstance(T.ret, Leaf) and T.ret is tl[0].res and tl[0].guard is ONE
        else:
            ctx.und(nm, "character function not recognised"); continue
        ctx.ob("names are lower-cased character by character with tolower", ok, e.loc(), f"character function {tgt}")
        src = [l for l in walkleaves(e.args[0]) if l.tree[:2] == ("fn", "begin")]
        end = [l for l in walkleaves(e.args[1]) if l.tree[:2] == ("fn", "end")]
        dst = [l for l in walkleaves(e.args[2]) if l.tree[:2] == ("fn", "begin")]
        ok = len(src) >= 1 and len(end) >= 1 and len(dst) >= 1 and src[0].tree[2] is end[0].tree[2] and e.args[0] is src[0] and e.args[1] is end[0] and e.args[2] is dst[0]
        ctx.ob("names are lower-cased over their whole length", ok, e.loc(), f"transforms {txt(e.args[0],80)}..{txt(e.args[1],80)} to {txt(e.args[2],80)}")
        if not ok:
            continue
        if kind == "vec":
            a, d = src[0].tree[2], dst[0].tree[2]
            ia = l_sub(a, ld(None, R.arg(1)).d)
            db = [l for l in walkleaves(d) if deref(l) is not None and not tree_contains(l, ia.fp)]
            okd = any(l_sub(d, l) is ia for l in db)
            ctx.ob("lower-cased name i replaces name i", okd, e.loc(), f"reads {txt(a)}, writes {txt(d)}")
            lps = [lp for lp in R.ev.loopinfo.values() if e.instr.fn is lp["fn"] and e.instr.bb in lp["fn"].loops()[lp["header"]]]
            if len(lps) == 1 and lps[0].get("it") is not None:
                lp = lps[0]
                x = l_div(ia, gvn.const(32))
                n = (X(ld(None, padd(R.arg(1).d, gvn.const(8)))) - X(ld(None, R.arg(1)))).d
                n = l_div(n, gvn.const(32))
                full = AND(lp["guard"], dd_lt(lp["it"], n))
                ctx.ob("every name is lower-cased", implies(full, e.guard) and x is lp["it"], e.loc(), "skipped when " + " / ".join(cubes(AND(full, NOT_(e.guard)), ONE, 1))[-200:])
            else:
                ctx.und("lower-casing loop", "loop not recognised")
