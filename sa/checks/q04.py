"""First listed model containing the point supplies all values"""
from common_query import *
import strmodels as SM
from q03 import elem_idx_unique
from common_span import span, every, same_len

MINIMUM = 9


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("query", main, ctx, p)
    ctx.guard("models", models, ctx, p)


def spans(R):
    return [l_sub(ld(None, padd(a, gvn.const(8))).d, ld(None, a).d) for a in (padd(R.arg(0).d, gvn.const(k)) for k in range(0, 400, 8))]


def counts(R):
    """lengths of the lists of names the query object may keep"""
    out = []
    for k in range(0, 400, 8):
        a = padd(R.arg(0).d, gvn.const(k))
        out.append(l_div(l_sub(ld(None, padd(a, gvn.const(8))).d, ld(None, a).d), gvn.const(32)))
    return out


def main(ctx, p):
    R = run_query(p)
    st = enum(p, "ErrorHandler::StatusEnum")
    cs = one(ctx, R, r"serial::Model::contains\(", "containment test")
    qs = one(ctx, R, r"serial::Model::query\(", "model query")
    vals = R.arg(1)
    for c in cs:
        ctx.ob("Query::query: containment is tested at the caller's x,y", same(c.args[1], R.arg(2).d, c.guard) and same(c.args[2], R.arg(3).d, c.guard), c.loc(), f"({txt(c.args[1])}, {txt(c.args[2])})")
        if any(gvn._varinfo[v] and gvn._varinfo[v][0] == "sticky" for v in gvn.support(c.guard, set(), set())):
            ctx.und("the search for the model containing the point", "goes on with a flag set"); continue
        inside = X(c.res).nz()
        lp = None
        for v in R.ev.loopinfo.values():
            if v["fn"] is c.instr.fn and c.instr.bb in c.instr.fn.loops().get(v["header"], ()):
                lp = v if lp is None or len(v["fn"].loops()[v["header"]]) > len(lp["fn"].loops()[lp["header"]]) else lp
        for k in c.loops:
            it = R.ev.loopinfo.get(k, {}).get("it")
            if it is not None and tree_contains(c.args[0], it.fp):
                span(ctx, "Query::query: every model is tried, and nothing else", R.ev, c.loops, it, [l_div(x, gvn.const(8)) for x in spans(R)], c.loc(), "models tried")
        ctx.ob("Query::query: models are tried in the order given", elem_idx_unique(R, c.args[0]), c.loc(), f"model is {txt(c.args[0])}")
        if lp is None:
            ctx.und("Query::query", "loop over models not recognised"); continue
        ctx.ob("Query::query: the search stops at the first model that contains the point", AND(AND(backguard(lp), inside.d), c.guard) is ZERO, c.loc(), "search continues past a containing model when " + " / ".join(cubes(AND(AND(backguard(lp), inside.d), c.guard), ONE, 1))[-300:])
        for q in qs:
            ctx.ob("Query::query: the model that is queried is the one that contains the point", all(l is c.args[0] for l in care_leaves(q.args[0], q.guard)) and implies(q.guard, inside.d), q.loc(), f"queried {txt(q.args[0])}, containment tested on {txt(c.args[0])}; queried when " + " / ".join(cubes(AND(q.guard, NOT_(inside.d)), ONE, 1))[-300:])
            ctx.ob("Query::query: it is queried at the location that was found inside", all(same(q.args[n], c.args[n], q.guard) for n in (1, 2, 3)), q.loc(), f"({', '.join(txt(a, 80) for a in q.args[1:])}) instead of ({', '.join(txt(a, 80) for a in c.args[1:])})")
        gin = ZERO
        for f, t, g, s in lp["exits"]:
            gin = OR(gin, AND(AND(g, inside.d), c.guard))
        gin = AND(gin, R.guard)
        r1 = care_leaves(R.ret, gin)
        ctx.ob("Query::query: status is OK when a model contains the point", bool(r1) and all(l.const == st["OK"] for l in r1), c.loc(), f"returns {[txt(l, 60) for l in r1]}")
        # reaching the end of the list without a containing model
        ready = AND(c.guard if False else lp["guard"], R.guard)
        gout = AND(ready, NOT_(gin))
        r2 = care_leaves(R.ret, gout)
        ctx.ob("Query::query: status is WARNING when no model contains the point", bool(r2) and all(l.const == st["WARNING"] for l in r2), c.loc(), f"returns {[txt(l, 60) for l in r2]}")
        # values written
        nset = 0
        for s in R.stores():
            b, o = ptrparts(s.args[0]) if isinstance(s.args[0], Leaf) else (None, None)
            if b != ptrparts(vals.d)[0]:
                continue
            for l in care_leaves(s.args[1], s.guard):
                if l.const is not None and l.const == Fraction(-10) ** 20 * 1 or l.const == -10**20:
                    continue
                a = deref(l)
                ok = a is not None and any(tree_contains(a, x.fp) for q in qs for x in leaves(q.res).values())
                if ok:
                    k = span(ctx, "Query::query: all requested values are set, and no more", R.ev, s.loops, l_div(o, gvn.const(8)), counts(R), s.loc(), "values set")
                    if k is not None:
                        every(ctx, "Query::query: no requested value is left out", R.ev, k, s.guard, s.loc())
                ctx.ob("Query::query: values come from the model that contains the point", ok and implies(s.guard, inside.d), s.loc(), f"stores {txt(l)}")
                nset += 1
                if ok:
                    idx = l_div(o, gvn.const(8))
                    q = qs[-1]
                    mi = l_div(l_sub(a, q.res), gvn.const(8)) if isinstance(q.res, Leaf) else None
                    mapped = None
                    if mi is not None:
                        mm = deref(mi)
                        if mm is not None:
                            for m in R.calls(r"std::map<.*>::(operator\[\]|at)\("):
                                if m.res is mm:
                                    key = m.extra.get(1, {}).get(0)
                                    mapped = (key is not None and same(key, idx, s.guard), m)
                    if mapped is None:
                        ctx.und("Query::query: requested value i is the model's value mapped to i", f"index expression {txt(mi)}")
                    else:
                        ctx.ob("Query::query: requested value i is the model's value mapped to i", mapped[0], s.loc(), f"values[{txt(idx)}] uses the map entry of another index")
                        # the map belongs to the same model
                        it = [v["it"] for v in R.ev.loopinfo.values() if v.get("it") is not None and tree_contains(c.args[0], v["it"].fp)]
                        ctx.ob("Query::query: the value map is the queried model's", bool(it) and tree_contains(X(mapped[1].args[0]).d, it[0].fp), s.loc(), f"map is {txt(mapped[1].args[0])}")
        ctx.ob("Query::query: values are stored for a containing model", nset > 0, R.fn.loc(), "no store into the caller's array")
        # NODATA prefill over all values
        pre = ZERO; why = []
        for e, v in nodata_fill(R):
            okv = isinstance(v, Leaf) and v.const == -10**20
            oka = same(e.args[0], vals.d, e.guard)
            why.append(f"fill({txt(e.args[0],40)}.., {txt(v,40) if v is not None else '?'})")
            if okv and oka:
                pre = OR(pre, e.guard)
                n = e.args[1] if "fill_n<" in e.callee else l_div(l_sub(e.args[1], vals.d), gvn.const(8))
                ds = [same_len(n, w) for w in counts(R)] if isinstance(n, Leaf) else []
                ds = [d for d in ds if d is not None]
                if ds:
                    ctx.ob("Query::query: NODATA_VALUE is filled in for the requested values, and no more", 0 in ds, e.loc(), f"number of values {int(ds[0]):+d}")
                else:
                    ctx.und("Query::query: number of values filled with NODATA_VALUE", txt(n))
        for s in R.stores():
            if isinstance(s.args[0], Leaf) and ptrparts(s.args[0])[0] == ptrparts(vals.d)[0] and isinstance(s.args[1], Leaf) and s.args[1].const == -10**20:
                # filled in a loop over all values
                pre = OR(pre, ONE)
                if s.loops:
                    span(ctx, "Query::query: NODATA_VALUE is filled in for the requested values, and no more", R.ev, s.loops, l_div(ptrparts(s.args[0])[1], gvn.const(8)), counts(R), s.loc(), "values filled")
        ctx.ob("Query::query: all values are NODATA_VALUE unless a model contains the point", implies(gout, pre), R.fn.loc(), "; ".join(why) or "no NODATA initialisation of the values")
    # size of the fill = number of query values: same extent as the copy loop
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def models(ctx, p):
    """initialize(): model i is the file named i-th, opened, loaded and prepared with the coordinate system given"""
    R = Run(p, QQ + "::initialize", [r"serial::Model::"], models={**SM.STREAMS, **SM.VECS})
    files = R.arg(1).d; crs = R.arg(3).d
    begin = ld(None, files).d
    nfiles = l_div(l_sub(ld(None, padd(files, gvn.const(8))).d, begin), gvn.const(32))
    want = ("setInputCRS", "open", "loadMetadata", "initialize")
    found = {w: R.calls(rf"serial::Model::{w}\(") for w in want}
    for w in want:
        if not found[w]:
            ctx.ob(f"Query::initialize: every model {WHAT[w]}", False, R.fn.loc(), f"{w}() of a model is never called")
    if not all(found.values()):
        return
    order = {id(e): i for i, e in enumerate(R.events)}
    for w in want:
        for e in found[w]:
            k = [x for x in e.loops if R.ev.loopinfo.get(x, {}).get("it") is not None]
            if len(k) != 1:
                ctx.und(f"Query::initialize: every model {WHAT[w]}", "loop over the files not recognised"); continue
            span(ctx, f"Query::initialize: every model {WHAT[w]}", R.ev, e.loops, R.ev.loopinfo[k[0]]["it"], [nfiles], e.loc(), "models")
            every(ctx, f"Query::initialize: no model is left out: {WHAT[w]}", R.ev, k[0], e.guard, e.loc())
    for e in found["open"]:
        src = cstr_of(e.args[1])
        it = [R.ev.loopinfo[x]["it"] for x in e.loops if R.ev.loopinfo.get(x, {}).get("it") is not None]
        idx = l_div(l_sub(src, begin), gvn.const(32)) if src is not None else None
        if idx is None or len(it) != 1:
            ctx.und("Query::initialize: files", f"name of the file {txt(e.args[1])}"); continue
        ok = span(ctx, "Query::initialize: the files opened are those given, in that order", R.ev, e.loops, idx, [nfiles], e.loc(), "files")
        mode = enum(p, "Model::ModelMode")
        m = e.args[2]
        ctx.ob("Query::initialize: models are opened for reading", isinstance(m, Leaf) and m.const is not None and m.const == mode["READ"], e.loc(), f"mode {txt(m)}")
        # the model is kept at the same place
        at = []
        for s in R.stores():
            if isinstance(s.args[0], Leaf) and isinstance(s.args[1], Leaf) and s.args[1] is e.args[0] and set(s.loops) == set(e.loops):
                b = [x for x in leaves_in(s.args[0]) if deref(x) is not None and not tree_contains(x, it[0].fp)]
                at += [l_div(l_sub(s.args[0], x), gvn.const(8)) for x in b if tree_contains(l_sub(s.args[0], x), it[0].fp) or l_sub(s.args[0], x).const is not None]
        at = [a for a in at if tree_contains(a, it[0].fp) or a.const is not None]
        if at:
            ctx.ob("Query::initialize: model i is kept at place i", any(a is idx for a in at), e.loc(), f"model of file {txt(idx, 40)} is kept at {[txt(a, 40) for a in at[:2]]}")
    for e in found["setInputCRS"]:
        src = cstr_of(e.args[1])
        ctx.ob("Query::initialize: models are given the coordinate system of the points", (src is crs) if src is not None else e.args[1] is crs, e.loc(), f"given {txt(e.args[1], 80)}")
    for a, b in (("open", "loadMetadata"), ("loadMetadata", "initialize"), ("setInputCRS", "initialize")):
        for x in found[a]:
            for y in found[b]:
                if x.instr.fn is y.instr.fn and x.instr.bb is y.instr.bb or x.loops == y.loops:
                    ctx.ob(f"Query::initialize: {a}() comes before {b}()", order[id(x)] < order[id(y)], y.loc(), "")
    objs = {w: {e.args[0].fp for e in found[w] if isinstance(e.args[0], Leaf)} for w in want}
    ctx.ob("Query::initialize: it is one model that is opened, loaded and prepared", len({frozenset(v) for v in objs.values()}) == 1, found["open"][0].loc(), "different objects")


WHAT = {"setInputCRS": "is given the coordinate system of the points", "open": "is opened", "loadMetadata": "is read", "initialize": "is prepared for queries"}


def leaves_in(l, depth=0):
    if not isinstance(l, Leaf) or depth > 8:
        return
    yield l
    for x in (l.tree or ())[1:]:
        yield from leaves_in(x, depth + 1)


def cstr_of(v):
    """address of the string whose text v points to"""
    for x in leaves_in(v):
        if x.tree[0] == "str" and len(x.tree) == 2 and isinstance(x.tree[1], Leaf) and x.tree[1].tree[:2] == ("fn", "ld"):
            return x.tree[1].tree[2]
    return None
