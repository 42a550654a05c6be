"""The query programs"""
from common_exc import *
import strmodels as SM
import models as MD
import appmodels as AM
import h01, h03, c01
from h01 import isl, th, exits
from h04 import nodes, why, eqc1
from c01 import fnargs, istext, par

MINIMUM = 40


def cases(d, g):
    """values with their conditions, no call raising"""
    return c01.cases(nothrow(d) if isinstance(d, Node) else d, nothrow(g))


class Run:
    """a program's run method; the function that reads the command line is not looked into"""
    def __init__(self, p, f, assume=None):
        self.p = p; self.f = f
        E = self.E = EV.Evaluator(p, models={**AM.IO, **h01.OWNERS, **SM.STREAMS, **SM.VECMUT})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        E.assume = assume
        opts = {g.name for g in p.repo_fns() if any(i.o in ("call", "invoke") and i.callee and i.callee.startswith("getopt") for i in g.instrs())}
        E.inline_pred = lambda fn, dem: False if fn.name in opts else None if fn.tu == f.tu or not fn.repo else False
        self.opts = {p.fns[n].dem if n in getattr(p, "fns", {}) else n for n in opts}
        E.run(f, None, EV.State())
        self.ev = E.events; self.loc = f.loc()
        self.ret = ZERO; self.st = None; self.res = None
        for w, g, s, r in exits(E):
            if w == "returning":
                self.ret = OR(self.ret, g); self.st = s; self.res = r
        self.loopst = self.st

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]

    def tokens(self, r):
        return [e for e in self.calls(r"^token$") if e.args[0].fp == r.fp]


QUERY = r"geomodelgrids::serial::Query::"
APPS = (("Query", "geomodelgrids_query", 3), ("QueryElev", "geomodelgrids_queryelev", 2), ("Borehole", "geomodelgrids_borehole", 2))
NODATA = -1e20


def feasible(d):
    return th(d) is not ZERO


def cond(d):
    """a value that is a truth value"""
    return NOT(eqc1(d, 0)) if isinstance(d, (Leaf, Node)) else d


def check(ctx):
    p = core.load(("lib", "bin"))
    for cls, prog, nc in APPS:
        fs = [f for f in p.repo_fns() if re.search(rf"apps::{cls}::run\(", f.dem) and f.blocks]
        if not fs:
            raise core.AnalysisBroken(f"apps::{cls}::run vanished")
        ctx.guard(prog, program, ctx, p, fs[0], cls, prog, nc)
        ctx.guard(f"{prog}: status", status, ctx, p, cls, prog)


def program(ctx, p, f, cls, prog, nc):
    R = Run(p, f)
    if R.st is None:
        ctx.ob(f"{prog}: returns", False, R.loc, "never returns normally"); return
    R.name = prog; R.cls = cls
    ret = nothrow(R.ret)
    # ---- the model query is set up as asked for
    init = R.calls(QUERY + r"initialize\(")
    ask = R.calls(QUERY + r"query\(") if cls != "QueryElev" else R.calls(QUERY + r"query(Top|TopoBathy)Elevation\(")
    if not init or not ask:
        if init or ask or not R.calls(QUERY):
            ctx.ob(f"{prog}: queries the models", False, R.loc, "no query is made" if not ask else "the models are never opened")
        else:
            ctx.und(f"{prog}: queries the models", "calls not recognised")
        return
    R.init = init; R.ask = ask
    ig = ZERO
    for e in init:
        ig = OR(ig, nothrow(e.guard))
    ctx.guard(f"{prog}: setup", setup, ctx, R, init, ask)
    # ---- returning without having queried: help only (or, for a borehole, no surface)
    other = AND(ret, NOT(ig))
    R.help = None
    if other is not ZERO:
        vs = [gvn._varinfo[v] for v in nodes(other)]
        flds = {field(R, i[1]) for i in vs if i and i[0] == "==" and field(R, i[1]) is not None}
        if len(nodes(other)) == 1 and len(flds) == 1:
            R.help = flds.pop()
            ctx.ob(f"{prog}: returns without querying only when help is asked for", True, R.loc)
            h = other
            out = ZERO
            for e in R.calls(r"^(token|write)$"):
                if "_ZSt4cout" in str(e.args[0].base):
                    out = OR(out, nothrow(e.guard))
            ctx.ob(f"{prog}: help is printed", not feasible(AND(h, NOT(out))), R.loc, "returns without printing" if feasible(AND(h, NOT(out))) else "")
            op = ZERO
            for e in R.calls(r"^open$"):
                op = OR(op, e.guard)
            ctx.ob(f"{prog}: help opens no file", not feasible(AND(op, h)), R.loc, "opens files" if feasible(AND(op, h)) else "")
            bad = [l for l, c in cases(R.res, h) if l.const != 0]
            ctx.ob(f"{prog}: help succeeds", not bad, R.loc, f"status {txt(bad[0], 30)}" if bad else "")
        else:
            ctx.und(f"{prog}: returns without querying only when help is asked for", why(other))
    if cls == "Borehole":
        ctx.guard(f"{prog}: borehole", borehole, ctx, R)
    else:
        ctx.guard(f"{prog}: points", points, ctx, R, nc)


def field(R, l):
    """offset of the member of the program object a value is read from"""
    if isinstance(l, Leaf) and l.tree[0] == "fn" and l.tree[1] == "str" and len(l.tree) > 2 and isinstance(l.tree[2], Leaf):
        l = l.tree[2]
    d = deref(l) if isinstance(l, Leaf) else None
    if d is None:
        ps = MD.parts_of(l) if isinstance(l, Leaf) else []
        if len(ps) == 1 and isinstance(ps[0], Leaf) and ps[0].fp != l.fp:
            return field(R, ps[0])
        return None
    return offset(d)


THIS = par(0, "this")


def offset(a):
    """member of the program object an address denotes"""
    if not isinstance(a, Leaf):
        return None
    o = l_sub(a, THIS)
    return int(o.const) if o.const is not None and 0 <= o.const < 100000 else None


def before(a, b):
    return a.n < b.n


# ---- set up ------------------------------------------------------------------------------------
def setup(ctx, R, init, ask):
    prog = R.name
    q = ask[0]
    for e in init:
        ctx.ob(f"{prog}: models are opened once, before they are queried", before(e, q) and not e.loops and e.args[0].fp == q.args[0].fp, e.loc(), "not so")
    anyq = ZERO
    for e in ask:
        anyq = OR(anyq, nothrow(e.guard))
    ig = ZERO
    for e in init:
        ig = OR(ig, nothrow(e.guard))
    ctx.ob(f"{prog}: models are opened before a point is queried", not feasible(AND(anyq, NOT(ig))), q.loc(), why(AND(anyq, NOT(ig))) if feasible(AND(anyq, NOT(ig))) else "")
    fin = R.calls(QUERY + r"finalize\(")
    for e in fin:
        ctx.ob(f"{prog}: the query is not closed before its last use", not e.loops and before(ask[-1], e), e.loc(), "closed before")
    log = R.calls(r"ErrorHandler::setLogFilename\("); on = R.calls(r"ErrorHandler::setLoggingOn\(")
    if not log:
        ctx.ob(f"{prog}: log file", False, R.loc, "the log file is never given to the error handler")
    for e in log:
        v = MD.cval(e.args[1])
        o = field(R, v)
        if o is None:
            ctx.und(f"{prog}: log file", f"name not recognised: {txt(v, 60)}"); continue
        empty = eqc1(MD.strlength(v), 0)
        miss = AND(AND(ig, NOT(empty)), NOT(nothrow(e.guard)))
        ctx.ob(f"{prog}: log file is set before the models are opened", not feasible(miss) and before(e, init[0]), e.loc(), f"not set when {why(miss)}" if feasible(miss) else "set after")
        g2 = ZERO
        for x in on:
            if before(x, init[0]) and x.args[0].fp == e.args[0].fp:
                g2 = OR(g2, AND(nothrow(x.guard), NOT(eqc1(x.args[1], 0))))
        miss = AND(AND(ig, NOT(empty)), NOT(g2))
        ctx.ob(f"{prog}: logging is switched on before the models are opened", not feasible(miss), e.loc(), f"not when {why(miss)}" if feasible(miss) else "")
        miss = AND(AND(ig, empty), g2)
        ctx.ob(f"{prog}: no log is written when no log file is given", not feasible(miss), e.loc(), f"switched on when {why(miss)}" if feasible(miss) else "")
    if R.cls == "Query":
        sq = R.calls(QUERY + r"setSquashing\("); mn = R.calls(QUERY + r"setSquashMinElev\(")
        if not sq or not mn:
            ctx.ob(f"{prog}: squashing", False, R.loc, "squashing is not passed on")
        for what, es in (("surface", sq), ("elevation", mn)):
            k = f"{prog}: squashing {what} is set before the first point"
            if not es or not sq:
                continue
            flds = {field(R, e.args[1]) for e in es}; sf = field(R, sq[0].args[1])
            if None in flds or len(flds) != 1 or sf is None:
                ctx.und(k, "value not recognised"); continue
            g = ZERO
            for e in es:
                if before(e, q) and not e.loops and e.args[0].fp == q.args[0].fp:
                    g = OR(g, nothrow(e.guard))
            on = NOT(eqc1(sq[0].args[1], 0))
            miss = AND(AND(anyq, on), NOT(g))
            ctx.ob(k, not feasible(miss), es[0].loc(), f"not set when {why(miss)}" if feasible(miss) else "")
        for e in sq:
            # an instance squashes nothing unless told to
            pass
        flds = {field(R, e.args[1]) for e in sq + mn}
        ctx.ob(f"{prog}: squashing surface and elevation are different settings", len(flds) != 1, R.loc, "the same member")
    for e in init:
        offs = [offset(a) for a in e.args[1:4]]
        R.names = e.args[2]; R.offs = offs
        ctx.ob(f"{prog}: models, names of values and coordinate system are three different settings", len({o for o in offs if o is not None}) == len([o for o in offs if o is not None]), e.loc(), "one used for another")


# ---- reading points ----------------------------------------------------------------------------
OPS = r"^(open|read|closed)$"


def points(ctx, R, nc):
    prog = R.name; ask = R.ask
    reads = R.calls(r"^read$")
    ins = [e for e in R.calls(r"^open$") if e.extra[0] == "in"]
    outs = [e for e in R.calls(r"^open$") if e.extra[0] == "out"]
    if len(ins) != 1 or len(outs) != 1 or not reads:
        ctx.und(f"{prog}: reads points", "files not recognised"); return
    i, o = ins[0], outs[0]
    fi, fo = field(R, i.args[1]), field(R, o.args[1])
    R.fin, R.fout = fi, fo
    for e, nm in ((i, "points"), (o, "output")):
        made = [l for l, c in cases(e.args[1], e.guard) if field(R, l) is None]
        if made and any(len(MD.parts_of(l)) > 1 or MD.const_string(l) is not None for l in made):
            ctx.ob(f"{prog}: the {nm} file has the name given", False, e.loc(), f"its name is {MD.show_string(made[0])[:60]}")
    if fi is None or fo is None:
        ctx.und(f"{prog}: files", "names not recognised")
    else:
        ctx.ob(f"{prog}: points and output are two files", fi != fo, o.loc(), "one name used for both")
    ret = nothrow(R.ret)
    opened(ctx, R, i, "points file"); opened(ctx, R, o, "output file")
    q = ask[0]
    if not q.loops:
        ctx.ob(f"{prog}: every point of the file is answered", False, q.loc(), "a query outside of any loop") if all(not e.loops for e in reads) else ctx.und(f"{prog}: every point of the file is answered", "queries not in the loop that reads")
        return
    key = q.loops[-1]
    info = R.E.loopinfo.get(key)
    if info is None or any(e.loops != q.loops for e in ask + reads) or any(e.args[0].fp != i.args[0].fp for e in reads):
        ctx.und(f"{prog}: every point of the file is answered", "loop not recognised"); return
    # coordinates: the numbers of the file in order
    s0 = reads[0].extra[0]
    if not isinstance(s0, Leaf) or s0.tree[0] != "fn" or s0.tree[1] != "loopval":
        ctx.und(f"{prog}: every point of the file is answered", f"reading not recognised: {txt(s0, 60)}"); return
    chain = [s0]
    for n in range(nc):
        chain.append(l_fn("read", chain[-1]))
    want = [l_fn("number", s) for s in chain[:nc]]
    ok = True
    for e in ask:
        cs = e.args[2:2 + nc] if R.cls == "Query" else e.args[1:1 + nc]
        if len(cs) != nc:
            ctx.und(f"{prog}: coordinates", "arguments not recognised"); return
        for n, (a, w) in enumerate(zip(cs, want)):
            k = f"{prog}: coordinate {n} of a query is number {n + 1} of the line"
            if isinstance(a, Leaf) and a.fp == w.fp:
                ctx.ob(k, True, e.loc())
            else:
                num = [l for l, _ in cases(a, e.guard) if l.fp != w.fp]
                if num and (AM.is_fn(num[0], "number") or num[0].const is not None or arith(num[0], s0)):
                    ctx.ob(k, False, e.loc(), f"is {txt(num[0], 60)}")
                else:
                    ctx.und(k, f"not recognised: {txt(a, 60)}"); ok = False
    if not ok:
        return
    sn = chain[-1]
    cons = ONE
    for s in chain:
        cons = AND(cons, AM.consistent(s))
    anyq = ZERO
    for e in ask:
        anyq = OR(anyq, nothrow(e.guard))
    # an iteration that goes on has answered the point
    bad = ZERO
    bg = ZERO
    cell = None
    for fr, g, st in info["back"]:
        g = nothrow(g)
        s = R.E.load(st.copy(), padd(i.args[0], gvn.const(AM.STATE)), "i64", 8, None)
        bg = OR(bg, g)
        d = [l for l, c in cases(s, g) if l.fp != sn.fp and feasible(AND(c, g))]
        if d:
            ctx.und(f"{prog}: every point of the file is answered", f"{txt(d[0], 60)} at the end of an iteration"); return
        bad = OR(bad, AND(g, NOT(anyq)))
    bad = AND(bad, cons)
    ctx.ob(f"{prog}: every point read is answered", not feasible(bad), q.loc(), f"goes on to the next without a query when {why(bad)}" if feasible(bad) else "")
    bad = AND(AND(anyq, cons), AM.failed(sn))
    ctx.ob(f"{prog}: only points read are answered", not feasible(bad), q.loc(), f"queries coordinates that could not be read when {why(bad)}" if feasible(bad) else "")
    # the loop is left only when there is nothing more to read
    for x in info["exits"]:
        g = nothrow(x[2]); st = x[3]
        if not feasible(g):
            continue
        s = R.E.load(st.copy(), padd(i.args[0], gvn.const(AM.STATE)), "i64", 8, None)
        for l, c in cases(s, g):
            if not any(l.fp == y.fp for y in chain):
                ctx.und(f"{prog}: reads until the end of the file", f"{txt(l, 60)}"); continue
            end = OR(AM.failed(l), AM.ended(l))
            lost = AND(AND(AND(g, c), cons), NOT(end))
            ctx.ob(f"{prog}: reads until the end of the file", not feasible(lost), q.loc(), f"stops when {why(lost)}" if feasible(lost) else "")
            if l.fp == sn.fp:
                # the last point has been read: it is answered before leaving
                lost = AND(AND(AND(AND(g, c), cons), NOT(AM.failed(sn))), NOT(anyq))
                ctx.ob(f"{prog}: the last point of the file is answered", not feasible(lost), q.loc(), f"stops without answering it when {why(lost)}" if feasible(lost) else "")
    # entering the loop
    lost = AND(AND(nothrow(OR(R.ret, ZERO)), hidden(R)), NOT(nothrow(info["guard"])))
    ctx.ob(f"{prog}: reading starts", not feasible(lost), q.loc(), f"no point is read when {why(lost)}" if feasible(lost) else "")
    first = {e.n for e in reads}
    ops = [e for e in R.ev if e.kind == "call" and e.args and isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == ptrparts(i.args[0])[0] and not re.search(OPS, e.callee or "") and not re.search(r"~|is_open|::(good|fail|eof|bad)\(", e.callee or "")]
    for e in ops:
        ctx.und(f"{prog}: operations on the points file", f"{e.callee[:60]}")
    rows(ctx, R, o, q, ask, want, key, anyq, cons)
    header(ctx, R, o, q, nc)
    written(ctx, R, o)


def arith(l, s, depth=0):
    """arithmetic on numbers read"""
    if AM.is_fn(l, "number") or l.const is not None:
        return True
    return depth < 6 and l.tree[0] in ("+", "-", "*", "/", "neg") and all(arith(x, s, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf))


def hidden(R):
    """runs that are to answer points"""
    g = ZERO
    for e in R.init:
        g = OR(g, nothrow(e.guard))
    return g


def opened(ctx, R, e, what):
    """no normal end when the file could not be opened"""
    for l, c in cases(app1("op2", lambda x: l_fn("opened", x, e.args[0]), e.args[1]), ONE):
        shut = NOT(AM.isopen(l))
        bad = AND(AND(nothrow(R.ret), hidden(R)), AND(shut, nothrow(e.guard)))
        ctx.ob(f"{R.name}: a {what} that cannot be opened is an error", not feasible(bad), e.loc(), f"ends normally when {why(bad)}" if feasible(bad) else "")
        bad = AND(AND(nothrow(hidden(R)), NOT(shut)), AND(NOT(nothrow(R.ret)), nothrow(e.guard)))
    m = AND(AND(nothrow(R.ret), hidden(R)), NOT(nothrow(e.guard)))
    if R.cls != "Borehole":
        ctx.ob(f"{R.name}: the {what} is opened", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")


# ---- writing rows ------------------------------------------------------------------------------
def white(l, end):
    """text that begins or ends with white space (None: not known)"""
    s = MD.const_string(l)
    if s is None:
        return None
    return bool(s) and (s[-1] if end else s[0]) in " \t\n"


def width(e):
    w = e.extra[1]
    return int(w.const) if isinstance(w, Leaf) and w.const is not None else None


def numlen(e):
    """longest text of a number in the format in effect: None when not known, with the number of significant digits"""
    pr, fm = e.extra[2], e.extra[3]
    if not isinstance(pr, Leaf) or pr.const is None or not isinstance(fm, Leaf) or fm.tree[0] != "fn":
        return None, None
    P = int(pr.const)
    if fm.tree[1] == "scientific":
        return P + 7, P + 1
    if fm.tree[1] == "general":
        return P + 7, P
    if fm.tree[1] == "fixed":
        return None, 0
    return None, None


def separated(a, b):
    """white space between two tokens written one after the other"""
    for x, end in ((a, True), (b, False)):
        if x.extra[0] == "text" and white(x.args[1], end):
            return True
    if b.extra[0] == "number":
        w = width(b); n, _ = numlen(b)
        if w is None or n is None:
            return None
        return w > n
    if b.extra[0] == "text":
        s = MD.const_string(b.args[1]); w = width(b)
        if w is None:
            return None
        if s is None:
            return w > 0
        return w > len(s)
    return None


def rowtokens(ctx, R, o, q, k):
    """what is written for a point"""
    toks = flat(R, o.args[0], loops=q.loops)
    if toks is None or any(e.extra[0] == "text" and MD.const_string(e.args[1]) is None or e.extra[0] == "unknown" for e in toks):
        ctx.und(k, "text not recognised"); return None
    late = [e for e in R.tokens(o.args[0]) if e.loops[:len(q.loops)] != q.loops and any(before(t, e) for t in toks)]
    late = [e for e in late if e.extra[0] != "text" or (MD.const_string(e.args[1]) or "x")[0] not in "#\n"]
    if toks:
        ctx.ob(f"{k}: nothing follows the rows", not late, late[0].loc() if late else q.loc(), "written after the last row")
    return toks


def rows(ctx, R, o, q, ask, want, key, anyq, cons):
    """one row for each point: coordinates, values, end of line"""
    prog = R.name
    k = f"{prog}: row"
    toks = rowtokens(ctx, R, o, q, k)
    if toks is None:
        return
    if not toks:
        (ctx.ob(k, False, q.loc(), "nothing is written for a point") if not any(e.loops[:len(q.loops)] == q.loops for e in R.calls(r"^token$|write")) else ctx.und(k, "writing not recognised")); return
    for e in toks:
        if e.loops == q.loops:
            lost = AND(AND(anyq, cons), NOT(nothrow(e.guard)))
            lost = AND(lost, NOT(alternatives(toks, e)))
            ctx.ob(f"{k}: written for every point", not feasible(lost), e.loc(), f"not when {why(lost)}" if feasible(lost) else "")
            extra = AND(AND(nothrow(e.guard), cons), NOT(anyq))
            ctx.ob(f"{k}: written only for points answered", not feasible(extra), e.loc(), f"also when {why(extra)}" if feasible(extra) else "")
    nums = [e for e in toks if e.extra[0] in ("number", "integer", "unknown")]
    plain = [e for e in nums if e.loops == q.loops]
    inner = [e for e in nums if e.loops != q.loops]
    vals = list(want)
    if R.cls == "QueryElev":
        vals = vals + [None]
    if len(plain) != len(vals):
        if inner and R.cls != "Query" or len({e.loops for e in inner}) > 1:
            ctx.und(f"{k}: coordinates", "numbers written in a loop"); return
        ctx.ob(f"{k}: coordinates", False, q.loc(), f"{len(plain)} numbers are written before the values, not {len(vals)}")
        return
    for n, (e, w) in enumerate(zip(plain, vals)):
        kk = f"{k}: column {n}"
        if w is None:
            elevation(ctx, R, kk, e, ask); continue
        bad = [l for l, c in cases(e.args[1], AND(e.guard, cons)) if l.fp != w.fp]
        if bad and not (AM.is_fn(bad[0], "number") or bad[0].const is not None or arith(bad[0], None)):
            ctx.und(kk, f"not recognised: {txt(bad[0], 60)}")
        else:
            ctx.ob(kk, not bad, e.loc(), f"is {txt(bad[0], 60)}, not coordinate {n} as read" if bad else "")
    if R.cls == "QueryElev":
        if inner:
            ctx.und(f"{k}: columns", "numbers written in a loop")
        line(ctx, R, k, toks, q, [])
        return
    if values(ctx, R, k, q, q.args[1], inner, plain):
        line(ctx, R, k, toks, q, inner)


def alternatives(toks, e):
    """other tokens of the same column (one of two branches)"""
    g = ZERO
    for x in toks:
        if x is not e and x.loops == e.loops and x.extra[0] == e.extra[0] and not feasible(AND(nothrow(x.guard), nothrow(e.guard))):
            g = OR(g, nothrow(x.guard))
    return g


def names_count(R):
    """number of names asked for"""
    st = R.E.state or R.st
    b = R.E.load(R.st.copy(), R.names, "ptr", 8, None); e = R.E.load(R.st.copy(), padd(R.names, gvn.const(8)), "ptr", 8, None)
    return b, e


def values(ctx, R, k, q, buf, inner, plain):
    """the values of the query, all of them, in order"""
    if not inner:
        ctx.ob(f"{k}: values", False, q.loc(), "the values are not written"); return False
    if len({e.loops for e in inner}) != 1 or len(inner) != 1 or len(inner[0].loops) != len(q.loops) + 1:
        ctx.und(f"{k}: values", "loop over the values not recognised"); return False
    e = inner[0]
    it, n = h03.trip(R, e.loops[-1])
    if it is None:
        ctx.und(f"{k}: values", "loop over the values not recognised"); return False
    ok = True
    for l, c in cases(e.args[1], e.guard):
        a = deref(l)
        if a is None:
            if AM.is_fn(l, "number") or l.const is not None:
                ctx.ob(f"{k}: values", False, e.loc(), f"is {txt(l, 60)}, not a value of the query"); return False
            ctx.und(f"{k}: values", f"not recognised: {txt(l, 60)}"); return False
        off = l_sub(a, buf)
        good = l_sub(off, l_mul(it, gvn.const(8))).fp == ZERO.fp
        if not good and not (ptrparts(a)[0] == ptrparts(buf)[0]):
            ctx.und(f"{k}: values", f"not recognised: {txt(l, 60)}"); return False
        ctx.ob(f"{k}: values are those of the query in order", good, e.loc(), f"value number i is taken from {txt(off, 60)}" if not good else "")
    ctx.ob(f"{k}: values are written after they were queried", before(q, e), e.loc(), "written before the query")
    ctx.ob(f"{k}: values come after the coordinates", all(before(x, e) for x in plain), e.loc(), "written before")
    room(ctx, R, k)
    if n is None:
        ctx.und(f"{k}: all values", "number of values not recognised"); return True
    cnt = nnames(R)
    d = l_sub(n, cnt)
    if d.const is None and getattr(R, "buf", None) is not None and isinstance(R.buf.args[1], Leaf):
        # as many as the buffer holds
        end = l_add(l_mul(n, gvn.const(8)), buf)
        if AM.is_fn(end, "vecend") or any(isinstance(x, Leaf) and AM.is_fn(x, "vecend") and l_sub(l_mul(n, gvn.const(8)), l_sub(x, buf)).fp == ZERO.fp for x in subleaves(n)):
            d = l_sub(R.buf.args[1], cnt)
    if d.const is not None:
        ctx.ob(f"{k}: all values are written", d.const == 0, e.loc(), f"{txt(d, 20)} more than asked for" if d.const else "")
    else:
        ctx.und(f"{k}: all values", f"number of values not recognised: {txt(n, 80)}")
    return True


def subleaves(l, depth=0):
    if not isinstance(l, Leaf) or depth > 8:
        return []
    return [l] + [y for x in l.tree[1:] if isinstance(x, Leaf) for y in subleaves(x, depth + 1)]


def room(ctx, R, k):
    """the values of a query fit into the buffer"""
    vs = [e for e in R.calls(r"^std::vector<double, std::allocator<double>\s*>::(vector|resize)\(unsigned long")]
    if len(vs) != 1:
        ctx.und(f"{k}: buffer for the values", "not recognised"); return
    R.buf = vs[0]
    for l, c in cases(vs[0].args[1], vs[0].guard):
        d = l_sub(l, nnames(R))
        if d.const is None:
            ctx.und(f"{k}: buffer for the values", f"size not recognised: {txt(l, 60)}"); continue
        ctx.ob(f"{k}: the values of a query fit into the buffer", d.const >= 0, vs[0].loc(), f"{txt(d, 20)} more than asked for")


def nnames(R):
    """number of names asked for: what the vector given to the query holds"""
    st = R.loopst
    b = R.E.load(st.copy(), R.names, "ptr", 8, None); e = R.E.load(st.copy(), padd(R.names, gvn.const(8)), "ptr", 8, None)
    return l_div(l_sub(e, b), gvn.const(32))


def line(ctx, R, k, toks, q, inner):
    """columns are separated, the line ends"""
    seq = list(toks)
    # what follows an inner loop's last token is its first
    pairs = [(a, b) for a, b in zip(seq, seq[1:])]
    if inner:
        ls = [e for e in seq if e.loops == inner[0].loops]
        if len(ls) >= 1:
            pairs.append((ls[-1], ls[0]))
            i = seq.index(ls[0])
            j = seq.index(ls[-1])
            if i and j + 1 < len(seq):
                pairs.append((seq[i - 1], seq[j + 1]))
    for n, (a, b) in enumerate(pairs):
        if a.extra[0] in ("number", "integer") and b.extra[0] in ("number", "integer") or (b.extra[0] == "number" and a.extra[0] == "text"):
            s = separated(a, b)
            kk = f"{k}: columns are separated by white space"
            if s is None:
                ctx.und(kk, f"width or format not recognised at {b.loc()}")
            else:
                ctx.ob(kk, s, b.loc(), "two numbers may be written without white space between them")
    for e in toks:
        if e.extra[0] == "number":
            n, dg = numlen(e)
            kk = f"{k}: numbers have at least seven significant digits"
            if dg is None:
                ctx.und(kk, f"format not recognised at {e.loc()}")
            else:
                ctx.ob(kk, dg >= 7, e.loc(), f"written with {dg} significant digits")
    brk = []
    for n, e in enumerate(seq):
        if e.extra[0] == "text":
            s = MD.const_string(e.args[1])
            if s is None:
                ctx.und(f"{k}: one line", f"text not recognised at {e.loc()}"); return
            brk.append((n, s))
    bad = [(n, s) for n, s in brk if "\n" in s[:-1] or ("\n" in s and n != len(seq) - 1) or ("\n" in s and seq[n].loops != q.loops)]
    ctx.ob(f"{k}: is one line", not bad, seq[bad[0][0]].loc() if bad else q.loc(), "a line ends within the row")
    last = MD.const_string(seq[-1].args[1]) if seq[-1].extra[0] == "text" else ""
    ctx.ob(f"{k}: ends the line", bool(last) and last.endswith("\n"), seq[-1].loc(), "no end of line after the last value")


def elevation(ctx, R, k, e, ask):
    """the elevation asked for"""
    top = [x for x in ask if "queryTopElevation" in x.callee]; topo = [x for x in ask if "queryTopoBathyElevation" in x.callee]
    for which, es in (("top surface", top), ("topography/bathymetry", topo)):
        ctx.ob(f"{R.name}: {which} can be asked for", bool(es), R.loc, "never queried")
    for l, c in cases(e.args[1], nothrow(e.guard)):
        src = [x for x in ask if isinstance(x.res, Leaf) and x.res.fp == l.fp]
        if not src:
            (ctx.ob(k, False, e.loc(), f"is {txt(l, 60)}, not the elevation") if AM.is_fn(l, "number") or l.const is not None else ctx.und(k, f"not recognised: {txt(l, 60)}")); continue
        ctx.ob(k, not feasible(AND(c, NOT(nothrow(src[0].guard)))), e.loc(), "not queried")
    both = [AND(nothrow(a.guard), nothrow(b.guard)) for a in top for b in topo]
    # one member decides
    if top and topo:
        d = [gvn._varinfo[v] for v in nodes(nothrow(topo[0].guard)) - nodes(nothrow(top[0].guard)) | nodes(nothrow(top[0].guard)) - nodes(nothrow(topo[0].guard))]
        R.topo = None
        fl = set()
        for v in nodes(nothrow(topo[0].guard)):
            i = gvn._varinfo[v]
            if i and i[0] == "==" and field(R, i[1]) is not None and i[1].const is None:
                on = gvn.restrict_vars(nothrow(topo[0].guard), lambda x: True if x == v else None)
                if on is ZERO:
                    t = gvn.restrict_vars(nothrow(top[0].guard), lambda x: False if x == v else None)
                    if t is ZERO:
                        fl.add(field(R, i[1]))
        if len(fl) == 1:
            R.topo = fl.pop()
        tg, og = nothrow(top[0].guard), nothrow(topo[0].guard)
        dec = (nodes(tg) | nodes(og)) - nodes(OR(tg, og))
        num = [v for v in dec if gvn._varinfo[v] and any(isinstance(x, Leaf) and mentions(x, ("number", "integer")) for x in gvn._varinfo[v][1:])]
        if num:
            ctx.ob(f"{R.name}: which surface is queried is a setting", False, topo[0].loc(), f"depends on the point: {txt(gvn._varinfo[num[0]][1], 60)}"); return
        ctx.ob(f"{R.name}: which surface is queried is a setting", R.topo is not None, topo[0].loc(), "not decided by one setting") if R.topo is not None else ctx.und(f"{R.name}: which surface is queried is a setting", "not recognised")


# ---- header ------------------------------------------------------------------------------------
def flat(R, r, depth=0, until=None, loops=None):
    """tokens written to a stream, the text of text streams in place"""
    out = []
    for e in R.tokens(r):
        if loops is not None and e.loops[:len(loops)] != loops:
            if depth:
                return None
            continue
        if until is not None and e.n >= until:
            break
        ps = MD.parts_of(e.args[1]) if e.extra[0] == "text" and isinstance(e.args[1], Leaf) else []
        if len(ps) == 1 and AM.is_fn(ps[0], "text of") and depth < 3:
            sub = flat(R, ps[0].tree[2], depth + 1, None, loops)
            if not sub:
                return None
            out += sub
        elif any(isinstance(x, Leaf) and tree_has(x, "text of") for x in ps):
            return None
        else:
            out.append(e)
    return out


def tree_has(l, name, depth=0):
    if not isinstance(l, Leaf) or depth > 6:
        return False
    return AM.is_fn(l, name) or any(tree_has(x, name, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf))


def header(ctx, R, o, q, nc, labels=None):
    prog = R.name
    k = f"{prog}: header"
    toks = flat(R, o.args[0], until=min([e.n for e in R.tokens(o.args[0]) if e.loops[:len(q.loops)] == q.loops] + [q.n]))
    if toks is None:
        ctx.und(k, "not recognised"); return
    if not toks:
        ctx.ob(k, False, o.loc(), "no header is written"); return
    text = []           # (text or None for unknown, loops, event)
    for e in toks:
        text.append((MD.const_string(e.args[1]) if e.extra[0] == "text" else None, e.loops, e))
    f0 = text[0][0]
    ctx.ob(f"{k}: begins with #", f0 is not None and f0.startswith("#"), toks[0].loc(), "begins with something else")
    for n, (s, lp, e) in enumerate(text):
        w = width(e)
        if s and "\n" in s:
            rest = s.split("\n", 1)[1]
            nxt = rest if rest else (text[n + 1][0] if n + 1 < len(text) else "END")
            last = not rest and n + 1 == len(text)
            ctx.ob(f"{k}: every line begins with #", last or bool(nxt) and nxt.startswith("#") and not lp, e.loc(), "a line of the header does not begin with #")
            if rest and "\n" in rest:
                ctx.und(f"{k}: lines", "several lines in one text")
    l = text[-1][0]
    ctx.ob(f"{k}: ends the line", l is not None and l.endswith("\n") and not text[-1][1], toks[-1].loc(), "the first row is written on the line of the header")
    # the command line
    args = [(n, e) for n, (s, lp, e) in enumerate(text) if s is None and e.extra[0] == "text" and lp and argelem(e.args[1]) is not None]
    if not args:
        (ctx.ob if all(s is not None or lp for s, lp, e in text) else ctx.und)(*((f"{k}: the command line", False, toks[0].loc(), "the arguments of the program are not in the header") if all(s is not None or lp for s, lp, e in text) else (f"{k}: the command line", "not recognised")))
    for n, e in args:
        it, cnt = h03.trip(R, e.loops[-1])
        ix = argelem(e.args[1])
        if it is None or cnt is None:
            ctx.und(f"{k}: the command line", "loop not recognised"); continue
        argc = par(1, "argc")
        good = all(x.fp == it.fp for x in [ix])
        ctx.ob(f"{k}: the command line is complete", good and cnt.fp in (argc.fp, l_fn("sext", argc).fp) if cnt.fp in (argc.fp,) or l_sub(cnt, argc).const is not None else True, e.loc(), f"arguments {txt(ix, 40)}, {txt(cnt, 40)} of them" )
    # names of the values
    if R.cls == "QueryElev":
        lab = [s for s, lp, e in text if s and not lp and s.strip(" #\n\t,")]
        ctx.ob(f"{k}: one label for each column", len(" ".join(lab).split()) >= 1 and len([x for s in lab for x in s.replace("#", " ").split()]) == nc + 1, toks[0].loc(), f"labels {lab}")
        return
    names = [(n, e) for n, (s, lp, e) in enumerate(text) if s is None and e.extra[0] == "text" and lp and argelem(e.args[1]) is None]
    if not names:
        ctx.ob(f"{k}: names of the values", False, toks[0].loc(), "the names of the values are not in the header") if not any(s is None for s, lp, e in text if not (lp and argelem(e.args[1]) is not None)) else ctx.und(f"{k}: names of the values", "not recognised")
        return
    for n, e in names:
        it, cnt = h03.trip(R, e.loops[-1])
        if it is None or cnt is None:
            ctx.und(f"{k}: names of the values", "loop not recognised"); continue
        ix = namelem(R, e.args[1])
        if ix is None:
            ctx.und(f"{k}: names of the values", f"not recognised: {txt(e.args[1], 60)}"); continue
        ctx.ob(f"{k}: names are in the order of the values", ix.fp == it.fp, e.loc(), f"name number i is {txt(ix, 40)}")
        d = l_sub(cnt, nnames(R))
        if d.const is None:
            ctx.und(f"{k}: names of all values", f"{txt(cnt, 60)}")
        else:
            ctx.ob(f"{k}: names of all values", d.const == 0, e.loc(), f"{txt(d, 20)} more than asked for" if d.const else "")
    lab = [x for m, (s, lp, e) in enumerate(text) if s and not lp and m < names[0][0] for x in s.replace("#", " ").split()]
    ctx.ob(f"{k}: one label for each coordinate before the names", len(lab) == nc, toks[0].loc(), f"labels {lab}")
    seq = [e for e in toks]
    for m, (a, b) in enumerate(zip(seq, seq[1:])):
        if b.extra[0] == "text" and not white(b.args[1], False) and not (MD.const_string(b.args[1]) or "x").startswith("#"):
            s = separated(a, b)
            if a.loops == b.loops and b.loops:
                continue
            if s is not None:
                ctx.ob(f"{k}: labels are separated by white space", s or MD.const_string(a.args[1]) in ("#",), b.loc(), "two labels without white space between them")


def argelem(l):
    """index of the program argument a text is"""
    ps = MD.parts_of(l) if isinstance(l, Leaf) else []
    if len(ps) != 1 or not isinstance(ps[0], Leaf):
        return None
    t = ps[0]
    a = None
    if AM.is_fn(t, "chars"):
        a = deref(t.tree[2])
    if a is None:
        return None
    d = l_sub(a, par(2, "argv"))
    ix = l_div(d, gvn.const(8))
    return ix if "argv" in txt(a, 200) else None


def namelem(R, l):
    ps = MD.parts_of(l) if isinstance(l, Leaf) else []
    if len(ps) != 1 or not isinstance(ps[0], Leaf):
        return None
    t = ps[0]
    if AM.is_fn(t, "str"):
        t = t.tree[2]
    a = deref(t)
    if a is None:
        return None
    b = R.E.load(R.loopst.copy(), R.names, "ptr", 8, None)
    return l_div(l_sub(a, b), gvn.const(32))


# ---- end ---------------------------------------------------------------------------------------
def written(ctx, R, o):
    """errors while writing are noticed"""
    k = f"{R.name}: errors writing the output are noticed"
    ok = AND(nothrow(R.ret), hidden(R))
    done = AND(ok, nothrow(o.guard))
    toks = R.tokens(o.args[0])
    fin = [e for e in R.calls(r"^(closed|flushed)$") if e.args[0].fp == o.args[0].fp and not e.loops and all(before(t, e) for t in toks)]
    miss = done
    for e in fin:
        miss = AND(miss, NOT(nothrow(e.guard)))
    if any(e.args[0].fp == o.args[0].fp and e.loops for e in R.calls(r"^(closed|flushed)$")) and not fin:
        ctx.und(k, "closed in a loop")
    else:
        ctx.ob(f"{R.name}: the output is closed or flushed before its state is examined", not feasible(miss), o.loc(), f"not when {why(miss)}" if feasible(miss) else "")
    for e in fin:
        for l, c in cases(e.extra[1], e.guard):
            bad = AND(AND(done, AND(c, nothrow(e.guard))), AM.failed(l))
            for x in fin:
                if x.n > e.n:
                    bad = AND(bad, NOT(nothrow(x.guard)))
            ctx.ob(k, not feasible(bad), e.loc(), f"ends normally when {why(bad)}" if feasible(bad) else "")
    z = [(l, c) for l, c in cases(R.res, ok) if l.const != 0 and feasible(AND(c, ok))]
    if R.cls != "Borehole":
        ctx.ob(f"{R.name}: success is status 0", not z, R.loc, f"status {txt(z[0][0], 30)}" if z else "")


def status(ctx, p, cls, prog):
    """main: the status of run, another one for errors"""
    fs = [f for f in p.repo_fns() if f.name == "main" and any(i.o in ("call", "invoke") and i.callee and re.search(rf"apps::{cls}::run\(", p.dem(i.callee)) for i in f.instrs())]
    if not fs:
        ctx.und(f"{prog}: status", "main function not found"); return
    f = fs[0]
    E = EV.Evaluator(p, models={**h01.OWNERS, **SM.STREAMS, **SM.VECMUT})
    rx = rf"apps::{cls}::run\("
    E.throwing = lambda dem: bool(re.search(rx, dem))
    E.inline_pred = lambda fn, dem: None if fn.tu == f.tu or not fn.repo else False
    E.run(f)
    runs = [e for e in E.events if e.kind == "call" and e.callee and re.search(rx, e.callee)]
    if len(runs) != 1:
        ctx.und(f"{prog}: status", "call of run not recognised"); return
    r = runs[0]
    thr = throwing(ONE, r.callee)
    for w, g, s, v in exits(E):
        if w != "returning":
            bad = AND(g, r.guard)
            ctx.ob(f"{prog}: no exception leaves main", not feasible(bad), f.loc(), "an exception ends the program")
            continue
        okg = nothrow(g)
        bad = [l for l, c in cases(v, okg) if not (isinstance(r.res, Leaf) and l.fp == r.res.fp) and feasible(AND(okg, c))]
        # another name of the same number
        bad = [l for l in bad if not h03.eqp(l, r.res)] if hasattr(h03, "eqp") and bad else bad
        ctx.ob(f"{prog}: the status is that of run", not bad, f.loc(), f"is {txt(bad[0], 30)}" if bad else "")
        err = gvn.restrict_vars(g, lambda x: True if is_throw_var(x) else None)
        ve = gvn.restrict_vars(v, lambda x: True if is_throw_var(x) else None) if isinstance(v, Node) else v
        bad = [(l, c) for l, c in c01.cases(ve, err) if l.const is None or l.const % 256 == 0]
        bad = [l for l, c in bad if feasible(AND(err, c))]
        ctx.ob(f"{prog}: the status of an error is not 0", not bad and feasible(err), f.loc(), f"status {txt(bad[0], 30)} after an exception" if bad else "an exception is not caught" if not feasible(err) else "")


# ---- borehole ----------------------------------------------------------------------------------
def mentions(l, names, depth=0):
    return depth < 8 and (any(AM.is_fn(l, n) for n in names) or any(mentions(x, names, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf)))


def borehole(ctx, R):
    prog = R.name; q = R.ask[0]
    outs = [e for e in R.calls(r"^open$") if e.extra[0] == "out"]
    surf = R.calls(QUERY + r"queryTopElevation\(")
    if len(outs) != 1 or len(R.ask) != 1:
        ctx.und(f"{prog}: output", "not recognised"); return
    if not surf:
        ctx.ob(f"{prog}: starts at the ground surface", False, R.loc, "the elevation of the ground surface is not queried"); return
    if len(surf) != 1:
        ctx.und(f"{prog}: ground surface", "several queries"); return
    o = outs[0]; s = surf[0]
    R.fout = field(R, o.args[1]); R.fin = None
    opened(ctx, R, o, "output file")
    ret = AND(nothrow(R.ret), hidden(R))
    # the location
    xy = [field(R, a) for a in q.args[2:4]]; sxy = [field(R, a) for a in s.args[1:3]]
    if None in xy or None in sxy:
        ctx.und(f"{prog}: location", "not recognised")
    else:
        ctx.ob(f"{prog}: points are at the location of the borehole", xy == sxy and xy[1] == xy[0] + 8, q.loc(), f"points at members {xy}, surface at {sxy}")
    # outside of all models
    nod = app1("nodata", lambda l: gvn.l_feq(l, gvn.const(NODATA)) if hasattr(gvn, "l_feq") else ZERO, s.res)
    out = AND(ret, nod)
    ctx.ob(f"{prog}: no file is written when the location is outside of the models", not feasible(AND(out, nothrow(o.guard))), o.loc(), "the output file is opened")
    bad = [l for l, c in cases(R.res, out) if l.const is None or l.const % 256 == 0]
    ctx.ob(f"{prog}: a location outside of the models is an error", not bad, s.loc(), f"status {txt(bad[0], 30)}" if bad else "")
    inside = AND(ret, NOT(nod))
    m = AND(inside, NOT(nothrow(o.guard)))
    ctx.ob(f"{prog}: a location inside of the models has output", not feasible(m), o.loc(), f"none when {why(m)}" if feasible(m) else "")
    bad = [l for l, c in cases(R.res, inside) if l.const != 0]
    ctx.ob(f"{prog}: success is status 0", not bad, R.loc, f"status {txt(bad[0], 30)}" if bad else "")
    # depths
    if not q.loops or R.E.loopinfo.get(q.loops[-1]) is None:
        ctx.und(f"{prog}: depths", "loop not recognised"); return
    it, n = h03.trip(R, q.loops[-1])
    if it is None or n is None:
        ctx.und(f"{prog}: depths", "loop not recognised"); return
    z = q.args[4]
    dzs = set()
    for l, c in cases(z, nothrow(q.guard)):
        z0 = subst(l, {it.fp: ZERO}); z1 = subst(l, {it.fp: ONE})
        dz = l_sub(z0, z1)
        if l_sub(l_sub(z0, l_mul(it, dz)), l).fp != ZERO.fp or field(R, dz) is None:
            neg = field(R, l_neg(dz)) is not None
            (ctx.ob(f"{prog}: points are dz apart going down", False, q.loc(), f"elevation {txt(l, 80)}") if neg or dz.const is not None else ctx.und(f"{prog}: points are dz apart", f"not recognised: {txt(l, 80)}"))
            return
        dzs.add(field(R, dz)); DZ = dz
        off = l_sub(z0, s.res)
        ok = off.const is not None and abs(float(off.const)) <= 1e-3 and float(off.const) <= 0 if off.const is not None else None
        if ok is None and z0.const == 0:
            # a surface at 0
            ok = not feasible(AND(c, NOT(eqc1(s.res, 0))))
            ok = ok or not feasible(AND(c, NOT(app1("feq0", lambda x: gvn.l_feq(x, ZERO), s.res))))
        if ok is None and off.const is None and l_sub(z0, l_sub(s.res, DZ)).const is not None or ok is None and l_sub(z0, l_add(s.res, DZ)).const is not None or ok is None and field(R, off) is not None:
            ok = False      # off by a setting
        if ok is None:
            ctx.und(f"{prog}: starts at the ground surface", f"not recognised: {txt(z0, 80)}")
        else:
            ctx.ob(f"{prog}: starts at the ground surface", ok, q.loc(), f"starts at {txt(z0, 60)}")
    ctx.ob(f"{prog}: points are dz apart going down", len(dzs) == 1, q.loc(), "several settings")
    # number of points: 1 + maximum depth / dz
    k = f"{prog}: points reach the maximum depth"
    t = n; off = 0
    for d in (0, 1, -1, 2, -2):
        c = l_add(n, gvn.const(d))
        if isinstance(c, Leaf) and c.tree[0] == "fn" and c.tree[1] in ("fptoui", "fptosi", "trunc", "trunc64", "floor", "zext", "sext"):
            t = c; off = -d; break
    while isinstance(t, Leaf) and t.tree[0] == "fn" and t.tree[1] in ("fptoui", "fptosi", "floor", "trunc", "trunc64", "zext", "sext") and isinstance(t.tree[2], Leaf):
        t = t.tree[2]
    R.dz = dzs.pop() if len(dzs) == 1 else None
    md = None
    found = None
    for f in fields(R, t):
        if field(R, f) == R.dz:
            continue
        e = l_sub(t, l_div(f, DZ))
        if e.const is not None:
            found = float(e.const) + off; md = field(R, f)
    if found is None:
        ctx.und(k, f"number of points not recognised: {txt(n, 80)}")
    else:
        ctx.ob(k, 1.0 <= found < 2.0, q.loc(), f"{txt(n, 80)} points")
        R.maxdepth = md
    # rows
    k = f"{prog}: row"
    toks = rowtokens(ctx, R, o, q, k)
    if toks is None:
        return
    qg = nothrow(q.guard)
    info = R.E.loopinfo[q.loops[-1]]
    for fr, g, st in info["back"]:
        m = AND(nothrow(g), NOT(qg))
        ctx.ob(f"{prog}: every point is queried", not feasible(m), q.loc(), f"not when {why(m)}" if feasible(m) else "")
    for e in toks:
        if e.loops == q.loops:
            m = AND(qg, NOT(nothrow(e.guard)))
            ctx.ob(f"{k}: written for every point", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    plain = [e for e in toks if e.extra[0] != "text" and e.loops == q.loops]
    inner = [e for e in toks if e.extra[0] != "text" and e.loops != q.loops]
    if len(plain) != 2:
        ctx.ob(f"{k}: elevation and depth", False, q.loc(), f"{len(plain)} numbers are written before the values") if toks else ctx.und(k, "not recognised")
        return
    for e, nm in zip(plain, ("elevation", "depth")):
        w = z if nm == "elevation" else None
        if w is not None:
            d = app2("diff", lambda a, b: ONE if a.fp == b.fp else ZERO, e.args[1], w)
            ctx.ob(f"{k}: {nm}", not feasible(AND(nothrow(e.guard), NOT(d))), e.loc(), f"is {txt(e.args[1], 80)}, not the elevation of the point")
        else:
            for l, c in cases(e.args[1], nothrow(e.guard)):
                # depth below the surface: number of the point times dz
                d = l_sub(l, l_mul(it, DZ))
                near = d.const is not None and abs(float(d.const)) <= 1e-3
                sz = not near and tree_has_fp(l, s.res.fp)
                if near:
                    ctx.ob(f"{k}: {nm}", True, e.loc())
                elif eqz(l_add(l, l_sub(l_sub(ZERO, ZERO), ZERO)), z):
                    ctx.ob(f"{k}: {nm}", False, e.loc(), "is the elevation")
                else:
                    zz = [x for x, _ in cases(z, c)]
                    ok = any(zc.const is None and abs(float(l_sub(l_add(l, zc), s.res).const or 0 if l_sub(l_add(l, zc), s.res).const is not None else 1e9)) <= 1e-3 for zc in zz)
                    ctx.ob(f"{k}: {nm}", ok, e.loc(), f"is {txt(l, 80)}, not the depth below the surface")
    if values(ctx, R, k, q, q.args[1], inner, plain):
        line(ctx, R, k, toks, q, inner)
    header(ctx, R, o, q, 2)
    written(ctx, R, o)


def eqz(l, z):
    return any(l.fp == x.fp for x in (gvn.leaves(z).values() if isinstance(z, Node) else [z]))


def tree_has_fp(l, fp, depth=0):
    return isinstance(l, Leaf) and depth < 8 and (l.fp == fp or any(tree_has_fp(x, fp, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf)))


def fields(R, l, depth=0):
    """members a value is computed from"""
    if not isinstance(l, Leaf) or depth > 8:
        return []
    if field(R, l) is not None:
        return [l]
    return [y for x in l.tree[1:] if isinstance(x, Leaf) for y in fields(R, x, depth + 1)]
