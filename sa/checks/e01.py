"""Error handler: status, message and log, and its C functions"""
from common_exc import *
import strmodels as SM
import models as MD
import appmodels as AM
import h01, h03, c01
from h01 import th, exits
from h04 import why, eqc1
from c01 import par, cases

MINIMUM = 40
CLS = "utils::ErrorHandler"
APP, ATE, OUT, TRUNC, IN = 1, 2, 16, 32, 8


def m_bits(act, i, dem, args, g, st, setres):
    a, b = args[0], args[1]
    if isinstance(a, Leaf) and isinstance(b, Leaf) and a.const is not None and b.const is not None:
        x, y = int(a.const), int(b.const)
        setres(gvn.const(x | y if "operator|" in dem else x & y)); return None
    return NotImplemented


BITS = {r"^std::operator[|&]\(std::_Ios_Openmode": m_bits}


def m_gone(act, i, dem, args, g, st, setres):
    """the destructor of a stream closes it"""
    return AM.m_close(act, i, "close(", args, g, st, setres)


BITS[r"^std::basic_o?fstream<.*>::~basic_o?fstream\("] = m_gone


class V:
    n = 0

    def __init__(self, p, f, args, st=None):
        V.n += 1
        E = self.E = EV.Evaluator(p, models={**AM.IO, **BITS, **h01.OWNERS, **SM.STREAMS, **SM.VECMUT})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        E.tag = ("e", V.n)
        E.vmodels = {r"virtual::slot1$": m_gone}
        E.inline_pred = lambda fn, dem: None if fn.tu == f.tu or not fn.repo else False
        E.run(f, args, st.copy() if st is not None else EV.State())
        self.ev = E.events; self.loc = f.loc()
        self.ret = ZERO; self.st = None; self.res = None
        for w, g, s, r in exits(E):
            if w == "returning":
                self.ret = OR(self.ret, g); self.st = s; self.res = r

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]


GIVEN = ONE


def given(a):
    """a text handed over: not null"""
    global GIVEN
    GIVEN = AND(GIVEN, NOT(eqc(a, 0)))
    return a


def feasible(d):
    return th(AND(d, GIVEN)) is not ZERO


def known_text(l):
    return not re.search(r"ld\(&|edited\(|part\(|loopval", txt(l, 300)) or re.search(r"(edited|part)\(str\(chars\((msg|filename|text)\(", txt(l, 300))


def bad(d, g, ok):
    return [(l, c) for l, c in cases(d, g) if feasible(nothrow(c)) and not ok(l)]


class H:
    def __init__(self, ctx, p):
        self.ctx = ctx; self.p = p; self.this = par(0, "this")
        ctor = [f for f in p.repo_fns() if re.search(r"ErrorHandler::ErrorHandler\(\)$", f.dem) and f.blocks]
        if not ctor:
            raise core.AnalysisBroken("ErrorHandler::ErrorHandler() vanished")
        self.C = V(p, ctor[0], [self.this]); self.new = self.C.st

    def do(self, name, args, st):
        R = V(self.p, self.p.get(f"{CLS}::{name}"), [self.this] + args, st)
        self.ctx.count(functions=1, paths=len(R.ev))
        if R.st is None:
            self.ctx.ob(f"{name} returns", False, R.loc, "never returns normally")
        return R

    def get(self, name, st):
        R = self.do(name, [], st)
        return (None, ZERO, R.loc) if R.st is None else (R.res, R.ret, R.loc)

    def text(self, d):
        return MD.cval(d)

    def null(self, l):
        """the name of a file is that of the null device"""
        c = MD.const_string(l)
        if c is not None:
            return c == "/dev/null"
        for m in re.findall(r"&(_Z\w+)", txt(l, 400)):
            for n in (m, m[:-2] if m.endswith("()") else m):
                gl = self.p.globals.get(n)
                if gl and self.text_of(n, gl) == "/dev/null":
                    return True
        return False

    def text_of(self, n, gl):
        """the text a pointer variable of the program starts with, when no function stores to the variable"""
        for tu, gs in self.p.tuglobals.items():
            x = gs.get(n)
            if x and isinstance(x, dict) and isinstance(x.get("init"), list):
                s = self.p.string(x["init"], tu)
                if s is not None:
                    return s
        return None


def check(ctx):
    p = core.load(("lib",))
    en = enum(p, "ErrorHandler::StatusEnum")
    h = H(ctx, p)
    if h.new is None:
        ctx.ob("an error handler can be made", False, h.C.loc, "the constructor never returns"); return
    ctx.guard("new", new, ctx, h, en)
    ctx.guard("status", status, ctx, h, en)
    ctx.guard("log", log, ctx, h, en)
    ctx.guard("C", capi, ctx, p, en)


def isempty(l):
    return MD.const_string(l) == ""


def same(l, w):
    return isinstance(l, Leaf) and isinstance(w, Leaf) and l.fp == w.fp


def expect(ctx, key, got, ok, show=lambda l: txt(l, 80)):
    d, g, loc = got
    if d is None:
        return
    b = bad(d, g, ok)
    un = [l for l, c in b if not known_text(l)]
    if un:
        ctx.und(key, f"text not recognised: {show(un[0])}"); return
    ctx.ob(key, not b, loc, f"gives {show(b[0][0])} when {why(b[0][1])}" if b else "")


def new(ctx, h, en):
    expect(ctx, "a new handler has status OK", h.get("getStatus", h.new), lambda l: l.const == en["OK"])
    d, g, loc = h.get("getMessage", h.new)
    if d is not None:
        expect(ctx, "a new handler has no message", (h.text(d), g, loc), isempty)
    wrong = [e for e in h.C.calls(r"^open$") if feasible(e.guard) and not null_or(h, e)]
    ctx.ob("a new handler writes no file", not wrong, wrong[0].loc() if wrong else h.C.loc, wrong and f"opens {txt(wrong[0].args[1], 80)}" or "")


def null_or(h, e):
    n = e.args[1]
    return all(h.null(l) for l in (gvn.leaves(n).values() if isinstance(n, Node) else [n]))


def unchanged(ctx, h, key, before, after, skip=()):
    """getters that give the same before and after"""
    for n, w in (("getStatus", "the status"), ("getMessage", "the message"), ("getLogFilename", "the name of the log")):
        if n in skip:
            continue
        a, ga, loc = h.get(n, before); b, gb, _ = h.get(n, after)
        if a is None or b is None:
            continue
        if n != "getStatus":
            a, b = h.text(a), h.text(b)
        diff = gvn.ZERO if (isinstance(a, Leaf) and isinstance(b, Leaf) and a.fp == b.fp) else None
        if diff is None:
            x = {l.fp for l, c in cases(a, ga)}; y = {l.fp for l, c in cases(b, gb)}
            diff = ZERO if x == y and len(x) == 1 else ONE
        ctx.ob(f"{key} leaves {w} as it is", diff is ZERO, loc, f"{txt(a, 60)} becomes {txt(b, 60)}")


def writes(R):
    return [e for e in R.calls(r"^(token|open|closed|format)$") if feasible(nothrow(e.guard))]


def status(ctx, h, en):
    other = given(par(30, "earlier text"))
    starts = [("new handler", h.new)]
    for first in ("setError", "setWarning"):
        R = h.do(first, [other], h.new)
        if R.st is not None:
            starts.append((f"after {first}", R.st))
    starts.append(("any state", EV.State()))
    for where, st in starts:
        for name, want in (("setError", "ERROR"), ("setWarning", "WARNING"), ("resetStatus", "OK")):
            m = given(par(31, "msg"))
            R = h.do(name, [] if name == "resetStatus" else [m], st)
            if R.st is None:
                continue
            lost = NOT(nothrow(R.ret))
            ctx.ob(f"{name} always returns ({where})", not feasible(lost), R.loc, f"not when {why(lost)}" if feasible(lost) else "")
            expect(ctx, f"{name} makes the status {want} ({where})", h.get("getStatus", R.st), lambda l: l.const == en[want])
            d, g, loc = h.get("getMessage", R.st)
            if d is not None:
                mv = MD.cval(m)
                expect(ctx, f"{name} {'clears the message' if name == 'resetStatus' else 'keeps the text as message'} ({where})", (h.text(d), g, loc),
                       isempty if name == "resetStatus" else lambda l: same(l, mv))
            if where == "any state":
                unchanged(ctx, h, name, st, R.st, ("getStatus", "getMessage"))
                w = writes(R)
                ctx.ob(f"{name} writes no file", not w, w[0].loc() if w else R.loc, w and f"{w[0].callee} of {txt(w[0].args[-1], 60)}" or "")
    # getters change nothing
    for name in ("getStatus", "getMessage", "getLogFilename"):
        R = h.do(name, [], EV.State())
        s = [e for e in R.ev if e.kind == "store"]
        ctx.ob(f"{name} changes nothing", not s, s[0].loc() if s else R.loc, s and f"stores to {txt(s[0].args[0], 60)}" or "")


def modes(e, c):
    """ways in which the file is opened; without one the stream is for writing"""
    m = e.extra[1]
    if m is None:
        return [OUT]
    ms = [l for l, _ in cases(m, c) if feasible(_)]
    return [int(l.const) for l in ms] if all(isinstance(l, Leaf) and l.const is not None for l in ms) else None


def log(ctx, h, en):
    name = given(par(32, "filename")); nv = MD.cval(name)
    for where, st in (("new handler", h.new), ("any state", EV.State())):
        R = h.do("setLogFilename", [name], st)
        if R.st is None:
            continue
        d, g, loc = h.get("getLogFilename", R.st)
        if d is not None:
            expect(ctx, f"getLogFilename() is the name given to setLogFilename ({where})", (h.text(d), g, loc), lambda l: same(l, nv))
        unchanged(ctx, h, f"setLogFilename ({where})", st, R.st, ("getLogFilename",))
        opened(ctx, h, f"setLogFilename ({where})", R, lambda e: ONE, nv, False)
        one = R.st
        # logging on and off afterwards, in either order
        for seq in ((1,), (0,), (0, 1), (1, 0), (1, 1)):
            s = one
            for k, on in enumerate(seq):
                Q = h.do("setLoggingOn", [gvn.const(on)], s)
                if Q.st is None:
                    break
                last = k == len(seq) - 1
                if last:
                    key = f"setLogFilename, {', '.join('on' if x else 'off' for x in seq)} ({where})"
                    if on:
                        opened(ctx, h, key, Q, None, nv, True, s)
                    else:
                        off(ctx, h, key, Q, nv)
                    unchanged(ctx, h, key, s, Q.st)
                    writesto(ctx, h, key, Q.st, Q)
                s = Q.st
        writesto(ctx, h, f"setLogFilename ({where})", one, R)
    R = h.do("setLoggingOn", [gvn.const(1)], h.new)
    if R.st is not None:
        w = [e for e in R.calls(r"^open$") if feasible(nothrow(e.guard)) and not null_or(h, e)]
        ctx.ob("logging on without a log file writes no file", not w, w[0].loc() if w else R.loc, w and f"opens {txt(w[0].args[1], 80)}" or "")


def opened(ctx, h, key, R, guard, nv, append, st=None):
    """the log is closed if it was open and the file named is opened, at its end or anew"""
    o = [e for e in R.calls(r"^open$") if feasible(nothrow(e.guard))]
    g = ZERO
    for e in o:
        ns = [(l, c) for l, c in cases(e.args[1], e.guard)]
        b = [l for l, c in ns if feasible(c) and not same(l, nv)]
        # an empty name is no file
        e_nv = [(l, c) for l, c in ns if same(l, nv)]
        for l, c in e_nv:
            g = OR(g, c)
        if b:
            real = [l for l in b if not h.null(l)]
            ctx.ob(f"{key}: opens the file named", not real, e.loc(), real and f"opens {txt(real[0], 80)}" or "")
        if not e_nv:
            continue
        ms = modes(e, drop_empty(gvn_or([c for l, c in e_nv]), nv))
        if ms is None:
            ctx.und(f"{key}: how the file is opened", txt(e.extra[1], 60)); continue
        for m in ms:
            before = ZERO
            for x in o:
                if x.n < e.n:
                    for l, c in cases(x.args[1], x.guard):
                        if same(l, nv) and all(not (k & APP) for k in modes(x, c) or [APP]):
                            before = OR(before, c)
            if not append and not feasible(AND(drop_empty(nothrow(e.guard), nv), NOT(nothrow(before)))):
                continue
            if append:
                ok = bool(m & APP) and not (m & TRUNC)
                ctx.ob(f"{key}: goes on at the end of the file", ok, e.loc(), f"mode {m:#x} is not appending")
            else:
                ok = not (m & APP) and not (m & IN and not m & TRUNC)
                ctx.ob(f"{key}: starts the file anew", ok, e.loc(), f"mode {m:#x} keeps what the file holds")
        # an open stream cannot be opened again
        cl = [x for x in R.calls(r"^closed$") if x.n < e.n and same(x.args[0], e.args[0])]
        b0 = ptrparts(e.args[0])[0] if isinstance(e.args[0], Leaf) else None
        anew = bool(b0) and b0[0] == "al" or any(x.n < e.n and x.callee in ("_Znwm", "operator new(unsigned long)") and isinstance(x.res, Leaf) and same(AM.root(x.res), e.args[0]) for x in R.calls("."))
        cg = ZERO
        for x in cl:
            cg = OR(cg, x.guard)
        if not anew:
            was = None
            for x in o:
                if x.n < e.n and same(x.args[0], e.args[0]) and not [c for c in cl if c.n > x.n] and AND(x.guard, e.guard) is not ZERO and x is not e:
                    was = x
            ctx.ob(f"{key}: the log is closed before", was is None, e.loc(), "opened twice without closing")
            miss = AND(nothrow(e.guard), NOT(nothrow(cg)))
            if feasible(miss):
                isop = [l for l in miss_open(miss)]
                ctx.ob(f"{key}: an open log is closed before", bool(isop), e.loc(), f"not closed when {why(miss)}")
            else:
                ctx.ob(f"{key}: an open log is closed before", True, e.loc(), "")
    miss = AND(nothrow(R.ret), NOT(nothrow(g)))
    miss = drop_empty(miss, nv)
    ctx.ob(f"{key}: the file named is opened", not feasible(miss), R.loc, f"not when {why(miss)}" if feasible(miss) else "")


def gvn_or(ds):
    r = ZERO
    for d in ds:
        r = OR(r, d)
    return r


def drop_empty(d, nv):
    """an empty name is no name of a file"""
    ln = MD.strlength(nv)
    return AND(d, NOT(eqc(ln, 0))) if isinstance(ln, Leaf) else d


def miss_open(d):
    """conditions on whether the log is open, which is what closing may depend on: not closed means not open"""
    for n in nodes_of(d):
        if "is open" in n:
            yield n


def nodes_of(d):
    return [s for s in [why(d)]]


def off(ctx, h, key, R, nv):
    o = [e for e in R.calls(r"^open$") if feasible(nothrow(e.guard))]
    for e in o:
        b = [l for l, c in cases(e.args[1], e.guard) if feasible(c) and not h.null(l)]
        ctx.ob(f"{key}: writes no file", not b, e.loc(), b and f"opens {txt(b[0], 80)}" or "")
    cl = ZERO
    for e in R.calls(r"^closed$"):
        cl = OR(cl, e.guard)
    miss = AND(nothrow(R.ret), NOT(nothrow(cl)))
    ok = not feasible(miss) or bool(list(miss_open(miss)))
    ctx.ob(f"{key}: closes the log", ok, R.loc, f"the log stays open when {why(miss)}" if not ok else "")


def writesto(ctx, h, key, st, R):
    """a message goes, complete, to the stream the log was opened with"""
    t = given(par(33, "text")); tv = MD.cval(t)
    Q = h.do("logMessage", [t], st)
    if Q.st is None:
        return
    w = [e for e in Q.calls(r"^token$") if feasible(nothrow(e.guard))]
    if [e for e in w if e.extra and e.extra[0] == "unknown"]:
        ctx.und(f"{key}: logMessage", "what is written is not recognised"); return
    strange = [e for e in w if not known_text(e.args[1])]
    other = [e for e in Q.ev if e.kind == "call" and re.search(r"^std::(ostream|basic_ostream|basic_filebuf|basic_streambuf|ostreambuf_iterator|copy|basic_ios)\b.*(put|sputn|sputc|rdbuf|copy|iterator)", e.callee or "")]
    if strange or other:
        ctx.und(f"{key}: logMessage", "what is written is not recognised"); return
    strange = [e for e in w if not same(e.args[1], tv)]
    ctx.ob(f"{key}: logMessage writes the text and nothing else", not strange, strange[0].loc() if strange else Q.loc, strange and f"writes {txt(strange[0].args[1], 60)}" or "")
    once = ZERO; twice = ZERO
    for e in w:
        if same(e.args[1], tv):
            twice = OR(twice, AND(once, e.guard)); once = OR(once, e.guard)
    miss = AND(nothrow(Q.ret), NOT(nothrow(once)))
    ctx.ob(f"{key}: logMessage writes every message", not feasible(miss), Q.loc, f"not when {why(miss)}" if feasible(miss) else "")
    ctx.ob(f"{key}: logMessage writes a message once", not feasible(nothrow(twice)), Q.loc, "written twice")
    streams = {e.args[0].fp for e in R.calls(r"^open$")}
    b = [e for e in w if streams and e.args[0].fp not in streams]
    ctx.ob(f"{key}: logMessage writes to the log", not b, b[0].loc() if b else Q.loc, b and f"writes to {txt(b[0].args[0], 60)}" or "")
    other = [e for e in Q.calls(r"^(open|closed)$") if feasible(nothrow(e.guard))]
    ctx.ob(f"{key}: logMessage keeps the log open", not other, other[0].loc() if other else Q.loc, "the log is opened or closed")
    unchanged(ctx, h, f"{key}: logMessage", st, Q.st)


# ---- C functions --------------------------------------------------------------------------------
def capi(ctx, p, en):
    cen = enum_c(p)
    for name, method, kind in (("setLogFilename", "setLogFilename", None), ("getLogFilename", "getLogFilename", "text"), ("setLoggingOn", "setLoggingOn", None),
                               ("resetStatus", "resetStatus", None), ("getStatus", "getStatus", "status"), ("getMessage", "getMessage", "text")):
        f = p.get("geomodelgrids_cerrorhandler_" + name)
        E = EV.Evaluator(p, opaque=[r"utils::ErrorHandler::"], models=dict(SM.STREAMS))
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: False
        args = [atom("arg", ("ce", name, i), tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args)]
        E.run(f, args)
        ctx.count(functions=1)
        loc = f.loc(); hd = args[0]
        null = tob(X(hd).eq(0).d); nn = NOT(null)
        calls = [e for e in E.events if e.kind == "call" and "ErrorHandler::" in e.callee]
        b = [e for e in calls if AND(e.guard, null) is not ZERO]
        ctx.ob(f"{name}: a NULL handle is not used", not b, b[0].loc() if b else loc, "called with a NULL handle")
        b = [e for e in calls if not re.search(rf"ErrorHandler::{method}\(", e.callee)]
        ctx.ob(f"{name}: does nothing else", not b, b[0].loc() if b else loc, b and f"calls {b[0].callee}" or "")
        fw = [e for e in calls if e not in b]
        g = ZERO; two = ZERO
        for e in fw:
            if kind is None:
                two = OR(two, AND(g, e.guard))
            g = OR(g, e.guard)
        miss = AND(nn, NOT(g))
        ctx.ob(f"{name}: acts on the handler", miss is ZERO and bool(fw), loc, f"not when {why(miss)}" if miss is not ZERO else "never called")
        ctx.ob(f"{name}: acts once", two is ZERO, loc, "called twice")
        for e in fw:
            ok = same(e.args[0], hd)
            ctx.ob(f"{name}: acts on the handler given", ok, e.loc(), f"on {txt(e.args[0], 60)}")
            for k in range(1, len(args)):
                v = e.args[k]
                if name == "setLoggingOn":
                    t = AND(tob(X(v).eq(0).d), NOT(tob(X(args[1]).eq(0).d))); u = AND(NOT(tob(X(v).eq(0).d)), tob(X(args[1]).eq(0).d))
                    ctx.ob(f"{name}: turns on for every value but 0, and off for 0", t is ZERO and u is ZERO, e.loc(), f"hands over {txt(v, 60)}")
                else:
                    ctx.ob(f"{name}: hands over its argument", same(v, args[k]), e.loc(), f"hands over {txt(v, 60)}")
        ab = [e for e in E.events if e.kind == "abort" and e.guard is not ZERO and not known(e.guard, fw, en)]
        ctx.ob(f"{name}: does not abort", not ab, ab[0].loc() if ab else loc, ab and f"when {why(ab[0].guard)}" or "")
        if kind == "text":
            x = care_leaves(E.ret, AND(null, E.retguard))
            ctx.ob(f"{name}: gives NULL for a NULL handle", AND(null, E.retguard) is not ZERO and all(l.const == 0 for l in x), loc, f"gives {[txt(l, 60) for l in x]}")
            x = care_leaves(E.ret, AND(nn, E.retguard))
            ctx.ob(f"{name}: gives what the handler gives", AND(nn, E.retguard) is not ZERO and all(any(same(l, e.res) for e in fw) for l in x), loc, f"gives {[txt(l, 60) for l in x]}")
        if kind == "status":
            x = care_leaves(E.ret, AND(null, E.retguard))
            ctx.ob(f"{name}: gives OK for a NULL handle", AND(null, E.retguard) is not ZERO and all(l.const == cen["OK"] for l in x), loc, f"gives {[txt(l, 60) for l in x]}")
            for n, v in en.items():
                if not fw:
                    continue
                here = AND(nn, E.retguard)
                for e in fw:
                    here = AND(here, OR(NOT(e.guard), eqc(e.res, v)))
                here = th(here)
                x = [l for l, c in cases(E.ret, here) if feasible(c)]
                if x and all(l.const == cen[n] for l in x):
                    ctx.ob(f"{name}: {n} is GEOMODELGRIDS_{n}", True, loc, "")
                else:
                    y = {l.fp for l in x} == {e.res.fp for e in fw} and v == cen[n]
                    ctx.ob(f"{name}: {n} is GEOMODELGRIDS_{n}", y, loc, f"gives {[txt(l, 60) for l in x]}, GEOMODELGRIDS_{n} is {cen[n]}")


def known(g, fw, en):
    """a status that is none of the enumerators does not occur"""
    for e in fw:
        c = ZERO
        for v in en.values():
            c = OR(c, eqc(e.res, v))
        g = AND(g, c)
    return th(g) is ZERO


def enum_c(p):
    src = open(str(core.REPO) + "/libsrc/geomodelgrids/utils/cerrorhandler.h").read()
    r = {}
    m = re.search(r"enum\s+GeomodelgridsStatusEnum\s*\{(.*?)\}", re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S), re.S)
    if not m:
        raise core.AnalysisBroken("GeomodelgridsStatusEnum vanished")
    nxt = 0
    for part in m.group(1).split(","):
        k = part.strip()
        if not k:
            continue
        n, _, v = k.partition("=")
        if v.strip():
            nxt = int(v.strip(), 0)
        r[n.strip().replace("GEOMODELGRIDS_", "")] = nxt; nxt += 1
    return r
