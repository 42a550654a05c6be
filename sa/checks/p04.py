"""Info program: options, what is shown of each model, and its verification"""
from common_exc import *
import models as MD
import strmodels as SM
import appmodels as AM
import h01, p01, p02, p03
from h01 import exits
from h04 import nodes, why, eqc1
from h03 import gvn_contains
from c01 import par, cases
from p01 import feasible, field, offset, THIS
import spec
from spec import deref, backguard, index_into

MINIMUM = 60
PROG = "geomodelgrids_info"
C = gvn.const
SIMPLE = r"^(geomodelgrids::.*|.* const&|double|float|bool|int|unsigned int|long|unsigned long|char const\*( const)?)$"


class Sec:
    """a function of the program; functions that only print are looked at by themselves, with the values they are given"""
    def __init__(self, p, f, args, st, depth=0):
        self.p = p; self.f = f; self.depth = depth
        self.top = None; self.pg = ONE; self.rawg = ONE; self.lp = ()
        self.opts = p02.handlers(p)
        self.sub = {}
        E = self.E = EV.Evaluator(p, models={**AM.IO, **h01.OWNERS, **SM.STREAMS, **SM.VECMUT, r"^geomodelgrids::.*\(": self.m_call})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        E.inline_pred = lambda fn, dem: False if fn.name in self.opts or self.separate(fn) else None if fn.tu == f.tu or not fn.repo else False
        E.run(f, args, st or EV.State())
        self.ev = E.events; self.loc = f.loc()
        self.ret = ZERO
        for w, g, s, r in exits(E):
            if w == "returning":
                self.ret = OR(self.ret, nothrow(g))

    def separate(self, fn):
        if not fn.repo or fn.tu != self.f.tu or fn.ret != "void" or not fn.blocks or fn.name == self.f.name or self.depth > 4:
            return False
        if any(a.get("sret") for a in fn.args):
            return False
        ps = EV.params_of(fn.dem) or []
        return all(re.match(SIMPLE, x) for x in ps)

    def m_call(self, act, i, dem, args, g, st, setres):
        fn = self.p.fns.get(i.callee) if hasattr(self.p, "fns") else None
        if fn is not None and self.separate(fn) and fn.name not in self.opts:
            AM.emit(act, i, g, "section", list(args), None, (fn, st.copy()))
            return None
        return NotImplemented

    def inner(self, e):
        if e.n not in self.sub:
            fn, st = e.extra
            x = self.sub[e.n] = Sec(self.p, fn, e.args, st.copy(), self.depth + 1)
            x.top = self.top or e
            x.pg = AND(self.pg, nothrow(e.guard)) if self.top else ONE
            x.rawg = AND(self.rawg, e.guard) if self.top else ONE
            x.lp = self.lp + e.loops
        return self.sub[e.n]

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]


class Piece:
    __slots__ = ("v", "guard", "raw", "loops", "kind", "prec", "sec", "ev", "top")

    def __init__(self, v, guard, raw, loops, kind, prec, sec, ev, top):
        self.v = v; self.guard = guard; self.raw = raw; self.loops = loops; self.kind = kind; self.prec = prec; self.sec = sec; self.ev = ev; self.top = top

    def loc(self):
        return self.ev.loc()


def out(S, stream=None, upto=None, top=None, pre=(), pg=ONE, raw=ONE, depth=0):
    """what is written to the standard output (or a text stream), piece by piece"""
    r = []
    start = 0
    if stream is not None:
        for e in S.ev:
            if e.n < upto and e.kind == "call" and e.callee == "text stream" and e.args[0].fp == stream.fp:
                start = e.n
    for e in S.ev:
        if e.kind != "call" or upto is not None and e.n >= upto or e.n < start:
            continue
        t = top or e
        if stream is None and e.callee == "section":
            r += out(S.inner(e), None, None, t, pre + e.loops, AND(pg, nothrow(e.guard)) if depth else ONE, AND(raw, e.guard) if depth else ONE, depth + 1)
            continue
        if e.callee != "token":
            continue
        if (stream is None and "_ZSt4cout" not in str(e.args[0].base)) or (stream is not None and e.args[0].fp != stream.fp):
            continue
        kind, w, pr, fm = e.extra
        if not isinstance(e.args[1], (Leaf, Node)):
            continue
        for l, c in cases(e.args[1], nothrow(e.guard)) or [(l, nothrow(e.guard)) for l in gvn.leaves(e.args[1]).values()]:
            c = AND(pg, c); rw = AND(raw, e.guard)
            ps = MD.parts_of(l) if kind == "text" else [l]
            if len(ps) == 1 and not isinstance(ps[0], str) and MD.const_string(ps[0]) is not None:
                ps = [MD.const_string(ps[0])]
            for x in ps:
                if isinstance(x, str):
                    if len(ps) == 1 and isinstance(w, Leaf) and w.const is not None:
                        x = x.rjust(int(w.const))
                    r.append(Piece(x, c, rw, pre + e.loops, "text", pr, S, e, t))
                elif AM.is_fn(x, "text of"):
                    r += [Piece(y.v, AND(c, y.guard), AND(rw, y.raw), nest(pre, e.loops, y.loops), y.kind, y.prec, y.sec, y.ev, t) for y in out(S, x.tree[2], e.n, t, pre)]
                else:
                    r.append(Piece(x, c, rw, pre + e.loops, kind, pr, S, e, t))
    return r


def nest(pre, out_, in_):
    """loops of a piece of a text written in other loops"""
    y = in_[len(pre):]; c = 0
    while c < len(y) and c < len(out_) and y[c] == out_[c]:
        c += 1
    return pre + out_ + y[c:]


class Line:
    def __init__(self):
        self.text = ""; self.vals = []; self.guard = None; self.mixed = False; self.loops = (); self.n = 0; self.first = None; self.joins = []

    def put(self, g, pc):
        if self.first is None:
            self.first = pc; self.guard = g; self.loops = pc.loops
        elif g.fp != self.guard.fp if hasattr(g, "fp") and hasattr(self.guard, "fp") else g is not self.guard:
            if feasible(XOR(g, self.guard)):
                self.mixed = True

    @property
    def label(self):
        return self.text.strip()


def XOR(a, b):
    return OR(AND(a, NOT(b)), AND(b, NOT(a)))


def lines(ps, base):
    """the lines written; a list of values within a line is one value"""
    r = []; cur = Line(); i = 0
    while i < len(ps):
        x = ps[i]
        if len(x.loops) > len(base):
            k = x.loops[len(base)]
            j = i
            while j < len(ps) and len(ps[j].loops) > len(base) and ps[j].loops[len(base)] == k:
                j += 1
            run = ps[i:j]; i = j
            vs = [y for y in run if not isinstance(y.v, str)]
            if len(vs) == 1 and all(len(y.loops) == len(base) + 1 for y in run) and len(run) > 1 and all(feasible(AND(vs[0].guard, NOT(y.guard))) for y in run if y is not vs[0]):
                info = x.sec.E.loopinfo.get(k)
                cur.put(nothrow(info["guard"]) if info else vs[0].guard, vs[0])
                if cur.first is vs[0]:
                    cur.loops = base
                cur.mixed = cur.mixed if cur.first is vs[0] else cur.mixed
                cur.vals.append(run); cur.text += "{}"
                continue
            if cur.text.strip() or cur.vals:
                r.append(cur)
            cur = Line()
            r += lines(run, base + (k,))
            continue
        i += 1
        if isinstance(x.v, str):
            parts = x.v.split("\n")
            for n, t in enumerate(parts):
                if n:
                    if cur.first is not None:
                        r.append(cur)
                    cur = Line()
                if t:
                    cur.put(x.guard, x); cur.text += t
        elif cur.vals and cur.text.endswith("{}") and cur.vals[-1][-1].ev is x.ev:
            cur.vals[-1].append(x)
        else:
            cur.put(x.guard, x); cur.text += "{}"; cur.vals.append([x])
    if cur.text.strip():
        r.append(cur)
    for n, l in enumerate(r):
        l.n = n
    return r


def secs(S):
    yield S
    for x in S.sub.values():
        yield from secs(x)


class View:
    """the program with what it calls"""
    def __init__(self, p, f):
        self.p = p; self.R = Sec(p, f, None, None)
        self.pieces = out(self.R)
        self.secs = list(secs(self.R))

    def calls(self, rx):
        return [(s, e) for s in self.secs for e in s.calls(rx)]

    def get(self, name, obj):
        """result of a member function of an object"""
        for s, e in self.calls(rf"::{name}(\[abi:cxx11\])?\(") if obj is not None else ():
            if isinstance(e.args[0], Leaf) and e.args[0].fp == obj.fp and isinstance(e.res, Leaf):
                return e.res
        return None


def lds(a, off):
    return spec.ld(None, a, off).d


def top(s, e):
    """what the run itself does, or the function it calls in which the event is"""
    return s.top or e


def under(s, e):
    """condition of an event within the function the run calls"""
    return AND(s.pg, nothrow(e.guard)) if s.top else ONE


def full(s, e):
    return AND(nothrow(top(s, e).guard), under(s, e))


def name(l):
    """a value, written in terms of the model"""
    return re.sub(r"\((\d+) \* (IT\(\))\)", r"(\2 * \1)", re.sub(r"\[abi:cxx11\]", "", gvn.show(l.tree)))


# ---- options -----------------------------------------------------------------------------------
OPEN = r"serial::Model::open\("
SHOWS = {"description": ("desc",), "coordsys": ("crs",), "values": ("values",), "blocks": ("blocks",), "verify": ("verify",), "all": ("desc", "crs", "values", "blocks", "verify")}


def options(ctx, p, f, models):
    """which members each option sets"""
    O = p02.Opt(p, f, stop=OPEN, narrow=True)
    k = f"{PROG}: options"
    if O.snap is None or O.n != 1 or not O.snap[1]:
        ctx.und(k, "getopt_long is not called, or not in a loop"); return None
    tab = p02.table(p, O.E, O.snap[2])
    if tab is None:
        ctx.und(k, "table of options not recognised"); return None
    ctx.ob(f"{PROG}: table of options ends with zeros", None not in tab, f.loc(), "does not end")
    seen = {}
    for t in tab:
        if t is not None:
            seen.setdefault(t[0], t[1:])
    vals = {}
    for n in list(SHOWS) + ["help", "models"]:
        if n not in seen:
            ctx.ob(f"{PROG} --{n}: is an option", False, f.loc(), "not in the table of options"); continue
        h, fl, v = seen[n]
        want = 1 if n == "models" else 0
        ctx.ob(f"{PROG} --{n}: {'takes a value' if want else 'takes no value'}", h == want, f.loc(), "optional" if h == 2 else "takes none" if h == 0 else "takes one")
        if not fl:
            ctx.und(f"{PROG} --{n}: value", "stored by getopt_long"); continue
        vals[n] = v
    if set(vals) != set(SHOWS) | {"help", "models"}:
        return None
    sets = {}; runs = {}
    for n in list(SHOWS) + ["help"]:
        Q = runs[n] = p02.Opt(p, f, vals[n], arg=False)
        sets[n] = set()
        if not Q.backs():
            ctx.und(f"{PROG} --{n}", "ends the program") if n == "help" else ctx.ob(f"{PROG} --{n}: is accepted", False, Q.loc, "the program does not go on")
            return None
        lp = Q.snap[1]
        for e in Q.ev:
            o = offset(e.args[0]) if e.kind == "store" and e.loops[:len(lp)] == lp else None
            if o is not None and feasible(nothrow(e.guard)):
                sets[n].add(o)
    offs = set().union(*sets.values())
    for n, Q in runs.items():
        for fr, g, st in Q.backs():
            g = nothrow(g)
            if not feasible(g):
                continue
            for o in offs:
                a, b = Q.number(Q.snap[0], o, "i8", 1), Q.number(st, o, "i8", 1)
                if o in sets[n]:
                    for l, c in cases(b, g):
                        if l.const is None and l.fp != getattr(a, "fp", None):
                            ctx.und(f"{PROG} --{n}: value", f"becomes {txt(l, 60)}"); return None
                        ctx.ob(f"{PROG} --{n}: value", l.const == 1, Q.loc, f"becomes {txt(l, 60)}")
                else:
                    ctx.ob(f"{PROG} --{n}: leaves the other options", not feasible(AND(g, app2("same", lambda x, y: ZERO if x.fp == y.fp else ONE, a, b))), Q.loc, f"another becomes {txt(b, 60)}")
        if models is not None:
            p02.same(ctx, Q, f"{PROG} --{n}: leaves --models", ("list", models), Q.snap[0], Q.backs())
        ctx.ob(f"{PROG} --{n}: value", bool(sets[n]), Q.loc, "has no effect")
    if models is not None:
        sp = {"models": ("list", models)} | {n: ("flag", o, 1) for n in sets for o in sets[n]}
        ctx.guard(f"{PROG} --models", p02.option, ctx, p, f, PROG, None, {"models": ("list", models)} | {f"{n} ({o})": ("flag", o, 1) for n in sets for o in sets[n]}, "models", vals["models"], dict.fromkeys([f"{n} ({o})" for n in sets for o in sets[n]] + ["models"]), "Info")
    ctx.guard(f"{PROG}: unknown options", p02.unknown, ctx, p, f, PROG)
    ctx.guard(f"{PROG}: required options", required, ctx, f, O, runs, sets, models)
    ctx.guard(f"{PROG}: defaults", initial, ctx, p, offs, models)
    return sets


def flags(g, on):
    """g with these members set and the others not"""
    def dec(v):
        i = gvn._varinfo[v]
        if i and i[0] == "==" and len(i) > 2 and isinstance(i[1], Leaf) and isinstance(i[2], Leaf) and i[2].const is not None:
            o = field(None, i[1])
            if o in on:
                return on[o] == i[2].const
        return None
    return gvn.restrict_vars(g, dec)


def required(ctx, f, O, runs, sets, models):
    ins = getattr(O.E, "inits", [])
    if not ins or models is None:
        ctx.und(f"{PROG}: required options", "no model is opened"); return
    st, g, i = ins[-1]
    g = p02.notq(nothrow(g))
    t = ("list", models)
    ctx.ob(f"{PROG}: --models is required", not feasible(p02.decided(g, O, t, st, True)), f.loc(), "the program goes on without it")
    offs = set().union(*sets.values())
    now = {o: O.number(st, o, "i8", 1) for o in offs}

    def with_(d, on):
        for o, v in on.items():
            d = AND(d, app1("flag", lambda l: eqc(l, v), now[o]))
        return d
    ctx.ob(f"{PROG}: nothing is done when help is asked for", not any(feasible(with_(g, {o: 1})) for o in sets["help"]), f.loc(), "models are opened")
    # one of the others and models: they are opened
    lp = O.snap[1]
    info = O.E.loopinfo.get(lp[-1])
    only = sets["help"] - set().union(*(sets[n] for n in SHOWS))
    rem = remaining(O, st, models)
    for n in SHOWS:
        Q = runs[n]
        qi = Q.E.loopinfo.get(Q.snap[1][-1])
        fixed = {}
        for ph, v in (qi["next"] if qi else {}).items():
            sv = info["sticky"].get(("phi", ph)) if info else None
            if sv is not None and isinstance(v, Leaf) and v.const is not None:
                fixed[sv[0]] = v.fp == sv[1].fp
        m = p03.decide(NOT(g), {**rem, p02.OPTION.fp: -1.0})
        m = p02.decided(p02.notq(m), O, t, st, False)
        for o, v in [(o, 0) for o in only] + [(o, 1) for o in sets[n]]:
            m = AND(m, app1("flag", lambda l: eqc(l, v), O.number(O.snap[0], o, "i8", 1)))
        m = gvn.restrict_vars(m, lambda v: fixed.get(v))
        bad = feasible(m)
        if bad and any(gvn._varinfo[v] and gvn._varinfo[v][0] not in ("==", "<0", "pos", "sticky") for v in nodes(m)):
            ctx.und(f"{PROG}: --{n} with models is accepted", why(m)); continue
        ctx.ob(f"{PROG}: --{n} with models is accepted", not bad, f.loc(), f"no model is opened when {why(m)}" if bad else "")


def remaining(O, st, models):
    """a list of one model, the first of which is looked at"""
    a, b = (O.E.load(st, padd(THIS, const(models + o)), "ptr", 8, None) for o in (0, 8))
    env = {a.fp: 4096.0, b.fp: 4096.0 + 32} if isinstance(a, Leaf) and isinstance(b, Leaf) else {}
    for e in O.ev:
        if e.kind == "call" and re.search(OPEN, e.callee or "") and e.loops:
            info = O.E.loopinfo.get(e.loops[-1])
            if info and info.get("it") is not None:
                env[info["it"].fp] = 0.0
    return env


def initial(ctx, p, offs, models):
    fs = [g for g in p.repo_fns() if re.search(r"apps::Info::Info\(", g.dem) and g.blocks]
    if not fs:
        ctx.und(f"{PROG}: defaults", "no constructor"); return
    E = EV.Evaluator(p, models={**SM.STREAMS, **SM.VECMUT})
    E.run(fs[0], None, EV.State())
    o = p02.Opt.__new__(p02.Opt); o.E = E
    for off in sorted(offs):
        v = o.number(E.state, off, "i8", 1)
        ctx.ob(f"{PROG}: nothing is asked for by default", isinstance(v, Leaf) and v.const == 0, fs[0].loc(), f"is {txt(v, 60)}")
    if models is not None:
        ctx.ob(f"{PROG}: no models by default", not feasible(NOT(p02.isempty(o, ("list", models), E.state))), fs[0].loc(), "is not empty")


# ---- what is shown -----------------------------------------------------------------------------
M = "M"
INFO = "ld(getInfo(M))"
BLK = "ld((ld(getBlocks(M)) + (IT() * 16)))"
def S_(g): return f"ld({g}({INFO}))"
def A_(g, o, k): return f"ld({g}({o}))" if k == 0 else f"ld(({g}({o}) + {8 * k}))"
TOPS, TOPO = "ld(getTopSurface(M))", "ld(getTopoBathy(M))"
VALUES, BLOCKS = "getValueNames(M)", "getBlocks(M)"
# section, template, values, condition, list the line is repeated for
LINES = [("desc", f"{t}: {{}}", [S_(f"get{g}")], None, None) for t, g in (("Title", "Title"), ("Id", "Id"), ("Description", "Description"), ("History", "History"), ("Comment", "Comment"), ("Acknowledgement", "Acknowledgement"), ("DOI", "RepositoryDOI"), ("Version", "Version"), ("License", "License"))]
LINES += [
    ("desc", "Creator: {}, {}, {}", [S_("getCreatorName"), S_("getCreatorInstitution"), S_("getCreatorEmail")], None, None),
    ("desc", "Repository: {} {}", [S_("getRepositoryName"), S_("getRepositoryURL")], None, None),
    ("desc", "Auxiliary information: {}", [S_("getAuxiliary")], "aux", None),
    ("desc", "Dimensions of model: x={}, y={}, z={}", [A_("getDims", M, 0), A_("getDims", M, 1), A_("getDims", M, 2)], None, None),
    ("crs", "Coordinate system:", [], None, None),
    ("crs", "CRS (PROJ, EPSG, WKT): {}", ["ld(getCRSString(M))"], None, None),
    ("crs", "Coordinate system units: x={}, y={}, z={}", ["unit 0", "unit 1", "unit 2"], None, None),
    ("crs", "Origin: x={}, y={}", [A_("getOrigin", M, 0), A_("getOrigin", M, 1)], None, None),
    ("crs", "Azimuth (degrees) of y axis from north: {}", ["getYAzimuth(M)"], None, None),
    ("values", "Values stored in model:", [], None, None),
    ("values", "{}: {} ({})", ["IT()", "ld((ld(getValueNames(M)) + (IT() * 32)))", "ld((ld(getValueUnits(M)) + (IT() * 32)))"], None, (VALUES, 32)),
    ("values", "Vertex-based data", [], "vertex", None),
    ("values", "Cell-based data", [], "cell", None),
    ("blocks", "Surfaces", [], None, None)]
for t, o, c in (("Top surface:", TOPS, "top"), ("Topography/bathymetry:", TOPO, "topo")):
    LINES += [("blocks", t, [], None, None), ("blocks", "None", [], "no " + c, None), ("blocks", "Number of points: x={}, y={}", [A_("getDims", o, 0), A_("getDims", o, 1)], c, None),
              ("blocks", "Resolution: x={}, y={}", [f"getResolutionX({o})", f"getResolutionY({o})"], c, None)]
LINES += [("blocks", "Blocks ({})", [f"((ld((getBlocks(M) + 8)) - ld(getBlocks(M))) / 16)"], None, None),
    ("blocks", "Block '{}'", [f"ld(getName({BLK}))"], None, (BLOCKS, 16)),
    ("blocks", "Resolution: x={}, y={}, z={}", [f"getResolution{c}({BLK})" for c in "XYZ"], None, (BLOCKS, 16)),
    ("blocks", "Elevation of top of block in logical space: {}", [f"getZTop({BLK})"], None, (BLOCKS, 16)),
    ("blocks", "Number of points: x={}, y={}, z={}", [A_("getDims", BLK, k) for k in range(3)], None, (BLOCKS, 16)),
    ("blocks", "Dimensions: x={}, y={}, z={}", [f"length {k}" for k in range(3)], None, (BLOCKS, 16))]


class Shown:
    pass


def check(ctx):
    p = core.load(("lib", "bin"))
    fs = [f for f in p.repo_fns() if re.search(r"apps::Info::run\(", f.dem) and f.blocks]
    if not fs:
        raise core.AnalysisBroken("apps::Info::run vanished")
    f = fs[0]
    D = Shown(); D.V = V = View(p, f); D.f = f; D.p = p
    ctx.count(paths=len(V.pieces))
    D.models = None
    if ctx.guard(f"{PROG}: models", models, ctx, D) is None and D.models is None:
        ctx.und(f"{PROG}: models", "not recognised")
    D.sets = None
    def opts():
        D.sets = options(ctx, p, f, D.models)
    ctx.guard(f"{PROG}: options", opts)
    if D.models is None or D.sets is None:
        return
    D.offs = set().union(*D.sets.values())
    ctx.guard(f"{PROG}: help", help_, ctx, D)
    ctx.guard(f"{PROG}: order", order, ctx, D)
    ctx.guard(f"{PROG}: display", display, ctx, D)


def models(ctx, D):
    """each model of the list is opened, in order"""
    V = D.V; k = f"{PROG}: models"
    es = V.calls(OPEN)
    if len(es) != 1:
        ctx.und(k, f"opened in {len(es)} places"); return
    s, e = es[0]
    D.open = e
    n = e.args[1]
    w = MD.cval(n)
    l = w if isinstance(w, Leaf) else n
    for q in range(4):
        if isinstance(l, Leaf) and l.tree[0] == "fn" and l.tree[1] in ("cstr", "chars") and isinstance(l.tree[2], Leaf):
            l = l.tree[2]
        ps = MD.parts_of(l)
        if len(ps) == 1 and isinstance(ps[0], Leaf):
            l = ps[0]
    a = deref(l) if isinstance(l, Leaf) else None
    if a is None or not (s.lp + e.loops):
        ctx.und(k, f"opened under {txt(n, 60)}"); return
    lk = (s.lp + e.loops)[0]
    info = V.R.E.loopinfo.get(lk) or s.E.loopinfo.get(lk)
    it = info["it"]
    off = None
    for o in range(0, 256, 8):
        b = lds(THIS, o)
        i = index_into(a, b, 32)
        if i is not None and (i.const is not None or gvn_contains(i, it.fp)) and not gvn_contains(i, b.fp) and isinstance(b, Leaf):
            off = o; idx = i; break
    if off is None:
        ctx.und(k, f"opened under {txt(n, 60)}"); return
    D.models = off; D.model = e.args[0]; D.loop = lk; D.it = it; D.info = info
    D.begin = lds(THIS, off)
    D.count = l_div(l_sub(lds(THIS, off + 8), D.begin), const(32))
    ctx.ob(f"{k}: in order", idx.fp == it.fp, e.loc(), f"model {txt(idx, 40)} of the list is looked at in turn {txt(it, 10)}")
    D.asked = app2("left", gvn.l_lt, it, D.count)
    m = isinstance(e.args[2], Leaf) and e.args[2].const == 0 if len(e.args) > 2 else True
    ctx.ob(f"{k}: opened for reading", bool(m), e.loc(), "opened for writing")


def given(D, g, names):
    """g when these options are given, and models remain"""
    on = dict.fromkeys(D.offs, 0)
    for n in names:
        for o in D.sets[n]:
            on[o] = 1
    return flags(g, on)


def help_(ctx, D):
    R = D.V.R
    on = given(D, ONE, ["help"])
    for w, g, s, r in exits(R.E):
        g = given(D, nothrow(g), ["help"])
        if w == "returning" and feasible(g):
            for l, c in cases(r, g):
                ctx.ob(f"{PROG} --help: ends with 0", l.const == 0, D.f.loc(), f"ends with {txt(l, 40)}")
    for n in list(SHOWS) + ["help", "models"]:
        g = ZERO
        for x in D.V.pieces:
            if isinstance(x.v, str) and re.search(rf"--{n}\b", x.v):
                g = OR(g, AND(nothrow(x.top.guard), x.guard))
        ctx.ob(f"{PROG} --help: describes --{n}", not feasible(given(D, NOT(g), ["help"])), D.f.loc(), "not printed")
    for l in lines([x for x in D.V.pieces], ()):
        if l.label.startswith("Usage") or l.label.startswith("--"):
            g = AND(nothrow(l.first.top.guard), l.guard)
            ctx.ob(f"{PROG}: help is printed only when it is asked for", not feasible(given(D, g, ["all"])), l.first.loc(), "it is printed with the models")


def own(D, rx):
    return [(s, e) for s, e in D.V.calls(rx) if e.args and isinstance(e.args[0], Leaf) and e.args[0].fp == D.model.fp]


COMBOS = [("description",), ("coordsys",), ("values",), ("blocks",), ("verify",), ("all",), ("description", "blocks"), ("coordsys", "values"), ("description", "coordsys", "values", "blocks"), ("values", "verify"), ("description", "coordsys", "values", "blocks", "verify"), ("all", "verify"), ("all", "blocks")]


def order(ctx, D):
    """a model is opened, its metadata loaded, shown and closed"""
    k = f"{PROG}: each model"
    lm = own(D, r"serial::Model::loadMetadata\(")
    cl = own(D, r"serial::Model::close\(")
    g = ZERO
    for s, e in lm:
        g = OR(g, full(s, e))
        ctx.ob(f"{k}: opened before its metadata is loaded", top(s, e).n > D.open.n and (s.lp + e.loops)[:1] == (D.loop,), e.loc(), "loaded before")
    op = nothrow(D.open.guard)
    for c in COMBOS:
        ctx.ob(f"{k}: opened", not feasible(given(D, AND(D.asked, NOT(op)), c)), D.open.loc(), f"not with {' '.join('--' + x for x in c)}")
        m = given(D, AND(op, NOT(g)), c)
        ctx.ob(f"{k}: metadata is loaded", not feasible(m), D.open.loc(), f"not with {' '.join('--' + x for x in c)}")
    first = max([top(s, e).n for s, e in lm] or [0])
    ms = max([e.n for s, e in lm if s.top is None] or [0])
    for s, e in D.V.calls(r"serial::(Model|ModelInfo|Block|Surface)::get"):
        t = top(s, e)
        if any(t is top(s2, e2) for s2, e2 in lm):
            b = any(s2 is s and e2.n < e.n for s2, e2 in lm) or s.depth > min(s2.depth for s2, e2 in lm if top(s2, e2) is t)
        else:
            b = all(top(s2, e2).n < t.n for s2, e2 in lm)
        ctx.ob(f"{k}: metadata is loaded before it is used", b, e.loc(), "before")
    if len(cl) == 1:
        s, e = cl[0]
        ctx.ob(f"{k}: closed before the next", not feasible(given(D, AND(op, NOT(full(s, e))), ("all",))) and (s.lp + e.loops)[:1] == (D.loop,), e.loc(), "not")
        late = [x for s2, x in D.V.calls(r"serial::(Model|ModelInfo|Block|Surface)::(get|load|init)") if top(s2, x).n > top(s, e).n]
        ctx.ob(f"{k}: closed after it is shown", not late, late[0].loc() if late else e.loc(), "before")
    elif not cl:
        ctx.und(f"{k}: closed", "not closed")
    # problems with the metadata
    for s, e in lm:
        if s.top is None:
            bad = [x for x in D.V.pieces if isinstance(x.v, str) and "WARNING" in x.v]
            g = throwing(D.open.guard, e.callee)
            out_ = ZERO
            for w, gg, st, r in exits(D.V.R.E):
                if w != "returning":
                    out_ = OR(out_, throwing(gg, e.callee))
            m = given(D, AND(throwing(e.guard, e.callee), out_), ("blocks",))
            ctx.ob(f"{k}: metadata that cannot be read is not fatal", not feasible(m), e.loc(), "the exception is not caught")


def norm_(D, l):
    t = name(l)
    return t.replace("&" + gvn.show(D.model.tree).lstrip("&"), "M") if gvn.show(D.model.tree).startswith("&") else t.replace(gvn.show(D.model.tree), "M")


def aborts(D):
    g = {}
    for s in D.V.secs:
        for e in s.ev:
            if e.kind in ("abort", "noreturn") and (e.kind == "abort" or "assert" in (e.callee or "")):
                g.setdefault(id(top(s, e)), []).append((e, under(s, e)))
    return g


def label(l):
    return re.sub(r"\s+", " ", l.text).strip()


def display(ctx, D):
    k0 = f"{PROG}: shown"
    D.ab = aborts(D)
    ls = [l for l in lines(D.V.pieces, (D.loop,)) if l.first is not None]
    D.lines = ls
    # the name of the model
    nm = [l for l in ls if re.match(r"Model: \{\}$", label(l))]
    if len(nm) == 1:
        l = nm[0]
        ok = len(l.vals) == 1 and [norm_x(D, y) for y in l.vals[0]] == [f"ld(({name(D.begin)} + (IT() * 32)))"]
        ctx.ob(f"{k0}: the name of each model", ok, l.first.loc(), f"{txt(l.vals[0][0].v, 60)} is shown" if l.vals else "")
        for c in COMBOS:
            g = given(D, AND(AND(nothrow(D.open.guard), D.asked), NOT(nothrow(l.first.top.guard))), c)
            ctx.ob(f"{k0}: the name of each model", not feasible(g), l.first.loc(), f"not with {' '.join(c)}")
    else:
        ctx.und(f"{k0}: the name of each model", "not recognised")
    secs_ = {}
    for sec, tpl, vals, cond, lst in LINES:
        ctx.guard(f"{k0}: {tpl.split(':')[0]}", one, ctx, D, sec, tpl, vals, cond, lst)
    for tpl, get, delim in (("Keywords: {}", "getKeywords", ", "), ("Authors: {}", "getAuthors", "; ")):
        ctx.guard(f"{k0}: {tpl.split(':')[0]}", joined, ctx, D, tpl, get, delim)
    ctx.guard(f"{k0}: References", joined, ctx, D, None, "getReferences", "\n")
    ctx.guard(f"{k0}: Bounding box", bounding, ctx, D)
    ctx.guard(f"{k0}: order of the lines", sequence, ctx, D)


def norm_x(D, y):
    return y.v if isinstance(y.v, str) else norm_(D, y.v)


def values_(D, l):
    """the values of a line; alternatives are put together"""
    return [[norm_x(D, y) for y in v] for v in l.vals]


def fullline(D, l):
    return AND(nothrow(l.first.top.guard), l.guard)


KNOWN = re.compile(r"^[\w ()&+*\-/.]*$")


def one(ctx, D, sec, tpl, vals, cond, lst):
    k = f"{PROG}: shown: {tpl}" + (f" ({cond})" if cond else "")
    special = vals and vals[0].startswith(("unit", "length"))
    cand = [l for l in D.lines if label(l) == tpl or special and re.sub(r"(\{\})+", "{}", label(l)) == tpl]
    if cond in ("top", "topo", "no top", "no topo"):
        o = TOPS if cond.endswith("top") else TOPO
        cand = [l for l in cand if any(D_field(D, v, o) for v in nodes(l.guard))]
    if not cand:
        other = [l for l in D.lines if vals and all(any(v in x for x in values_(D, l)) for v in vals)]
        if other:
            ctx.und(k, f"shown as {label(other[0])[:40]}"); return
        ws = [w for w in re.findall(r"[A-Za-z]{4,}", tpl)]
        if ws and any(ws[0] in l.text for l in D.lines) or cond:
            same = [l for l in D.lines if ws and ws[0] in l.text]
            if same and all(KNOWN.match(x) for l in same for v in values_(D, l) for x in v) and vals and not special and not cond:
                ctx.ob(k, False, same[0].first.loc(), f"{label(same[0])[:50]} with {', '.join(x for v in values_(D, same[0]) for x in v)[:80]}"); return
            ctx.und(k, "not recognised"); return
        ctx.ob(k, False, D.f.loc(), "is not shown"); return
    if len(cand) > 1:
        ctx.und(k, "shown in several places"); return
    l = cand[0]
    D.found = getattr(D, "found", {}); D.found[(sec, tpl, cond)] = l
    # what is shown
    if special:
        (units if vals[0].startswith("unit") else lengths)(ctx, D, k, l)
    else:
        got = values_(D, l)
        if len(got) != len(vals):
            ctx.und(k, f"{len(got)} values"); return
        for n, (a, b) in enumerate(zip(got, vals)):
            if lst and len(a) == 1:
                a = [a[0]]
            ok = a == [b]
            if not ok and not all(KNOWN.match(x) for x in a):
                ctx.und(k, f"value {n} is {a[0][:60]}"); continue
            ctx.ob(k, ok, l.first.loc(), f"{' or '.join(a)[:100]} is shown")
    for v in l.vals:
        for y in v:
            if not isinstance(y.v, str) and y.kind == "number":
                if isinstance(y.prec, Leaf) and y.prec.const is not None and y.prec.const < 6:
                    ctx.ob(f"{k}: digits", False, y.loc(), f"{y.prec.const} digits")
    # when
    shown(ctx, D, k, l, sec, cond, lst)


def D_field(D, v, o):
    return any(norm_(D, x) == o for x in gvn.var_leaf(v))


def condition(D, cond, l):
    if cond in (None, "aux"):
        return ONE
    g = l.guard
    for v in nodes(g):
        i = gvn._varinfo[v]
        if not i or i[0] != "==" or not isinstance(i[1], Leaf) or i[2].const is None:
            continue
        t = norm_(D, i[1])
        is_ = isnode(v)
        if cond in ("vertex", "cell") and t == "getDataLayout(M)" and i[2].const == (0 if cond == "vertex" else 1):
            return is_
        if cond in ("top", "no top", "topo", "no topo") and t == (TOPS if cond.endswith("top") else TOPO) and i[2].const == 0:
            return is_ if cond.startswith("no") else NOT(is_)
    return None


def isnode(v):
    return gvn.mk(v, ONE, ZERO)


def shown(ctx, D, k, l, sec, cond, lst):
    c = condition(D, cond, l)
    if c is None:
        return ctx.und(f"{k}: when", why(l.guard)) if nodes(l.guard) else ctx.ob(f"{k}: when", False, l.first.loc(), "always")
    want = AND(AND(nothrow(D.open.guard), D.asked), c)
    t = l.first.top
    wit = [lambda g: g]
    if cond == "aux":
        sl = [x for v in nodes(l.guard) for y in gvn.var_leaf(v) for x in subl(y) if x.tree[0] == "fn" and x.tree[1] == "strlen" and "getAuxiliary" in norm_(D, x)]
        if nodes(l.guard) and not sl and any("Auxiliary" in gvn.showvar(v) for v in nodes(l.guard)):
            return ctx.und(f"{k}: when", why(l.guard))
        wit = [lambda g, i=i: p03.decide(g, {x.fp: float(i) for x in sl}) for i in (1, 2, 40)]
        ctx.ob(f"{k}: when", not sl or not feasible(p03.decide(l.guard, {x.fp: 0.0 for x in sl})), l.first.loc(), "when there is none")
    if lst:
        lk = l.loops[1] if len(l.loops) > 1 else None
        info = next((s.E.loopinfo[lk] for s in D.V.secs if lk in s.E.loopinfo), None) if lk else None
        if info is None:
            ctx.und(f"{k}: for each", "not in a loop"); return
        if not any("IT()" in x for v in values_(D, l) for x in v):
            ctx.und(f"{k}: for each", "not an element"); return
        wit = turns(D, info["it"], lst[0], lst[1])
        if wit is None:
            ctx.und(f"{k}: for each", "size not recognised"); return
    ab = ZERO
    for e, g in D.ab.get(id(t), ()):
        ab = OR(ab, g)
    for on in COMBOS:
        inc = any(sec in SHOWS[x] for x in on)
        g = given(D, fullline(D, l), on)
        w = " ".join("--" + x for x in on)
        if inc:
            m = given(D, AND(want, NOT(OR(fullline(D, l), ab))), on)
            for n, x in enumerate(wit):
                y = x(m)
                if lst and feasible(y) and any(gvn_contains(q, info["it"].fp) for v in nodes(y) for q in gvn.var_leaf(v)):
                    ctx.und(f"{k}: for each", why(y)); continue
                ctx.ob(f"{k}: when", not feasible(y), l.first.loc(), (f"with {w}, not shown" + (f" for number {n} of {len(wit)}" if lst else "") + f" when {why(y)}") if feasible(y) else "")
            x = given(D, AND(fullline(D, l), NOT(c)), on)
            ctx.ob(f"{k}: when", not feasible(x), l.first.loc(), f"with {w}, shown when {why(x)}" if feasible(x) else "")
        else:
            ctx.ob(f"{k}: when", not feasible(g), l.first.loc(), f"shown with {w}")


def wit_env(D, box, sz=32, n=3):
    get = re.match(r"\w+", box).group(0)
    a = {}
    for s, e in D.V.calls(rf"::{get}(\[abi:cxx11\])?\("):
        if isinstance(e.res, Leaf) and norm_(D, e.res) == box:
            a |= {lds(e.res, 0).fp: 4096.0, lds(e.res, 8).fp: 4096.0 + n * sz}
    return a


def turns(D, it, box, sz, n=3):
    """the turns of a loop over a list of n"""
    a = wit_env(D, box, sz, n)
    return [lambda g, i=i: p03.decide(g, {**a, it.fp: float(i)}) for i in range(n)] if a else None


def units(ctx, D, k, l):
    es = [(s, e) for s, e in D.V.calls(r"CRSTransformer::getCRSUnits\(") if s is l.first.sec]
    if len(es) != 1 or len(l.vals) != 3 or any(len(v) != 1 for v in l.vals):
        ctx.und(k, "not recognised"); return
    s, e = es[0]
    crs = norm_(D, e.args[3])
    ctx.ob(k, "getCRSString(M)" in crs, e.loc(), f"units of {crs[:60]}")
    for i, v in enumerate(l.vals):
        a = deref(v[0].v)
        w = [n for n in range(3) if a is not None and isinstance(e.args[n], Leaf) and e.args[n].fp == a.fp]
        if not w:
            ctx.und(k, txt(v[0].v, 60)); continue
        ctx.ob(k, w == [i], l.first.loc(), f"unit of {'xyz'[w[0]]} in place of {'xyz'[i]}")


def lengths(ctx, D, k, l):
    """dimensions of a block: from its resolution, or its coordinates"""
    X = {}
    for v in l.vals:
        for y in v:
            for x in subl(y.v):
                X.setdefault(norm_(D, x), x)
            for v2 in nodes(y.guard):
                for z in gvn.var_leaf(v2):
                    for x in subl(z):
                        X.setdefault(norm_(D, x), x)
    n = [7, 5, 4]; res = [100.0, 250.0, 30.0]
    lo = [0.0, 0.0, -60.0]; hi = [611.0, 977.0, -137.0]
    if len(l.vals) != 3:
        ctx.und(k, "not three values"); return
    for var in (False, True):
        env = {}
        for i, c in enumerate("XYZ"):
            d = A_("getDims", BLK, i)
            env[d] = n[i]
            env[f"getResolution{c}({BLK})"] = 0.0 if var else res[i]
            env[f"getCoordinates{c}({BLK})"] = 4096.0 * (i + 1) if var else 0.0
            env[f"ld(getCoordinates{c}({BLK}))"] = lo[i]
            last = [t for t in X if re.match(rf"ld\(\(getCoordinates{c}\(.*\) \+ \(\({re.escape(d)} - 1\) \* 8\)\)\)$", t) or re.match(rf"ld\(\(getCoordinates{c}\(.*\) \+ .*\(.*{re.escape(d)}.* 8\).*\)\)$", t) and last_(X[t], X.get(d), X.get(f"getCoordinates{c}({BLK})"))]
            for t in last:
                env[t] = hi[i]
        env[f"getZTop({BLK})"] = lo[2] if var else -60.0
        env[f"getZBottom({BLK})"] = hi[2] if var else -60.0 - res[2] * (n[2] - 1)
        E = {X[t].fp: v for t, v in env.items() if t in X}
        for i, v in enumerate(l.vals):
            want = abs(hi[i] - lo[i]) if var else res[i] * (n[i] - 1)
            for y in v:
                g = p03.decide(y.guard, E)
                g = gvn.restrict_vars(g, lambda q: None)
                if not feasible(g):
                    continue
                a = p03.value(y.v, E)
                w = f"{k}: {'xyz'[i]}, {'variable' if var else 'uniform'} resolution"
                if a is None:
                    ctx.und(w, name(y.v)[:80]); continue
                ctx.ob(w, abs(a - want) < 1e-6, y.loc(), f"{a:g} rather than {want:g}")


def last_(l, n, a):
    if n is None or a is None:
        return False
    b = deref(l)
    return b is not None and l_sub(b, l_add(a, l_mul(l_sub(n, C(1)), C(8)))).const == 0


def subl(l, d=0):
    if isinstance(l, Leaf) and d < 12:
        yield l
        for x in l.tree[1:]:
            yield from subl(x, d + 1)


def joined(ctx, D, tpl, get, delim):
    k = f"{PROG}: shown: {get[3:]}"
    want = f"{get}({INFO})"
    res = [e.res for s, e in D.V.calls(rf"::{get}(\[abi:cxx11\])?\(") if isinstance(e.res, Leaf) and norm_(D, e.res) == want]

    def elem(v):
        a = deref(v) if isinstance(v, Leaf) else None
        for r in res if a is not None else ():
            i = index_into(a, lds(r, 0), 32)
            if i is not None and not gvn_contains(i, lds(r, 0).fp):
                return i
        return None
    cand = [l for l in D.lines if any(elem(y.v) is not None for v in l.vals for y in v)]
    if len(cand) != 1:
        w = get[3:]
        at_ = [l for l in D.lines if re.match(rf"{w}\b", label(l))]
        at_ += [l for l in D.lines for x in at_[:1] if l.n == x.n + 1 and l.vals and not re.match(r"\w+:", label(l))]
        vs = [x for l in at_ for v in values_(D, l) for x in v]
        if not cand and (not at_ or vs and all(KNOWN.match(x) and "get" in x for x in vs if x.strip(" ,;\n"))):
            ctx.ob(k, False, at_[0].first.loc() if at_ else D.f.loc(), f"{vs[0][:80]} is shown" if vs else "not shown")
        else:
            ctx.und(k, "not recognised")
        return
    l = cand[0]
    if tpl and label(l) != tpl:
        ctx.ob(k, False, l.first.loc(), f"shown as {label(l)[:50]}") if any(w in label(l) for w in ("Keywords", "Authors", "History", "Comment")) else ctx.und(k, label(l)[:40])
        return
    run = next(v for v in l.vals if any(elem(y.v) is not None for y in v))
    x = next(y for y in run if elem(y.v) is not None)
    if len(x.loops) < 2:
        ctx.und(k, "not in a loop over the list"); return
    ds = [y for y in run if isinstance(y.v, str)]
    lk = x.loops[-1]
    info = x.sec.E.loopinfo.get(lk)
    if info is None:
        ctx.und(k, "not in a loop over the list"); return
    it = info["it"]
    wit = turns(D, it, want, 32)
    ab = ZERO
    for e, g in D.ab.get(id(x.top), ()):
        ab = OR(ab, g)
    text = "".join(y.v for y in ds)
    ctx.ob(f"{k}: separated", text.strip(" ") == delim.strip(" ") and bool(ds), x.loc(), f"by {text!r}")
    order_ = []
    for n, t in enumerate(wit):
        m = t(OR(x.guard, ab))
        if m not in (ONE, ZERO) and any(gvn_contains(q, it.fp) for v in nodes(m) for q in gvn.var_leaf(v)):
            ctx.und(f"{k}: each", why(m)); return
        if feasible(NOT(m)) and feasible(m):
            ctx.ob(f"{k}: each", False, x.loc(), f"not when {why(NOT(m))}"); return
        if feasible(m):
            q = p03.value(elem(x.v), {it.fp: float(n), **wit_env(D, want)})
            if q is None:
                ctx.und(f"{k}: each", name(x.v)[:80]); return
            order_.append((int(q), n))
    ctx.ob(f"{k}: each", [q for q, n in order_] == [0, 1, 2], x.loc(), f"numbers {', '.join(str(q) for q, n in order_) or 'none'} of 0 to 2")
    for pos, (q, n) in enumerate(order_):
        for y in ds:
            before = run.index(y) < run.index(x)
            sep = pos > 0 if before else pos < len(order_) - 1
            a = wit[n](y.guard) if not sep else wit[n](NOT(OR(y.guard, ab)))
            if feasible(a) and any(gvn_contains(z, it.fp) for v in nodes(a) for z in gvn.var_leaf(v)):
                ctx.und(f"{k}: separated", why(a)); continue
            ctx.ob(f"{k}: separated", not feasible(a), y.loc(), f"{'missing' if sep else 'put'} {'before' if before else 'after'} number {q} of 3")
    want_ = AND(nothrow(D.open.guard), D.asked)
    for on in COMBOS:
        w = " ".join("--" + q for q in on)
        t = nothrow(x.top.guard)
        if any("desc" in SHOWS[q] for q in on):
            ctx.ob(f"{k}: when", not feasible(given(D, AND(want_, NOT(t)), on)), x.loc(), f"not with {w}")
        else:
            ctx.ob(f"{k}: when", not feasible(given(D, t, on)), x.loc(), f"with {w}")


def bounding(ctx, D):
    k = f"{PROG}: shown: Bounding box"
    cand = [l for l in D.lines if "Bounding box" in l.text]
    if len(cand) != 1:
        ctx.ob(k, False, D.f.loc(), "not shown") if not cand else ctx.und(k, "shown in several places"); return
    l = cand[0]
    if len(l.vals) in (2, 4, 6, 10, 12) and all(len(v) == 1 for v in l.vals) and re.search(r"(\(\{\}, \{\}\) ?){%d}$" % (len(l.vals) // 2), l.text):
        ctx.ob(f"{k}: the four corners", False, l.first.loc(), f"{len(l.vals) // 2} points are shown"); return
    if len(l.vals) != 8 or any(len(v) != 1 for v in l.vals) or not re.search(r"(\(\{\}, \{\}\) ?){4}$", l.text):
        ctx.und(k, label(l)[:80]); return
    shown(ctx, D, k, l, "desc", None, None)
    tr = D.V.calls(r"CRSTransformer::transform\(")
    src = D.V.calls(r"CRSTransformer::setSrc\("); dst = D.V.calls(r"CRSTransformer::setDest\("); ini = D.V.calls(r"CRSTransformer::initialize\(")
    az, dx, dy, ox, oy = 30.0, 60000.0, 120000.0, 200000.0, -400000.0
    spots = [[deref(l.vals[2 * n + i][0].v) for i in (0, 1)] for n in range(4)]
    outs = {e.args[q].fp for s, e in tr for q in (1, 2) if isinstance(e.args[q], Leaf)}
    direct = all(not e.loops for s, e in tr)
    for n in range(4):
        ads = spots[n]
        if direct and None not in ads and not any(a.fp in outs for a in ads) and any(a is not None and a.fp in outs for b in spots for a in b) and sum(all(a is not None and a.fp in outs for a in b) for b in spots) == len(tr):
            ctx.ob(f"{k}: corner {n}", False, l.first.loc(), "not a transformed point"); continue
        es = [(s, e) for s, e in tr if any(isinstance(e.args[q], Leaf) and a is not None and e.args[q].fp == a.fp for a in ads for q in (1, 2))]
        if not es or None in ads:
            ctx.und(f"{k}: corner {n}", txt(l.vals[2 * n][0].v, 60)); continue
        for i in (0, 1):
            w = [(s, e) for s, e in tr if e.args[1 + i].fp == ads[i].fp]
            x = [(s, e) for s, e in tr if e.args[2 - i].fp == ads[i].fp]
            if not w and not x:
                ctx.und(f"{k}: corner {n}", "not transformed"); continue
            ctx.ob(f"{k}: latitude before longitude", bool(w), l.first.loc(), "exchanged")
            for s, e in (w or x)[:1]:
                import math
                c, q = math.cos(az * math.pi / 180), math.sin(az * math.pi / 180)
                u, v = ((0, 0), (dx, 0), (dx, dy), (0, dy))[n]
                want = (ox + u * c + v * q, oy - u * q + v * c)
                for j in (0, 1):
                    a = trig(D, e.args[4 + j], {"ld(getDims(M))": dx, "ld((getDims(M) + 8))": dy, "ld((getDims(M) + 16))": 27500.0, "getYAzimuth(M)": az, "ld(getOrigin(M))": ox, "ld((getOrigin(M) + 8))": oy})
                    if a is None:
                        ctx.und(f"{k}: corner {n}", norm_(D, e.args[4 + j])[:80]); continue
                    ctx.ob(f"{k}: corner {n}", abs(a - want[j]) < 1e-3, e.loc(), f"{'xy'[j]}={a:.1f} rather than {want[j]:.1f} for a model of {dx:g} by {dy:g} at ({ox:g}, {oy:g}) with azimuth {az:g}")
    for y in (v[0] for v in l.vals):
        ctx.ob(f"{k}: digits", not (isinstance(y.prec, Leaf) and y.prec.const is not None and y.prec.const < 6), y.loc(), "fewer than 6")
    # crs
    for s, e in tr:
        o = e.args[0]
        for what, es, want in (("from the coordinate system of the model", src, "getCRSString(M)"), ("to latitude and longitude", dst, "EPSG:4326")):
            ws = [(s2, x) for s2, x in es if s2 is s and x.args[0].fp == o.fp and x.n < e.n]
            if not ws:
                ctx.und(f"{k}: {what}", "not recognised"); continue
            t = norm_(D, ws[-1][1].args[1])
            ctx.ob(f"{k}: {what}", want in t, ws[-1][1].loc(), f"is {t[:60]}")
        ctx.ob(f"{k}: transformer is set up", any(s2 is s and x.args[0].fp == o.fp and max([y.n for s3, y in src + dst if s3 is s] or [0]) < x.n < e.n for s2, x in ini), e.loc(), "not initialized")


def trig(D, l, env, d=0):
    import math
    t = norm_(D, l)
    if t in env:
        return env[t]
    if l.const is not None:
        return float(l.const)
    t = l.tree
    if d > 30:
        return None
    if t[0] == "fn" and len(t) == 2 and re.match(r"^-?[\d/]+[*/]PI$", str(t[1])):
        a, o, b = re.match(r"^(-?[\d/]+)([*/])(PI)$", t[1]).groups()
        from fractions import Fraction
        return float(Fraction(a)) * math.pi if o == "*" else float(Fraction(a)) / math.pi
    if t[0] in ("+", "-", "*", "/") and len(t) == 3:
        a, b = trig(D, t[1], env, d + 1), trig(D, t[2], env, d + 1)
        if a is None or b is None or t[0] == "/" and not b:
            return None
        return a + b if t[0] == "+" else a - b if t[0] == "-" else a * b if t[0] == "*" else a / b
    if t[0] == "fn" and len(t) == 3 and t[1] in ("sin", "cos", "tan"):
        a = trig(D, t[2], env, d + 1)
        return None if a is None else getattr(math, t[1])(a)
    return None


def sequence(ctx, D):
    """lines about one thing are together, below its heading"""
    fd = getattr(D, "found", {})
    k = f"{PROG}: shown: order of the lines"
    def before(a, b):
        if a in fd and b in fd:
            ctx.ob(k, fd[a].n < fd[b].n, fd[b].first.loc(), f"{a[1]} after {b[1]}")
    for t, c in (("Top surface:", "top"), ("Topography/bathymetry:", "topo")):
        h = ("blocks", t, None)
        for x in (("blocks", "None", "no " + c), ("blocks", "Number of points: x={}, y={}", c), ("blocks", "Resolution: x={}, y={}", c)):
            before(h, x)
            o = ("blocks", "Topography/bathymetry:" if c == "top" else "Top surface:", None)
            if o in fd and h in fd and x in fd and fd[o].n > fd[h].n:
                before(x, o)
    h = ("blocks", "Block '{}'", None)
    for x in [q for q in fd if q[0] == "blocks" and fd[q].loops[1:] and q != h]:
        before(h, x)
