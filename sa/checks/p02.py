"""Command line options of the programs"""
from common_exc import *
import strmodels as SM
import models as MD
import appmodels as AM
import h01, h03, c01, p01
from h01 import th, exits
from h04 import nodes, why, eqc1
from c01 import par
from p01 import cases, feasible, field, offset, THIS, QUERY
from spec import deref, backguard

MINIMUM = 60
OPTION = l_fn("option"); OPTARG = l_fn("optarg")
TEXT = MD.cval(OPTARG)
NUM = {"atof": "decimal", "strtod": "decimal", "atoi": "integer", "atol": "integer", "strtol": "integer", "atoll": "integer", "strtof": "short decimal"}
STO = {"stod": "decimal", "stold": "decimal", "stoi": "integer", "stol": "integer", "stoul": "integer", "stoll": "integer", "stoull": "integer", "stof": "short decimal"}


# ---- models ------------------------------------------------------------------------------------
def m_getopt(act, i, dem, args, g, st, setres):
    ev = act.ev
    ev.snap = getattr(ev, "snap", [])
    tab = args[3] if len(args) > 3 else None
    ev.snap.append((st.copy(), tuple(ev.loopstack), tab, i))
    ev.store(st, ev.globaladdr("optarg"), ev.optarg, 8, g, ("getopt", i.line))
    setres(ev.option)
    return None


def m_num(act, i, dem, args, g, st, setres):
    n = dem.split("(")[0].split("::")[-1]
    if n in NUM:
        v = MD.cval(args[0])
        if n in ("strtod", "strtol", "strtof") and not (isinstance(args[1], Leaf) and args[1].const == 0):
            return NotImplemented
        k = NUM[n]
    else:
        k = STO[n]; v = MD.sval(act.ev, st, args[0])
    setres(app1(k, lambda l: l_fn(k, l), v))
    return None


def m_getline(act, i, dem, args, g, st, setres):
    """std::getline(stream, string, delimiter)"""
    ev = act.ev
    r = AM.root(args[0])
    if not isinstance(r, Leaf):
        return NotImplemented
    s = AM.get(ev, st, r, AM.STATE)
    v = app1("piece", lambda l: MD.strleaf([l_fn("piece", l)]), s)
    ns = app1("rd", lambda l: l_fn("read", l), s)
    ev.store(st, args[1], v, 32, g, ("piece", i.line))
    AM.put(ev, st, r, AM.STATE, ns, g, ("piece", i.line))
    AM.emit(act, i, g, "piece", [r, args[1]], v, (s, ns, args[2].const if len(args) > 2 and isinstance(args[2], Leaf) else 10))
    setres(args[0])
    return None


def m_sstream(act, i, dem, args, g, st, setres):
    r = AM.m_sstream(act, i, dem, args, g, st, setres)
    ps = EV.params_of(dem) or []
    if not re.search(r"::(~|str\()", dem):
        a = AM.root(args[0])
        if isinstance(a, Leaf):
            v = AM.fname(act.ev, st, args[1], ps) if ps and "basic_string" in ps[0] else MD.strleaf([])
            AM.put(act.ev, st, a, AM.STATE, app1("tx", lambda l: l_fn("text", l), v), g, ("tx", i.line))
    return r


def m_str(act, i, dem, args, g, st, setres):
    """text held by a stream"""
    if i.d.get("sret"):
        r = AM.root(args[1])
        s = AM.get(act.ev, st, r, AM.STATE) if isinstance(r, Leaf) else None
        if isinstance(s, Leaf) and AM.is_fn(s, "text"):
            act.ev.store(st, args[0], s.tree[2], 32, g, ("ss", i.line))
            return None
    return m_sstream(act, i, dem, args, g, st, setres)


def m_vec(act, i, dem, args, g, st, setres):
    ev = act.ev
    dem = dem[dem.index("std::vector<"):]
    k = re.search(r">::(push_back|emplace_back)(<.*>)?\(", dem)
    x = None
    if k and len(args) > 1:
        ps = EV.params_of(dem) or []
        a = args[1]
        if re.match(r"std::vector<std::(__cxx11::)?basic_string", dem):
            p0 = ps[0] if ps else ""
            if re.match(r"(std::(__cxx11::)?basic_string|std::string)", p0):
                x = (MD.sval(ev, st, a),)
            elif p0.startswith("char*&") or p0.startswith("char const*&"):
                x = (MD.cval(ev.load(st, a, "ptr", 8, None)),)
        elif re.match(r"std::vector<std::pair<", dem) and ps and ps[0].startswith("std::pair<"):
            x = (MD.sval(ev, st, a), ev.load(st, padd(a, const(32)), "double", 8, None))
        elif re.match(r"std::vector<std::pair<", dem) and len(args) == 3:
            x = (MD.sval(ev, st, a), ev.load(st, args[2], "double", 8, None))
    n = len(ev.events)
    r = SM.m_vecmut(act, i, dem, args, g, st, setres)
    if r is not NotImplemented and len(ev.events) > n:
        ev.events[n].extra = x
    return r


def m_strcase(act, i, dem, args, g, st, setres):
    a, b = (MD.cval(x) for x in args[:2])
    if not isinstance(a, Leaf) or not isinstance(b, Leaf):
        return NotImplemented
    x, y = MD.const_string(a), MD.const_string(b)
    n = int(args[2].const) if len(args) > 2 and args[2].const is not None else None
    if x is None or y is None or (len(args) > 2 and n is None):
        return NotImplemented
    if "case" in dem:
        x, y = x.lower(), y.lower()
    setres(ZERO if x[:n] == y[:n] else const(1))
    return None


def m_init(act, i, dem, args, g, st, setres):
    act.ev.inits = getattr(act.ev, "inits", []) + [(st.copy(), AND(act.guard0, g), i)]
    return NotImplemented


def m_pair(act, i, dem, args, g, st, setres):
    """pair of a name and a number"""
    ev = act.ev
    dem = dem[dem.index("std::pair<"):]
    if re.search(r"::~pair\(", dem):
        return None
    ps = EV.params_of(dem) or []
    if len(args) != 3 or len(ps) != 2 or not re.match(r"(std::(__cxx11::)?basic_string|std::string|char)", ps[0]) or not re.match(r"(double|float|int)\b", ps[1]) or not isinstance(args[0], Leaf):
        return NotImplemented
    if ps[0].startswith("char"):
        n = MD.cval(ev.load(st, args[1], "ptr", 8, None) if ps[0].endswith("*&") or ps[0].endswith("*&&") else args[1])
    else:
        n = MD.sval(ev, st, args[1])
    t, z = ("float", 4) if ps[1].startswith("float") else ("i32", 4) if ps[1].startswith("int") else ("double", 8)
    ev.store(st, args[0], n, 32, g, ("pair", i.line)); ev.store(st, padd(args[0], const(32)), ev.load(st, args[2], t, z, None), 8, g, ("pair", i.line))
    return None


OPTS = {
    r"^(\S.* )?std::pair<std::(__cxx11::)?basic_string<.*>::~?pair(<.*>)?\(": m_pair,
    r"^getopt_long(_only)?$": m_getopt,
    r"^(atof|strtod|atoi|atol|strtol|strtof|atoll)$|^std::(__cxx11::)?sto(d|f|i|l|ul|ll|ull|ld)\(": m_num,
    r"std::getline<": m_getline,
    r"^std::(__cxx11::)?basic_[io]?stringstream<.*>::(~?basic_[io]?stringstream)\(": m_sstream,
    r"^std::(__cxx11::)?basic_[io]?stringstream<.*>::str\(": m_str,
    next(iter(SM.VECMUT)): m_vec,
    r"^str(n?case|n)?cmp$": m_strcase,
}


class Opt:
    """run() of a program with getopt_long giving one option (None: any)"""
    def __init__(self, p, f, option=None, text=None, stop=None, arg=True, narrow=False):
        self.p = p; self.f = f
        ms = {**OPTS, **AM.IO, **h01.OWNERS, **SM.STREAMS}
        ms = {k: v for k, v in ms.items() if not (v is AM.m_sstream)}
        ms = {**ms, **{k: v for k, v in OPTS.items()}}
        if stop:
            ms[stop] = m_init
        E = self.E = EV.Evaluator(p, models=ms)
        E.option = const(option) if option is not None else OPTION
        E.optarg = ZERO if not arg else OPTARG if text is None else mkleaf(H("addr", ("gs", text)), ("fn", repr(text)), None, ("gs", text), ZERO)
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        reach = reaching(p)
        if option is not None or narrow:
            # only what leads to the options
            E.inline_pred = lambda fn, dem: None if fn.name in reach or (fn.tu == f.tu and not re.search(r"::(_print|run|print)", fn.dem) and incls(fn, reach, p)) or not fn.repo else False
        else:
            E.inline_pred = lambda fn, dem: None if fn.tu == f.tu or not fn.repo else False
        E.run(f, None, EV.State())
        self.ev = E.events; self.loc = f.loc()
        sn = getattr(E, "snap", [])
        self.snap = sn[-1] if sn else None
        self.n = len({x[3].uid for x in sn})

    def backs(self):
        k = self.snap[1][-1] if self.snap and self.snap[1] else None
        i = self.E.loopinfo.get(k) if k is not None else None
        return i["back"] if i else None

    def string(self, st, off):
        return MD.sval(self.E, st, padd(THIS, const(off)))

    def number(self, st, off, ty="double", size=8):
        return self.E.load(st, padd(THIS, const(off)), ty, size, None)


_reach = {}


def reaching(p):
    """functions from which getopt_long is called"""
    if p in _reach:
        return _reach[p]
    out = {g.name for g in p.repo_fns() if any(i.o in ("call", "invoke") and i.callee and i.callee.startswith("getopt") for i in g.instrs())}
    direct = set(out)
    ch = True
    while ch:
        ch = False
        for g in p.repo_fns():
            if g.name not in out and any(i.o in ("call", "invoke") and i.callee in out for i in g.instrs()):
                out.add(g.name); ch = True
    # and what those that handle options call
    for g in list(p.repo_fns()):
        pass
    _reach[p] = out
    p02_direct[p] = direct
    return out


p02_direct = {}


def incls(fn, reach, p):
    """helper called by a function that handles options"""
    for g in p.repo_fns():
        if g.tu == fn.tu and g.name in handlers(p) and any(i.o in ("call", "invoke") and i.callee == fn.name for i in g.instrs()):
            return True
    return False


_hand = {}


def handlers(p):
    """functions that handle options: those calling getopt_long, their callers below run(), and what they call"""
    if p in _hand:
        return _hand[p]
    reach = reaching(p)
    out = {g.name for g in p.repo_fns() if g.name in reach and not re.search(r"::run\(|(^|\s)main", g.dem)}
    out |= p02_direct[p]
    ch = True
    byname = {g.name: g for g in p.repo_fns()}
    while ch:
        ch = False
        for n in list(out):
            g = byname[n]
            for i in g.instrs():
                if i.o in ("call", "invoke") and i.callee in byname and i.callee not in out and byname[i.callee].tu == g.tu and not re.search(r"::run\(", byname[i.callee].dem):
                    out.add(i.callee); ch = True
    _hand[p] = out
    return out


def table(p, E, a):
    """[(name, has_arg, flag is null, value)] of the options"""
    if not isinstance(a, Leaf) or a.base is None or a.base[0] != "g":
        return None
    g = p.globals.get(a.base[1]) or next((t.get(a.base[1]) for t in p.tuglobals.values() if a.base[1] in t), None)
    if not g or "init" not in g or g["init"][0] != "a":
        return None
    out = []
    tu = next((t for t, gs in p.tuglobals.items() if a.base[1] in gs), None)
    for r in g["init"][1]:
        if r[0] == "z":
            break
        if r[0] != "a" or len(r[1]) != 4:
            return None
        nm = p.string(r[1][0], tu) if r[1][0][0] in ("g", "go") else None
        if r[1][0][0] in ("n", "z"):
            break
        num = [0 if x[0] in ("z", "n") else x[1] if x[0] == "i" else None for x in (r[1][1], r[1][3])]
        if nm is None or None in num:
            return None
        out.append((nm, num[0], r[1][2][0] in ("n", "z"), num[1]))
    else:
        return out if not g["init"][1] else out + [None]
    return out


# ---- roles -------------------------------------------------------------------------------------
class Quiet:
    def ob(self, *a): pass
    def und(self, *a): pass
    def guard(self, key, fn, *a):
        fn(*a)


def roles(p, f, cls, prog, nc):
    """members run() uses for what"""
    R = p01.Run(p, f)
    R.name = prog; R.cls = cls; R.fin = R.fout = R.topo = R.dz = R.maxdepth = R.help = None; R.offs = [None] * 3
    if R.st is None:
        return None
    keep = p01.Run
    try:
        p01.Run = lambda *_: R
        p01.program(Quiet(), p, f, cls, prog, nc)
    finally:
        p01.Run = keep
    R.log = None
    for e in R.calls(r"ErrorHandler::setLogFilename\("):
        R.log = field(R, MD.cval(e.args[1]))
    R.squash = R.minelev = None
    for e in R.calls(QUERY + r"setSquashing\("):
        R.squash = field(R, e.args[1])
    for e in R.calls(QUERY + r"setSquashMinElev\("):
        R.minelev = field(R, e.args[1])
    R.xy = None
    if cls == "Borehole" and getattr(R, "ask", None):
        xy = [field(R, a) for a in R.ask[0].args[2:4]]
        R.xy = xy if None not in xy else None
    return R


def spec(R):
    """option -> (kind, member, ...)"""
    c = R.cls
    m, v, crs = R.offs
    d = {"help": ("flag", R.help, 1), "models": ("list", m), "output": ("text", R.fout), "log": ("text", R.log), "points-coordsys": ("text", crs)}
    if c in ("Query", "QueryElev"):
        d["points"] = ("text", R.fin)
    if c in ("Query", "Borehole"):
        d["values"] = ("list", v)
    if c == "Query":
        d["squash-min-elev"] = ("number", R.minelev)
        d["squash-surface"] = ("choice", R.squash, {"top_surface": 1, "topography_bathymetry": 2, "none": 0}, 4)
    if c == "QueryElev":
        d["surface"] = ("choice", R.topo, {"top_surface": 0, "topography_bathymetry": 1}, 1)
    if c == "Borehole":
        d["max-depth"] = ("number", R.maxdepth); d["dz"] = ("number", R.dz); d["location"] = ("pair", R.xy)
    return d


REQUIRED = {"Query": ("values", "models", "points", "output"), "QueryElev": ("models", "points", "output"), "Borehole": ("location", "values", "models", "output")}
DEFAULTS = {"Query": {"squash-min-elev": -10000.0, "squash-surface": 0, "points-coordsys": "EPSG:4326"}, "QueryElev": {"surface": 0, "points-coordsys": "EPSG:4326"},
            "Borehole": {"max-depth": 5000.0, "dz": 10.0, "points-coordsys": "EPSG:4326"}}
ALSO = {("Query", "squash-min-elev"): ("squash-surface",)}     # asking for an elevation asks for squashing


def check(ctx):
    p = core.load(("lib", "bin"))
    for cls, prog, nc in p01.APPS:
        fs = [f for f in p.repo_fns() if re.search(rf"apps::{cls}::run\(", f.dem) and f.blocks]
        if not fs:
            raise core.AnalysisBroken(f"apps::{cls}::run vanished")
        ctx.guard(prog, program, ctx, p, fs[0], cls, prog, nc)
    import p03
    ctx.guard(p03.PROG, isosurface, ctx, p, p03.root(p), p03)


def isosurface(ctx, p, f, p03):
    prog = p03.PROG
    R = None

    class Q(Quiet):
        def guard(self, key, fn, *a):
            try:
                fn(*a)
            except Exception:
                pass
    R = p03.program(Q(), p, f)
    if R is None:
        ctx.und(f"{prog}: options", "run() not recognised"); return
    g = lambda n: getattr(R, n, None)
    m, v, crs = getattr(R, "offs", [None] * 3)
    box = None
    if g("corners") and g("lo") is not None:
        lo, hi = R.corners[R.lo], R.corners[1 - R.lo]
        box = [lo[0], hi[0], lo[1], hi[1]]
    sf = field(R, R.surface[0]) if g("surface") else None
    iso = p03.isos(R)
    sp = {"help": ("flag", g("help"), 1), "log": ("text", g("log")), "models": ("list", m), "output": ("text", g("output")), "bbox-coordsys": ("text", crs),
          "bbox": ("box", box), "hresolution": ("number", g("hres")), "vresolution": ("number", g("vres")), "max-depth": ("number", g("maxdepth")),
          "num-search-points": ("integer", g("npoints"), None, 4), "isosurface": ("surfaces", iso[0] if iso else None),
          "depth-reference": ("choice", sf, {"topography_bathymetry": R.surface[1], "top_surface": R.surface[2]} if g("surface") else {}, 4),
          "prefer-deep": ("flag", field(R, R.flag) if g("shallow") is not None else None, 1 - R.shallow if g("shallow") is not None else None)}
    defs = {"bbox-coordsys": "EPSG:4326", "vresolution": 10.0, "num-search-points": 10, "prefer-deep": 1 - (sp["prefer-deep"][2] or 0)}
    if g("surface"):
        defs["depth-reference"] = R.surface[1]
    options(ctx, p, f, "Isosurface", prog, R, sp, ("bbox", "hresolution", "isosurface", "max-depth", "models", "output"), defs, p03)


def program(ctx, p, f, cls, prog, nc):
    R = roles(p, f, cls, prog, nc)
    if R is None:
        ctx.und(f"{prog}: options", "run() not recognised"); return
    options(ctx, p, f, cls, prog, R, spec(R), REQUIRED[cls], DEFAULTS[cls])


def options(ctx, p, f, cls, prog, R, sp, req, defs, p03=None):
    O = Opt(p, f, stop=QUERY + r"initialize\(")
    if O.snap is None:
        ctx.und(f"{prog}: options", "getopt_long is not called"); return
    if O.n != 1 or not O.snap[1]:
        ctx.und(f"{prog}: options", "several calls of getopt_long, or none in a loop"); return
    tab = table(p, O.E, O.snap[2])
    if tab is None:
        ctx.und(f"{prog}: options", "table of options not recognised"); return
    ctx.ob(f"{prog}: table of options ends with zeros", None not in tab, O.snap[3].loc() if hasattr(O.snap[3], "loc") else f.loc(), "does not end")
    tab = [t for t in tab if t is not None]
    loc = O.loc
    seen = {}
    for n, h, fl, v in tab:
        seen.setdefault(n, (h, fl, v))
    vals = {}
    for name, s in sp.items():
        k = f"{prog} --{name}"
        if name not in seen:
            ctx.ob(f"{k}: is an option", False, loc, "not in the table of options"); continue
        h, fl, v = seen[name]
        want = 0 if s[0] == "flag" else 1
        ctx.ob(f"{k}: {'takes a value' if want else 'takes no value'}", h == want, loc, "optional" if h == 2 else "takes none" if h == 0 else "takes one")
        if not fl:
            ctx.und(f"{k}: value", "stored by getopt_long"); continue
        vals[name] = v
    for name, t in sp.items():
        if t[0] == "surfaces" and t[1] is not None:
            a = padd(THIS, const(t[1])).fp
            cl = [e for e in O.ev if e.kind == "call" and re.search(r"^std::vector<.*>::clear\(", e.callee or "") and not e.loops and e.args[0].fp == a and not feasible(AND(O.snap[4] if len(O.snap) > 4 else ONE, NOT(nothrow(e.guard))))]
            fs = [x for x in p.repo_fns() if re.search(rf"apps::{cls}::{cls}\(", x.dem) and x.blocks]
            if not cl and fs:
                E = EV.Evaluator(p, models={**SM.STREAMS, **SM.VECMUT}); E.run(fs[0], None, EV.State())
                o = Opt.__new__(Opt); o.E = E
                e0 = not feasible(NOT(isempty(o, t, E.state)))
                mu = [e for e in E.events if e.kind == "call" and re.match(r"std::vector<", e.callee or "") and e.args and e.args[0].fp == a and re.search(r">::(resize|push_back|emplace_back|clear|operator=|assign)(<.*>)?\(", e.callee)]
                if mu and not e0 and re.search(r">::(resize|push_back|emplace_back)(<.*>)?\(", mu[-1].callee) and not (len(mu[-1].args) > 1 and isinstance(mu[-1].args[1], Leaf) and mu[-1].args[1].const == 0) and not [e for e in O.ev if e.kind == "call" and re.search(r"^std::vector<.*>::(operator=|swap|resize|erase|assign)", e.callee or "") and not e.loops and any(isinstance(x, Leaf) and x.fp == a for x in e.args)]:
                    ctx.ob(f"{prog} --{name}: those given are the only ones", False, loc, "the defaults stay"); continue
                if e0 or [e for e in O.ev if e.kind == "call" and re.search(r"^std::vector<.*>::(operator=|swap|resize|erase|assign)", e.callee or "") and not e.loops]:
                    (ctx.ob if e0 else lambda k, *x: ctx.und(k, "not recognised"))(f"{prog} --{name}: those given are the only ones", True, loc)
                else:
                    ctx.ob(f"{prog} --{name}: those given are the only ones", False, loc, "the defaults stay")
            elif cl:
                ctx.ob(f"{prog} --{name}: those given are the only ones", True, loc)
    # each option sets what it says, and nothing else
    base = {}
    for name, v in vals.items():
        ctx.guard(f"{prog} --{name}", option, ctx, p, f, prog, R, sp, name, v, vals, cls)
    ctx.guard(f"{prog}: unknown options", unknown, ctx, p, f, prog)
    ctx.guard(f"{prog}: required options", required, ctx, p, f, prog, R, sp, req, O, p03)
    ctx.guard(f"{prog}: defaults", defaults, ctx, p, f, cls, prog, sp, defs)


def mutated(O, off, n0):
    """changes of the vector member at off"""
    a = padd(THIS, const(off))
    return [e for e in O.ev if e.kind == "call" and e.callee and re.match(r"std::vector<", e.callee) and e.args and isinstance(e.args[0], Leaf) and (e.args[0].fp == a.fp or re.search(r"::swap\(", e.callee) and isinstance(e.args[1], Leaf) and e.args[1].fp == a.fp)]


def option(ctx, p, f, prog, R, sp, name, v, vals, cls):
    s = sp[name]; k = f"{prog} --{name}"
    also = ALSO.get((cls, name), ())
    texts = [None] if s[0] != "choice" else list(s[2])
    if cls == "Isosurface" and s[0] == "choice" and s[1] is not None:
        O = Opt(p, f, v, "another")
        for fr, g, st in O.backs() or ():
            for l, c in cases(value(O, s, st, s[1]), nothrow(g)):
                if feasible(c):
                    ctx.ob(f"{k}: an unknown surface is an error", l.const is not None and l.const not in s[2].values(), O.loc, "it is taken for another" if l.const is not None else "it is ignored") if l.const is not None or field(None, l) is not None else ctx.und(f"{k}: unknown surface", txt(l, 60))
    for text in texts:
        O = Opt(p, f, v, text, arg=s[0] != "flag")
        bk = O.backs()
        kt = k + (f"={text}" if text else "")
        if not bk:
            ex = [w for w, g, st, r in exits(O.E)]
            if s[0] == "flag" and name == "help" and "returning" in ex:
                ctx.und(kt, "ends the program"); continue
            ctx.ob(f"{kt}: is accepted", False, O.loc, "the program does not go on") if O.snap and O.snap[1] else ctx.und(kt, "not recognised")
            continue
        head = O.snap[0]
        raising = [e for e in O.ev if e.kind == "noreturn" and e.callee == "__cxa_throw" and feasible(nothrow(e.guard))]
        done = ZERO
        for fr, g, st in bk:
            done = OR(done, nothrow(g))
        if text:
            ctx.ob(f"{kt}: is accepted", not any(feasible(AND(nothrow(e.guard), NOT(done))) for e in raising), O.loc, "an exception is raised")
        # this option
        ctx.guard(f"{kt}: value", sets, ctx, p, O, kt, s, text, head, bk)
        if (cls, name) in ALSO:
            t = sp["squash-surface"]
            if t[1] is not None:
                a = value(O, t, head, t[1])
                for fr, g, st in bk:
                    b = value(O, t, st, t[1])
                    d = app2("same", lambda x, y: (NOT(eqc(x, 0)) if y.const == 1 else ZERO if x.fp == y.fp and False else ONE) if x.fp != y.fp else eqc(x, 0), a, b)
                    ctx.ob(f"{k}: asks for squashing below the top surface, or below the surface asked for", not feasible(AND(nothrow(g), d)), O.loc, f"surface becomes {txt(b, 60)}")
        # the others
        for other, t in sp.items():
            if other == name or other in also or other not in vals or t[1] is None or t[1] == s[1]:
                continue
            same(ctx, O, f"{kt}: leaves --{other}", t, head, bk, s[0] in ("pair", "box"))


def members(t):
    return t[1] if t[0] in ("pair", "box") else [t[1]]


def value(O, t, st, off):
    if t[0] == "text":
        return O.string(st, off)
    if t[0] in ("number", "pair", "box"):
        return O.number(st, off)
    if t[0] == "integer":
        n = t[3] if len(t) > 3 else 8
        return O.number(st, off, f"i{8 * n}", n)
    if t[0] == "flag":
        return O.number(st, off, "i8", 1)
    if t[0] == "choice":
        return O.number(st, off, "i32" if t[3] == 4 else "i8", t[3])
    return None


def same(ctx, O, k, t, head, bk, byplace=False):
    if byplace and t[0] not in ("list", "surfaces"):
        # elements are written one by one: by the places written
        lp = O.snap[1]
        for off in members(t):
            es = [e for e in O.ev if e.kind == "store" and e.loops[:len(lp)] == lp and isinstance(e.args[0], Leaf) and offset(e.args[0]) == off and feasible(nothrow(e.guard))]
            ctx.ob(k, not es, es[0].loc() if es else O.loc, "is changed")
        return
    if t[0] in ("list", "surfaces"):
        es = [e for e in mutated(O, t[1], 0) if feasible(nothrow(e.guard)) and len(e.loops) >= len(O.snap[1]) and e.n > -1 and e.loops[:len(O.snap[1])] == O.snap[1] and not re.search(r"::(reserve|shrink_to_fit)\(", e.callee)]
        ctx.ob(k, not es, es[0].loc() if es else O.loc, "is changed")
        return
    for off in members(t):
        a = value(O, t, head, off)
        for fr, g, st in bk:
            if not feasible(nothrow(g)):
                continue
            b = value(O, t, st, off)
            d = app2("same", lambda x, y: ZERO if x.fp == y.fp else ONE, a, b)
            ctx.ob(k, not feasible(AND(nothrow(g), d)), O.loc, f"becomes {txt(b, 60)}")


def sets(ctx, p, O, k, s, text, head, bk):
    kind, off = s[0], s[1]
    if off is None:
        ctx.und(f"{k}: value", "member not known"); return
    if kind in ("list", "surfaces"):
        (lists if kind == "list" else surfaces)(ctx, O, k, off, bk); return
    if kind in ("pair", "box"):
        several(ctx, O, k, s, bk); return
    for fr, g, st in bk:
        g = nothrow(g)
        if not feasible(g):
            continue
        for l, c in cases(value(O, s, st, off), g):
            if kind == "text":
                ok = l.fp == TEXT.fp
            elif kind in ("number", "integer"):
                ok = isnum(l, TEXT, kind)
            elif kind == "flag":
                ok = l.const == s[2]
            else:
                ok = l.const == s[2][text]
            if ok is None:
                ctx.und(f"{k}: value", f"not recognised: {txt(l, 60)}"); continue
            ctx.ob(f"{k}: value", bool(ok), O.loc, f"becomes {txt(l, 80)}")


def isnum(l, text, kind):
    """the number a text denotes"""
    while kind == "integer" and l.tree[0] == "fn" and l.tree[1] in ("sext", "zext", "trunc", "trunc64", "trunc32") and isinstance(l.tree[2], Leaf):
        l = l.tree[2]
    for n in ("decimal", "short decimal", "integer"):
        if AM.is_fn(l, n):
            if l.tree[2].fp != text.fp:
                return False
            return n == "decimal" if kind == "number" else n == "integer"
    if AM.is_fn(l, "number") and AM.is_fn(l.tree[2], "text"):
        return l.tree[2].tree[2].fp == text.fp
    if l.const is not None or field(None, l) is not None:
        return False
    def has(x, d=0):
        return d < 8 and (x.fp == text.fp or any(has(y, d + 1) for y in x.tree[1:] if isinstance(y, Leaf)))
    return None if not any(has(x) for x in [l]) or l.tree[0] == "fn" else False


# ---- lists -------------------------------------------------------------------------------------
RESET = re.compile(r"^std::vector<.*>::clear\(\)")


def content(O, addr, upto, depth=0):
    """(replaced, pushes) of the vector at addr before event number upto, or None"""
    lp = O.snap[1]
    es = [e for e in O.ev if e.kind == "call" and e.callee and re.match(r"std::vector<", e.callee) and e.n < upto and e.loops[:len(lp)] == lp and feasible(nothrow(e.guard))
          and e.args and any(isinstance(a, Leaf) and a.fp == addr.fp for a in e.args[:2]) and not re.search(r"::(reserve|shrink_to_fit|~vector|size|empty|begin|end)\(", e.callee)]
    pushes = []
    for e in reversed(es):
        me = isinstance(e.args[0], Leaf) and e.args[0].fp == addr.fp
        ps = EV.params_of(e.callee) or []
        nm = re.search(r">::(\w+|operator=)(<.*>)?\(", e.callee)
        nm = re.search(r">::(clear|push_back|emplace_back|operator=|swap|vector|resize|assign|insert|erase|pop_back)(<.*>)?\(", e.callee)
        nm = nm.group(1) if nm else "?"
        if nm in ("push_back", "emplace_back") and me:
            pushes.append(e)
        elif me and (nm == "clear" or nm == "vector" and not ps or nm == "resize" and len(e.args) > 1 and isinstance(e.args[1], Leaf) and e.args[1].const == 0):
            if len(e.loops) != len(lp):
                return None
            return e, pushes[::-1]
        elif nm in ("operator=", "swap", "vector") and len(e.args) > 1 and isinstance(e.args[1], Leaf) and depth < 3 and not pushes and len(e.loops) == len(lp):
            o = e.args[1] if me else e.args[0]
            if not me and nm != "swap":
                continue
            c = content(O, o, e.n, depth + 1)
            return (e, c[1]) if c and c[0] is not None else None
        elif me:
            return None
    return None, pushes[::-1]


def pieces(ctx, O, k, e, delim=44):
    """e happens once for every piece of the option's text, in order; -> True / False / None"""
    lp = O.snap[1]
    if len(e.loops) != len(lp) + 1:
        return None
    pc = [x for x in O.ev if x.kind == "call" and x.callee == "piece" and x.loops == e.loops]
    if len(pc) != 1:
        return None
    x = pc[0]
    info = O.E.loopinfo.get(e.loops[-1])
    src = [t for t in O.ev if t.kind == "call" and t.callee == "text stream" and t.args[0].fp == x.args[0].fp]
    if len(src) != 1 or src[0].extra[0] is None or info is None:
        return None
    ctx.ob(f"{k}: all of the text is taken apart", isinstance(src[0].extra[0], Leaf) and src[0].extra[0].fp == TEXT.fp and len(src[0].loops) == len(lp), src[0].loc(), f"but {txt(src[0].extra[0], 60)}")
    ctx.ob(f"{k}: values are separated by commas", x.extra[2] == delim, x.loc(), f"separated by {chr(int(x.extra[2])) if x.extra[2] is not None else '?'!r}")
    return x, info


def lists(ctx, O, k, off, bk):
    done = ZERO
    for fr, g, st in bk:
        done = OR(done, nothrow(g))
    addr = padd(THIS, const(off))
    c = content(O, addr, 1 << 60)
    if c is None:
        ctx.und(f"{k}: values", "not recognised"); return
    reset, pushes = c
    if not pushes and any(re.search(r"::(swap|operator=)\(", e.callee or "") for e in ([reset] if reset is not None else [])):
        ctx.und(f"{k}: values", "not recognised"); return
    if not pushes:
        ctx.ob(f"{k}: values", False, O.loc, "are not stored"); return
    ctx.ob(f"{k}: replaces an earlier list", reset is not None, pushes[0].loc(), "is added to it")
    if reset is not None:
        m = AND(done, NOT(nothrow(reset.guard)))
        ctx.ob(f"{k}: replaces an earlier list", not feasible(m), reset.loc(), f"not when {why(m)}" if feasible(m) else "")
    main = [e for e in pushes if len(e.loops) > len(O.snap[1])]
    for e in pushes:
        if e in main:
            continue
        # the text as a whole where it has no comma
        if e.extra is None or not isinstance(e.extra[0], Leaf):
            ctx.und(f"{k}: values", "not recognised"); return
        whole = e.extra[0].fp == TEXT.fp
        ok = whole and all(not feasible(AND(nothrow(e.guard), nothrow(x.guard))) for x in entries(O, main))
        ctx.ob(f"{k}: values are the parts of the text", ok and nocomma(nothrow(e.guard)), e.loc(), f"{txt(e.extra[0], 60)} is stored")
    if len(main) != 1:
        ctx.und(f"{k}: values", f"{len(main)} places store values"); return
    e = main[0]
    r = pieces(ctx, O, k, e)
    if r is None:
        ctx.und(f"{k}: values", "not recognised"); return
    x, info = r
    if e.extra is None or not isinstance(e.extra[0], Leaf):
        ctx.und(f"{k}: values", "value stored not recognised"); return
    ctx.ob(f"{k}: values are the parts of the text", e.extra[0].fp == x.res.fp, e.loc(), f"{txt(e.extra[0], 60)} is stored")
    every(ctx, O, k, e, x, info)
    # the loop is entered
    g0 = nothrow(info["guard"])
    others = ZERO
    for y in pushes:
        if y not in main:
            others = OR(others, nothrow(y.guard))
    m = AND(AND(done, NOT(g0)), NOT(others))
    ctx.ob(f"{k}: values are stored", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")


def entries(O, main):
    class G:
        def __init__(self, g): self.guard = g
    return [G(O.E.loopinfo[e.loops[-1]]["guard"]) for e in main if e.loops[-1] in O.E.loopinfo]


def nocomma(g):
    """the guard says the text has no comma"""
    for v in nodes(g):
        i = gvn._varinfo[v]
        if i and any(isinstance(x, Leaf) and "find" in show(x) for x in i[1:]):
            return True
    return False


def every(ctx, O, k, e, x, info):
    bad = AM.failed(x.extra[1])
    bg = nothrow(backguard(info))
    m = AND(AND(nothrow(x.guard), NOT(bad)), NOT(nothrow(e.guard)))
    ctx.ob(f"{k}: every part is stored", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    m = AND(nothrow(e.guard), bad)
    ctx.ob(f"{k}: nothing else is stored", not feasible(m), e.loc(), f"stored when {why(m)}" if feasible(m) else "")
    m = AND(AND(nothrow(x.guard), NOT(bad)), NOT(bg))
    ctx.ob(f"{k}: all parts are read", not feasible(m), x.loc(), f"stops when {why(m)}" if feasible(m) else "")


def nth(l):
    """(text, number of the piece) a string is, or None"""
    ps = MD.parts_of(l)
    if len(ps) != 1 or not AM.is_fn(ps[0], "piece"):
        return None
    s = ps[0].tree[2]; n = 0
    while AM.is_fn(s, "read"):
        s = s.tree[2]; n += 1
    return (s.tree[2], n) if AM.is_fn(s, "text") else None


def several(ctx, O, k, s, bk):
    """members set to the numbers of a text, in order"""
    offs = s[1]
    lp = O.snap[1]
    loopst = [e for e in O.ev if e.kind == "store" and len(e.loops) == len(lp) + 1 and e.loops[:len(lp)] == lp and isinstance(e.args[0], Leaf)]
    for e in loopst:
        i = O.E.loopinfo.get(e.loops[-1])
        it = i.get("it") if i else None
        if it is None:
            continue
        a0 = subst_addr(e.args[0], it, ZERO); a1 = subst_addr(e.args[0], it, ONE)
        if a0 is None:
            continue
        if offset(a0) in offs:
            ctx.ob(f"{k}: first value", offset(a0) == offs[0], e.loc(), "the first number goes to another place")
            ctx.ob(f"{k}: values in order", l_sub(a1, a0).const == 8 and all(b - a == 8 for a, b in zip(offs, offs[1:])), e.loc(), "not one after another")
            numbers(ctx, O, k, e, it, len(offs), i)
            return
    # one after another
    got = False
    for n, off in enumerate(offs):
        for fr, g, st in bk:
            g = nothrow(g)
            if not feasible(g):
                continue
            for l, c in cases(O.number(st, off), g):
                t = nth(l.tree[2]) if AM.is_fn(l, "decimal") else None
                if t is None:
                    w = local(O, l, st)
                    if w is None:
                        (ctx.ob(f"{k}: value {n}", False, O.loc, f"is {txt(l, 60)}") if l.const is not None or field(None, l) is not None else ctx.und(f"{k}: values", f"not recognised: {txt(l, 60)}")); return
                    e, it, m, i = w
                    ctx.ob(f"{k}: value {n}", m == n, e.loc(), f"is number {m}")
                    if not got:
                        numbers(ctx, O, k, e, it, len(offs), i)
                    got = True
                    continue
                ctx.ob(f"{k}: value {n}", t[0].fp == TEXT.fp and t[1] == n, O.loc, f"is number {t[1]}")
                got = True


def local(O, l, st):
    """the element of a local array, filled one by one in a loop, that l is"""
    lp = O.snap[1]
    last = {}
    for e in O.E.lstores:
        if len(e.loops) == len(lp) + 1 and e.loops[:len(lp)] == lp and isinstance(e.args[0], Leaf):
            last[(e.ctx, e.instr.uid)] = e
    for e in last.values():
        i = O.E.loopinfo.get(e.loops[-1])
        it = i.get("it") if i else None
        if it is None:
            continue
        a0 = subst_addr(e.args[0], it, ZERO); a1 = subst_addr(e.args[0], it, ONE)
        b, o = ptrparts(a0)
        if o.const is None or l_sub(a1, a0).const != 8:
            continue
        for m in range(16):
            x = O.E.load(st, padd(a0, const(8 * m)), "double", 8, None)
            if any(y.fp == l.fp for y in gvn.leaves(x).values()):
                return e, it, m, i
    return None


def subst_addr(a, it, by):
    b, o = ptrparts(a)
    x = h03.subst_ptr(a, it, by) if hasattr(h03, "subst_ptr") else None
    return x


def numbers(ctx, O, k, e, it, n, info):
    r = pieces(ctx, O, k, e)
    if r is None:
        ctx.und(f"{k}: values", "not recognised"); return
    x, info = r
    for l, c in cases(e.args[1], nothrow(e.guard)):
        ok = AM.is_fn(l, "decimal") and l.tree[2].fp == x.res.fp
        ctx.ob(f"{k}: values are the numbers of the text", ok, e.loc(), f"{txt(l, 60)} is stored") if ok or l.const is not None or any(AM.is_fn(l, q) for q in ("decimal", "integer", "short decimal")) else ctx.und(f"{k}: values", f"not recognised: {txt(l, 60)}")
    bad = AM.failed(x.extra[1])
    m = AND(AND(AND(nothrow(x.guard), NOT(bad)), dd_lt(it, const(n))), NOT(nothrow(e.guard)))
    ctx.ob(f"{k}: every number is stored", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    m = AND(nothrow(e.guard), bad)
    ctx.ob(f"{k}: nothing else is stored", not feasible(m), e.loc(), f"stored when {why(m)}" if feasible(m) else "")
    m = AND(nothrow(e.guard), NOT(dd_lt(it, const(n))))
    ctx.ob(f"{k}: no more than {n} numbers are stored", not feasible(m), e.loc(), "more are")
    m = AND(AND(AND(nothrow(x.guard), NOT(bad)), dd_lt(it, const(n - 1))), NOT(nothrow(backguard(info))))
    ctx.ob(f"{k}: all numbers are read", not feasible(m), x.loc(), f"stops when {why(m)}" if feasible(m) else "")


def surfaces(ctx, O, k, off, bk):
    """NAME,VALUE is added to a list"""
    lp = O.snap[1]
    addr = padd(THIS, const(off))
    es = [e for e in mutated(O, off, 0) if feasible(nothrow(e.guard)) and e.loops[:len(lp)] == lp and not re.search(r"::reserve\(", e.callee)]
    push = [e for e in es if re.search(r"::(push_back|emplace_back)(<.*>)?\(", e.callee)]
    if not push and not es:
        ctx.ob(f"{k}: is added", False, O.loc, "is not stored"); return
    for e in es:
        if e not in push:
            if re.search(r"::clear\(", e.callee):
                ctx.ob(f"{k}: is added to those given before", False, e.loc(), "replaces them")
            else:
                ctx.und(f"{k}: list", "not recognised"); return
    if len(push) != 1 or push[0].loops != lp:
        ctx.und(f"{k}: list", "not recognised"); return
    e = push[0]
    if e.extra is None or len(e.extra) != 2 or not all(isinstance(x, Leaf) for x in e.extra):
        ctx.und(f"{k}: name and value", "not recognised"); return
    # the parts of the text
    st = None
    a = [part(O, x, n) for n, x in enumerate(e.extra)]
    if None in a:
        ctx.und(f"{k}: name and value", f"not recognised: {txt(e.extra[a.index(None)], 80)}"); return
    ctx.ob(f"{k}: name is the text before the comma", a[0] == 0, e.loc(), f"is part {a[0]}")
    ctx.ob(f"{k}: value is the number after the comma", a[1] == 1, e.loc(), f"is part {a[1]}" if a[1] != "short" else "is read as a whole number or in single precision")
    # the vector of the parts
    main = [x for x in O.ev if x.kind == "call" and x.callee and re.search(r"^std::vector<std::(__cxx11::)?basic_string<.*>::(push_back|emplace_back)(<.*>)?\(", x.callee) and len(x.loops) == len(lp) + 1 and x.loops[:len(lp)] == lp]
    if len(main) != 1 or not main[0].extra:
        ctx.und(f"{k}: parts", "not recognised"); return
    m = main[0]
    c = content(O, m.args[0], e.n)
    r = pieces(ctx, O, k, m)
    if c is None or c[0] is None or r is None:
        ctx.und(f"{k}: parts", "not recognised"); return
    x, info = r
    ctx.ob(f"{k}: name and value are the parts of the text", isinstance(m.extra[0], Leaf) and m.extra[0].fp == x.res.fp, m.loc(), f"{txt(m.extra[0], 60)} is stored")
    every(ctx, O, k, m, x, info)
    # it is added when there are two parts
    done = ZERO
    for fr, g, s in bk:
        done = OR(done, nothrow(g))
    b = base(e.extra[0])
    two = three = None
    for v in nodes(nothrow(e.guard)):
        i = gvn._varinfo[v]
        if i and i[0] in ("==", "<0", "pos"):
            pass
    g = nothrow(e.guard)
    for n in (0, 1, 2):
        d = AND(done, sized(g if n == 2 else g, b, n))
        if n < 2:
            ctx.ob(f"{k}: nothing is added without a name and a value", not feasible(AND(sized(g, b, n), sized(done, b, n))), e.loc(), f"is added with {n} part{'s' * (n != 1)}")
        else:
            q = AND(sized(done, b, 2), NOT(sized(g, b, 2)))
            ctx.ob(f"{k}: is added", not feasible(q), e.loc(), f"not when {why(q)}" if feasible(q) else "")


def base(x):
    """address of the first part"""
    ps = MD.parts_of(x)
    return deref(ps[0]) if ps and isinstance(ps[0], Leaf) else None


def part(O, x, n):
    """which part of the text a name or a value is"""
    if n:
        for k in ("integer", "short decimal"):
            if AM.is_fn(x, k):
                return "short"
        if not AM.is_fn(x, "decimal"):
            return None
        x = x.tree[2]
    b = base(x)
    if b is None:
        return None
    p, o = ptrparts(b)
    return int(o.const) // 32 if o.const is not None and o.const % 32 == 0 else None


def sized(g, b, n):
    """g when the vector that begins at b has n strings"""
    bb, bo = ptrparts(b)

    def dec(v):
        i = gvn._varinfo[v]
        if not i:
            return None
        if i[0] == "==" and isinstance(i[2], Leaf):
            d = l_sub(i[1], i[2])
        elif i[0] == "<0":
            d = i[1]
        elif i[0] == "pos":
            d = i[1][1]
        else:
            return None
        # the end of the vector: the only other pointer in it
        ends = [l for l in subs(d) if AM.is_fn(l, "loopval") and not gvn_has(b, l.fp)]
        if len({l.fp for l in ends}) != 1 or not gvn_has(d, b.fp):
            return None
        import spec
        x = spec.subst(d, {ends[0].fp: l_add(b, const(32 * n))})
        if x.const is None:
            return None
        return x.const == 0 if i[0] == "==" else x.const < 0 if i[0] == "<0" else x.const > 0
    return gvn.restrict_vars(g, dec)


def subs(l, d=0):
    return [] if not isinstance(l, Leaf) or d > 10 else [l] + [y for x in l.tree[1:] if isinstance(x, Leaf) for y in subs(x, d + 1)]


# ---- the rest ----------------------------------------------------------------------------------
def unknown(ctx, p, f, prog):
    O = Opt(p, f, ord("?"), arg=False)
    bk = O.backs() or []
    g = ZERO
    for fr, x, st in bk:
        g = OR(g, x)
    th_ = [e for e in O.ev if e.kind == "noreturn" and e.callee == "__cxa_throw" and feasible(nothrow(e.guard))]
    ctx.ob(f"{prog}: an unknown option or missing value is an error", not feasible(nothrow(g)) and bool(th_) and not any(w == "returning" and feasible(nothrow(x)) for w, x, st, r in exits(O.E)), O.loc, "it is ignored" if feasible(nothrow(g)) else "no exception is raised")


def isempty(O, t, st):
    """the setting has not been given"""
    if t[0] == "text":
        return eqc1(MD.strlength(O.string(st, t[1])), 0)
    if t[0] in ("list", "surfaces"):
        a, b = (O.E.load(st, padd(THIS, const(t[1] + o)), "ptr", 8, None) for o in (0, 8))
        return app2("same", gvn.leq_eq, a, b)
    if t[0] in ("pair", "box"):
        g = ZERO
        for off in t[1]:
            g = OR(g, app1("nodata", lambda l: gvn.l_feq(l, const(p01.NODATA)), O.number(st, off)))
        return g
    return None


def ratio(x, n):
    """q where x is q times n"""
    for k in (1, 32, 40, 8, 16):
        m = l_mul(x, const(k))
        if l_sub(m, n).const == 0:
            return 1.0 / k
        if l_add(m, n).const == 0:
            return -1.0 / k
    return 0


def decided(d, O, t, st, empty):
    """d when the setting has (not) been given, whatever way that is tested"""
    if t[0] not in ("list", "surfaces"):
        m = isempty(O, t, st)
        return AND(d, m if empty else NOT(m))
    a, b = (O.E.load(st, padd(THIS, const(t[1] + o)), "ptr", 8, None) for o in (0, 8))
    if not isinstance(a, Leaf) or not isinstance(b, Leaf):
        m = isempty(O, t, st)
        return AND(d, m if empty else NOT(m))
    n = l_sub(b, a)
    if n.const is not None:
        return d if (n.const == 0) == empty else ZERO

    def dec(v):
        i = gvn._varinfo[v]
        if not i:
            return None
        if i[0] == "==" and isinstance(i[1], Leaf):
            return empty if ratio(l_sub(i[1], i[2]), n) else None
        if i[0] in ("<0", "pos"):
            x = i[1] if i[0] == "<0" else i[1][1]
            if x.const is not None:
                return None
            for c in (0, 1, -1):
                q = ratio(l_sub(x, const(c)), n)
                if q and not empty and c and abs(q) < 1 and q * c < 0:
                    # size - 1 of at least one
                    if q > 0 and i[0] == "<0" or q < 0 and i[0] == "pos":
                        return False
                    return None
                if q:
                    f = c if empty else q
                    return f < 0 if i[0] == "<0" else f > 0
        return None
    return gvn.restrict_vars(d, dec)


NUMS = ("decimal", "integer", "short decimal", "number")
from p01 import mentions


def notq(g):
    return gvn.restrict_vars(g, lambda v: False if gvn._varinfo[v] and gvn._varinfo[v][0] == "==" and isinstance(gvn._varinfo[v][2], Leaf) and gvn._varinfo[v][2].const == 63 and gvn_has(gvn._varinfo[v][1], OPTION.fp) else None)


def gvn_has(l, fp, d=0):
    return isinstance(l, Leaf) and d < 8 and (l.fp == fp or any(gvn_has(x, fp, d + 1) for x in l.tree[1:] if isinstance(x, Leaf)))


def required(ctx, p, f, prog, R, sp, req, O, p03=None):
    ins = getattr(O.E, "inits", [])
    if not ins:
        ctx.und(f"{prog}: required options", "no query is set up"); return
    st, g, i = ins[-1]
    g = nothrow(g)
    given = ONE
    if p03 is not None:
        ctx.guard(f"{prog}: settings", settings, ctx, prog, sp, O, st, g, p03)
        req = [n for n in req if sp[n][0] in ("list", "text", "surfaces")]
    for name in req:
        t = sp.get(name)
        if t is None or t[1] is None:
            ctx.und(f"{prog}: --{name} is required", "member not known"); given = None; continue
        bad = decided(g, O, t, st, True)
        ctx.ob(f"{prog}: --{name} is required", not feasible(bad), O.loc, f"the program goes on without it")
    h = sp.get("help")
    if h and h[1] is not None:
        hv = NOT(eqc1(O.number(st, h[1], "i8", 1), 0))
        ctx.ob(f"{prog}: nothing is done when help is asked for", not feasible(AND(g, hv)), O.loc, "models are opened")
        argc = par(1, "argc")
        ctx.ob(f"{prog}: help is printed when there are no arguments", not feasible(AND(g, eqc(argc, 1))), O.loc, "models are opened")
    if given is None or p03 is not None:
        return
    n0 = next((e.n for e in O.ev if e.kind == "call" and re.search(QUERY + r"initialize\(", e.callee or "")), 1 << 60)
    for e in O.ev:
        if e.kind == "noreturn" and e.callee == "__cxa_throw" and e.n < n0:
            m = notq(nothrow(e.guard))
            for name in req:
                m = decided(m, O, sp[name], st, False)
            if feasible(m) and any(gvn._varinfo[v] and gvn._varinfo[v][0] in ("<0", "pos") and any(mentions(x, NUMS) for x in gvn.var_leaf(v)) for v in nodes(m)):
                ctx.und(f"{prog}: a complete set of options is accepted", "depends on the size of a number"); continue
            ctx.ob(f"{prog}: a complete set of options is accepted", not feasible(m), e.loc(), f"refused when {why(m)}" if feasible(m) else "")


def settings(ctx, prog, sp, O, st, g, p03):
    """sets of settings that are accepted and refused"""
    num = ("bbox", "hresolution", "vresolution", "max-depth", "num-search-points", "depth-reference")
    if any(sp[n][1] is None for n in num):
        ctx.und(f"{prog}: settings", "members not known"); return
    ls = {}
    for n in num:
        for i, off in enumerate(members(sp[n])):
            v = value(O, sp[n], O.snap[0], off)
            if not isinstance(v, Leaf):
                ctx.und(f"{prog}: settings", f"--{n} not recognised"); return
            ls[n if n != "bbox" else ("minX", "maxX", "minY", "maxY")[i]] = v
    top, bathy = sp["depth-reference"][2]["top_surface"], sp["depth-reference"][2]["topography_bathymetry"]
    other = next(x for x in (0, 3, 4) if x not in (top, bathy))
    good = dict(minX=34.6, maxX=34.8, minY=-117.7, maxY=-117.3, hresolution=0.1, vresolution=10.0) | {"max-depth": 45000.0, "num-search-points": 10, "depth-reference": bathy}
    def at(**kw):
        e = dict(good); e.update({k.replace("_", "-") if k not in e else k: v for k, v in kw.items()})
        return {ls[k].fp: v for k, v in e.items()}
    nd = p01.NODATA
    n0 = next((e.n for e in O.ev if e.kind == "call" and re.search(QUERY + r"initialize\(", e.callee or "")), 1 << 60)
    thrown = ZERO
    for e in O.ev:
        if e.kind == "noreturn" and e.callee == "__cxa_throw" and e.n < n0:
            thrown = OR(thrown, notq(nothrow(e.guard)))
    for n in ("isosurface", "models", "output"):
        if sp[n][1] is None:
            ctx.und(f"{prog}: a complete set of options is accepted", "members not known"); thrown = None; break
        thrown = decided(thrown, O, sp[n], st, False)
    for what, env in (("", at()), (" (all coordinates positive)", at(minX=1.0e+5, maxX=2.0e+5, minY=3.0e+5, maxY=4.0e+5, hresolution=1.0e+3)),
                      (" (depths below the top surface)", at(depth_reference=top)), (" (3 search points)", at(num_search_points=3)), (" (box at 0)", at(minX=0.0, maxX=10.0, minY=-10.0, maxY=0.0, hresolution=1.0)),
                      (" (coarse vertical resolution)", at(vresolution=1.0e+5)), (" (small maximum depth)", at(max_depth=0.5)), (" (small pixels)", at(hresolution=1.0e-4)), (" (fine vertical resolution)", at(vresolution=1.0e-2))):
        if thrown is None:
            break
        x = p03.decide(thrown, env)
        ctx.ob(f"{prog}: a complete set of options is accepted{what}", not feasible(x), O.loc, f"refused when {why(x)}" if feasible(x) else "")
    bad = [("--bbox is required", dict(minX=nd, maxX=nd, minY=nd, maxY=nd)), ("--hresolution is required", dict(hresolution=0.0)), ("--max-depth is required", dict(max_depth=0.0)),
           ("an incomplete box is refused (2 values)", dict(minY=nd, maxY=nd)), ("an incomplete box is refused (3 values)", dict(maxY=nd)),
           ("a box with exchanged limits is refused", dict(minX=34.8, maxX=34.6)), ("a box with exchanged limits is refused", dict(minY=-117.3, maxY=-117.7)), ("a box with exchanged limits is refused", dict(minX=34.8, maxX=34.6, minY=-117.3, maxY=-117.7)),
           ("a negative resolution is refused", dict(hresolution=-0.1)), ("a negative resolution is refused", dict(hresolution=-0.1, minX=34.8, maxX=34.6, minY=-117.3, maxY=-117.7)),
           ("a vertical resolution of 0 is refused", dict(vresolution=0.0)), ("a negative vertical resolution is refused", dict(vresolution=-10.0)),
           ("a negative maximum depth is refused", dict(max_depth=-1000.0)), ("a negative maximum depth is refused", dict(max_depth=-0.5)), ("a negative resolution is refused", dict(hresolution=-1.0e+3, minX=2.0e+5, maxX=1.0e+5)), ("a negative vertical resolution is refused", dict(vresolution=-0.1)), ("fewer than 3 search points are refused", dict(num_search_points=2)), ("fewer than 3 search points are refused", dict(num_search_points=0)),
           ("fewer than 3 search points are refused", dict(num_search_points=-5)), ("an unknown surface is refused", dict(depth_reference=other))]
    for what, kw in bad:
        x = p03.decide(g, at(**kw))
        ctx.ob(f"{prog}: {what}", not feasible(x), O.loc, "the program goes on")


def defaults(ctx, p, f, cls, prog, sp, defs):
    fs = [g for g in p.repo_fns() if re.search(rf"apps::{cls}::{cls}\(", g.dem) and g.blocks]
    if not fs:
        ctx.und(f"{prog}: defaults", "no constructor"); return
    E = EV.Evaluator(p, models={**SM.STREAMS, **SM.VECMUT})
    E.run(fs[0], None, EV.State())
    st = E.state
    class O2:
        pass
    o = Opt.__new__(Opt); o.E = E
    for name, t in sp.items():
        if t[1] is None:
            continue
        k = f"{prog}: default of --{name}"
        if name in defs:
            v = value(o, t, st, t[1])
            d = defs[name]
            if isinstance(d, str):
                c = MD.const_string(v) if isinstance(v, Leaf) else None
                ctx.ob(k, c == d, fs[0].loc(), f"is {txt(v, 60)}")
            else:
                ctx.ob(k, isinstance(v, Leaf) and v.const is not None and float(v.const) == d, fs[0].loc(), f"is {txt(v, 60)}")
        elif t[0] == "surfaces":
            continue
        elif t[0] in ("text", "list", "flag", "pair", "box"):
            if t[0] == "flag":
                v = value(o, t, st, t[1])
                ctx.ob(k, isinstance(v, Leaf) and v.const == 0, fs[0].loc(), f"is {txt(v, 60)}")
            else:
                ctx.ob(k, not feasible(NOT(isempty(o, t, st))), fs[0].loc(), "is not empty")
