"""Info program: the outcome of each check of --verify

What the program writes is known piece by piece, each with the condition under which it is written. These conditions are decided
for a set of descriptions of models that differ in one or two respects from a model in order (and for models in order of different
kinds); a piece is wrong when, for one of these, the outcome written is not that which the properties of the model call for."""
import math
from p04 import *
import p04

MINIMUM = 2500


class Unknown(Exception):
    pass


class Outside(Unknown):
    """what is read is not there"""


class Ptr:
    """an address: a list of cells of some size, and an offset in bytes"""
    __slots__ = ("cells", "size", "off")

    def __init__(self, cells, size, off=0):
        self.cells = cells; self.size = size; self.off = off

    def load(self):
        q, r = divmod(self.off, self.size)
        if r and not isinstance(self.cells, dict):
            raise Unknown("load")
        if isinstance(self.cells, dict):
            if self.off not in self.cells:
                raise Unknown("load")
            return self.cells[self.off]
        if not 0 <= q < len(self.cells):
            raise Outside("an element outside the list is read")
        return self.cells[int(q)]


class Thing:
    """a surface, a block, or the model, with the results of its member functions"""
    def __init__(self, kind, **kw):
        self.kind = kind; self.__dict__.update(kw)


def grid(kind, name, rx, ry, nx, ny, cx=None, cy=None, **kw):
    return Thing(kind, name=name, getResolutionX=rx, getResolutionY=ry, n=(nx, ny), getDims=Ptr([float(nx), float(ny), 3.0], 8),
                 cx=cx, cy=cy, getCoordinatesX=0.0 if cx is None else Ptr(cx, 8), getCoordinatesY=0.0 if cy is None else Ptr(cy, 8), getName=("text", name), **kw)


class World:
    """one description of a model"""
    def __init__(self, what, dims=(60e3, 120e3, 45e3), top=None, topo=None, blocks=(), units=True, raises=False):
        self.what = what; self.dims = dims; self.top = top; self.topo = topo; self.blocks = list(blocks); self.units = units; self.raises = raises
        arr = [x for b in self.blocks for x in (b, 1.0)]
        self.vec = Ptr({0: Ptr(arr, 8), 8: Ptr(arr, 8, 16 * len(self.blocks)), 16: Ptr(arr, 8, 16 * len(self.blocks))}, 8)
        self.model = Thing("model", getDims=Ptr([float(x) for x in dims], 8), getTopSurface=Ptr([top or 0.0, 1.0], 8), getTopoBathy=Ptr([topo or 0.0, 1.0], 8), getBlocks=self.vec)

    # what the checks have to report
    def spans(self, g):
        for k, c in enumerate((g.cx, g.cy)):
            r = (g.getResolutionX, g.getResolutionY)[k]
            a, b = (c[0], c[-1]) if c else (0.0, r * (g.n[k] - 1))
            if abs(a / self.dims[k]) > 1e-6 or abs(1 - b / self.dims[k]) > 1e-6:
                return False
        return True

    def expected(self):
        r = [("metadata", not self.raises), ("coordinate system", self.units)]
        for s, nm in ((self.top, "top surface"), (self.topo, "topography/bathymetry")):
            if s:
                r.append((f"surface '{nm}'", self.spans(s)))
        if self.top and self.topo:
            a = [abs(1 - y / x) <= 1e-4 if x else None for x, y in ((self.top.getResolutionX, self.topo.getResolutionX), (self.top.getResolutionY, self.topo.getResolutionY))]
            r.append(("resolution of the surfaces", None if None in a and False not in a else all(a)))
        for b in self.blocks:
            ok = self.spans(b)
            if self.top:
                for x, y in ((b.getResolutionX, self.top.getResolutionX), (b.getResolutionY, self.top.getResolutionY)):
                    if y > 0:
                        ok = ok and abs(int(0.01 + x / y) * y - x) <= 1e-6
            r.append((f"block '{b.name}'", ok))
        z = True
        for a, b in zip([0.0] + [b.getZBottom for b in self.blocks], [b.getZTop for b in self.blocks] + ([-self.dims[2]] if self.blocks else [])):
            z = z and abs(a - b) <= 1e-4
        r.append(("blocks in the vertical", z))
        return r


class Run:
    """the conditions decided for one description of a model"""
    def __init__(self, D, w, env):
        self.D = D; self.w = w; self.env = env; self.memo = {}; self.bad = {}; self.because = None

    def set(self, fp, v):
        self.env[fp] = v; self.memo = {}

    def value(self, l):
        if not isinstance(l, (Leaf, Node)):
            raise Unknown("value")
        if isinstance(l, Node):
            x = self.go(l)
            if not isinstance(x, Leaf):
                raise Unknown("one of several values")
            return self.value(x)
        if l.fp in self.env:
            return self.env[l.fp]
        if l.const is not None:
            return float(l.const)
        if l.fp == self.D.model.fp:
            return self.w.model
        r = self.memo.get(l.fp)
        if r is None:
            try:
                t = l.tree
                if t[0] == "fn" and ("dd",) in t[2:]:
                    e = next((e for s in self.D.V.secs for e in s.ev if isinstance(e.res, Leaf) and e.res.fp == l.fp), None)
                    if e is None:
                        raise Unknown("one of several values")
                    t = (*t[:2], *e.args)
                r = self.memo[l.fp] = (self.tree(t),)
            except Unknown as e:
                r = self.memo[l.fp] = e
        if isinstance(r, Unknown):
            raise r
        return r[0]

    def tree(self, t):
        if t[0] in ("+", "-", "*", "/") and len(t) == 3:
            return self.arith(t[0], self.value(t[1]), self.value(t[2]))
        if t[0] == "dd" and isinstance(t[1], Node):
            return self.value(t[1])
        if t[0] == "str":
            return self.value(t[1])
        if t[0] != "fn":
            raise Unknown(str(t[0]))
        n = re.sub(r"\[abi:cxx11\]", "", str(t[1]))
        if len(t) == 2:
            if n[:1] == "'":
                return ("text", n.strip("'"))
            raise Unknown(n)
        if len(t) == 3:
            a = self.value(t[2])
            if n == "ld":
                if isinstance(a, Ptr):
                    return a.load()
                if isinstance(a, tuple):
                    return a
                if a == 0.0:
                    raise Outside("there is none to read")
                raise Unknown("load")
            if isinstance(a, Thing):
                r = getattr(a, n, None)
                if r is None or not n.startswith("get"):
                    raise Unknown(n)
                return r
            if isinstance(a, tuple) and n in ("cstr", "chars"):
                return a
            if isinstance(a, tuple) and n == "strlen":
                return float(len(a[1]))
            if isinstance(a, float):
                try:
                    return {"trunc": lambda v: float(math.trunc(v)), "floor": lambda v: float(math.floor(v)), "ceil": lambda v: float(math.ceil(v)), "round": lambda v: math.floor(abs(v) + 0.5) * (1.0 if v >= 0 else -1.0),
                            "rint": lambda v: float(round(v)), "nearbyint": lambda v: float(round(v)), "fabs": abs, "abs": abs, "sqrt": math.sqrt, "sext": lambda v: v, "zext": lambda v: v}[n](a)
                except (KeyError, ValueError, OverflowError):
                    pass
        if len(t) == 4 and n in ("compare", "strcmp", "fmod", "remainder", "fmax", "fmin"):
            a, b = self.value(t[2]), self.value(t[3])
            if n in ("compare", "strcmp"):
                a, b = (x.load() if isinstance(x, Ptr) else x for x in (a, b))
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return float((a > b) - (a < b))
            if n not in ("compare", "strcmp") and isinstance(a, float) and isinstance(b, float) and b != 0:
                return {"fmod": math.fmod, "remainder": math.remainder, "fmax": max, "fmin": min}[n](a, b)
        raise Unknown(n)

    def arith(self, o, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.cells is b.cells:
                return float(a.off - b.off)
            if o == "+" and isinstance(b, Ptr):
                a, b = b, a
            if o in "+-" and isinstance(a, Ptr) and isinstance(b, float):
                return Ptr(a.cells, a.size, int(a.off + (b if o == "+" else -b)))
            raise Unknown("address")
        if not isinstance(a, float) or not isinstance(b, float):
            raise Unknown("arithmetic")
        if o == "/" and b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[o]()

    def cond(self, v):
        if is_throw_var(v):
            e = gvn._varinfo[v][1]
            return self.w.raises if re.search(r"serial::Model::loadMetadata\(", e or "") else False
        k = ("var", v)
        if k in self.env:
            return self.env[k]
        i = gvn._varinfo[v]
        if not i:
            return None
        try:
            if i[0] == "str==":
                a, b = self.value(i[1]), self.value(i[2])
                return a == b if isinstance(a, tuple) and isinstance(b, tuple) else None
            if i[0] == "==":
                ty = [self.D.types.get(x.fp) for x in i[1:3] if isinstance(x, Leaf)]
                if any(x is not None for x in ty) and any("ehsel" in gvn.show(x.tree) for x in i[1:3] if isinstance(x, Leaf)):
                    return next(x for x in ty if x is not None)
                a, b = self.value(i[1]), self.value(i[2])
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cells is b.cells:
                    return a.off == b.off
                if isinstance(a, float) and isinstance(b, float):
                    return a == b
                if isinstance(a, float) and a == 0 or isinstance(b, float) and b == 0:
                    return False
                return None
            if i[0] in ("<0", "pos"):
                a = self.value(i[1] if i[0] == "<0" else i[1][1])
                return None if not isinstance(a, float) else a < 0 if i[0] == "<0" else a > 0
        except Unknown as e:
            self.bad[v] = e
        return None

    def go(self, d):
        """the end reached; None when it depends on what is not known"""
        memo = {}

        def w(x):
            if not isinstance(x, Node):
                return x
            if x.id in memo:
                return memo[x.id]
            c = self.cond(x.var)
            if c is None:
                a, b = w(x.hi), w(x.lo)
                r = a if a is b or isinstance(a, Leaf) and isinstance(b, Leaf) and a.fp == b.fp else None
                if r is None and a is not None and b is not None:
                    self.because = x.var
            else:
                r = w(x.hi if c else x.lo)
            memo[x.id] = r
            return r
        return w(d)

    def holds(self, d):
        x = self.go(d)
        if x is ONE or x is ZERO:
            return x is ONE
        e = self.bad.get(self.because)
        raise type(e)(f"{e} in {gvn.showvar(self.because)[:90]}") if e else Unknown(why(d))

    # ---- what is written
    def write(self, ps, depth):
        r = []; i = 0
        while i < len(ps):
            x = ps[i]
            if len(x.loops) <= depth:
                if self.holds(x.raw):
                    r.append(x.v if isinstance(x.v, str) else self.show(x.v))
                i += 1
                continue
            k = x.loops[depth]; j = i
            while j < len(ps) and len(ps[j].loops) > depth and ps[j].loops[depth] == k:
                j += 1
            r += self.loop(k, ps[i:j], depth)
            i = j
        return r

    def show(self, v):
        try:
            y = self.value(v)
        except Unknown:
            return "?"
        return y[1] if isinstance(y, tuple) else "%g" % y if isinstance(y, float) else "?"

    def loop(self, k, ps, depth):
        E = next((s.E for s in self.D.V.secs if k in s.E.loopinfo), None)
        if E is None:
            raise Unknown("loop")
        info = E.loopinfo[k]
        if not self.holds(info["guard"]):
            return []
        r = []; cur = {}
        it = info["it"]
        for i in info["phis"]:
            a = info["atoms"][i.id]
            try:
                cur[a.fp] = self.value(info["init"][i.id])
            except (Unknown, TypeError):
                pass
        for fp, v in cur.items():
            self.set(fp, v)
        for what, (var, c) in info["sticky"].items():
            self.set(("var", var.id if hasattr(var, "id") else var), False)
        for n in range(9):
            if n == 8:
                raise Unknown("loop goes on")
            if it is not None:
                self.set(it.fp, float(n))
            r += self.write(ps, depth + 1)
            if not self.holds(backguard(info)):
                break
            nx = {}; st = {}
            for i in info["phis"]:
                a = info["atoms"][i.id]
                if a.fp in self.env and info["next"].get(i.id) is not None:
                    try:
                        nx[a.fp] = self.value(info["next"][i.id])
                    except (Unknown, TypeError):
                        nx[a.fp] = None
            for what, (var, c) in info["sticky"].items():
                if what[0] == "phi":
                    y = self.value(info["next"][what[1]])
                else:
                    y = next(self.value(s.mem[what[1]][1]) for _, g, s in info["back"] if self.holds(g))
                st[("var", var)] = y == float(c.const) if c.const is not None else None
            for fp, v in {**nx, **st}.items():
                if v is None:
                    self.env.pop(fp, None); self.memo = {}
                else:
                    self.set(fp, v)
        return r


# ---- the models looked at ----------------------------------------------------------------------
def surface(nm, k=1.0, rx=10e3, ry=10e3, nx=7, ny=13, cx=None, cy=None):
    return grid("surface", nm, 0.0 if cx else rx * k, 0.0 if cy else ry * k, len(cx) if cx else nx, len(cy) if cy else ny, cx, cy)


def block(nm, zt, zb, rx=10e3, ry=10e3, nx=7, ny=13, cx=None, cy=None):
    return grid("block", nm, 0.0 if cx else rx, 0.0 if cy else ry, len(cx) if cx else nx, len(cy) if cy else ny, cx, cy, getZTop=zt, getZBottom=zb)


X, Y = [0.0, 5e3, 20e3, 60e3], [0.0, 70e3, 110e3, 120e3]


def move(c, a=0.0, b=0.0):
    return [c[0] + a] + c[1:-1] + [c[-1] + b]


def spanning():
    """(what, keywords) of grids that span the domain or do not"""
    d = 1e-5; e = 1e-8
    yield "spanning the domain", {}
    for q in (1 + d, 1 - d, 1 + e, 1 - e, 0.5, 2.0):
        yield f"x resolution {q!r} of that which spans", dict(rx=10e3 * q)
        yield f"y resolution {q!r} of that which spans", dict(ry=10e3 * q)
    for n in (6, 8, 1):
        yield f"{n} points along x, not 7", dict(nx=n)
        yield f"{n + 6} points along y, not 13", dict(ny=n + 6)
    yield "one along y too few, one along x too many", dict(nx=8, ny=12)
    yield "6 points along x, 12 along y", dict(nx=6, ny=12)
    yield "12 points along x, 7 along y", dict(nx=13, ny=7)
    yield "variable along x", dict(cx=X)
    yield "variable along y", dict(cy=Y)
    yield "variable along x and y", dict(cx=X, cy=Y)
    for a in (d, -d, e, -e, 0.25):
        for nm, L, C, key in (("x", 60e3, X, "cx"), ("y", 120e3, Y, "cy")):
            for s, ends in (("first", (a * L, 0.0)), ("last", (0.0, a * L))):
                yield f"{s} {nm} coordinate {a * L:g} off", {key: move(C, *ends)}
                yield f"{s} {nm} coordinate {a * L:g} off, both variable", {**dict(cx=X, cy=Y), key: move(C, *ends)}
            yield f"{nm} coordinates shifted by {a * L:g}", {key: move(C, a * L, a * L)}
    yield "variable along x, wrong along y", dict(cx=X, ny=12)
    yield "variable along y, wrong along x", dict(cy=Y, nx=6)
    yield "variable with 2 points along x", dict(cx=[0.0, 60e3])


def worlds():
    T, B = "top surface", "topography/bathymetry"
    def blocks(**kw):
        return [block("b0", 0.0, -5e3, **kw), block("b1", -5e3, -25e3, rx=20e3, ry=20e3, nx=4, ny=7), block("b2", -25e3, -45e3, rx=30e3, ry=30e3, nx=3, ny=5)]
    yield World("in order", top=surface(T), topo=surface(B), blocks=blocks())
    yield World("without surfaces", blocks=blocks())
    yield World("with a top surface only", top=surface(T), blocks=blocks())
    yield World("with topography only", topo=surface(B), blocks=blocks())
    yield World("metadata in error", top=surface(T), topo=surface(B), blocks=blocks(), raises=True)
    yield World("different units", top=surface(T), topo=surface(B), blocks=blocks(), units=False)
    yield World("one block", top=surface(T), blocks=[block("only", 0.0, -45e3)])
    yield World("no blocks", top=surface(T))
    for what, kw in spanning():
        yield World(f"top surface: {what}", top=surface(T, **kw))
        yield World(f"top surface: {what}; topography in order", top=surface(T, **kw), topo=surface(B))
        yield World(f"topography: {what}", topo=surface(B, **kw))
        yield World(f"topography: {what}; top surface in order", topo=surface(B, **kw), top=surface(T))
        yield World(f"block: {what}", blocks=[block("only", 0.0, -45e3, **kw)])
        yield World(f"last block: {what}", top=surface(T), blocks=[block("b0", 0.0, -5e3), block("b1", -5e3, -45e3, **kw)])
        yield World(f"first block: {what}", top=surface(T), blocks=[block("b0", 0.0, -5e3, **kw), block("b1", -5e3, -45e3)])
    for k in (1 + 1e-3, 1 - 1e-3, 1 + 1e-6, 2.0, 0.5):
        for rx, ry in ((k, 1.0), (1.0, k), (k, k), (k, 1 / k)):
            yield World(f"resolution of topography {rx:g}, {ry:g} of that of the top surface", top=surface(T), topo=surface(B, rx=10e3 * rx, ry=10e3 * ry))
    for k in (1.5, 0.5, 2.0, 3.0, 1.00001, 0.99999, 1.999, 2.001, 2 + 1e-9, 1.0 + 1e-14, 1.0 - 1e-12, 7.0, 6.5):
        for rx, ry in ((k, 1.0), (1.0, k), (k, k)):
            for kw in (dict(), dict(cx=X), dict(cy=Y)):
                yield World(f"resolution of block {rx!r}, {ry!r} of that of the top surface", dims=(60e3, 120e3, 45e3), top=surface(T, rx=60e3 / 12, ry=120e3 / 30, nx=13, ny=31, **kw),
                            blocks=[block("only", 0.0, -45e3, rx=5e3 * rx, ry=4e3 * ry, nx=1 + 60e3 / (5e3 * rx), ny=1 + 120e3 / (4e3 * ry))])
        yield World(f"resolution of block {k!r} of that of the topography, no top surface", topo=surface(B, rx=5e3, ry=5e3, nx=13, ny=25), blocks=[block("only", 0.0, -45e3, rx=5e3 * k, ry=5e3 * k, nx=1 + 12 / k, ny=1 + 24 / k)])
    for d in (1e-2, -1e-2, 1e-6, -1e-6, 100.0, -5e3, 25e3):
        for j in range(6):
            for n in (1, 2, 3):
                zs = {1: [(0.0, -45e3)], 2: [(0.0, -5e3), (-5e3, -45e3)], 3: [(0.0, -5e3), (-5e3, -25e3), (-25e3, -45e3)]}[n]
                if j >= 2 * n:
                    continue
                zs = [list(z) for z in zs]; zs[j // 2][j % 2] += d
                yield World(f"{'bottom' if j % 2 else 'top'} of block {j // 2} of {n} {d:g} off", blocks=[block(f"b{i}", *z) for i, z in enumerate(zs)])
                if j % 2 == 0 and j:
                    zs[j // 2 - 1][1] += d
                    yield World(f"boundary {j // 2} of {n} blocks moved by {d:g}", blocks=[block(f"b{i}", *z) for i, z in enumerate(zs)])
    yield World("two gaps between blocks", blocks=[block("b0", 0.0, -4e3), block("b1", -5e3, -24e3), block("b2", -25e3, -45e3)])
    yield World("second gap only", blocks=[block("b0", 0.0, -5e3), block("b1", -5e3, -24e3), block("b2", -25e3, -45e3)])
    yield World("first gap only", blocks=[block("b0", 0.0, -4e3), block("b1", -5e3, -25e3), block("b2", -25e3, -45e3)])
    yield World("gap, top in error", blocks=[block("b0", -1.0, -4e3), block("b1", -5e3, -45e3)])
    yield World("shifted down", blocks=[block("b0", -1e3, -5e3), block("b1", -5e3, -46e3)])
    yield World("deeper domain", dims=(60e3, 120e3, 50e3), blocks=[block("b0", 0.0, -45e3)])
    yield World("wider domain", dims=(70e3, 120e3, 45e3), top=surface(T), topo=surface(B), blocks=[block("b0", 0.0, -45e3)])
    yield World("longer domain", dims=(60e3, 100e3, 45e3), top=surface(T), topo=surface(B), blocks=[block("b0", 0.0, -45e3)])
    yield World("all in error", dims=(60e3, 100e3, 45e3), top=surface(T, nx=6), topo=surface(B, ny=12, rx=9e3), units=False, raises=True, blocks=[block("b0", -9.0, -5e3, nx=2, rx=7e3), block("b1", -6e3, -40e3, ry=11e3)])


SUBJECTS = [(r"metadata", "metadata"), (r"coordinate system", "coordinate system"), (r"resolution\b.*(surface|topograph)", "resolution of the surfaces"), (r"blocks\b.*vertical", "blocks in the vertical"),
            (r"surface '([^']*)'", None), (r"block '([^']*)'", None)]


def outcomes(text):
    r = []
    for g in re.split(r"(?=Verifying )", text)[1:]:
        first = g.split("...")[0]
        for rx, nm in SUBJECTS:
            m = re.search(rx, first, re.S)
            if m:
                break
        else:
            raise Unknown(f"'{first[:40]}'")
        k = nm or f"{'surface' if rx.startswith('surface') else 'block'} '{m.group(1)}'"
        rest = g[len(first):]
        w = re.findall(r"\b(OK|FAIL|FAILED|PASS|PASSED)\b", rest)
        r.append((k, w, rest))
    return r


def check(ctx):
    p = core.load(("lib", "bin"))
    fs = [f for f in p.repo_fns() if re.search(r"apps::Info::run\(", f.dem) and f.blocks]
    if not fs:
        raise core.AnalysisBroken("apps::Info::run vanished")
    D = Shown(); D.V = V = View(p, fs[0]); D.f = fs[0]; D.p = p; D.models = None; D.sets = None
    q = Quiet(ctx)
    p04.models(q, D)
    if D.models is None:
        ctx.und(f"{PROG}: models", "not recognised"); return
    D.sets = options(q, p, fs[0], D.models)
    D.offs = set().union(*D.sets.values())
    ctx.count(paths=len(V.pieces))
    ctx.guard(f"{PROG}: verification", verification, ctx, D)


class Quiet:
    """obligations that are another property's"""
    def __init__(self, ctx): self.ctx = ctx
    def ob(self, *a): pass
    def und(self, *a): pass
    def count(self, **k): pass
    def guard(self, k, f, *a): return f(*a)


def verification(ctx, D):
    k = f"{PROG}: verification"
    vs = [x for x in D.V.pieces if isinstance(x.v, str) and re.search(r"Verifying", x.v)]
    if not vs:
        ctx.und(k, "not recognised"); return
    tops = {x.top.n for x in vs}
    ps = [x for x in D.V.pieces if x.top.n in tops]
    if len({x.top.n for x in ps if x.top.callee == "section"}) < len(tops):
        # part of the run itself: everything from the first to the last
        ps = [x for x in D.V.pieces if min(tops) <= x.top.n]
    if any(x.loops[:1] != (D.loop,) for x in ps):
        ctx.und(k, "not within the loop over the models"); return
    # when
    op = AND(nothrow(D.open.guard), D.asked)
    for t in {x.top.n: x.top for x in vs if x.top.callee == "section"}.values():
        for c in COMBOS:
            inc = {"verify", "all"} & set(c)
            w = " ".join("--" + x for x in c)
            g = nothrow(t.guard)
            if inc:
                m = given(D, AND(op, NOT(g)), c)
                ctx.ob(f"{k}: when", not feasible(m), t.loc(), f"not with {w}" + (f" when {why(m)}" if feasible(m) else ""))
            else:
                ctx.ob(f"{k}: when", not feasible(given(D, g, c)), t.loc(), f"with {w}")
    # units of the coordinate system
    D.units = []
    D.types = {EV.atom("eh", repr(["g", t])).fp: t in ("_ZTISt13runtime_error", "_ZTISt9exception") for t in
               ["_ZTISt9exception", "_ZTISt13runtime_error"] + ["_ZTISt" + x for x in ("11logic_error", "16invalid_argument", "12domain_error", "12length_error", "12out_of_range", "11range_error", "14overflow_error", "15underflow_error", "9bad_alloc", "8bad_cast")]}
    es = [(s, e) for s, e in D.V.calls(r"CRSTransformer::getCRSUnits\(") if top(s, e).n in tops or top(s, e).n >= min(tops)]
    for s, e in es:
        D.units.append(e.args[:3])
        t = norm_(D, e.args[3]) if len(e.args) > 3 and isinstance(e.args[3], Leaf) else ""
        if "getCRSString(M)" in t:
            ctx.ob(f"{k}: coordinate system of the model", True, e.loc())
        elif re.match(r"^[\w()&+ ]*$", t) and "get" in t:
            ctx.ob(f"{k}: coordinate system of the model", False, e.loc(), f"units of {t[:60]}")
    seen = set(); n = 0
    on = dict.fromkeys(D.offs, 0)
    for o in D.sets["verify"]:
        on[o] = 1
    for x in ps:
        x.raw = flags(x.raw, on)
    for w in worlds():
        un = {a.fp: Ptr([("text", u)] * 4, 8) for us in D.units for a, u in zip(us, ("metre", "metre" if w.units else "degree", "fathom")) if isinstance(a, Leaf) and a.const is None}
        R = Run(D, w, {**un, D.it.fp: 0.0, D.begin.fp: 4096.0, lds(THIS, D.models + 8).fp: 4096.0 + 32})
        try:
            got = outcomes("".join(R.write(ps, 1)))
        except Outside as e:
            ctx.ob(f"{k}: nothing is read that is not there", False, vs[0].loc(), f"{str(e)[:150]}; {w.what}")
            continue
        except Unknown as e:
            if str(e) not in seen:
                seen.add(str(e)); ctx.und(f"{k}: {w.what}", str(e)[:150])
            continue
        n += 1
        judge(ctx, k, w, got, vs)


def judge(ctx, k, w, got, vs):
    exp = w.expected()
    kinds = lambda s: re.sub(r" '.*", "", s)
    for s, ok in exp:
        g = [x for x in got if x[0] == s]
        loc = next((v.loc() for v in vs if kinds(s).split()[0] in v.v.lower() or kinds(s) in v.v.lower()), vs[0].loc())
        kk = f"{k}: {kinds(s)}"
        if len(g) != 1:
            ctx.ob(f"{kk} is reported", False, loc, f"{s}: reported {len(g)} times; {w.what}"); continue
        if ok is None:
            continue
        res = g[0][1]
        if len(res) != 1:
            ctx.ob(f"{kk}: one outcome", False, loc, f"{s}: {', '.join(res) or 'none'}; {w.what}"); continue
        said = res[0] in ("OK", "PASS", "PASSED")
        ctx.ob(f"{kk}: outcome", said == ok, loc, f"{s}: {res[0]}, should be {'OK' if ok else 'FAIL'}; {w.what}")
        if not ok and not said:
            t = g[0][2].split(res[0], 1)
            ctx.ob(f"{kk}: what is wrong is said", bool((t[0] + t[1]).strip(" .\n")), loc, f"{s}: nothing after {res[0]}; {w.what}")
    extra = [x for x in got if x[0] not in [s for s, _ in exp]]
    ctx.ob(f"{k}: nothing else is reported", not extra, vs[0].loc(), f"{extra[0][0]}; {w.what}" if extra else "")
