"""Creation: what is written to the HDF5 file, and read back from it (HDF5Storage, Model, ModelMetadata)"""
import ast
import core
import gvn
from gvn import Leaf, l_add, l_sub, l_fn, atom, const, ZERO
import pyev
from pyev import B, Obj, traces, cond
import h5model

MINIMUM = 60
MODEL = "geomodelgrids.create.core.model"
CFG = atom("cfg", tree=("fn", "config"))
IX = [atom("index", a, tree=("fn", a)) for a in "ijkl"]
pyev.INTS |= {x.fp for x in IX}
BLOCKS = ("one", "two")
SURF = {"top_surface": ("init_top_surface", "save_top_surface"), "topography_bathymetry": ("init_topography_bathymetry", "save_topography_bathymetry")}
# attribute of the file: (section, key, kind)
DOMAIN = {n: ("geomodelgrids", n, "str") for n in
          ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_email", "creator_institution", "acknowledgement",
           "repository_name", "repository_url", "repository_doi", "license")}
DOMAIN.update({"keywords": ("geomodelgrids", "keywords", "list,"), "authors": ("geomodelgrids", "authors", "list|"), "references": ("geomodelgrids", "references", "list|"),
               "data_values": ("data", "values", "list,"), "data_units": ("data", "units", "list,"), "data_layout": ("data", "layout", "str"), "crs": ("coordsys", "crs", "str")})
DOMAIN.update({n: ("coordsys", n, "float") for n in ("origin_x", "origin_y", "y_azimuth")})
DOMAIN.update({n: ("domain", n, "float") for n in ("dim_x", "dim_y", "dim_z")})


def sec(s, k=None):
    l = l_fn("[]", CFG, pyev.S(s))
    return l if k is None else l_fn("[]", l, pyev.S(k))


def isin(k, s):
    return B("t", l_fn("in", pyev.S(k), s))


def txt(v, n=150):
    try:
        return gvn.show(pyev.leaf(v).tree)[:n]
    except Exception:
        return repr(v)[:n]


def same(a, b):
    return isinstance(a, Leaf) and isinstance(b, Leaf) and a.fp == b.fp


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = pyev.Program(core.REPO)
        self.md = self.prog.mod(MODEL)
        self.seen = {}

    def loc(self, cls, fn, mod=None):
        md = self.prog.mod(mod) if mod else self.md
        for n in md.tree.body:
            if getattr(n, "name", "") == cls:
                for f in n.body:
                    if getattr(f, "name", "") == fn:
                        return f"{md.path}:{f.lineno}"
        return md.path

    def blocks(self, m, fn, args, kw, node):
        a = list(args) + list(kw.values())
        if a and isinstance(a[0], Leaf) and a[0].fp == sec("domain", "blocks").fp:
            return pyev.PList(list(BLOCKS))
        return NotImplemented

    def models(self):
        d = dict(h5model.MODELS)
        d["string_to_list"] = self.blocks
        return d

    def model(self, m, var=None, kinds=None, surfaces=("top_surface", "topography_bathymetry")):
        """a Model of the unknown configuration; the axes of `var` are uniform (u) or variable (v) as in kinds, all others uniform"""
        for s in SURF:
            m.learn(B("t", l_fn("in", pyev.S(s), CFG), s not in surfaces))
        for n in list(BLOCKS) + list(SURF):
            for a in "xyz":
                u = not (n == var and kinds["xyz".index(a)] == "v")
                m.learn(B("t", l_fn("in", pyev.S(f"{a}_resolution"), sec(n)), not u))
        for n, (s, k, kind) in DOMAIN.items():
            if kind.startswith("list"):
                m.learn(B("t", l_fn("isinstance", sec(s, k), pyev.S("list")), True))
        for n in list(BLOCKS) + list(SURF):
            for k in ("x_coordinates", "y_coordinates", "z_coordinates", "chunk_size"):
                m.learn(B("t", l_fn("isinstance", sec(n, k), pyev.S("list")), True))
        for n in list(BLOCKS) + list(SURF):
            for a in "xyz":      # resolutions are positive
                m.learn(B("lt", gvn.l_neg(l_fn("float", sec(n, f"{a}_resolution")))))
        return m.call(m.get(MODEL, "Model"), [CFG], {}, None)

    def run(self, key, f, loc):
        """traces of f(m); those that raise for another type of a value than the documented one are left out"""
        try:
            ts = traces(self.prog, f, limit=400, models=self.models())
        except pyev.Unknown as e:
            self.ctx.und(key, str(e)[:160])
            return []
        self.ctx.count(paths=len(ts))
        out = []
        for t in ts:
            if t.kind == "unknown":
                self.ctx.und(key, f"{t.value}"[:200])
                continue
            if t.kind == "raises" and t.m.trail and wrongtype(t):
                continue
            out.append(t)
        return out


def wrongtype(t):
    b, v = t.m.trail[-1]
    v = v != b.neg
    if b.kind == "t" and b.l.tree[0] == "fn" and b.l.tree[1] == "isinstance" and not v and t.value[0] in ("ValueError", "TypeError"):
        return True
    return t.value[0] == "NotImplementedError" and "layout" in gvn.show(b.l.tree)


# ---- values ------------------------------------------------------------------------------------------
def spec(m, code, **env):
    return m.ex(ast.parse(code, mode="eval").body, [env, {}] + [{}])


def variants(l):
    """the same text as str or bytes"""
    yield l
    for f in ("numpy.string_", "numpy.bytes_", "str", "numpy.str_"):
        yield l_fn(f, l)


def is_text(m, v, l):
    if not isinstance(v, Leaf):
        return False
    if any(same(v, w) for w in variants(l)):
        return True
    t = v.tree
    if t[0] == "fn" and str(t[1]).startswith("call ."):      # .encode()
        return str(t[1]) in ("call .encode",) and isinstance(t[2], Leaf) and same(t[2], l) or str(t[1]) == "call .encode" and t[2] == l.tree
    return False


def element(m, v, i):
    if isinstance(v, pyev.Arr):
        return v.at([i])
    if isinstance(v, Leaf):
        return l_fn("item", v, i)
    raise pyev.Unknown(f"list {type(v).__name__}")


def expected(m, section, k, kind):
    it = sec(section, k) if isinstance(section, str) else l_fn("[]", section, pyev.S(k))
    if kind == "str":
        return it
    if kind == "float":
        return l_fn("float", it)
    r = list_of(m, it, kind[4:5])
    if kind.endswith("float"):
        return ("list", l_fn("float", r))
    return ("list", r)


def list_of(m, it, delim):
    return list_at(m, it, IX[0], delim)


def list_at(m, it, i, delim=","):
    """element i of the list given as text in a configuration"""
    s = m.index(it, pyev.Slice(const(1), const(-1), None), None)
    parts = m.call(m.attr(s, "split", None), [delim], {}, None)
    x = element(m, parts, i)
    return m.call(m.attr(x, "strip", None), [], {}, None)


def agrees(m, v, want):
    if isinstance(want, tuple):
        try:
            e = element(m, v, IX[0])
        except pyev.Unknown:
            return False
        return same(e, want[1]) or is_text(m, e, want[1])
    if isinstance(v, str):
        return False
    return same(pyev.leaf(v), want) or is_text(m, v, want)


def final_attrs(m, path):
    """attributes of a path after the operations: name -> op"""
    out = {}
    for o in getattr(m, "h5ops", []):
        if o.kind == "attr" and o.path == path:
            out[o.name] = o
        elif o.kind == "delattr" and o.path == path:
            out.pop(o.name, None)
        elif o.kind in ("delete", "dataset") and (path == o.path or path.startswith(o.path + "/")):
            out.clear()
    return out


def grid_attrs(kinds):
    d = {}
    for a, k in zip("xyz", kinds):
        if k == "u":
            d[f"{a}_resolution"] = (f"{a}_resolution", "float")
        else:
            d[f"{a}_coordinates"] = (f"{a}_coordinates", "list,float")
    if len(kinds) == 3 and kinds[2] == "u":
        d["z_top"] = ("z_top", "float")
    return d


def touched(ctx, key, t, loc, allowed, attrs):
    """nothing but `allowed` datasets are made, deleted or written, and attributes of `attrs`"""
    bad = []
    for o in getattr(t.m, "h5ops", []):
        if o.kind == "open":
            if o.mode in ("w", "w-", "x"):
                bad.append(f"the file is made anew (mode {o.mode}) at {o.loc}")
            if not same(o.file.leafname, sec("geomodelgrids", "filename")):
                bad.append(f"file {txt(o.file.leafname)} is opened at {o.loc}")
        elif o.kind in ("delete", "dataset", "write") and o.path not in allowed:
            bad.append(f"{o.kind} {o.path} at {o.loc}")
        elif o.kind in ("attr", "delattr") and o.path not in attrs:
            bad.append(f"attribute {o.name} of {o.path} at {o.loc}")
    ctx.ob(f"{key}: other parts of the file", not bad, loc, "; ".join(bad[:2]))
    still = [f for f in getattr(t.m, "h5files", []) if f.open]
    ctx.ob(f"{key}: file closed", not still, loc, "the file is left open")


def attrs_ok(W, key, t, loc, path, want):
    """want: name -> expected"""
    ctx = W.ctx
    have = final_attrs(t.m, path)
    for n, w in want.items():
        o = have.get(n)
        if o is None:
            ctx.ob(f"{key}: {n} written", False, loc, f"attribute '{n}' of {path} is not written" + (f" ({cond(t.m)[:120]})" if t.m.trail else ""))
            continue
        try:
            ok = agrees(t.m, o.value, w)
        except pyev.Unknown as e:
            ctx.und(f"{key}: {n}", str(e)[:120]); continue
        d = getattr(o, "dtype", None)
        ctx.ob(f"{key}: {n}", ok, o.loc, f"attribute '{n}' of {path} is {txt(o.value)} instead of {txt(w[1] if isinstance(w, tuple) else w)}")
        kinds = (float, "f8", "d", None)
        if d is not None and not isinstance(w, tuple):
            ctx.ob(f"{key}: {n} type", not ("int" in txt(d) or "f4" in txt(d) or "float32" in txt(d)), o.loc, f"attribute '{n}' is stored as {txt(d)}")


def wanted(m, section, tab):
    return {n: expected(m, section, k, kind) for n, (k, kind) in tab.items()}


def domain_wanted(m):
    d = {n: expected(m, s, k, kind) for n, (s, k, kind) in DOMAIN.items()}
    return d


def returned(W, key, ts, loc):
    """no trace may raise"""
    ok = [t for t in ts if t.kind == "returns"]
    for t in ts:
        if t.kind == "raises":
            W.ctx.ob(f"{key}: completes", False, t.loc or loc, f"raises {t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''}" + (f" ({cond(t.m)[:160]})" if t.m.trail else ""))
    if ok:
        W.ctx.ob(f"{key}: completes", True, loc, "")
    return ok


def call(m, o, name, *a, **kw):
    return m.call(m.attr(o, name, None), list(a), kw, None)


# ---- domain --------------------------------------------------------------------------------------------
def domain(W):
    for what, fn in (("save_domain", "save_domain"), ("update_metadata", "update_metadata")):
        loc = W.loc("Model", fn)
        f = lambda m: call(m, W.model(m), fn)
        ts = [t for t in W.run(what, f, loc) if fn == "save_domain" or not absent(t)]
        for t in returned(W, what, ts, loc):
            attrs_ok(W, what, t, loc, "/", domain_wanted(t.m))
            aux(W, what, t, loc)
            paths = ["/"]
            if fn == "update_metadata":
                for s in SURF:
                    paths.append(f"/surfaces/{s}")
                for b in BLOCKS:
                    paths.append(f"/blocks/{b}")
            touched(W.ctx, what, t, loc, (), paths)
            if fn == "save_domain":
                o = [x for x in t.m.h5ops if x.kind == "open"]
                W.ctx.ob(f"{what}: makes the file", bool(o) and any(x.mode == "a" for x in o), loc, "the file is not made when it does not exist")


def aux(W, key, t, loc):
    o = final_attrs(t.m, "/").get("auxiliary")
    if o is None:
        W.ctx.ob(f"{key}: auxiliary written", False, loc, "attribute 'auxiliary' is not written"); return
    has = t.m.decide(isin("auxiliary", sec("data")))
    s = txt(o.value, 4000)
    it = gvn.show(sec("data", "auxiliary").tree)
    if not has:
        W.ctx.ob(f"{key}: auxiliary, none given", "auxiliary" not in s, o.loc, f"attribute 'auxiliary' is {s[:120]} without auxiliary data")
    else:
        ok = it in s and (("json.dumps" in s) == ("json.loads" in s))
        W.ctx.ob(f"{key}: auxiliary", ok, o.loc, f"attribute 'auxiliary' is {s[:160]}")


# ---- surfaces and blocks --------------------------------------------------------------------------------
def objects():
    for s in SURF:
        for k in ("uu", "vv", "uv", "vu") if s == "top_surface" else ("uu", "vv"):
            yield s, k
    for k in ("uuu", "uuv", "vvu", "vvv", "uvu", "vuv", "uvv", "vuu"):
        yield "two", k
    yield "one", "uuu"


def target(m, mo, name):
    if name in SURF:
        return mo.attrs.get("top_surface" if name == "top_surface" else "topo_bathy")
    bs = mo.attrs.get("blocks")
    if not isinstance(bs, pyev.PList) or len(bs.items) != len(BLOCKS):
        raise pyev.Unknown("blocks of the model")
    return bs.items[BLOCKS.index(name)]


def path_of(name):
    return f"/surfaces/{name}" if name in SURF else f"/blocks/{name}"


def create(W):
    for name, kinds in objects():
        surf = name in SURF
        fn = SURF[name][0] if surf else "init_block"
        loc = W.loc("Model", fn)
        key = f"{fn} {name} {kinds}"
        path = path_of(name)
        keep = {}

        def f(m):
            mo = W.model(m, name, kinds + "u" if surf else kinds)
            o = target(m, mo, name)
            keep[id(m)] = (m, o)
            if surf:
                return call(m, mo, fn)
            return call(m, mo, fn, o)
        for t in returned(W, key, W.run(key, f, loc), loc):
            m, o = keep[id(t.m)]
            ops = t.m.h5ops
            ds = [x for x in ops if x.kind == "dataset" and x.path == path]
            W.ctx.ob(f"{key}: dataset made", len(ds) == 1 and m.h5state.get((ds[-1].file.key, path)) is not None, ds[-1].loc if ds else loc,
                     f"{len(ds)} datasets {path} made" + (f" ({cond(t.m)[:160]})" if t.m.trail else ""))
            if not ds:
                continue
            d = ds[-1]
            dims = call(m, o, "get_dims")
            want = list(dims) if isinstance(dims, tuple) else list(dims.items)
            if not surf:
                want.append(l_fn("len", pyev.leaf(o.attrs["model_metadata"].attrs["data_values"])) if False else m.length(o.attrs["model_metadata"].attrs["data_values"]))
            have = d.kw.get("shape")
            have = list(have) if isinstance(have, tuple) else list(have.items) if isinstance(have, pyev.PList) else None
            if have is None:
                W.ctx.und(f"{key}: shape", "shape not understood")
            else:
                W.ctx.ob(f"{key}: shape", len(have) == len(want) and all(same(pyev.leaf(a), pyev.leaf(b)) for a, b in zip(have, want)), d.loc,
                         f"shape of {path} is ({', '.join(txt(x, 60) for x in have)})")
            ch = d.kw.get("chunks")
            e = list_of(m, sec(name, "chunk_size"), ",")
            if isinstance(ch, bool) or isinstance(ch, str):
                W.ctx.ob(f"{key}: chunks", False, d.loc, f"chunks of {path} are {ch}, not those of chunk_size")
                continue
            try:
                c = element(m, ch, IX[0]) if ch is not None else None
                W.ctx.ob(f"{key}: chunks", isinstance(c, Leaf) and c.fp in (l_fn("int", e).fp, l_fn("trunc", l_fn("float", e)).fp, as_int(m, e).fp), d.loc,
                         f"chunks of {path} are {txt(ch) if ch is not None else 'not given'}, not those of chunk_size")
            except pyev.Unknown as x:
                W.ctx.und(f"{key}: chunks", str(x))
            dt = txt(d.kw["dtype"]) if d.kw.get("dtype") is not None else ""
            W.ctx.ob(f"{key}: type", "int" not in dt and "i4" not in dt and "i8" not in dt and "f2" not in dt and "float16" not in dt, d.loc, f"values of {path} stored as {dt}")
            attrs_ok(W, key, t, loc, path, wanted(m, sec(name), grid_attrs(kinds)))
            touched(W.ctx, key, t, loc, (path,), (path,))


def as_int(m, e):
    return pyev.leaf(m.call(pyev.Ext("int"), [e], {}, None))


def update(W):
    """update_metadata writes the attributes of every surface and block"""
    loc = W.loc("Model", "update_metadata")
    for name, kinds in objects():
        surf = name in SURF
        key = f"update_metadata {name} {kinds}"
        path = path_of(name)
        for t in returned(W, key, [x for x in W.run(key, lambda m: call(m, W.model(m, name, kinds + "u" if surf else kinds), "update_metadata"), loc) if not absent(x)], loc):
            attrs_ok(W, key, t, loc, path, wanted(t.m, sec(name), grid_attrs(kinds)))
    for surfaces in ((), ("top_surface",), ("topography_bathymetry",)):
        key = f"update_metadata with surfaces {', '.join(surfaces) or 'none'}"
        for t in returned(W, key, [x for x in W.run(key, lambda m: call(m, W.model(m, surfaces=surfaces), "update_metadata"), loc) if not absent(x)], loc):
            for s in SURF:
                n = len(final_attrs(t.m, f"/surfaces/{s}"))
                W.ctx.ob(f"{key}: {s}", (n > 0) == (s in surfaces), loc, f"attributes of {s} are {'not ' if not n else ''}written")
            for b in BLOCKS:
                W.ctx.ob(f"{key}: {b}", len(final_attrs(t.m, f"/blocks/{b}")) > 0, loc, f"attributes of block {b} are not written")


def absent(t):
    """the file lacks something that was written before (raises)"""
    return t.kind == "raises" and t.value[0] in ("KeyError", "AssertionError") and t.m.trail and t.m.trail[-1][0].kind == "t" and \
        "in the file" in gvn.show(t.m.trail[-1][0].l.tree) and not (t.m.trail[-1][1] != t.m.trail[-1][0].neg)


def batch(m, dim):
    o = Obj(pyev.Ext("Batch"), "b")
    for a in "xyz"[:dim]:
        pyev.INTS |= {atom("b0", a).fp, atom("b1", a).fp}
        lo, hi = atom("b0", a, tree=("fn", f"{a}_start")), atom("b1", a, tree=("fn", f"{a}_end"))
        o.attrs[f"{a}_range"] = (lo, hi)
        m.learn(B("lt", lo, True)); m.learn(B("lt", l_sub(lo, hi)))
    return o


DATA = atom("data", tree=("fn", "data"))


def save(W):
    for name, b in [(n, b) for n in list(SURF) + list(BLOCKS) for b in (True, False)]:
        surf = name in SURF
        fn = SURF[name][1] if surf else "save_block"
        loc = W.loc("Model", fn)
        key = f"{fn} {name} {'batch' if b else 'everything'}"
        path = path_of(name)

        def f(m):
            mo = W.model(m)
            args = ([] if surf else [target(m, mo, name)]) + [DATA]
            if b:
                args.append(batch(m, 2 if surf else 3))
            return call(m, mo, fn, *args)
        for t in returned(W, key, [x for x in W.run(key, f, loc) if not absent(x)], loc):
            ws = [o for o in t.m.h5ops if o.kind == "write" and o.path == path]
            W.ctx.ob(f"{key}: written once", len(ws) == 1, ws[-1].loc if ws else loc, f"values are written to {path} {len(ws)} times")
            touched(W.ctx, key, t, loc, (path,), ())
            ds = [o for o in t.m.h5ops if o.kind in ("dataset", "delete")]
            W.ctx.ob(f"{key}: dataset kept", not ds, ds[0].loc if ds else loc, f"{ds[0].kind if ds else ''} {path}: values written before are lost")
            if len(ws) != 1:
                continue
            w = ws[0]
            W.ctx.ob(f"{key}: value", same(pyev.leaf(w.value), DATA), w.loc, f"{txt(w.value)} is written instead of the values given")
            bad = []
            for k, s in enumerate(w.sel):
                a = "xyzv"[k]
                if b and a in "xyz"[:2 if surf else 3]:
                    lo, hi = atom("b0", a), atom("b1", a)
                    if s is None or s[2] is not None or not same(s[0], lo) or not same(s[1], hi):
                        bad.append(f"{a}: {show(s)}")
                elif s is not None:
                    one = k == 2 and surf and (same(s[0], ZERO) and s[2] is None and s[1] is not None and same(s[1], const(1)))
                    if not one:
                        bad.append(f"{a}: {show(s)}")
            W.ctx.ob(f"{key}: place", not bad, w.loc, f"values are written to {path} at {', '.join(bad)}")


def show(s):
    return "all" if s is None else f"{txt(s[0], 40)}:{txt(s[1], 40) if s[1] is not None else ''}" + (f":{txt(s[2], 20)}" if s[2] is not None else "")


# ---- reading a surface ----------------------------------------------------------------------------------
def load(W):
    loc = W.loc("HDF5Storage", "load_surface", "geomodelgrids.create.io.hdf5")
    for kinds, b in (("uu", True), ("uu", False), ("vv", True), ("uv", False), ("vu", True)):
        key = f"load_surface {kinds} {'batch' if b else 'everything'}"

        def f(m):
            mo = W.model(m, "top_surface", kinds + "u")
            s = target(m, mo, "top_surface")
            m.surface = s
            return call(m, s.attrs["storage"], "load_surface", s, *([batch(m, 2)] if b else []))
        ts = [x for x in W.run(key, f, loc) if not absent(x)]
        rets = [t for t in ts if t.kind == "returns"]
        for t in rets:
            v = t.value
            d = l_fn("h5", sec("geomodelgrids", "filename"), pyev.S("/surfaces/top_surface"))
            off = [atom("b0", "x"), atom("b0", "y")] if b else [ZERO, ZERO]
            if not isinstance(v, pyev.Arr) or v.shape is None or len(v.shape) != 3:
                W.ctx.und(f"{key}: value", "value not understood")
            else:
                for i, n in zip(IX, v.shape):
                    t.m.learn(B("lt", l_sub(i, n))); t.m.learn(B("lt", i, True))
                try:
                    e = v.at(IX[:3])
                    W.ctx.ob(f"{key}: value", same(e, l_fn("data", d, l_add(off[0], IX[0]), l_add(off[1], IX[1]), IX[2])), loc,
                             f"element (i, j, k) is {txt(e)}")
                except pyev.Unknown as x:
                    W.ctx.und(f"{key}: value", str(x)[:120])
                if b:
                    W.ctx.ob(f"{key}: shape", all(same(v.shape[k], l_sub(atom("b1", a), atom("b0", a))) for k, a in enumerate("xy")), loc,
                             f"shape {', '.join(txt(x, 50) for x in v.shape)}")
            touched(W.ctx, key, t, loc, (), ())
            comparisons(W, key, t, loc, kinds, d)
        if rets or any(t.kind == "raises" for t in ts):
            W.ctx.ob(f"{key}: completes", bool(rets), loc, "; ".join(f"raises {t.value[0]} ({cond(t.m)[:80]})" for t in ts if t.kind == "raises")[:300])
        lists(W, key, ts, loc, kinds)
        for t in ts:
            if t.kind == "raises":
                refused(W, key, t, loc, kinds)


def parts(kinds):
    for a, k in zip("xy", kinds):
        yield a, k, f"{a}_resolution" if k == "u" else f"{a}_coordinates"


def stored(n):
    return l_fn("attribute", sec("geomodelgrids", "filename"), pyev.S("/surfaces/top_surface"), pyev.S(n))


def holds_eq(m, a, b):
    """True: known equal, False: known different, None"""
    s = m.poss(l_sub(a, b))
    if s == {0}:
        return True
    return False if 0 not in s else None


def comparisons(W, key, t, loc, kinds, d):
    """when the surface is given, its attributes are those of the file"""
    m = t.m
    for a, k, n in parts(kinds):
        if k == "u":
            r = holds_eq(m, l_fn("float", sec("top_surface", n)), stored(n))
            W.ctx.ob(f"{key}: {n} compared", r is True, loc, f"a surface with another {n} in the file than in the configuration is read")


def find(l, name, out=None, seen=None):
    """sub-terms that are applications of a function"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(l, Leaf):
        if l.fp in seen:
            return out
        seen.add(l.fp)
        if l.tree[0] == "fn" and l.tree[1] == name:
            out[l.fp] = l
        l = l.tree
    if isinstance(l, tuple):
        for x in l[1:]:
            if isinstance(x, (Leaf, tuple)):
                find(x, name, out, seen)
    return out


def everything(m, i, it, st):
    """the loop with index i goes over all elements of the list"""
    for info in m.loopinfo.values():
        d = l_sub(i, info["it"])
        if d.const is None:
            continue
        text = m.call(m.attr(m.index(it, pyev.Slice(const(1), const(-1), None), None), "split", None), [","], {}, None)
        full = {m.length(text).fp, m.length(st).fp, l_fn("len", st).fp}
        its = info["over"].its if isinstance(info["over"], pyev.Zip) else [info["over"]]
        ns = [m.length(x) for x in its if not isinstance(x, pyev.Count)]
        r = [isinstance(n, Leaf) and n.fp in full for n in ns]
        return bool(r) and all(r) and d.const == 0
    return None


def lists(W, key, ts, loc, kinds):
    """coordinates that differ in number or in an element are refused"""
    for a, k, n in parts(kinds):
        if k == "u":
            continue
        st = stored(n)
        last = [t.m.trail[-1] for t in ts if t.kind == "raises" and t.m.trail]
        uses = [(b, v) for b, v in last if st.fp in find(b.l, "attribute")]
        machine = {id(t.m.trail[-1][0]): t.m for t in ts if t.kind == "raises" and t.m.trail}
        W.ctx.ob(f"{key}: {n} compared", bool(uses), loc, f"a surface with other {n} in the file than in the configuration is read")
        if not uses:
            continue
        m = ts[0].m
        size = elem = False; odd = []; half = []
        for b, v in uses:
            its = [x for x in find(b.l, "item").values() if same(x.tree[2], st)]
            if b.kind == "lt":
                half.append(b)
            elif b.kind != "eq":
                odd.append(b)
            elif not its:
                if find(b.l, "len"):
                    size = True
                else:
                    odd.append(b)
            else:
                for x in its:
                    i = x.tree[3]
                    e = list_at(m, sec("top_surface", n), i)
                    d = l_sub(l_fn("float", e), x)
                    if same(b.l, d) or same(b.l, gvn.l_neg(d)):
                        r = everything(machine[id(b)], i, sec("top_surface", n), st)
                        if r is None:
                            odd.append(b)
                        elem = elem or r is True
                    else:
                        odd.append(b)
        if odd and not (size and elem):
            W.ctx.und(f"{key}: {n}", f"comparison {txt(odd[0].l)} not understood")
            continue
        # a comparison with < needs the other direction as well
        for which in ("size", "elem"):
            h = [b for b in half if bool(find(b.l, "item")) == (which == "elem") and not (which == "elem" and find(b.l, "fabs"))]
            if which == "elem" and [b for b in half if find(b.l, "fabs") or find(b.l, "abs")]:
                elem = True
            two = len({b.l.fp for b in h}) > 1
            if two:
                size, elem = (True, elem) if which == "size" else (size, True)
        W.ctx.ob(f"{key}: {n} elements compared", elem, loc, f"a surface with other {n} in the file than in the configuration is read when their number is the same")
        W.ctx.ob(f"{key}: {n} number compared", size, loc, f"a surface with another number of {n} in the file than in the configuration is read")


def refused(W, key, t, loc, kinds):
    """an error is raised only for attributes that differ, as ValueError"""
    m = t.m
    W.ctx.ob(f"{key}: error", t.value[0] == "ValueError", t.loc or loc, f"raises {t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''} ({cond(m)[-160:]})")
    if not m.trail:
        W.ctx.ob(f"{key}: error only for a difference", False, t.loc or loc, "always raises")
        return
    b, v = m.trail[-1]
    v = v != b.neg
    ok = b.kind == "eq" and not v or b.kind == "lt" and v
    W.ctx.ob(f"{key}: error only for a difference", ok, t.loc or loc, f"raises {t.value[0]} when {cond(m)[-160:]}")


def config_list(W):
    pass


def check(ctx):
    W = World(ctx)
    ctx.guard("domain", domain, W)
    ctx.guard("create", create, W)
    ctx.guard("update", update, W)
    ctx.guard("save", save, W)
    ctx.guard("load", load, W)
