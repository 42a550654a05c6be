"""Creation: the application does the steps asked for, with every batch handed on once (create_model.App, cli, get_config)"""
import itertools
import core
import gvn
from gvn import Leaf, l_fn, atom, const, ZERO
import pyev
from pyev import B, Obj, Native, NatFn, PDict, PList, Raised, Unknown, traces, cond

MINIMUM = 60
APP = "geomodelgrids.create.apps.create_model"
MODEL = "geomodelgrids.create.core.model"
CONF = "geomodelgrids.create.utils.config"
FLAGS = ("import_domain", "import_surfaces", "import_blocks", "update_metadata", "all_steps")
PARAMS = {"get_top_surface": ("points",), "get_topography_bathymetry": ("points",), "get_values": ("block", "top_surface", "topo_bathy", "batch"), "initialize": ()}
BS = atom("bs", tree=("fn", "batch_size"))
pyev.INTS |= {BS.fp}
OPAQUE = {f"Model.{x}" for x in ("save_domain", "init_top_surface", "save_top_surface", "init_topography_bathymetry", "save_topography_bathymetry", "init_block", "save_block", "update_metadata")} | \
    {"Surface.get_batches", "Surface.generate_points", "Block.get_batches", "Block.generate_points", "Surface.get_dims", "Block.get_dims", "get_config"}
TRACKED = {x.split(".")[1] for x in OPAQUE if x.startswith("Model.")}


def txt(v, n=140):
    try:
        return gvn.show(pyev.leaf(v).tree)[:n]
    except Exception:
        return repr(v)[:n]


def where(prog, mod, cls, fn):
    md = prog.mod(mod)
    for n in md.tree.body:
        if cls is None and getattr(n, "name", "") == fn:
            return f"{md.path}:{n.lineno}"
        if cls and getattr(n, "name", "") == cls:
            for f in n.body:
                if getattr(f, "name", "") == fn:
                    return f"{md.path}:{f.lineno}"
    raise core.AnalysisBroken(f"{cls or mod}.{fn} vanished")


class Run:
    """one evaluation of main"""
    def __init__(self, top, bathy, bs):
        self.top = top; self.bathy = bathy; self.bs = bs

    def config(self):
        d = {"blocks": "[one, two]"}
        if self.bs:
            d["batch_size"] = BS
        return PDict({"geomodelgrids": PDict({"data_source": "pkg.mod.Src", "filename": "f.h5"}), "domain": PDict(d)})

    def model(self, m, fn, args, kw, node):
        o = fn.self_
        s = m.get(MODEL, "Surface"); b = m.get(MODEL, "Block")
        self.m_ = o
        o.attrs["top_surface"] = Obj(s, "top") if self.top else None
        o.attrs["topo_bathy"] = Obj(s, "bathy") if self.bathy else None
        o.attrs["blocks"] = PList([Obj(b, "block1"), Obj(b, "block2")])
        o.attrs["metadata"] = o.attrs["storage"] = None
        self.given = list(args) + list(kw.values())
        self.made = getattr(self, "made", 0) + 1
        return None

    def conf(self, m, fn, args, kw, node):
        self.files = list(args) + list(kw.values())
        self.cfg = self.config()
        return self.cfg

    def imp(self, m, fn, args, kw, node):
        r = atom("module", str(args[0]), tree=("fn", f"module {args[0]}"))
        m.imported = args[0]
        return r


class Script:
    """what a trace does, as texts with roles instead of terms"""
    def __init__(self, run, t):
        self.run = run; self.t = t; self.role = {}
        m = t.m
        self.ops = []          # (text, loops)
        r = self.role
        o = run.m_
        r[o.leaf.fp] = "model"
        for k, n in (("top_surface", "top"), ("topo_bathy", "bathy")):
            if isinstance(o.attrs.get(k), Obj):
                r[o.attrs[k].leaf.fp] = n
        for i, b in enumerate(o.attrs["blocks"].items):
            r[b.leaf.fp] = f"block{i}"
        r[BS.fp] = "size"; r[l_fn("int", BS).fp] = "size"; r[l_fn("trunc", BS).fp] = "size"
        r[l_fn("int", l_fn("float", BS)).fp] = "size"; r[l_fn("trunc", l_fn("float", BS)).fp] = "size"
        for e in m.events:
            self.event(e)

    def name(self, v):
        if v is None:
            return "None"
        l = pyev.leaf(v)
        if l.fp in self.role:
            return self.role[l.fp]
        if l.fp == pyev.NONE.fp:
            return "None"
        if l.tree[0] == "fn" and l.tree[1] == "item":
            return f"each {self.name(l.tree[2])}"
        if isinstance(v, PDict) or v is self.run.cfg:
            return "config" if v is self.run.cfg else "dict"
        return txt(l, 60)

    def event(self, e):
        if e.kind != "call":
            return
        n = e.name.split(".")[-1]
        args = list(e.args)
        if e.name == ".Src":
            self.role[e.res.fp] = "src"
            self.ops.append((f"Src({', '.join(self.name(a) for a in args[1:])})", self.loops(e)))
            return
        if not args:
            return
        who = self.name(args[0])
        if n not in TRACKED and n not in PARAMS and n not in ("get_batches", "generate_points"):
            return
        rest = args[1:]
        if n in PARAMS:
            kw = dict(e.kw or {})
            for p in PARAMS[n][len(rest):]:
                rest.append(kw.get(p))
        rest = [self.name(a) for a in rest]
        while rest and rest[-1] == "None":
            rest.pop()
        s = f"{who}.{n}({', '.join(rest)})"
        if isinstance(e.res, Leaf) and n not in TRACKED:
            self.role.setdefault(e.res.fp, s)
        self.ops.append((s, self.loops(e)))

    def loops(self, e):
        out = []
        for l in e.loops:
            i = self.t.m.loopinfo.get(l)
            out.append(self.name(i["over"]) if i else "?")
        return tuple(out)


def expected(run, flags, batches):
    """operations asked for: list of (text, loops), and pairs that have to be in that order"""
    on = lambda f: flags[f] or flags["all_steps"]
    ops = []; order = []
    src = on("import_domain") or on("import_surfaces") or on("import_blocks")
    if on("import_domain"):
        ops.append(("model.save_domain()", ()))
    saves = []
    if on("import_surfaces"):
        for here, n, init, get, save in ((run.top, "top", "init_top_surface", "get_top_surface", "save_top_surface"),
                                         (run.bathy, "bathy", "init_topography_bathymetry", "get_topography_bathymetry", "save_topography_bathymetry")):
            if not here:
                continue
            i = f"model.{init}()"
            ops.append((i, ()))
            if batches:
                bs = f"{n}.get_batches(size)"; b = f"each {bs}"
                pts = f"{n}.generate_points({b})"; el = f"src.{get}({pts})"; s = f"model.{save}({el}, {b})"
                lp = (bs,)
                ops.append((bs, ()))
            else:
                pts = f"{n}.generate_points()"; el = f"src.{get}({pts})"; s = f"model.{save}({el})"; lp = ()
            ops += [(pts, lp), (el, lp), (s, lp)]
            order += [(i, s), ("src.initialize()", el)]; saves.append(s)
    if on("import_blocks"):
        topo = "bathy" if run.bathy else "top" if run.top else "None"
        for k in ("block0", "block1"):
            i = f"model.init_block({k})"
            ops.append((i, ()))
            top = "top" if run.top else "None"
            if batches:
                bs = f"{k}.get_batches(size)"; b = f"each {bs}"; v = f"src.get_values({k}, {top}, {topo}, {b})"; lp = (bs,)
                s = f"model.save_block({k}, {v}, {b})"
                ops.append((bs, ()))
            else:
                a = [k, top, topo]
                while a[-1] == "None":
                    a.pop()
                v = f"src.get_values({', '.join(a)})"; s = f"model.save_block({k}, {v})"; lp = ()
            ops += [(v, lp), (s, lp)]
            order += [(i, s), ("src.initialize()", v)] + [(x, v) for x in saves]
    if flags["update_metadata"]:
        ops.append(("model.update_metadata()", ()))
        order += [(x[0], "model.update_metadata()") for x in ops if x[0].startswith("model.") and "update" not in x[0] and not x[1]]
    if on("import_domain"):
        order += [("model.save_domain()", x[0]) for x in ops if x[0].startswith("model.init_")] if False else []
    return src, ops, order


def main(ctx, prog):
    loc = where(prog, APP, "App", "main")
    for top, bathy, bs in itertools.product((True, False), repeat=3):
        for vals in itertools.product((False, True), repeat=len(FLAGS)):
            flags = dict(zip(FLAGS, vals))
            if flags["all_steps"] and sum(vals) > 2:
                continue
            what = ", ".join(f for f in FLAGS if flags[f]) or "no step"
            key = f"main {what}; {'top ' if top else ''}{'bathymetry ' if bathy else ''}{'batch_size' if bs else ''}"
            one_main(ctx, prog, key, flags, top, bathy, bs, loc)


def one_main(ctx, prog, key, flags, top, bathy, bs, loc):
    runs = {}

    def f(m):
        r = Run(top, bathy, bs); runs[id(m)] = r
        m.models = {"Model.__init__": r.model, "get_config": r.conf, "importlib.import_module": r.imp}
        app = Obj(m.get(APP, "App"), "app")
        for k in ("config", "model"):
            app.attrs[k] = None
        app.attrs["show_progress"] = True
        return m.call(m.attr(app, "main", None), ["a.cfg,b.cfg"], dict(flags), None)
    ts = traces(prog, f, limit=200, opaque=OPAQUE - {"get_config"})
    ctx.count(paths=len(ts))
    for t in ts:
        r = runs[id(t.m)]
        if t.kind == "unknown":
            ctx.und(key, str(t.value)[:160]); continue
        if t.kind == "raises":
            ctx.ob(f"{key}: completes", False, t.loc or loc, f"raises {t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''} {('(' + cond(t.m)[:120] + ')') if t.m.trail else ''}")
            continue
        ctx.ob(f"{key}: completes", True, loc, "")
        if not hasattr(r, "files"):
            ctx.ob(f"{key}: configuration", False, loc, "the configuration is not read"); continue
        fl = r.files[0]
        fl = list(fl.items) if isinstance(fl, PList) else list(fl) if isinstance(fl, tuple) else fl
        ctx.ob(f"{key}: configuration", fl == ["a.cfg", "b.cfg"], loc, f"for --config=a.cfg,b.cfg the files {fl if isinstance(fl, list) else txt(fl)} are read")
        if not any(flags.values()) and not hasattr(r, "m_"):
            continue
        if not hasattr(r, "m_"):
            ctx.ob(f"{key}: model", False, loc, "no model is made"); continue
        ctx.ob(f"{key}: model", r.made == 1 and bool(r.given) and r.given[0] is r.cfg, loc, "the model is not made from the configuration read")
        batches = False
        if bs:
            p = t.m.poss(l_fn("int", BS)) if False else None
            z = [t.m.poss(x) for x in (BS, l_fn("int", BS), l_fn("trunc", BS))]
            zero = any(s == {0} for s in z); nz = any(0 not in s for s in z)
            if not zero and not nz:
                if flags["import_surfaces"] and (top or bathy) or flags["import_blocks"] or flags["all_steps"]:
                    batches = True      # not looked at, so that it may be any size
            batches = nz or (batches and not zero)
        src, want, order = expected(r, flags, batches)
        sc = Script(r, t)
        have = [x for x in sc.ops if not x[0].startswith("Src(") and x[0] != "src.initialize()"]
        tag = f"{key}{' > 0' if batches else ''}"
        if src:
            mk = [x[0] for x in sc.ops if x[0].startswith("Src(")]
            if getattr(t.m, "imported", None) is not None and not isinstance(t.m.imported, str):
                ctx.und(f"{tag}: data source", "name of the module not understood"); continue
            ctx.ob(f"{tag}: data source", mk == ["Src(config)"] and getattr(t.m, "imported", None) == "pkg.mod", loc,
                   f"data source pkg.mod.Src: {', '.join(mk) or 'not made'} of module {getattr(t.m, 'imported', None)}")
            ctx.ob(f"{tag}: data source initialised", [x for x in sc.ops].count(("src.initialize()", ())) == 1, loc, "the data source is not initialised once")
        for w in dict.fromkeys(want):
            n = have.count(w)
            if n != 1 and any(x[0] == w[0] for x in have) and n == 0:
                other = next(x for x in have if x[0] == w[0])
                if "?" in other[1]:
                    ctx.und(f"{tag}: {w[0]}", "loop not understood"); continue
            pure = "generate_points" in w[0].split("(")[0] or "get_batches" in w[0].split("(")[0]
            k = w[0].split("(")[0]
            near = next((x[0] for x in have if x[0].split("(")[0] == k and x not in want), None)
            ctx.ob(f"{tag}: {w[0][:90]}", n == 1 or pure, loc,
                   f"with {key[5:]}: {w[0][:160]} is done {n} times" + (f" in a loop over {w[1][0]}" if w[1] else "") + (f"; {near[:160]} instead" if near and n == 0 else ""))
        for x in have:
            n = x[0].split("(")[0].split(".")[-1]
            if x not in want and n in TRACKED:
                ctx.ob(f"{tag}: nothing else", False, loc, f"with {key[5:]}: {x[0][:160]} is done" + (f" in a loop over {x[1]}" if x[1] else ""))
        names = [x[0] for x in sc.ops]
        for a, b in order:
            if a in names and b in names:
                last = max(i for i, x in enumerate(names) if x == a); first = names.index(b)
                ctx.ob(f"{tag}: {a[:60]} before {b[:60]}", last < first, loc, f"with {key[5:]}: {b[:120]} is done before {a[:120]}")


# ---- parameters shown -------------------------------------------------------------------------------------
def show(ctx, prog):
    loc = where(prog, APP, "App", "main")
    for others in (False, True):
        key = "main show_parameters" + (" with all steps" if others else "")
        r = Run(True, True, False)

        def f(m):
            m.models = {"Model.__init__": r.model, "get_config": r.conf, "importlib.import_module": r.imp}
            app = Obj(m.get(APP, "App"), "app")
            for k in ("config", "model", "show_progress"):
                app.attrs[k] = None
            flags = {x: others for x in FLAGS}
            return m.call(m.attr(app, "main", None), ["a.cfg"], dict(flags, show_parameters=True), None)
        for t in traces(prog, f, limit=50, opaque=OPAQUE - {"get_config"}):
            if t.kind == "unknown":
                ctx.und(key, str(t.value)[:160]); continue
            ctx.ob(f"{key}: completes", t.kind == "returns", t.loc or loc, f"{t.kind} {t.value if t.kind == 'raises' else ''}")
            done = [e for e in t.m.events if e.kind == "call" and e.name.split(".")[-1] in TRACKED]
            ctx.ob(f"{key}: nothing is written", not done, loc, f"{done[0].name if done else ''} is done as well")
            rd = [e for e in t.m.events if e.name == ".read_dict" and len(e.args) > 1 and e.args[1] is r.cfg]
            wr = [e for e in t.m.events if e.name == ".write" and len(e.args) > 1 and "stdout" in txt(e.args[1])]
            printed = [e for e in t.m.events if e.name == "print"]
            if printed and not (rd and wr):
                ctx.und(f"{key}: shown", "printed in another way"); continue
            ctx.ob(f"{key}: shown", bool(rd) and bool(wr) and rd[0].args[0].fp == wr[0].args[0].fp, loc, "the parameters are not written to stdout")


# ---- command line -------------------------------------------------------------------------------------------
class Namespace(Native):
    def __init__(self, opts): self.opts = opts; self.leaf = atom("namespace")
    def attr(self, m, n, node):
        for flags, o in self.opts:
            if o["dest"] == n:
                return option(flags, o)
        raise Raised("AttributeError", m.at(node), n)
    def keys(self, m): return [o["dest"] for _, o in self.opts]


def option(flags, o):
    long = next((f for f in flags if f.startswith("--")), flags[0] if flags else "?")
    a = atom("option", long, tree=("fn", long))
    act = o.get("action", "store")
    if act == "store_true":
        return a
    if act == "store_false":
        return l_fn("not given", a)
    if act == "store":
        return l_fn("value", a)
    return l_fn(str(act), a)


class Parser(Native):
    def __init__(self): self.opts = []; self.leaf = atom("parser", id(self))
    def attr(self, m, n, node):
        if n in ("add_argument_group", "add_mutually_exclusive_group"):
            return NatFn(lambda m, a, kw, node: self)
        if n == "add_argument":
            return NatFn(self.add)
        if n == "set_defaults":
            return NatFn(lambda m, a, kw, node: None)
        if n == "parse_args":
            return NatFn(lambda m, a, kw, node: Namespace(self.opts))
        raise Unknown(f"argparse {n}")
    def add(self, m, a, kw, node):
        flags = [x for x in a if isinstance(x, str)]
        o = dict(kw)
        if "dest" not in o:
            long = next((f for f in flags if f.startswith("--")), flags[0])
            o["dest"] = long.lstrip("-").replace("-", "_")
        self.opts.append((flags, o))
        m.options = self.opts


def opt(n, act="store_true"):
    return option([n], {"action": act})


CLI = {"--config": "config_filenames", "--show-parameters": "show_parameters", "--import-domain": "import_domain", "--import-surfaces": "import_surfaces", "--import-blocks": "import_blocks",
       "--update-metadata": "update_metadata", "--all": "all_steps"}


def cli(ctx, prog):
    loc = where(prog, APP, None, "cli")
    rec = {}

    def init(m, fn, args, kw, node):
        rec["init"] = m.normal(fn, args, kw, True)
        return None

    def main_(m, fn, args, kw, node):
        rec["main"] = m.normal(fn, args, kw, True)
        rec["n"] = rec.get("n", 0) + 1
        return None

    def f(m):
        rec.clear()
        m.models = {"App.__init__": init, "App.main": main_, "argparse.ArgumentParser": lambda m, fn, a, kw, n: Parser()}
        r = m.call(m.get(APP, "cli"), [], {}, None)
        m.rec = dict(rec)
        return r
    for t in traces(prog, f, limit=200):
        if t.kind == "unknown":
            ctx.und("cli", str(t.value)[:160]); continue
        if t.kind == "raises":
            ctx.ob("cli: completes", False, t.loc or loc, f"raises {t.value[0]} {t.value[1] if isinstance(t.value[1], str) else ''}"); continue
        ctx.ob("cli: completes", True, loc, "")
        rec_ = t.m.rec
        if "main" not in rec_ or "init" not in rec_:
            ctx.ob("cli: runs the application", False, loc, "App.main is not called"); continue
        ctx.ob("cli: runs the application", rec_["n"] == 1, loc, "App.main is called more than once")
        fi = m_names(prog, t.m, "__init__"); fm = m_names(prog, t.m, "main")
        gi = dict(zip(fi, rec_["init"][0])); gi.update(rec_["init"][1]); gm = dict(zip(fm, rec_["main"][0])); gm.update(rec_["main"][1])
        opts = {next((x for x in fl if x.startswith("--")), "?"): o for fl, o in getattr(t.m, "options", [])}
        for o, p in CLI.items():
            if p not in fm:
                ctx.und(f"cli {o}", f"main has no parameter {p}"); continue
            v = gm.get(p)
            want = opt(o, "store" if o == "--config" else "store_true")
            ctx.ob(f"cli {o}", isinstance(v, Leaf) and v.fp == want.fp, loc, f"{p} is {txt(v)} instead of the option {o}")
            if o in opts and o != "--config":
                d = opts[o].get("default", False)
                ctx.ob(f"cli {o} default", d is False or d is None, loc, f"{o} is on when it is not given")
        ctx.ob("cli --config required", opts.get("--config", {}).get("required") is True, loc, "--config is not required")
        v = gi.get("debug"); ctx.ob("cli --debug", isinstance(v, Leaf) and v.fp == opt("--debug").fp, loc, f"debug is {txt(v)}")
        v = gi.get("log_filename"); ctx.ob("cli --log", isinstance(v, Leaf) and v.fp == opt("--log", "store").fp, loc, f"log_filename is {txt(v)}")
        v = gi.get("show_progress")
        q = opts.get("--quiet", {})
        good = (opt("--quiet", "store_false").fp,) if q.get("action") == "store_false" else (l_fn("not", pyev.S("eq"), opt("--quiet")).fp,)
        if isinstance(v, B):
            ctx.ob("cli --quiet", v.l.fp == opt("--quiet").fp and v.kind == "eq" and not v.neg, loc, f"show_progress is {txt(v)}")
        else:
            ctx.ob("cli --quiet", isinstance(v, Leaf) and v.fp in good and q.get("default", True) is True, loc, f"show_progress is {txt(v)} instead of the opposite of --quiet")


def m_names(prog, m, fn):
    f = m.lookup(m.get(APP, "App"), fn)
    return [x.arg for x in f.node.args.args][1:]


# ---- configuration ------------------------------------------------------------------------------------------
def conf(ctx, prog):
    loc = where(prog, CONF, None, "get_config")
    for keep in (True, False):
        key = f"get_config keep_case={keep}"
        def f(m):
            return m.call(m.get(CONF, "get_config"), [PList(["a.cfg", "b.cfg"])], {} if keep else {"keep_case": False}, None)
        for t in traces(prog, f, limit=100):
            if t.kind == "unknown":
                ctx.und(key, str(t.value)[:160]); continue
            miss = [b for b, v in t.m.trail if "isfile" in txt(b.l) or "exists" in txt(b.l)]
            gone = any(("isfile" in txt(b.l) or "exists" in txt(b.l)) and absent(b, v) for b, v in t.m.trail)
            if t.kind == "raises":
                ctx.ob(f"{key}: missing file", gone and t.value[0] in ("IOError", "OSError", "FileNotFoundError"), t.loc or loc, f"raises {t.value[0]} ({cond(t.m)[:120]})")
                continue
            reads = [e for e in t.m.events if e.kind == "call" and e.name in (".read", ".read_file")]
            names = []
            for e in reads:
                a = e.args[1] if len(e.args) > 1 else None
                names += [a] if isinstance(a, str) else list(a.items) if isinstance(a, PList) else [txt(a)]
            ctx.ob(f"{key}: files read", names == ["a.cfg", "b.cfg"], loc, f"files read: {names}")
            ctx.ob(f"{key}: missing file", not gone and bool(miss), loc, "a file that does not exist is ignored")
            case = [e for e in t.m.events if e.kind == "setattr" and e.name == "optionxform"]
            ctx.ob(f"{key}: case of names", bool(case) == keep and all(repr(e.args[1]) == "str" for e in case), loc, f"names of parameters {'do not keep' if keep else 'keep'} their case")
            if case and reads:
                ctx.ob(f"{key}: case set before reading", t.m.events.index(case[0]) < t.m.events.index(reads[0]), loc, "the case is set after the files are read")


def absent(b, v):
    """the condition says that the file is not there"""
    v = v != b.neg
    if b.kind == "eq":
        return v
    return not v


def check(ctx):
    prog = pyev.Program(core.REPO)
    ctx.guard("main", main, ctx, prog)
    ctx.guard("show", show, ctx, prog)
    ctx.guard("cli", cli, ctx, prog)
    ctx.guard("conf", conf, ctx, prog)
