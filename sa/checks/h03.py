"""Reading of files: every function of the HDF5 wrapper reads exactly what it is asked for, all of it, into memory large enough"""
from common_exc import *
import strmodels as SM
import models as MD
import h01
from h01 import isl, th, exits
from h04 import same, same as _same, nodes, gvn_contains, why, eqc1

MINIMUM = 60
CLS = "serial::HDF5"


def feasible(d):
    return th(d) is not ZERO


class Ev:
    def __init__(self, p, f, state=None, args=None):
        self.p = p; self.f = f
        self.E = h01.evaluate(p, f) if state is None and args is None else self._run(p, f, state, args)
        self.args = [atom("arg", n, tree=("fn", a["n"])) for n, a in enumerate(f.args)] if args is None else args
        self.sret = 1 if f.args and f.args[0].get("sret") else 0
        self.ev = self.E.events
        self.ret = ZERO; self.st = None; self.res = None
        for w, g, st, r in exits(self.E):
            if w == "returning":
                self.ret = OR(self.ret, g); self.st = st; self.res = r
        self.loc = f.loc()
        self.key = h01.short(f) + {"long, void*)": " (number)", "unsigned long*)": " (numbers)", "char const*)": " (text)" if "readAttribute" in f.dem else "", "allocator<char>>>>*)": " (texts)"}.get(next((k for k in ("long, void*)", "unsigned long*)", "char const*)", "allocator<char>>>>*)") if f.dem.endswith(k)), ""), "")

    def _run(self, p, f, state, args):
        E = EV.Evaluator(p, models={**h01.OWNERS, **SM.STREAMS, **SM.VECMUT})
        rs = h01.raisers_of(p)
        E.throwing = lambda dem: dem in rs
        E.run(f, args, state)
        return E

    @property
    def this(self):
        return self.args[self.sret]

    def par(self, n):
        return self.args[self.sret + 1 + n]

    def calls(self, rx):
        return [e for e in self.ev if e.kind == "call" and e.callee and re.search(rx, e.callee)]

    def stores(self):
        return [e for e in self.ev if e.kind == "store"]

    def out(self, e, n, ty, sz, off=0):
        if n not in e.outs:
            return None
        l, token = e.outs[n]
        st = EV.State()
        self.E.clobber(st, l, token)
        return self.E.load1(st, padd(l, gvn.const(off)), ty, sz, None)


def check(ctx):
    p = core.load(("lib",))
    fs = {}
    for f in p.repo_fns():
        m = re.search(r"serial::HDF5::(\w+)(\[abi:cxx11\])?\(", f.dem)
        if m and f.blocks:
            fs.setdefault(m.group(1), []).append(f)
    for n in ("open", "hasGroup", "hasDataset", "hasAttribute", "getDatasetDims", "getGroupDatasets", "readAttribute", "readDatasetHyperslab", "setCache", "isOpen"):
        if n not in fs:
            raise core.AnalysisBroken(f"HDF5::{n} vanished")
    off = fileoff(ctx, p, fs)
    ctx.guard("open", opening, ctx, p, fs, off)
    for n, kind in (("hasGroup", "H5O_TYPE_GROUP"), ("hasDataset", "H5O_TYPE_DATASET")):
        ctx.guard(n, has, ctx, p, fs[n][0], off, 0 if n == "hasGroup" else 1)
    ctx.guard("hasAttribute", hasattr_, ctx, p, fs["hasAttribute"][0], off)
    ctx.guard("getDatasetDims", dims, ctx, p, fs["getDatasetDims"][0], off)
    ctx.guard("getGroupDatasets", group, ctx, p, fs["getGroupDatasets"][0], off)
    kinds = {"long, void*)": number, "unsigned long*)": numbers, "char const*)": text, "allocator<char>>>>*)": texts}
    for s, fn in kinds.items():
        g = [f for f in fs["readAttribute"] if f.dem.endswith(s)]
        if len(g) != 1:
            raise core.AnalysisBroken(f"HDF5::readAttribute(... {s} vanished")
        ctx.guard(f"readAttribute(... {s}", fn, ctx, p, g[0], off)
    ctx.guard("readDatasetHyperslab", slab, ctx, p, fs["readDatasetHyperslab"][0], off)


# ---- what values are ----------------------------------------------------------------------------
def fn(l, name):
    """arguments of the library call a value is the result of"""
    if isinstance(l, Leaf) and l.tree[0] == "fn" and re.fullmatch(name, str(l.tree[1])):
        return list(l.tree[2:])
    return None


def cases(d, g):
    if d is ZERO or d is ONE:
        return [(gvn.const(1 if d is ONE else 0), g)]
    if isinstance(d, Leaf):
        return [(d, g)]
    r = []
    for l in gvn.leaves(d).values():
        c = AND(g, isl(d, l.fp))
        if feasible(c):
            r.append((l, c))
    return r


def fileoff(ctx, p, fs):
    """where the object keeps the handle of the file: what open() stores there"""
    V = Ev(p, fs["open"][0])
    for e in V.stores():
        b, o = ptrparts(e.args[0]) if isinstance(e.args[0], Leaf) else (None, None)
        if b == ptrparts(V.this)[0] and o.const is not None and any(fn(l, r"H5Fopen|H5Fcreate") for l, _ in cases(e.args[1], e.guard)):
            return int(o.const)
    raise core.AnalysisBroken("HDF5::open does not keep the handle of the file")


def file_of(V, off):
    return V.E.load(EV.State(), padd(V.this, gvn.const(off)), "ptr", 8, None)


def eqp(a, b):
    return isinstance(a, Leaf) and isinstance(b, Leaf) and a.fp == b.fp


def text_of(l):
    return MD.const_string(l) if isinstance(l, Leaf) else None


def capacity(V, l):
    """(first byte of the object, its extent) for a pointer into an object made in this function"""
    b, o = ptrparts(l)
    if b is None:
        return None, None
    if b[0] == "al":
        f = V.p.fns.get(b[1][-1])
        i = f.defs.get(b[2]) if f is not None else None
        return o, (gvn.const(i.d["sz"]) if i is not None and "sz" in i.d else None)
    for e in V.ev:
        if e.kind == "call" and re.match(r"_Zna?m|malloc$|_Znwm", e.callee or "") and isinstance(e.res, Leaf) and ptrparts(e.res)[0] == b:
            return o, e.args[0]
    return None, None


def reads_own(ctx, key, V, e, h, off, opener, pars):
    """the handle is of what the parameters name, in the file of the object"""
    f = file_of(V, off)
    for l, c in cases(h, e.guard):
        a = fn(l, r"H5[ADGOP]\w*open\w*")
        if a is None:
            if feasible(AND(c, V.ret)):
                ctx.und(f"{key}: {opener}", f"handle not recognised: {txt(l, 80)}")
            continue
        if not re.fullmatch(opener, str(l.tree[1])):
            ctx.und(f"{key}: {opener}", f"opened with {l.tree[1]}"); continue
        want = [f] + pars
        bad = [n for n, w in enumerate(want) if not eqp(a[n], w)]
        ctx.ob(f"{key}: opens what the arguments name in its own file", not bad, e.loc(), f"argument {bad[0]} of {l.tree[1]} is {txt(a[bad[0]], 80)}" if bad else "")


def space_of(l, h):
    """the dataspace of a handle"""
    a = fn(l, r"H5[AD]get_space")
    return a is not None and eqp(a[0], h)


def onlywrites(ctx, V, allowed):
    """memory of others is written only where the caller asked for it"""
    ok = {ptrparts(a)[0] for a in allowed}
    for a in V.args:
        b = ptrparts(a)[0]
        if b in ok or b is None or b == ptrparts(V.this)[0]:
            continue
        w = [e for e in V.stores() if isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == b]
        w += [e for e in V.ev if e.kind == "call" and (e.callee or "").startswith("H5") and any(ptrparts(l)[0] == b for l, _ in (e.outs or {}).values())]
        ctx.ob(f"{V.key}: writes only what it is asked to ({txt(a, 30)})", not w, w[0].loc() if w else V.loc, f"writes to {txt(a, 30)}")
    inst = [e for e in V.stores() if isinstance(e.args[0], Leaf) and ptrparts(e.args[0])[0] == ptrparts(V.this)[0]]
    ctx.ob(f"{V.key}: changes nothing of the object itself", not inst, inst[0].loc() if inst else V.loc, f"writes {txt(inst[0].args[0], 60)}" if inst else "")
    outs = []
    for e in V.ev:
        if e.kind == "call" and (e.callee or "").startswith("H5"):
            for n, (l, t) in (e.outs or {}).items():
                if ptrparts(l)[0] == ptrparts(V.this)[0]:
                    outs.append((e, n))
    ctx.ob(f"{V.key}: the library does not write into the object", not outs, outs[0][0].loc() if outs else V.loc, "passes its address to the library" if outs else "")


def done(ctx, key, V, es, what):
    g = ZERO
    for e in es:
        g = OR(g, e.guard)
    m = AND(V.ret, NOT(g))
    bad = feasible(m)
    ctx.ob(f"{key}: {what}", not bad, es[0].loc() if es else V.loc, f"returns normally without, when {why(m)}" if bad else "")
    return not bad


def rank_is(V, g, h, n):
    """the condition g implies that the rank of what h names is n (None: not recognised)"""
    rs = [e for e in V.calls(r"H5Sget_simple_extent_ndims") if space_of(e.args[0], h)]
    for e in rs:
        if not feasible(AND(g, NOT(eqc(e.res, n)))):
            return True
    return False


def one_value(V, g, h):
    for e in V.calls(r"H5Sget_(simple_extent|select)_npoints"):
        if space_of(e.args[0], h) and not feasible(AND(g, NOT(eqc(e.res, 1)))):
            return True
    for e in V.calls(r"H5Sget_simple_extent_dims"):
        if space_of(e.args[0], h) and rank_is(V, g, h, 1):
            d0 = V.out(e, 1, "i64", 8)
            if isinstance(d0, Leaf) and not feasible(AND(g, NOT(eqc(d0, 1)))):
                return True
    return False


def asked(V, g, h):
    """whether the condition looks at the dataspace in a way that is not understood"""
    for v in nodes(g):
        for l in gvn.var_leaf(v):
            if isinstance(l, Leaf) and mentions(l, r"H5(S|Aget_storage)\w*"):
                return True
    return False


def mentions(l, rx, depth=0):
    if not isinstance(l, Leaf) or depth > 12:
        return False
    if l.tree[0] == "fn" and re.fullmatch(rx, str(l.tree[1]) if not isinstance(l.tree[1], tuple) else str(l.tree[1][0])):
        return True
    return any(mentions(x, rx, depth + 1) for x in l.tree[1:] if isinstance(x, Leaf))


def count_of(V, h):
    """values that are the number of elements (rank 1) of what a handle names"""
    r = []
    for e in V.calls(r"H5Sget_(simple_extent|select)_npoints"):
        if space_of(e.args[0], h):
            r.append(e.res)
    for e in V.calls(r"H5Sget_simple_extent_dims"):
        if space_of(e.args[0], h):
            d0 = V.out(e, 1, "i64", 8)
            if d0 is not None:
                r.append(d0)
            for l, _ in cases(e.args[1], e.guard):
                if isinstance(l, Leaf):
                    x = None
                    st = EV.State()
                    k = e.outs.get(1)
                    if k and eqp(k[0], l):
                        continue
    return r


def extents_fit(ctx, V):
    """arrays for the extents of a dataspace have an element for each dimension"""
    for e in V.calls(r"H5Sget_simple_extent_dims"):
        key = f"{V.key}: extents of the dataspace fit"
        ranks = [r for r in V.calls(r"H5Sget_simple_extent_ndims") if eqp(r.args[0], e.args[0])]
        for n in (1, 2):
            for l, c in cases(e.args[n], e.guard):
                if l.const == 0:
                    if n == 1:
                        bad = AND(c, ONE)
                        for r in ranks:
                            bad = AND(bad, gt0(r.res))
                        bad = AND(bad, V.ret)
                        ctx.ob(f"{key}: asked for", not (ranks and feasible(bad)), e.loc(), f"no extents are stored when {why(bad)}" if feasible(bad) else "")
                    continue
                o, cap = capacity(V, l)
                if cap is None:
                    ctx.und(key, f"array not recognised: {txt(l, 60)}"); continue
                room = l_sub(cap, o) if isinstance(cap, Leaf) else None
                ok = False; w = ""
                if room is not None:
                    if room.const is not None:
                        k = int(room.const) // 8
                        big = c
                        for r in ranks:
                            for j in range(0, k + 1):
                                big = AND(big, NOT(eqc(r.res, j)))
                            big = AND(big, NOT(dd_lt(r.res, gvn.const(0))))
                            big = AND(big, dd_lt(gvn.const(k), r.res)) if not isinstance(r.res, Node) else big
                        ok = bool(ranks) and not feasible(big); w = f"room for {k}"
                    else:
                        for r in ranks:
                            d = l_sub(room, l_mul(r.res, gvn.const(8))) if isinstance(r.res, Leaf) else None
                            if d is not None and d.const is not None and d.const >= 0:
                                ok = True
                        w = f"room for {txt(l_div(room, gvn.const(8)), 60)}"
                        if not ranks:
                            ctx.und(key, "rank not recognised"); continue
                ctx.ob(key, ok, e.loc(), w)


def gt0(l):
    return AND(NOT(dd_lt(l, gvn.const(0))), NOT(eqc1(l, 0)))


def room(ctx, key, V, e, n, need, c, l):
    """the memory behind a pointer argument holds `need` bytes; alternatives: list"""
    o, cap = capacity(V, l)
    if cap is None or not isinstance(cap, Leaf):
        ctx.und(f"{key}: memory is large enough", f"not recognised: {txt(l, 60)}"); return
    r = l_sub(cap, o)
    ok = False; known = False
    for w in need:
        d = l_sub(r, w)
        if d.const is not None:
            ok = ok or d.const >= 0
        elif r.const is not None:
            ok = ok or not feasible(AND(c, dd_lt(r, w)))
        elif mentions(r, r"H5Aget_storage_size|\w+"):
            known = known or not shaped(r, need)
    if not ok and known:
        ctx.und(f"{key}: memory is large enough", f"{txt(r, 100)} bytes"); return
    ctx.ob(f"{key}: memory is large enough", ok, e.loc(), f"room for {txt(r, 100)} bytes of {txt(need[0], 100)}" if not ok else "")


def shaped(r, need):
    """whether an extent is made of the same quantities as what is needed (then it can be compared)"""
    return not mentions(r, r"H5Aget_storage_size|H5Tget_precision|std::.*")


# ---- attributes ---------------------------------------------------------------------------------
def attr_reads(ctx, V, off):
    """[(read event, handle, buffer, case)] with the obligations common to all kinds"""
    es = V.calls(r"^H5Aread$")
    if not es:
        ctx.ob(f"{V.key}: reads the attribute", False, V.loc, "H5Aread is never called") if not V.calls(r"^H5") else ctx.und(V.key, "reading not recognised")
        return []
    done(ctx, V.key, V, es, "returns only after reading the attribute")
    out = []
    for n, e in enumerate(es):
        k = V.key
        reads_own(ctx, k, V, e, e.args[0], off, r"H5Aopen_by_name", [V.par(0), V.par(1)])
        for h, c in cases(e.args[0], e.guard):
            if fn(h, r"H5Aopen_by_name") is None:
                continue
            for b, c2 in cases(e.args[2], c):
                out.append((e, h, b, c2))
    return out


def number(ctx, p, f, off):
    V = Ev(p, f)
    for e, h, b, c in attr_reads(ctx, V, off):
        ctx.ob(f"{V.key}: converted to the type asked for", all(eqp(l, V.par(2)) for l, _ in cases(e.args[1], c)), e.loc(), f"read as {txt(e.args[1], 60)}")
        ctx.ob(f"{V.key}: stored where asked for", eqp(b, V.par(3)), e.loc(), f"read into {txt(b, 80)}")
        ok = one_value(V, c, h)
        if not ok and asked(V, c, h) and not only_failed(c, V, h):
            ctx.und(f"{V.key}: refused unless it is one value", "test not recognised")
        else:
            ctx.ob(f"{V.key}: refused unless it is one value", ok, e.loc(), "an attribute with more values is written behind the variable of the caller")
    onlywrites(ctx, V, [V.par(3)])
    accepted(ctx, V, "one value", lambda h: shape(V, h, 0))
    ctx.count(functions=1)


def only_failed(c, V=None, h=None):
    """the condition looks at the dataspace only through the number of points, the rank or the extent of a list"""
    known = {}
    for e in V.calls(r"H5Sget_(simple_extent|select)_npoints|H5Sget_simple_extent_ndims"):
        if isinstance(e.res, Leaf):
            known[e.res.fp] = ZERO
    for e in V.calls(r"H5Sget_simple_extent_dims"):
        d0 = V.out(e, 1, "i64", 8)
        if isinstance(d0, Leaf):
            known[d0.fp] = ZERO
    for v in nodes(c):
        for l in gvn.var_leaf(v):
            if isinstance(l, Leaf) and fn(l, r"\w+") is not None and l.fp not in known and re.fullmatch(r"H5Sget_simple_extent_dims", str(l.tree[1])):
                continue
            if isinstance(l, Leaf) and mentions(subst(l, known), r"H5Sget_simple_extent_n\w+|H5Aget_storage_size|H5Sget_select_npoints|H5Sget_simple_extent_type|out"):
                return False
    return True


def accepted(ctx, V, what, assume=lambda h: ONE, extra=ONE):
    """when no call of the library fails, what meets the documented conditions is accepted"""
    x = ZERO
    for w, g, st, _ in exits(V.E):
        if w != "returning":
            x = OR(x, g)
    x = AND(nothrow(x), extra)
    hs = {}
    for e in V.ev:
        if e.kind == "call" and (e.callee or "").startswith("H5") and isinstance(e.res, Leaf):
            x = AND(x, NOT(dd_lt(e.res, gvn.const(0))))
            if re.match(r"H5[ADG]open|H5Aopen|H5[AD]get_space|H5Screate|H5Aget_type|H5Pcreate|H5Oopen", e.callee):
                x = AND(x, gt0(e.res))
            if re.match(r"H5[AD]open|H5Aopen", e.callee):
                hs[e.res.fp] = e.res
    for a in V.args:
        x = AND(x, NOT(eqc1(a, 0)))
    for h in hs.values():
        x = AND(x, assume(h))
    bad = feasible(x)
    ctx.ob(f"{V.key}: {what} is accepted", not bad, V.loc, f"raises an exception when {why(x)}" if bad else "")


def shape(V, h, n):
    """what a handle names has rank n and something in it (n = 0: one value)"""
    c = ONE
    for e in V.calls(r"H5Sget_(simple_extent|select)_npoints"):
        if space_of(e.args[0], h):
            c = AND(c, eqc(e.res, 1) if n == 0 else gt0(e.res))
    for e in V.calls(r"H5Sget_simple_extent_ndims"):
        if space_of(e.args[0], h):
            c = AND(c, eqc(e.res, n))
    for e in V.calls(r"H5Sget_simple_extent_dims"):
        if space_of(e.args[0], h):
            d0 = V.out(e, 1, "i64", 8)
            if isinstance(d0, Leaf):
                c = AND(c, gt0(d0))
    for e in V.calls(r"H5Tget_class$"):
        c = AND(c, eqc(e.res, 3))
    return c


def numbers(ctx, p, f, off):
    V = Ev(p, f)
    for e, h, b, c in attr_reads(ctx, V, off):
        ctx.ob(f"{V.key}: converted to the type asked for", all(eqp(l, V.par(2)) for l, _ in cases(e.args[1], c)), e.loc(), f"read as {txt(e.args[1], 60)}")
        ns = [n for n in count_of(V, h) if isinstance(n, Leaf)]
        sz = [x.res for x in V.calls(r"^H5Tget_size$") if eqp(x.args[0], V.par(2)) and isinstance(x.res, Leaf)]
        listed(ctx, V, e, h, c)
        if not sz and not [x for x in V.calls(r"^H5(T|Aget_storage|Dget_storage)\w*")]:
            ctx.ob(f"{V.key}: memory is large enough", False, e.loc(), "allocated without regard to the size of the type asked for"); continue
        if not ns or not sz:
            ctx.und(f"{V.key}: memory is large enough", "number of values or their size not recognised"); continue
        room(ctx, V.key, V, e, 2, [l_mul(n, s) for n in ns for s in sz], c, b)
        st = V.st
        v = V.E.load(st.copy(), V.par(3), "ptr", 8, None); s = V.E.load(st.copy(), V.par(4), "i64", 8, None)
        m = AND(AND(V.ret, c), NOT(isl(v, b.fp)))
        ctx.ob(f"{V.key}: gives the values that were read", not feasible(m), e.loc(), f"gives {txt(v, 80)} when {why(m)}" if feasible(m) else "")
        good = ZERO
        for n in ns:
            good = OR(good, isl(s, n.fp))
        m = AND(AND(V.ret, c), NOT(good))
        ctx.ob(f"{V.key}: gives how many there are", not feasible(m), e.loc(), f"gives {txt(s, 80)}" if feasible(m) else "")
    extents_fit(ctx, V)
    accepted(ctx, V, "a list", lambda h: shape(V, h, 1))
    onlywrites(ctx, V, [V.par(3), V.par(4)])
    ctx.count(functions=1)


def listed(ctx, V, e, h, c):
    ok = rank_is(V, c, h, 1)
    if not ok and asked(V, c, h) and not only_failed(c, V, h):
        ctx.und(f"{V.key}: refused unless it is a list", "test not recognised")
    else:
        ctx.ob(f"{V.key}: refused unless it is a list", ok, e.loc(), "an attribute of another rank is read")


def filetype(V, l, h):
    a = fn(l, r"H5Aget_type")
    return a is not None and eqp(a[0], h)


def variable(V, t):
    """condition that texts are of variable length"""
    for e in V.calls(r"^H5Tis_variable_str$"):
        if eqp(e.args[0], t):
            return NOT(eqc1(e.res, 0))
    return None


def istext(ctx, V, e, t, c):
    key = f"{V.key}: refused unless it is text"
    cl = [x.res for x in V.calls(r"^H5Tget_class$") if eqp(x.args[0], t)]
    if not cl and V.calls(r"^H5Tdetect_class$"):
        ctx.und(key, "test not recognised"); return
    bad = c
    for r in cl:
        bad = AND(bad, NOT(eqc1(r, 3)))
    ctx.ob(key, bool(cl) and not feasible(bad), e.loc(), "values of another class are read as text")


def text(ctx, p, f, off):
    V = Ev(p, f)
    rds = attr_reads(ctx, V, off)
    res = MD.sval(V.E, V.st, V.args[0]) if V.sret else None
    for e, h, b, c in rds:
        if not all(filetype(V, l, h) for l, _ in cases(e.args[1], c)):
            ctx.und(f"{V.key}: type", f"read as {txt(e.args[1], 60)}"); continue
        t = next(l for l, _ in cases(e.args[1], c))
        istext(ctx, V, e, t, c)
        ok = one_value(V, c, h)
        if not ok and asked(V, c, h) and not only_failed(c, V, h):
            ctx.und(f"{V.key}: refused unless it is one text", "test not recognised")
        else:
            ctx.ob(f"{V.key}: refused unless it is one text", ok, e.loc(), "an attribute with more texts is written behind the buffer")
        var = variable(V, t)
        sz = [x.res for x in V.calls(r"^H5Tget_size$") if eqp(x.args[0], t) and isinstance(x.res, Leaf)]
        if var is None:
            ctx.ob(f"{V.key}: texts of variable length are told apart", False, e.loc(), "all are read in the same way") if not V.calls("H5Tis_variable|H5Tequal|H5Tdetect") else ctx.und(f"{V.key}: texts of variable length are told apart", "not recognised")
            continue
        if feasible(AND(c, NOT(var))):
            # fixed length: the text itself
            cc = AND(c, NOT(var))
            key = f"{V.key}: fixed length"
            if not sz:
                ctx.und(key, "length not recognised"); continue
            room(ctx, key, V, e, 2, [l_add(s, gvn.const(0)) for s in sz], cc, b)
            terminated(ctx, key, V, e, b, sz, cc)
            chars(ctx, key, V, e, res, b, AND(V.ret, cc))
        if feasible(AND(c, var)):
            cc = AND(c, var)
            key = f"{V.key}: variable length"
            room(ctx, key, V, e, 2, [gvn.const(8)], cc, b)
            ptr = V.out(e, 2, "ptr", 8)
            if not isinstance(ptr, Leaf):
                ctx.und(key, "what was read is not recognised"); continue
            chars(ctx, key, V, e, res, ptr, AND(AND(V.ret, cc), NOT(eqc(ptr, 0))))
            z = AND(AND(V.ret, cc), eqc(ptr, 0))
            bad = AND(z, NOT(same(res, MD.strleaf([])))) if res is not None else ZERO
            ctx.ob(f"{key}: no text is the empty text", not feasible(bad), e.loc(), f"gives {txt(res, 80)}" if feasible(bad) else "")
    accepted(ctx, V, "one text", lambda h: shape(V, h, 0))
    onlywrites(ctx, V, [V.args[0]])
    ctx.count(functions=1)


def terminated(ctx, key, V, e, b, sz, c, ix=None):
    """a terminating zero follows the text"""
    ok = ZERO; bound = False
    for s in V.stores():
        if isinstance(s.args[0], Leaf) and ptrparts(s.args[0])[0] == ptrparts(b)[0]:
            d = l_sub(s.args[0], b)
            for z in sz:
                if d.fp == z.fp and isinstance(s.args[1], Leaf) and s.args[1].const == 0:
                    ok = OR(ok, s.guard)
            r = capacity(V, s.args[0])
            if r[1] is not None and isinstance(r[1], Leaf):
                k = l_sub(r[1], r[0])
                if k.const is not None:
                    ctx.ob(f"{key}: writes inside the buffer", k.const >= 1, s.loc(), f"{txt(s.args[0], 60)} of {txt(r[1], 60)} bytes")
    m = AND(c, NOT(ok))
    if feasible(m) and (capacity(V, b)[1] is None or filled(V)):
        ctx.und(f"{key}: terminated", "not recognised"); return
    if feasible(m) and [x for x in V.calls(r"mem|str|fill|basic_string") if any(isinstance(a, Leaf) and ptrparts(a)[0] == ptrparts(b)[0] for a in x.args)]:
        ctx.und(f"{key}: terminated", "not recognised"); return
    ctx.ob(f"{key}: terminated", not feasible(m), e.loc(), "no zero after the last character of the text" if feasible(m) else "")


def filled(V):
    """memory is set as a whole somewhere"""
    for n in {V.f.name} | {e.ctx[-1] for e in V.ev if e.ctx}:
        f = V.p.fns.get(n)
        for i in f.instrs() if f is not None else ():
            if i.o in ("call", "invoke") and i.callee and re.search(r"memset|memcpy|memmove|calloc|fill|copy", i.callee):
                return True
    return False


def chars(ctx, key, V, e, res, ptr, g):
    k = f"{key}: gives the text that was read"
    if res is None:
        ctx.und(k, "result not recognised"); return
    bad = ZERO
    for l, c in cases(res, g):
        v = l
        ps = MD.parts_of(v)
        if len(ps) == 1 and isinstance(ps[0], Leaf) and fn(ps[0], "chars") and eqp(fn(ps[0], "chars")[0], ptr):
            continue
        if fn(v, "str") and mentions(v, "chars") and len(ps) == 1 and fn(ps[0], "chars") and isinstance(fn(ps[0], "chars")[0], Leaf) and ptrparts(fn(ps[0], "chars")[0])[0] == ptrparts(ptr)[0]:
            bad = OR(bad, c); continue
        if ps and all(isinstance(x, str) for x in ps) or not ps:
            bad = OR(bad, c); continue
        ctx.und(k, f"gives {txt(l, 80)}"); return
    ctx.ob(k, not feasible(bad), e.loc(), f"gives {txt(res, 100)} when {why(bad)}" if feasible(bad) else "")


# ---- loops --------------------------------------------------------------------------------------
def trip(V, k):
    """number of iterations of a loop that counts up: n such that iterations 0..n-1 are done (unless something raises)"""
    i = V.E.loopinfo.get(k)
    if i is None or i.get("it") is None:
        return None, None
    it = i["it"]
    back = nothrow(backguard(i))
    cand = {}
    for d in [back] + [x[2] if len(x) > 2 and isinstance(x[2], (Node,)) else x[1] for x in i["exits"] if isinstance(x, tuple) and len(x) > 1]:
        if not isinstance(d, Node):
            continue
        for v in nodes(d):
            inf = gvn._varinfo[v]
            if inf and inf[0] == "<0" and gvn_contains(inf[1], it.fp):
                n0 = subst(inf[1], {it.fp: ZERO}); n1 = l_sub(subst(inf[1], {it.fp: ONE}), n0)
                if n1.const in (1, -1):
                    n = l_neg(n0) if n1.const == 1 else n0
                    for k in (0, 1):
                        cand[l_add(n, gvn.const(k)).fp] = l_add(n, gvn.const(k))
    for n in cand.values():
        if not feasible(AND(back, NOT(dd_lt(it, n)))) and feasible(AND(back, NOT(dd_lt(it, l_sub(n, gvn.const(1)))))):
            return it, n
    return it, None


def covers(ctx, key, V, e, want, what, unless=ZERO, empty=False, also=()):
    """e is done for exactly the elements 0..n-1, n one of `want`; gives the iteration number"""
    if len(e.loops) != 1:
        if not e.loops:
            ctx.ob(key, False, e.loc(), "done only once")
        else:
            ctx.und(key, "loop not recognised")
        return None
    it, n = trip(V, e.loops[0])
    if n is None:
        ctx.und(key, "loop not recognised"); return None
    ds = [l_sub(n, w) for w in want if isinstance(w, Leaf)]
    ok = any(d.const == 0 for d in ds)
    if not ok and not any(d.const is not None for d in ds):
        lt = dd_lt(it, want[0]) if want else None
        ctx.und(key, f"number of iterations {txt(n, 60)}"); return None
    ctx.ob(key, ok, e.loc(), f"done for {txt(n, 80)} instead of {txt(want[0], 80)} {what}")
    i = V.E.loopinfo[e.loops[0]]
    m = AND(nothrow(backguard(i)), NOT(nothrow(e.guard)))
    for x in also:
        if x.loops == e.loops:
            m = AND(m, NOT(nothrow(x.guard)))
    if feasible(m) and not feasible(AND(m, NOT(unless))):
        if empty:
            return it
        ctx.und(f"{key}: none is left out", "left as it was when there is no text"); return it
    ctx.ob(f"{key}: none is left out", not feasible(m), e.loc(), f"skipped when {why(m)}" if feasible(m) else "")
    return it


def resized(V, vec):
    """numbers of elements given to resize() of a vector"""
    return [e for e in V.calls(r"^std::vector<.*>::resize\(") if eqp(e.args[0], vec)]


def element(V, addr, vec):
    """index of the element of a vector an address denotes"""
    for e in resized(V, vec):
        b = V.E.load(V.st.copy(), vec, "ptr", 8, None)
        for l, _ in cases(b, ONE):
            d = l_div(l_sub(addr, l), gvn.const(32))
            if ptrparts(addr)[0] is not None and (ptrparts(addr)[0] == ptrparts(l)[0]):
                return d
    return None


def group(ctx, p, f, off):
    V = Ev(p, f)
    vec = V.par(0)
    nm = V.calls(r"^H5Lget_name_by_idx$")
    info = V.calls(r"^H5Gget_info$")
    key = V.key
    if not nm or not info:
        ctx.und(key, "listing not recognised"); return
    n = V.out(info[0], 1, "i64", 8, nlinks(p))
    n32 = V.out(info[0], 1, "i32", 4, nlinks(p))
    want = [x for x in (n, n32) if isinstance(x, Leaf)]
    for e in info + nm:
        for h, c in cases(e.args[0], e.guard):
            a = fn(h, r"H5Gopen2")
            if a is None:
                ctx.und(f"{key}: group", f"is {txt(h, 60)}"); continue
            ctx.ob(f"{key}: the group named in its own file", eqp(a[0], file_of(V, off)) and eqp(a[1], V.par(1)), e.loc(), f"is {txt(h, 80)}")
    for e in nm:
        it = covers(ctx, f"{key}: every dataset is listed", V, e, want, "datasets")
        if it is None:
            continue
        ctx.ob(f"{key}: the entry of the iteration", eqp(e.args[4], it), e.loc(), f"asks for entry {txt(e.args[4], 60)}")
        if text_of(e.args[1]) != ".":
            ctx.ob(f"{key}: entries of the group itself", text_of(e.args[1]) is None, e.loc(), f"asks for those of {text_of(e.args[1])}")
        cnt(ctx, key, V, e, want, vec, it)
    fits = ONE
    for e in nm:
        fits = AND(fits, AND(gt0(e.res), dd_lt(e.res, e.args[6])))
    accepted(ctx, V, "every group", extra=fits)
    onlywrites(ctx, V, [vec])
    ctx.count(functions=1)


def nlinks(p):
    t = p.types.get("H5G_info_t")
    if t:
        for m in t["members"]:
            if m["n"] == "nlinks":
                return m["off"]
    return 8


def cnt(ctx, key, V, e, want, vec, it):
    b = e.args[5]
    o, cap = capacity(V, b) if isinstance(b, Leaf) else (None, None)
    size = e.args[6]
    if cap is None:
        ctx.und(f"{key}: names fit", "buffer not recognised"); return
    r = l_sub(l_sub(cap, o), size)
    if r.const is None:
        ctx.und(f"{key}: names fit", f"{txt(size, 60)} bytes"); return
    ctx.ob(f"{key}: names fit into the buffer", r.const >= 0, e.loc(), f"{txt(size, 60)} bytes are written to {txt(l_sub(cap, o), 60)}")
    st = [s for s in V.stores() if s.n > e.n and element(V, s.args[0], vec) is not None] if isinstance(b, Leaf) else []
    k = f"{key}: every name is stored"
    if not st:
        ctx.und(k, "not recognised"); return
    for s in st:
        ix = element(V, s.args[0], vec)
        if s.loops != e.loops:
            ctx.und(k, "another loop"); continue
        ctx.ob(f"{k} in the order listed", ix.fp == it.fp, s.loc(), f"stored as entry {txt(ix, 60)}")
        ps = MD.parts_of(s.args[1]) if isinstance(s.args[1], Leaf) else None
        a = fn(ps[0], "chars") if ps and len(ps) == 1 and isinstance(ps[0], Leaf) else None
        if a is None:
            ctx.und(k, f"as {txt(s.args[1], 80)}"); continue
        ctx.ob(f"{k} as it was read", eqp(a[0], b), s.loc(), f"as {txt(s.args[1], 80)}")
        long_ = AND(s.guard, NOT(dd_lt(e.res, size)))
        ctx.ob(f"{k} completely", not feasible(long_), s.loc(), f"a longer name is cut off: {why(long_)}" if feasible(long_) else "")
        i = V.E.loopinfo[e.loops[0]]
        m = AND(nothrow(backguard(i)), NOT(nothrow(s.guard)))
        ctx.ob(k, not feasible(m), s.loc(), f"not when {why(m)}" if feasible(m) else "")
    for r in resized(V, vec):
        ds = [l_sub(r.args[1], w) for w in want if isinstance(r.args[1], Leaf)]
        ok = any(d.const == 0 for d in ds)
        if not ok and not any(d.const is not None for d in ds):
            ctx.und(f"{key}: as many names as datasets", f"{txt(r.args[1], 60)} names"); continue
        ctx.ob(f"{key}: as many names as datasets", ok, r.loc(), f"{txt(r.args[1], 60)} names")


def texts(ctx, p, f, off):
    V = Ev(p, f)
    vec = V.par(2)
    for e, h, b, c in attr_reads(ctx, V, off):
        if not all(filetype(V, l, h) for l, _ in cases(e.args[1], c)):
            ctx.und(f"{V.key}: type", f"read as {txt(e.args[1], 60)}"); continue
        t = next(l for l, _ in cases(e.args[1], c))
        istext(ctx, V, e, t, c)
        listed(ctx, V, e, h, c)
        ns = [n for n in count_of(V, h) if isinstance(n, Leaf)]
        sz = [x.res for x in V.calls(r"^H5Tget_size$") if eqp(x.args[0], t) and isinstance(x.res, Leaf)]
        var = variable(V, t)
        if var is None or not ns:
            ctx.und(f"{V.key}: kinds of text", "not recognised"); continue
        if feasible(AND(c, NOT(var))):
            key = f"{V.key}: fixed length"
            if not sz:
                ctx.und(key, "length not recognised")
            else:
                room(ctx, key, V, e, 2, [l_mul(n, s) for n in ns for s in sz], AND(c, NOT(var)), b)
                fixed(ctx, key, V, e, b, vec, ns, sz, AND(c, NOT(var)))
        if feasible(AND(c, var)):
            key = f"{V.key}: variable length"
            room(ctx, key, V, e, 2, [l_mul(n, gvn.const(8)) for n in ns], AND(c, var), b)
            varying(ctx, key, V, e, b, vec, ns, AND(c, var))
        for r in resized(V, vec):
            if not feasible(AND(r.guard, c)):
                continue
            ds = [l_sub(r.args[1], w) for w in ns if isinstance(r.args[1], Leaf)]
            ok = any(d.const == 0 for d in ds)
            if not ok and not any(d.const is not None for d in ds):
                ctx.und(f"{V.key}: as many texts as there are", f"{txt(r.args[1], 60)}"); continue
            ctx.ob(f"{V.key}: as many texts as there are", ok, r.loc(), f"{txt(r.args[1], 60)} texts")
    extents_fit(ctx, V)
    inside(ctx, V)
    accepted(ctx, V, "a list", lambda h: shape(V, h, 1))
    onlywrites(ctx, V, [vec])
    ctx.count(functions=1)


def elements(V, vec, c):
    """stores of elements of the list given back"""
    return [s for s in V.stores() if isinstance(s.args[0], Leaf) and element(V, s.args[0], vec) is not None and feasible(AND(s.guard, c))]


def varying(ctx, key, V, e, b, vec, ns, c):
    k = f"{key}: gives every text"
    st = elements(V, vec, c)
    if not st:
        ctx.und(k, "not recognised"); return
    for s in st:
        null = ZERO
        for l, cc in cases(s.args[1], AND(s.guard, c)):
            ps = MD.parts_of(l)
            a = fn(ps[0], "chars") if len(ps) == 1 and isinstance(ps[0], Leaf) else None
            if a is not None:
                null = eqc1(a[0], 0)
        it = covers(ctx, k, V, s, ns, "texts", null)
        if it is None:
            continue
        ix = element(V, s.args[0], vec)
        ctx.ob(f"{k} in its place", ix.fp == it.fp, s.loc(), f"stored as entry {txt(ix, 60)}")
        src = None; bad = ZERO
        for l, cc in cases(s.args[1], AND(s.guard, c)):
            ps = MD.parts_of(l)
            a = fn(ps[0], "chars") if len(ps) == 1 and isinstance(ps[0], Leaf) else None
            if a is not None:
                q = deref(a[0])
                if q is None:
                    ctx.und(k, f"text at {txt(a[0], 60)}"); return
                d = l_sub(q, padd(b, l_mul(it, gvn.const(8))))
                ctx.ob(f"{key}: the text that was read", d.const == 0, s.loc(), f"text at {txt(q, 80)}")
                src = a[0]
            elif not all(isinstance(x, str) for x in ps):
                ctx.und(k, f"text {txt(l, 60)}"); return
            else:
                bad = OR(bad, cc)
                if "".join(ps):
                    ctx.ob(f"{key}: no text is the empty text", False, s.loc(), f"gives {''.join(ps)}")
        if src is not None:
            m = AND(bad, NOT(eqc1(src, 0)))
            ctx.ob(f"{key}: empty only when there is no text", not feasible(m), s.loc(), f"empty when {why(m)}" if feasible(m) else "")
            z = AND(AND(s.guard, c), AND(eqc1(src, 0), NOT(bad)))
            ctx.ob(f"{key}: no text is not looked at", not feasible(z), s.loc(), "a null pointer is read as text" if feasible(z) else "")


def fixed(ctx, key, V, e, b, vec, ns, sz, c):
    k = f"{key}: gives every text"
    st = elements(V, vec, c)
    if not st:
        ctx.und(k, "not recognised"); return
    for s in st:
        it = covers(ctx, k, V, s, ns, "texts")
        if it is None:
            continue
        ix = element(V, s.args[0], vec)
        ctx.ob(f"{k} in its place", ix.fp == it.fp, s.loc(), f"stored as entry {txt(ix, 60)}")
        for l, cc in cases(s.args[1], AND(s.guard, c)):
            ps = MD.parts_of(l)
            a = fn(ps[0], "chars") if len(ps) == 1 and isinstance(ps[0], Leaf) else None
            if a is None:
                ctx.und(k, f"text {txt(l, 60)}"); continue
            copied(ctx, key, V, s, a[0], b, it, sz, cc, ns)


def copied(ctx, key, V, s, t, b, it, sz, c, ns=()):
    """the characters of text number `it` were copied to t, and a zero follows"""
    ws = [x for x in V.stores() if isinstance(x.args[0], Leaf) and ptrparts(x.args[0])[0] == ptrparts(t)[0] and x.n < s.n]
    k = f"{key}: all characters are copied"
    body = [x for x in ws if len(x.loops) == len(s.loops) + 1]
    if not body:
        ctx.und(k, "copy not recognised")
    for x in body:
        it2, n2 = trip(V, x.loops[-1])
        if it2 is None or n2 is None:
            ctx.und(k, "loop not recognised"); continue
        ds = [l_sub(n2, z) for z in sz]
        if not any(d.const is not None for d in ds):
            ctx.und(k, f"{txt(n2, 60)} characters"); continue
        ctx.ob(k, any(d.const == 0 for d in ds), x.loc(), f"{txt(n2, 80)} characters are copied")
        ctx.ob(f"{k} in order", l_sub(x.args[0], padd(t, it2)).const == 0, x.loc(), f"to {txt(x.args[0], 80)}")
        q = deref(x.args[1]) if isinstance(x.args[1], Leaf) else None
        if q is None:
            ctx.und(k, f"from {txt(x.args[1], 60)}"); continue
        try:
            q = settle(V, q, it, ns)
        except Gap as g:
            ctx.ob(f"{key}: the text that was read", False, x.loc(), str(g)); continue
        if q is None:
            ctx.und(k, "source not recognised"); continue
        ds = [l_sub(q, padd(b, l_add(l_mul(it, z), it2))) for z in sz]
        if ptrparts(q)[0] != ptrparts(b)[0]:
            ctx.und(k, f"from {txt(q, 80)}"); continue
        ctx.ob(f"{key}: the text that was read", any(d.const == 0 for d in ds), x.loc(), f"copied from {txt(l_sub(q, b), 100)} of what was read")
    terminated(ctx, key, V, s, t, sz, c)


class Gap(Exception):
    pass


def settle(V, q, it, ns=()):
    """replace pointers loaded from arrays by what was stored there"""
    def go(l, depth=0):
        if not isinstance(l, Leaf) or depth > 8:
            return l
        a = fn(l, "ld")
        if a and isinstance(a[0], Leaf):
            addr = a[0]
            b, o = ptrparts(addr)
            w = [x for x in V.stores() if isinstance(x.args[0], Leaf) and ptrparts(x.args[0])[0] == b and isinstance(x.args[1], Leaf)]
            w = [x for x in w if not (x.args[1].const == 0)]
            vals = set(); at0 = rest = None
            for x in w:
                d = l_sub(x.args[0], padd(addr, l_neg(o)))
                if not x.loops and d.const == 0:
                    at0 = x.args[1]
                elif len(x.loops) == 1:
                    it2, n2 = trip(V, x.loops[-1])
                    if it2 is None:
                        return None
                    j0 = subst(d, {it2.fp: ZERO}); j1 = l_sub(subst(d, {it2.fp: ONE}), j0)
                    if j1.const != 8 or j0.const is None or j0.const % 8 or j0.const < 0:
                        return None
                    # element m is written in iteration m - j0/8
                    m = l_div(o, gvn.const(8))
                    v = subst_ptr(x.args[1], it2, l_sub(m, gvn.const(int(j0.const) // 8)))
                    rest = (v, int(j0.const) // 8, x, it2, n2)
                else:
                    return None
            if rest is None:
                return None
            v, first, x, it2, n2 = rest
            ds = [l_sub(l_add(n2, gvn.const(first)), n).const for n in ns if isinstance(n2, Leaf) and isinstance(n, Leaf)]
            ds = [d for d in ds if d is not None]
            if ds and 0 not in ds:
                raise Gap(f"{abs(int(ds[0]))} of the pointers to the texts {'is not set' if ds[0] < 0 else 'is set beyond the end of their array'}")
            if first > 1:
                raise Gap(f"entry 1 of the pointers to the texts is not set")
            if first == 1:
                # entry 0 must follow the same rule
                if at0 is None:
                    return None
                v0 = subst_ptr(x.args[1], it2, gvn.const(-1))
                if not eqp(v0, at0):
                    return None
            return v
        b, o = ptrparts(l)
        return l
    # q = pointer + offset with the pointer loaded from an array
    b, o = ptrparts(q)
    base = padd(q, l_neg(o))
    r = go(base) if fn(base, "ld") else base
    return None if r is None else padd(r, o)


def subst_ptr(l, it, by):
    b, o = ptrparts(l)
    return padd(padd(l, l_neg(o)), subst(o, {it.fp: by}))


def inside(ctx, V):
    """stores to buffers made in the function stay inside"""
    for s in V.stores():
        if not isinstance(s.args[0], Leaf):
            continue
        o, cap = capacity(V, s.args[0])
        if cap is None or not isinstance(cap, Leaf) or cap.const is not None:
            continue
        w = 8 if isinstance(s.args[1], (Leaf, Node)) and (not isinstance(s.args[1], Leaf) or s.args[1].base is not None) else s.instr.d.get("sz", 1) if s.instr is not None else 1
        d = l_sub(l_sub(cap, o), gvn.const(s.instr.d.get("sz", w) if s.instr is not None else w))
        for k in s.loops:
            it, n = trip(V, k)
            if it is not None and n is not None:
                sl = l_sub(subst(d, {it.fp: ONE}), subst(d, {it.fp: ZERO}))
                d = subst(d, {it.fp: l_sub(n, gvn.const(1))}) if sl.const is None or sl.const < 0 else subst(d, {it.fp: ZERO})
        if d.const is None:
            continue
        ctx.ob(f"{V.key}: writes inside the buffer", d.const >= 0, s.loc(), f"{-d.const} bytes behind the end")


# ---- datasets -----------------------------------------------------------------------------------
def dims(ctx, p, f, off):
    V = Ev(p, f)
    es = V.calls(r"^H5Sget_simple_extent_dims$")
    rk = V.calls(r"^H5Sget_simple_extent_ndims$")
    key = V.key
    if not es or not rk:
        ctx.und(key, "reading of the extents not recognised"); return
    done(ctx, key, V, es, "returns only after reading the extents")
    for e in es + rk:
        for s, c in cases(e.args[0], e.guard):
            a = fn(s, r"H5Dget_space")
            if a is None:
                ctx.und(f"{key}: dataspace", f"is {txt(s, 60)}"); continue
            reads_own(ctx, key, V, e, a[0], off, r"H5Dopen2", [V.par(2)])
    extents_fit(ctx, V)
    d = V.E.load(V.st.copy(), V.par(0), "ptr", 8, None); n = V.E.load(V.st.copy(), V.par(1), "i32", 4, None)
    for e in es:
        m = AND(AND(V.ret, e.guard), NOT(same(d, e.args[1])))
        ctx.ob(f"{key}: gives the extents that were read", not feasible(m), e.loc(), f"gives {txt(d, 80)} when {why(m)}" if feasible(m) else "")
    good = ZERO
    for r in rk:
        good = OR(good, AND(r.guard, same(n, r.res)))
    m = AND(V.ret, NOT(good))
    ctx.ob(f"{key}: gives the rank", not feasible(m), rk[0].loc(), f"gives {txt(n, 80)} when {why(m)}" if feasible(m) else "")
    accepted(ctx, V, "every dataset")
    onlywrites(ctx, V, [V.par(0), V.par(1)])
    ctx.count(functions=1)


def ones(V, l, rank, c, before):
    """the array holds a one for each dimension: True, False or None when not recognised"""
    if l.const == 0:
        return True
    b, o = ptrparts(l)
    ws = [s for s in V.stores() if any(ptrparts(x)[0] == b for x, _ in cases(s.args[0], s.guard)) and s.n < before]
    if len(ws) != 1 or len(ws[0].loops) != 1:
        return None
    s = ws[0]
    it, n = trip(V, s.loops[0])
    if it is None or n is None:
        return None
    ad0 = next(x for x, _ in cases(s.args[0], s.guard) if ptrparts(x)[0] == b)
    ix = l_div(l_sub(ad0, l), gvn.const(8))
    rev = l_sub(l_sub(n, it), gvn.const(1))
    sl = l_sub(subst(ix, {it.fp: ONE}), subst(ix, {it.fp: ZERO}))
    if not any(l_sub(n, r).const is not None for r in rank) or sl.const not in (1, -1) or l_sub(ix, it if sl.const == 1 else rev).const is None:
        return None
    if not any(l_sub(n, r).const == 0 for r in rank) or l_sub(ix, it if sl.const == 1 else rev).const != 0:
        return False
    return isinstance(s.args[1], Leaf) and s.args[1].const == 1


def slab(ctx, p, f, off):
    V = Ev(p, f)
    values, path, origin, dms, ndims, dtype = (V.par(n) for n in range(6))
    key = V.key
    rd = V.calls(r"^H5Dread$"); sel = V.calls(r"^H5Sselect_hyperslab$")
    if not rd:
        ctx.und(key, "reading not recognised"); return
    done(ctx, key, V, rd, "returns only after reading the values")
    for e in rd:
        reads_own(ctx, key, V, e, e.args[0], off, r"H5Dopen2", [path])
        ctx.ob(f"{key}: converted to the type asked for", eqp(e.args[1], dtype), e.loc(), f"read as {txt(e.args[1], 60)}")
        ctx.ob(f"{key}: stored where asked for", eqp(e.args[5], values), e.loc(), f"read into {txt(e.args[5], 60)}")
        for ms, c in cases(e.args[2], e.guard):
            a = fn(ms, r"H5Screate_simple")
            if a is None:
                if ms.const == 0:
                    ctx.ob(f"{key}: stored without gaps", False, e.loc(), "stored as in the dataset, not as in the window")
                else:
                    ctx.und(f"{key}: arrangement in memory", f"{txt(ms, 60)}")
                continue
            ctx.ob(f"{key}: stored without gaps", eqp(a[0], ndims) and eqp(a[1], dms) and (eqp(a[2], dms) or a[2].const == 0), e.loc(), f"arranged as {txt(ms, 100)}")
        own = [s for s in sel if eqp(s.args[0], e.args[3]) and s.n < e.n]
        for fs_, c in cases(e.args[3], e.guard):
            a = fn(fs_, r"H5Dget_space")
            if fs_.const == 0:
                ctx.ob(f"{key}: reads the window", False, e.loc(), "reads the whole dataset"); continue
            if a is None or not eqp(a[0], e.args[0]):
                ctx.und(f"{key}: dataspace", f"{txt(fs_, 60)}"); continue
        g = ZERO
        for s in own:
            g = OR(g, s.guard)
        m = AND(e.guard, NOT(g))
        ctx.ob(f"{key}: reads the window", not feasible(m), e.loc(), f"nothing is selected when {why(m)}" if feasible(m) else "")
        for s in own:
            window(ctx, key, V, s, origin, dms, ndims, e)
    extents_fit(ctx, V)
    refusal(ctx, key, V, origin, dms, ndims)
    onlywrites(ctx, V, [values])
    ctx.count(functions=1)


def window(ctx, key, V, s, origin, dms, ndims, e):
    ctx.ob(f"{key}: the window replaces other selections", isinstance(s.args[1], Leaf) and s.args[1].const == 0, s.loc(), f"combined by {txt(s.args[1], 60)}")
    ctx.ob(f"{key}: the window starts where asked for", eqp(s.args[2], origin), s.loc(), f"starts at {txt(s.args[2], 60)}")
    ranks = [r for r in V.calls(r"^H5Sget_simple_extent_ndims$") if eqp(r.args[0], s.args[0])]
    if not ranks:
        ctx.und(f"{key}: window", "rank not recognised"); return
    bad = s.guard
    for r in ranks:
        bad = AND(bad, NOT(same_value(r.res, ndims)))
    ctx.ob(f"{key}: another rank is refused", not feasible(bad), s.loc(), f"selects with arrays of another rank: {why(bad)}" if feasible(bad) else "")
    rank = [r.res for r in ranks if isinstance(r.res, Leaf)] + [ndims]
    st, cn, bl = s.args[3], s.args[4], s.args[5]
    for (a, what) in ((st, "stride"), (cn, "count"), (bl, "block")):
        for l, c in cases(a, s.guard):
            o, cap = (None, None) if l.const == 0 else capacity(V, l)
            if isinstance(cap, Leaf):
                ds = [l_sub(l_sub(cap, o), l_mul(r, gvn.const(8))) for r in rank]
                if cap.const is not None and o.const is not None:
                    big = AND(c, dd_lt(gvn.const(int(cap.const - o.const) // 8), rank[0]))
                    ctx.ob(f"{key}: {what} for each dimension", not feasible(big), s.loc(), f"only {int(cap.const - o.const) // 8}"); continue
                if any(d.const is not None for d in ds):
                    ctx.ob(f"{key}: {what} for each dimension", any(d.const is not None and d.const >= 0 for d in ds), s.loc(), f"{txt(cap, 60)} bytes")
    res = set()
    for b, c in cases(bl, s.guard):
        for n, c2 in cases(cn, c):
            for t, c3 in cases(st, c2):
                zero = c3
                for r in ranks:
                    zero = AND(zero, gt0(r.res))
                if not feasible(zero):
                    continue            # no dimensions
                if eqp(b, dms):
                    res.add(ones(V, n, rank, c3, s.n) if n.const != 0 else False)
                elif eqp(n, dms):
                    o1, o2 = ones(V, b, rank, c3, s.n), ones(V, t, rank, c3, s.n)
                    res.add(False if o1 is False or o2 is False else None if o1 is None or o2 is None else True)
                else:
                    o1 = ones(V, n, rank, c3, s.n) if n.const != 0 else None
                    res.add(False if b.const == 0 and (o1 or eqp(n, origin)) or eqp(b, origin) else None)
    if None in res and False not in res:
        ctx.und(f"{key}: the window is as large as asked for", f"count {txt(cn, 60)} of blocks {txt(bl, 60)}")
    else:
        ctx.ob(f"{key}: the window is as large as asked for", False not in res and bool(res), s.loc(), f"count {txt(cn, 80)} of blocks {txt(bl, 80)}, stride {txt(st, 60)}")


def same_value(a, b):
    return app2("sv", leq_eq, a, b)


def refusal(ctx, key, V, origin, dms, ndims):
    """a window inside the dataset is never refused"""
    ok = ONE
    for r in V.calls(r"^H5Sget_simple_extent_ndims$"):
        ok = AND(ok, same_value(r.res, ndims))
    for k, i in V.E.loopinfo.items():
        it = i.get("it")
        if it is None:
            continue
        i8 = l_mul(it, gvn.const(8))
        o = V.E.load(EV.State(), padd(origin, i8), "i64", 8, None); d = V.E.load(EV.State(), padd(dms, i8), "i64", 8, None)
        for x in V.calls(r"^H5Sget_simple_extent_dims$"):
            for a, c in cases(x.args[1], x.guard):
                for w, g, st, _ in exits(V.E):
                    for v in nodes(g):
                        for l in gvn.var_leaf(v):
                            q = find_ld(l, padd(a, i8))
                            if q is not None:
                                ok = AND(ok, NOT(dd_lt(q, l_add(o, d))))
    accepted(ctx, V, "a window inside the dataset", extra=ok)


def find_ld(l, addr, depth=0):
    if not isinstance(l, Leaf) or depth > 10:
        return None
    a = fn(l, "ld")
    if a and eqp(a[0], addr):
        return l
    for x in l.tree[1:]:
        r = find_ld(x, addr, depth + 1) if isinstance(x, Leaf) else None
        if r is not None:
            return r
    return None


# ---- whether something exists -------------------------------------------------------------------
def has(ctx, p, f, off, kind):
    V = Ev(p, f)
    key = V.key
    fl = file_of(V, off)
    inf = V.calls(r"^H5Oget_info")
    lx = V.calls(r"^H5Lexists$"); ox = V.calls(r"^H5Oexists_by_name$")
    if not inf:
        ctx.und(key, "not recognised"); return
    for e in lx + ox + V.calls(r"^H5Oopen$"):
        ctx.ob(f"{key}: asks for the name in its own file", eqp(e.args[0], fl) and eqp(e.args[1], V.par(0)), e.loc(), f"{e.callee}({txt(e.args[0], 40)}, {txt(e.args[1], 40)})")
    by = [e for e in inf if "by_name" in e.callee]
    n = 2 if by else 1
    toff = next((m["off"] for m in (p.types.get("H5O_info_t") or p.types.get("H5O_info1_t") or {"members": []})["members"] if m["n"] == "type"), None)
    r = V.res
    yes = AND(V.ret, NOT(eqc1(r, 0)) if not boolean(r) else r)
    no = AND(V.ret, NOT(yes))
    got = ZERO; exist = ONE
    for e in inf:
        if not by:
            for h, c in cases(e.args[0], e.guard):
                if fn(h, "H5Oopen") is None:
                    ctx.und(f"{key}: object", f"{txt(h, 60)}")
        tys = [o for o in ([toff] if toff is not None else range(0, 64, 4))]
        for o in tys:
            t = V.out(e, n, "i32", 4, o)
            if isinstance(t, Leaf) and (toff is not None or any(gvn_contains(l, t.fp) for v in nodes(yes) for l in gvn.var_leaf(v))):
                got = OR(got, AND(e.guard, eqc(t, kind)))
                m = AND(AND(e.guard, eqc(t, kind)), no)
                ctx.ob(f"{key}: found when it is one", not feasible(m), e.loc(), f"not found although {why(m)}" if feasible(m) else "")
    m = AND(yes, NOT(got))
    ctx.ob(f"{key}: found only when it is one", not feasible(m), inf[0].loc(), f"found although {why(m)}" if feasible(m) else "")
    for e in lx + ox:
        m = AND(AND(yes, e.guard), NOT(gt0(e.res)))
        ctx.ob(f"{key}: not found when it does not exist", not feasible(m), e.loc(), f"found when {why(m)}" if feasible(m) else "")
    for e in lx:
        # a missing name is an answer, not a failure
        x = ZERO
        for w, g, st, _ in exits(V.E):
            if w != "returning":
                x = OR(x, g)
        m = AND(nothrow(x), eqc1(e.res, 0))
        ctx.ob(f"{key}: a missing name is not an error", not feasible(m), e.loc(), f"raises an exception when {why(m)}" if feasible(m) else "")
        m = AND(AND(no, e.guard), AND(gt0(e.res), ONE))
        for o in ox:
            m = AND(m, gt0(o.res))
        m = AND(m, NOT(sumg(inf)))
        ctx.ob(f"{key}: existing objects are looked at", not feasible(m), e.loc(), f"not when {why(m)}" if feasible(m) else "")
    ctx.count(functions=1)


def sumg(es):
    g = ZERO
    for e in es:
        g = OR(g, e.guard)
    return g


def boolean(d):
    return isinstance(d, Node) and all(l in (ONE, ZERO) or l.const in (0, 1) for l in gvn.leaves(d).values()) or d is ONE or d is ZERO


def hasattr_(ctx, p, f, off):
    V = Ev(p, f)
    key = V.key
    es = V.calls(r"^H5Aexists_by_name$")
    if not es:
        ctx.und(key, "not recognised"); return
    fl = file_of(V, off)
    r = V.res
    yes = AND(V.ret, r) if boolean(r) else AND(V.ret, NOT(eqc1(r, 0)))
    no = AND(V.ret, NOT(yes))
    for e in es:
        ok = eqp(e.args[0], fl) and eqp(e.args[1], V.par(0)) and eqp(e.args[2], V.par(1))
        ctx.ob(f"{key}: asks for the attribute named", ok, e.loc(), f"{[txt(a, 40) for a in e.args[:3]]}")
    some = ZERO
    for e in es:
        some = OR(some, AND(e.guard, gt0(e.res)))
    m = AND(yes, NOT(some))
    ctx.ob(f"{key}: found only when it exists", not feasible(m), es[0].loc(), f"found when {why(m)}" if feasible(m) else "")
    m = AND(no, some)
    ctx.ob(f"{key}: found when it exists", not feasible(m), es[0].loc(), f"not found when {why(m)}" if feasible(m) else "")
    ctx.count(functions=1)


# ---- files --------------------------------------------------------------------------------------
def opening(ctx, p, fs, off):
    f = fs["open"][0]
    S = Ev(p, fs["setCache"][0])
    A = [atom("arg", 0, tree=("fn", "this")), atom("cacheSize", tree=("fn", "cacheSize")), atom("nslots", tree=("fn", "nslots")), atom("preemption", tree=("fn", "preemption"))]
    E = EV.Evaluator(p)
    E.run(fs["setCache"][0], A)
    st0 = E.state
    V = Ev(p, f, st0.copy(), [A[0], atom("filename", tree=("fn", "filename")), atom("mode", tree=("fn", "mode"))])
    key = "HDF5::open"
    name, mode = V.par(0), V.par(1)
    es = V.calls(r"^H5F(open|create)$")
    done(ctx, key, V, es, "returns only with an open file")
    h = V.E.load(V.st.copy(), padd(V.this, gvn.const(off)), "ptr", 8, None)
    good = ZERO
    for e in es:
        good = OR(good, AND(e.guard, same(h, e.res)))
    m = AND(V.ret, NOT(good))
    ctx.ob(f"{key}: keeps the handle", not feasible(m), es[0].loc(), f"keeps {txt(h, 60)}" if feasible(m) else "")
    tr = hid_trunc(V)
    for e in es:
        ctx.ob(f"{key}: the file named", eqp(e.args[0], name), e.loc(), f"opens {txt(e.args[0], 60)}")
        n = 1
        if e.callee == "H5Fcreate":
            bad = AND(e.guard, NOT(eqc1(mode, 2)))
            ctx.ob(f"{key}: creates only when asked to", not feasible(bad), e.loc(), f"a file is replaced when {why(bad)}" if feasible(bad) else "")
            ok = all(eqp(l, mode) or l.const == 2 for l, _ in cases(e.args[1], e.guard))
            fa = e.args[3]
        else:
            bad = AND(e.guard, eqc1(mode, 2))
            ctx.ob(f"{key}: creates when asked to", not feasible(bad), e.loc(), "opens an existing file" if feasible(bad) else "")
            ok = all(eqp(l, mode) for l, _ in cases(e.args[1], e.guard))
            fa = e.args[2]
        ctx.ob(f"{key}: in the mode asked for", ok, e.loc(), f"mode {txt(e.args[1], 60)}")
        # a file that is open already stays
        was = V.E.load(EV.State(), padd(V.this, gvn.const(off)), "ptr", 8, None)
        bad = AND(e.guard, gt0(was))
        ctx.ob(f"{key}: refused when a file is open", not feasible(bad), e.loc(), f"the handle of the open file is lost when {why(bad)}" if feasible(bad) else "")
        cs = [c for c in V.calls(r"^H5Pset_cache$") if eqp(c.args[0], fa)]
        m = AND(e.guard, NOT(sumg(cs)))
        if not cs and V.calls(r"^H5P(set|get)\w*") and not V.calls(r"^H5Pset_cache$"):
            ctx.und(f"{key}: cache settings", "not recognised"); continue
        ctx.ob(f"{key}: the cache settings are used", bool(cs) and not feasible(m), e.loc(), f"file is opened with {txt(fa, 60)}" if not cs or feasible(m) else "")
    for c in V.calls(r"^H5Pset_cache$"):
        ctx.ob(f"{key}: size and slots of the cache are those set", eqp(c.args[2], A[2]) and eqp(c.args[3], A[1]), c.loc(), f"slots {txt(c.args[2], 60)}, size {txt(c.args[3], 60)}")
        w = c.args[4]
        x = A[3]
        lo = AND(c.guard, dd_lt(x, gvn.const(0))); hi = AND(c.guard, dd_lt(gvn.const(1), x)); mid = AND(c.guard, AND(NOT(dd_lt(x, gvn.const(0))), NOT(dd_lt(gvn.const(1), x))))
        bad = OR(AND(lo, NOT(same(w, gvn.const(0)))), OR(AND(hi, NOT(same(w, gvn.const(1)))), AND(mid, NOT(OR(same(w, x), OR(AND(l_feq(x, gvn.const(0)), same(w, gvn.const(0))), AND(l_feq(x, gvn.const(1)), same(w, gvn.const(1)))))))))
        ctx.ob(f"{key}: preemption of the cache is the one set, within 0 to 1", not feasible(bad), c.loc(), f"{txt(w, 80)} when {why(bad)}" if feasible(bad) else "")
    # isOpen
    I = Ev(p, fs["isOpen"][0])
    r = I.res
    yes = AND(I.ret, r) if boolean(r) else AND(I.ret, NOT(eqc1(r, 0)))
    was = file_of(I, off)
    for fname in ("close",):
        C = Ev(p, fs[fname][0])
        cl = C.E.load(C.st.copy(), padd(C.this, gvn.const(off)), "ptr", 8, None)
    bad = AND(AND(I.ret, gt0(was)), NOT(yes))
    ctx.ob("HDF5::isOpen: true while a file is open", not feasible(bad), I.loc, f"false when {why(bad)}" if feasible(bad) else "")
    for l, c in cases(cl, C.ret):
        if l.const is not None:
            v = restrict(yes, {was.fp: l}) if isinstance(was, Leaf) else yes
            ctx.ob("HDF5::isOpen: false after closing", not feasible(v), I.loc, "true" if feasible(v) else "")
    ctx.count(functions=4)


def hid_trunc(V):
    return 2
