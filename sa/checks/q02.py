"""Block selection and block query"""
import core
from common_model import *
from q01 import zmodel, clamps

MINIMUM = 10


def check_findblock(ctx, p):
    R = Run(p, M + "::query", OPAQUE)
    F = Fields(p, M, R.arg(0))
    tr = one(ctx, R, r"CRSTransformer::transform\(", "conversion into the model CRS")
    for e in tr:
        transform_inputs_ok(ctx, "Model::query", R, e, R.arg(1), R.arg(2), R.arg(3))
    e = tr[0]
    xc, yc, zc = (R.outval(e, n) for n in (1, 2, 3))
    xm, ym = to_xy(F, xc, yc)
    hit, zm = zmodel(F, R, xm, ym, zc, "Model::query", ctx)
    ctx.ob("Model::query: top surface is evaluated at the model x,y of the point", hit is not None, R.fn.loc(), "no Surface::query on getTopSurface() at the rotated, translated coordinates")
    blocks = F.get("getBlocks")
    qs = one(ctx, R, r"serial::Block::query\(", "query of the block")
    for e in qs:
        g = AND(e.guard, R.guard) if AND(e.guard, R.guard) is not ZERO else e.guard
        ctx.ob("Model::query: block is queried at model x", same(e.args[1], xm.d, g), e.loc(), f"got {txt(e.args[1])}")
        ctx.ob("Model::query: block is queried at model y", same(e.args[2], ym.d, g), e.loc(), f"got {txt(e.args[2])}")
        ctx.ob("Model::query: block is queried at logical z below the top surface", any(same(e.args[3], z.d, g) for z in clamps(zm)), e.loc(), f"got {txt(e.args[3])}")
        zarg = X(e.args[3])
        ok = False
        for l in care_leaves(e.args[0], g):
            idx = elem_index(l, blocks, 16)
            if idx is None:
                b, _ = ptrparts(l)
                a = deref(l)
                glob = ptrparts(a)[0] if a is not None and ptrparts(a)[0][0] == "g" else None
                kept = glob is not None and any(isinstance(s.args[0], Leaf) and ptrparts(s.args[0])[0] == glob for s in R.stores())
                if l.const == 0 or (glob is not None and not kept):
                    continue            # no block (never assigned)
                tl = [x for x in R.calls(r"serial::Block::getZTop\(") if x.args[0] is l]; bl = [x for x in R.calls(r"serial::Block::getZBottom\(") if x.args[0] is l]
                if not kept and not (tl and bl):
                    ctx.und("Model::query: queried block", f"block is {txt(l)}")
                    continue
                sel = AND(app1("sel", lambda x: ONE if x is l else ZERO, e.args[0]), g)
                match = (zarg <= X(tl[0].res)) & (zarg >= X(bl[0].res)) if tl and bl else X(ZERO)
                ctx.ob("Model::query: remembered block satisfies z_bottom <= z <= z_top", implies(sel, match.d), e.loc(), f"block kept from an earlier query ({txt(l, 80)}) is used without checking that it encloses the point")
                continue
            lp = loop_of_it(R, idx)
            if lp is None:
                d = l_sub(idx, idx)
                ctx.ob("Model::query: every block is a candidate", idx.const is None, e.loc(), f"block index is the constant {txt(idx)}")
                continue
            ok = True
            top = R.calls(r"serial::Block::getZTop\(")
            bot = R.calls(r"serial::Block::getZBottom\(")
            tl = [x for x in top if x.args[0] is l]; bl = [x for x in bot if x.args[0] is l]
            sel = app1("sel", lambda x: ONE if x is l else ZERO, e.args[0])
            sel = AND(sel, g)
            if not tl or not bl:
                ctx.ob("Model::query: chosen block is bounded by z_top and z_bottom", False, e.loc(), "z_top or z_bottom of the candidate is never consulted")
                continue
            zt, zb = X(tl[0].res), X(bl[0].res)
            match = (zarg <= zt) & (zarg >= zb)
            ctx.ob("Model::query: chosen block satisfies z_bottom <= z <= z_top", implies(sel, match.d), e.loc(), "can be chosen although " + " / ".join(cubes(AND(sel, NOT_(match.d)), ONE, 1))[-400:])
            bg = AND(backguard(lp), tob(ite(lp["guard"], ONE, ZERO)))
            ctx.ob("Model::query: no block containing z is passed over", AND(bg, match.d) is ZERO, e.loc(), "a block containing z is skipped when " + " / ".join(cubes(AND(bg, match.d), ONE, 1))[-400:])
        ctx.count(block_queries=1)
        ctx.ob("Model::query: returns the values of the queried block", same(R.ret, e.res, AND(g, R.guard)), e.loc(), f"returns {txt(R.ret)}")
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def check_sorted(ctx, p):
    """candidates are visited top-down: blocks are sorted by decreasing z_top when metadata is loaded"""
    f = p.get(M + "::loadMetadata")
    R = Run(p, f, [r"HDF5::", r"ModelInfo::", r"Surface::", r"Block::loadMetadata", r"Block::Block"])
    F = Fields(p, M, R.arg(0))
    blocks = F.get("getBlocks")
    srt = [e for e in R.calls(r"std::(stable_)?sort<")]
    ok = False; why = "no std::sort over getBlocks() after the blocks are loaded"
    for e in srt:
        if not (same(e.args[0], ld(None, blocks, 0).d, e.guard) or "Block" in e.callee):
            continue
        comp = e.args[2] if len(e.args) > 2 else None
        fn = None
        if isinstance(comp, Leaf) and comp.base is not None and comp.base[0] == "g":
            fn = p.fns.get(comp.base[1])
        if fn is None:
            # lambda / functor comparator: its call operator, found among the repo's functions
            m = re.search(r"::(\{lambda[^}]*\}|'lambda\d*'[^>,]*)", e.callee)
            c = [x for x in p.repo_fns() if x.tu == f.tu and "operator()" in x.dem and "Block" in x.dem]
            fn = c[0] if len(c) == 1 else None
        if fn is None:
            ctx.und("blocks sorted", "comparator not resolved"); return
        C = Run(p, fn, [r"serial::Block::getZTop\("])
        off = 1 if len(fn.args) == 3 else 0
        pa, pb = ld(None, C.arg(off), 0), ld(None, C.arg(off + 1), 0)
        FA = Fields(p, "serial::Block", pa); FB = Fields(p, "serial::Block", pb)
        za, zb = FA.get("getZTop"), FB.get("getZTop")
        calls = {c.args[0]: X(c.res) for c in C.calls(r"Block::getZTop")}
        za2, zb2 = calls.get(pa.d, za), calls.get(pb.d, zb)
        g = AND(C.guard, (pa.nz() & pb.nz()).d)
        ok = same(tob(C.ret), (za > zb).d, g) or same(tob(C.ret), (za2 > zb2).d, g)
        why = f"comparator {fn.short} orders by {txt(C.ret)}"
    ctx.ob("Model::loadMetadata: blocks are ordered by decreasing z_top", ok, f.loc(), why)


def check_block(ctx, p):
    B = "serial::Block"
    op = [r"Indexing\w*::getIndex\(", r"Hyperslab::(interpolate|nearest)\("]
    R = Run(p, B + "::query", op)
    F = Fields(p, B, R.arg(0))
    zt = F.get("getZTop")
    ip = one(ctx, R, r"serial::Hyperslab::interpolate\(", "interpolation at the index")
    # indexing objects by axis, as built by loadMetadata
    L = Run(p, B + "::loadMetadata", [r"HDF5::", r"Indexing\w+::Indexing\w+\("])
    LF = Fields(p, B, L.arg(0))
    axis = {}
    for e in L.calls(r"Indexing\w+::Indexing\w+\("):
        for s in L.stores():
            if any(x.fp == X(e.args[0]).d.fp for x in leaves(s.args[1]).values()):
                o = ptrparts(s.args[0])[1]
                a = None
                for i, n in enumerate("XYZ"):
                    res = cur(L, getter_addr(p, B, "getResolution" + n, L.arg(0)))
                    co = cur(L, getter_addr(p, B, "getCoordinates" + n, L.arg(0)), "ptr")
                    for c in (res, co):
                        if {k for k, l in leaves(c.d).items() if l.const is None} & {l.fp for l in care_leaves(e.args[1], e.guard)}:
                            a = i if a is None or a == i else "mixed"
                if a is not None:
                    axis.setdefault(int(o.const), set()).add(a)
                uni = "IndexingUniform" in e.callee
                if not uni and a in (0, 1, 2):
                    dim = cur(L, padd(LF.get("getDims").d, gvn.const(8 * a)))
                    ctx.ob(f"Block::loadMetadata: variable indexing of axis {'xyz'[a]} covers that axis' points", same(e.args[2], dim.d, e.guard), e.loc(), f"{txt(e.args[2])} instead of the block's number of points")
                    desc = X(e.args[3]).d if len(e.args) > 3 else ZERO
                    want = 1 if a == 2 else 0
                    ctx.ob(f"Block::loadMetadata: sort order of axis {'xyz'[a]} coordinates", desc.const == want, e.loc(), f"order is {txt(desc)}")
    ctx.ob("Block::loadMetadata: one indexing object per axis, built from that axis' resolution or coordinates", sorted(x for v in axis.values() for x in v) == [0, 1, 2] and all(len(v) == 1 for v in axis.values()), L.fn.loc(), f"indexing members by axis: {axis}")
    za = getter_addr(p, B, "getZTop", L.arg(0)).d
    for s in L.stores():
        if not (isinstance(s.args[0], Leaf) and s.args[0] is za):
            continue
        for l in care_leaves(s.args[1], s.guard):
            a = deref(l)
            if a is None or ptrparts(a)[1].const != 0:
                continue
            srt = [x for x in L.calls(r"std::(stable_)?sort<") if x.n < s.n and isinstance(x.args[0], Leaf) and ptrparts(x.args[0])[0] == ptrparts(a)[0]]
            got = [descending(p, L.fn.tu, x) for x in srt]
            if None in got:
                ctx.und("Block::loadMetadata: z_top", "comparator of the sort not recognised"); continue
            good = ZERO
            for x, d in zip(srt, got):
                good = OR(good, x.guard) if d else AND(good, NOT_(x.guard))
            ctx.ob("Block::loadMetadata: z_top taken from z_coordinates is the largest of them", implies(AND(s.guard, L.guard), good), s.loc(), "the first z coordinate is used although the coordinates have not been put in descending order")
    for e in ip:
        g = AND(e.guard, R.guard)
        idx = e.extra.get(2, {})
        for i, v in enumerate((R.arg(1), R.arg(2), zt - R.arg(3))):
            c = idx.get(8 * i)
            ok = False; why = "not computed by getIndex"
            for q in R.calls(r"getIndex"):
                if c is not None and same(c, q.res, g):
                    o = deref(q.args[0]) if isinstance(q.args[0], Leaf) else None
                    ax = axis.get(int(ptrparts(o)[1].const)) if o is not None and ptrparts(o)[1].const is not None else None
                    ok = same(q.args[1], v.d, g) and ax == {i}
                    why = f"index {i} = getIndex({txt(q.args[1], 80)}) of axis {ax}"
            ctx.ob(f"Block::query: index along {'xyz'[i]} is the {'distance below z_top' if i == 2 else 'xyz'[i]} on that axis", ok, e.loc(), why)
        ctx.ob("Block::query: interpolates into the array it returns", same(e.args[1], R.ret, g), e.loc(), f"interpolates into {txt(e.args[1])}, returns {txt(R.ret)}")
    zb = Run(p, B + "::getZBottom")
    F = Fields(p, B, zb.arg(0))
    rz = F.get("getResolutionZ"); n = F.arr("getDims", 2); cz = F.get("getCoordinatesZ")
    last = X(atom("ld", padd(cz.d, l_mul(l_sub(n.d, ONE), gvn.const(8))).fp, 0))
    exp = IF(rz > 0, F.get("getZTop") - rz * (n - 1), last)
    g = AND(zb.guard, OR((rz > 0).d, cz.nz().d))
    ctx.ob("Block::getZBottom: z_top - dz*(n-1), or the last z coordinate", same(zb.ret, exp.d, g), zb.fn.loc(), "differs when " + " / ".join(diff(zb.ret, exp, g))[:400])
    ctx.count(functions=len(R.ev.inlined) + len(L.ev.inlined), blocks=R.ev.nblocks + L.ev.nblocks)


def descending(p, tu, e):
    """True/False: the sort call e orders doubles in descending/ascending order; None: unknown"""
    if len(e.args) < 3:
        return False
    c = e.args[2]
    fn = None
    if isinstance(c, Leaf) and c.base is not None and c.base[0] == "g":
        fn = p.fns.get(c.base[1]) or p.internal.get(tu, {}).get(c.base[1])
    if re.search(r"std::greater<", e.callee):
        return True
    if re.search(r"std::less<", e.callee):
        return False
    if fn is None or len(fn.args) != 2:
        return None
    x, y = atom("cmp", 0, tree=("fn", "a")), atom("cmp", 1, tree=("fn", "b"))
    r = tob(EV.Evaluator(p).run(fn, [x, y]))
    if same(r, (X(x) > X(y)).d, ONE) or same(r, (X(x) >= X(y)).d, ONE):
        return True
    if same(r, (X(x) < X(y)).d, ONE) or same(r, (X(x) <= X(y)).d, ONE):
        return False
    return None


def getter_addr(p, cls, getter, this):
    f = p.get(f"{cls}::{getter}")
    v = EV.Evaluator(p).run(f, [X(this).d])
    a = deref(v)
    if a is None:
        raise core.AnalysisBroken(f"{cls}::{getter} is not a plain accessor")
    return X(a)


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("findBlock", check_findblock, ctx, p)
    ctx.guard("sorted", check_sorted, ctx, p)
    ctx.guard("block", check_block, ctx, p)
