"""The data held in memory always covers the cell of the queried index, whatever was queried before"""
import itertools

import lin
from common_slab import *

MINIMUM = 24


def first_events(S, name, st):
    """events of one evaluation; evaluation limits after the slab has been chosen do not matter here"""
    f = S.p.get(f"{HS}::{name}")
    E = EV.Evaluator(S.p, opaque=OPQ)
    try:
        E.run(f, [S.this, S.vals, S.idx], st)
    except (gvn.Blowup, gvn.Unsupported):
        if not any(e.kind == "call" and re.search(r"HDF5::readDatasetHyperslab\(", e.callee) for e in E.events):
            raise
    return E


def check(ctx):
    p = core.load(("lib",))
    for nd in (3, 4):
        ctx.guard(f"constructor rank {nd-1}", ctor, ctx, p, nd)
        for name in ("interpolate", "nearest"):
            ctx.guard(f"{name} rank {nd-1}", slab, ctx, p, nd, name)


def base_systems(S, i):
    """what is known on entry: the index lies in the dataset, the slab was read from inside the dataset, and the
    slab holds at least a cell (two points) unless the dataset itself has a single point along the axis"""
    t, o, d, n = S.t(i).d, S.org(i).d, S.dim(i).d, S.all(i).d
    out = []
    for single in (False, True):
        B = lin.System([o.fp, d.fp, n.fp])
        B.add(t, ">="); B.add(l_sub(t, l_sub(n, ONE)), "<=")
        if single:
            B.add(l_sub(d, ONE), "=="); B.add(l_sub(n, ONE), "==")
        else:
            B.add(l_sub(d, gvn.const(2)), ">=")
        B.add(l_sub(d, n), "<=")
        B.add(o, ">="); B.add(l_sub(l_add(o, d), n), "<=")
        out.append(B)
    return out


def samples(S, i):
    t, o, d, n = S.t(i).d, S.org(i).d, S.dim(i).d, S.all(i).d
    for N in (2, 3, 4, 5, 6, 9):
        for D in range(2, N + 1):
            for O in range(0, N - D + 1):
                for k in range(0, 4 * (N - 1) + 1):
                    yield {t.fp: Fraction(k, 4), o.fp: Fraction(O), d.fp: Fraction(D), n.fp: Fraction(N)}


def say(S, i, m):
    t, o, d, n = S.t(i).d, S.org(i).d, S.dim(i).d, S.all(i).d
    return f"index {float(m[t.fp])} along axis {i}, {m[n.fp]} grid points, slab of {m[d.fp]} points starting at {m[o.fp]}"


def joint(S, i, full, goal, text, count=3000):
    import random
    R = random.Random(7)
    try:
        for _ in range(count):
            m = {}
            for j in range(S.sd):
                N = R.choice((2, 3, 4, 5, 6, 9)); D = R.randint(2, N); O = R.randint(0, N - D)
                for q, x in ((S.t(j), Fraction(R.randint(0, 4 * (N - 1)), 4)), (S.org(j), O), (S.dim(j), D), (S.all(j), N)):
                    m[q.d.fp] = Fraction(x)
            l = lin.at(full, m)
            if l is gvn.BOT:
                continue
            for g, op in goal(l):
                x = lin.value(g, m)
                if not (x < 0 if op == "<" else x <= 0 if op == "<=" else x > 0 if op == ">" else x >= 0 if op == ">=" else x == 0):
                    return "; ".join(say(S, j, m) for j in range(S.sd)) + f": {text(l, m)}"
    except lin.Unknown:
        pass
    return None


def decide(ctx, key, where, S, i, vg, goal, text):
    """vg: value and when it is used; goal(leaf) -> [(quantity, op)] must hold whenever the leaf is selected"""
    unk = None
    full = ite(vg[1], vg[0], gvn.BOT)
    sel = selections(S, i, full)
    try:
        for l, gd in sel:
            for lits, one in lin.paths(gd):
                if one is ZERO:
                    continue
                for B in base_systems(S, i):
                    for v, val in lits:
                        lin.addlit(B, v, val)
                    if unk is None and not B.infeasible() and not all(B.entails(g, op) for g, op in goal(l)):
                        unk = txt(l, 150)
    except lin.TooBig:
        unk = "too many cases"
    if unk is None:
        ctx.ob(key, True, where, ""); return
    # not entailed: look for a witness among small slabs
    bad = None
    try:
        for m in samples(S, i):
            for l, gd in sel:
                if lin.at(gd, m) is ZERO:
                    continue
                for g, op in goal(l):
                    x = lin.value(g, m)
                    if not (x < 0 if op == "<" else x <= 0 if op == "<=" else x > 0 if op == ">" else x >= 0 if op == ">=" else x == 0):
                        bad = say(S, i, m) + f": {text(l, m)}"
                        break
            if bad:
                break
    except lin.Unknown as e:
        # involves other axes: joint samples
        bad = joint(S, i, full, goal, text)
        if not bad:
            ctx.und(key, f"depends on {str(e)[:150]}"); return
    if bad:
        ctx.ob(key, False, where, bad)
    else:
        ctx.und(key, f"not shown for {unk}")


def selections(S, i, dd):
    """[(leaf of dd, when it is selected, in terms of the conditions of axis i)]"""
    out = []
    for l in leaves(dd).values():
        if l is not gvn.BOT:
            s = app1("sel", lambda x: ONE if x is l else ZERO, dd)
            out.append((l, onlyaxis(S, i, s)))
    return out


def onlyaxis(S, i, g):
    """existentially forget the conditions of g that do not concern axis i"""
    own = {S.t(i).d.fp, S.org(i).d.fp, S.dim(i).d.fp, S.all(i).d.fp}
    memo = {}
    def mine(v):
        i_ = gvn._varinfo[v]
        fps = set()
        for x in gvn.var_leaf(v):
            sub(x, fps)
        return bool(fps & own) and not (fps - own)
    def sub(l, out, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(l, Leaf) or l.fp in seen:
            return
        seen.add(l.fp)
        if deref(l) is not None:
            out.add(l.fp); return
        for x in l.tree[1:]:
            sub(x, out, seen)
    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            a, b = go(x.hi), go(x.lo)
            r = ite(gvn.mk(x.var, ONE, ZERO), a, b) if mine(x.var) else OR(a, b)
            memo[x.id] = r
        return r
    return go(g)


def slab(ctx, p, nd, name):
    S = Slab(p, nd)
    key = f"{name} in {nd-1}-D"
    E = first_events(S, name, S.stgen.copy())
    rd = [e for e in E.events if e.kind == "call" and re.search(r"HDF5::readDatasetHyperslab\(", e.callee)]
    live = X(NOT_(eqc(S.ORIG, 0))) & X(NOT_(eqc(S.VALS, 0))) & X(NOT_(eqc(S.idx, 0))) & X(NOT_(eqc(S.vals, 0)))
    reads = ZERO
    for e in rd:
        reads = OR(reads, e.guard)
    kept = pick(S, NOT_(reads), False)
    loc = rd[0].loc()
    its = {l["it"].fp for l in E.loopinfo.values() if l.get("it") is not None}
    loose = any(gvn._varinfo[v] and (gvn._varinfo[v][0] == "sticky" or any(gvn.tree_contains(l, t) for l in gvn.var_leaf(v) for t in its)) for v in gvn.support(kept, set(), set()))
    # stores into the origin before the read change the position even when nothing is read
    for i in range(S.sd):
        # kept data: the cell of the index is inside the slab held in memory
        t, o, d = S.t(i).d, S.org(i).d, S.dim(i).d
        if loose:
            ctx.und(f"{key}: data kept from an earlier query covers the index along axis {i}", "found out by a loop that is not followed"); continue
        decide(ctx, f"{key}: data kept from an earlier query covers the index along axis {i}", loc, S, i, (t, kept),
               lambda l: [(l_sub(t, o), ">="), (l_sub(t, l_sub(l_add(o, d), ONE)), "<=")], lambda l, m: "the slab is kept although it does not cover the index")
    for e in rd:
        ex = e.extra.get(3, {}) if e.extra else {}
        for i, first in itertools.product(range(S.sd), (False, True)):
            t, d, n = S.t(i).d, S.dim(i).d, S.all(i).d
            when = " on the first query" if first else ""
            g0 = pick(S, e.guard, first)
            if g0 is ZERO:
                continue
            v = ex.get(8 * i)
            if v is None:
                if not first and any(l is S.ORIG for l in care_leaves(pick(S, e.args[3], first), g0)):
                    v = ld(None, S.ORIG, 8 * i).d
                else:
                    ctx.und(f"{key}: slab read{when}", f"origin along axis {i} not known"); continue
            dd = (pick(S, v, first), g0)
            decide(ctx, f"{key}: the slab that is read{when} covers the index along axis {i}", e.loc(), S, i, dd,
                   lambda l: [(l_sub(t, l), ">="), (l_sub(t, l_sub(l_add(l, d), ONE)), "<=")], lambda l, m: f"the slab read starts at {float(lin.value(l, m))}")
            decide(ctx, f"{key}: the slab that is read{when} lies inside the dataset along axis {i}", e.loc(), S, i, dd,
                   lambda l: [(l, ">="), (l_sub(l_add(l, d), n), "<=")], lambda l, m: f"the slab read starts at {float(lin.value(l, m))}")
        v = ex.get(8 * S.sd)
        if v is not None:
            ls = care_leaves(v, e.guard)
            ctx.ob(f"{key}: all values stored at a point are read", all(l.const == 0 or l is ld(None, S.ORIG, 8 * S.sd).d for l in ls), e.loc(), f"origin along the values axis is {[txt(l, 60) for l in ls]}")
        ctx.ob(f"{key}: the slab read has the size of the buffer", same(e.args[4], S.DIMS, e.guard), e.loc(), f"dimensions {txt(e.args[4])}")
        ctx.ob(f"{key}: the slab is read into the buffer that is interpolated", same(e.args[1], S.VALS, e.guard), e.loc(), f"read into {txt(e.args[1])}")
        ctx.ob(f"{key}: rank of the slab", same(e.args[5], gvn.const(nd), e.guard), e.loc(), f"rank {txt(e.args[5])}")
    ctx.count(functions=len(E.inlined), reads=len(rd))


def pick(S, dd, first, extra={}):
    """branches on the state of the pointers decided: all live; `first`: nothing has been read yet"""
    z = {S.ORIG.fp: first, S.VALS.fp: False, S.idx.fp: False, S.vals.fp: False, S.DIMS.fp: False, S.alldims.fp: False, **extra}
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            i = gvn._varinfo[x.var]
            if i is not None and i[0] == "==" and isinstance(i[2], Leaf) and i[2].const == 0 and i[1].fp in z:
                r = go(x.hi if z[i[1].fp] else x.lo)
            else:
                r = gvn.mk2(x.var, go(x.hi), go(x.lo))
            memo[x.id] = r
        return r
    return go(dd)


def ctor(ctx, p, nd):
    S = Slab(p, nd)
    key = f"constructor in {nd-1}-D"
    C = S.C
    # extents of the slab: requested, clipped to the dataset
    req = [a for a in S.cargs if isinstance(a, Leaf)]
    dims = S.dims_ptr
    tot = None
    for i in range(nd):
        v = C.ev.load(C.st, padd(dims, gvn.const(8 * i)), "i64", 8, None)
        n = S.all(i)
        ls = care_leaves(v, C.guard)
        r = [l for l in ls if l is not n.d]
        if len(r) > 1:
            ctx.und(key, f"extent of the slab along axis {i}: {[txt(l, 60) for l in ls]}"); continue
        want = IF(X(r[0]) < n, X(r[0]), n) if r else n
        ctx.ob(f"{key}: the slab is never larger than the dataset along axis {i}", same(v, want.d, C.guard) or implies(C.guard, (X(v) <= n).d), C.fn.loc(), f"extent is {txt(v)}")
        tot = X(v) if tot is None else tot * X(v)
    for e in C.calls(r"^_Znam$|operator new\[\]"):
        if e.res is S.values_ptr:
            ctx.ob(f"{key}: the buffer holds the whole slab", same(e.args[0], (tot * 8).d, AND(e.guard, C.guard)), e.loc(), f"{txt(e.args[0])} bytes")
