"""Grid index of a distance along an axis: uniform and variable spacing"""
import itertools

import core
import lin
from spec import *

MINIMUM = 12
U = "utils::"
SORT = r"std::(stable_)?sort<"


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("uniform", uniform, ctx, p)
    ctx.guard("variable, construction", ctor, ctx, p)
    top = 6 if ctx.tier == "quick" else 10
    for order in (0, 1):
        for n in range(2, top + 1):
            ctx.guard(f"variable {'ascending' if order == 0 else 'descending'} {n} points", variable, ctx, p, order, n)


def uniform(ctx, p):
    C = Run(p, U + "IndexingUniform::IndexingUniform")
    dx = C.arg(1)
    ctx.ob("uniform: a spacing that is not positive is refused", implies(C.guard, (dx > 0).d), C.fn.loc(), "objects are made for spacing " + "/".join(gvn.cubes(AND(C.guard, NOT_((dx > 0).d)), ONE, 1)))
    ctx.ob("uniform: every positive spacing is accepted", implies((dx > 0).d, C.guard), C.fn.loc(), "refused when " + "/".join(gvn.cubes(AND((dx > 0).d, NOT_(C.guard)), ONE, 1)))
    st = C.st
    f = p.get(U + "IndexingUniform::getIndex")
    x = atom("arg", "x", tree=("fn", "x"))
    R = Run(p, f, args=[C.arg(0).d, x], state=st, assume=AND(C.guard, (dx > 0).d))
    ctx.ob("uniform: the index is the distance divided by the spacing", same(R.ret, (X(x) / dx).d, AND(R.guard, (dx > 0).d)), f.loc(), f"index is {txt(R.ret)}")
    ctx.ob("uniform: an index is given for every distance", implies((dx > 0).d, R.guard), f.loc(), "none when " + "/".join(gvn.cubes(AND((dx > 0).d, NOT_(R.guard)), ONE, 1)))
    ctx.count(functions=len(C.ev.inlined) + len(R.ev.inlined))


def comparator(p, tu, e):
    """(strictly ordered first?, descending?) of the comparator of a sort call; None: not recognised"""
    if len(e.args) < 3:
        return "ascending", True
    if re.search(r"std::greater<", e.callee):
        return "descending", True
    if re.search(r"std::less<", e.callee):
        return "ascending", True
    c = e.args[2]
    fn = None
    if isinstance(c, Leaf) and c.base is not None and c.base[0] == "g":
        fn = p.fns.get(c.base[1]) or p.internal.get(tu, {}).get(c.base[1])
    if fn is None or len(fn.args) != 2:
        return None
    x, y = atom("cmp", 0, tree=("fn", "a")), atom("cmp", 1, tree=("fn", "b"))
    r = tob(EV.Evaluator(p).run(fn, [x, y]))
    a, b = X(x), X(y)
    for o, d in (("descending", a > b), ("ascending", a < b)):
        if same(r, d.d, ONE):
            return o, True
    for o, d in (("descending", a >= b), ("ascending", a <= b)):
        if same(r, d.d, ONE):
            return o, False
    return None


def ctor(ctx, p):
    f = p.get(U + "IndexingVariable::IndexingVariable")
    for order in (0, 1):
        n = 5
        args = [atom("arg", i, tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args)]
        args[2] = gvn.const(n); args[3] = gvn.const(order)
        C = Run(p, f, [SORT], args=args)
        name = ("ascending", "descending")[order]
        ok = NOT_(eqc(args[1], 0))
        ctx.ob(f"variable {name}: coordinates are accepted", implies(ok, C.guard), f.loc())
        for e in C.calls(SORT):
            c = comparator(p, f.tu, e)
            if c is None:
                ctx.und(f"variable {name}: order", "comparator of the sort not recognised"); continue
            if e.guard is ZERO:
                continue
            ctx.ob(f"variable {name}: coordinates are sorted in that order", c[0] == name, e.loc(), f"sorted {c[0]}")
            ctx.ob(f"variable {name}: the comparison handed to std::sort is a strict ordering", c[1], e.loc(), "a coordinate compares before itself, for which std::sort runs out of the array")
            b = e.args[0]
            good = isinstance(b, Leaf) and same(e.args[1], padd(b, gvn.const(8 * n)), e.guard)
            ctx.ob(f"variable {name}: all coordinates are sorted", good, e.loc(), f"sorts {txt(e.args[0])} to {txt(e.args[1])}")
            if isinstance(b, Leaf):
                src = e.extra.get(0, {})
                got = [src.get(8 * i) for i in range(n)]
                if b is not args[1] and None in got and any(x is not None for x in got):
                    ctx.ob(f"variable {name}: the coordinates of the object are those given", False, e.loc(), f"coordinate {got.index(None)} is not set"); continue
                if b is not args[1] and None in got:
                    ctx.und(f"variable {name}: copy", "contents of the array not known"); continue
                bad = [i for i in range(n) if got[i] is not None and not same(got[i], ld(None, args[1], 8 * i).d, e.guard)]
                ctx.ob(f"variable {name}: the coordinates of the object are those given", not bad, e.loc(), f"coordinate {bad[:1]} is {txt(got[bad[0]]) if bad else ''}")
    # refused arguments
    for what, i in (("no coordinates", 1), ("zero coordinates", 2)):
        args = [atom("arg", k, tree=("fn", a["n"] or f"arg{k}")) for k, a in enumerate(f.args)]
        args[i] = ZERO if i == 1 else gvn.const(0)
        if i == 1:
            args[2] = gvn.const(3)
        C = Run(p, f, [SORT], args=args)
        ctx.ob(f"variable: {what} are refused", C.guard is ZERO, f.loc(), "accepted")


SPREAD = [0, 1, 4, 6, 11, 13, 20, 27, 29, 38, 40]


def variable(ctx, p, order, n):
    f = p.get(U + "IndexingVariable::IndexingVariable"); gi = p.get(U + "IndexingVariable::getIndex")
    key = f"variable {('ascending', 'descending')[order]}, {n} points"
    args = [atom("arg", i, tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args)]
    args[2] = gvn.const(n); args[3] = gvn.const(order)
    C = Run(p, f, [SORT], args=args)
    srt = [e for e in C.calls(SORT) if e.guard is not ZERO]
    if len(srt) != 1 or not isinstance(srt[0].args[0], Leaf):
        ctx.und(key, "the coordinates are not put in order by one sort"); return
    arr = srt[0].args[0]
    x = atom("arg", "x", tree=("fn", "x"))
    xs = []
    st = C.st.copy()
    for k in range(n):
        a = atom("coord", k, tree=("fn", f"x{k}"))
        C.ev._store1(st, padd(arr, gvn.const(8 * k)), a, 8, None)
        xs.append(X(a))
    R = Run(p, gi, args=[C.arg(0).d, x], state=st, assume=ONE, force_unroll=14)
    xn = xs[0] + X(x) if order == 0 else xs[0] - X(x)
    lt = (lambda a, b: a < b) if order == 0 else (lambda a, b: a > b)
    base = X(NOT_(eqc(args[1], 0)))
    for i in range(n):
        for j in range(i + 1, n):
            base = base & lt(xs[i], xs[j])
    # each interval: exact value number
    for k in range(n - 1):
        g = base
        for j in range(n):
            g = g & (lt(xs[j], xn) if j <= k else lt(xn, xs[j]))
        want = X(k) + (xn - xs[k]) / (xs[k + 1] - xs[k])
        gg = AND(R.guard, g.d)
        if same(R.ret, want.d, AND(gg, theory(gg, R.ret))):
            ctx.ob(f"{key}: index between points {k} and {k+1}", True, gi.loc()); continue
        # a witness
        w = witness(R, xs, x, order, n, k)
        if w is None:
            ctx.und(f"{key}: index between points {k} and {k+1}", f"is {txt(R.ret, 120)}"); continue
        ctx.ob(f"{key}: index between points {k} and {k+1}", w == "", gi.loc(), w)
    for k in range(n):
        w = witness(R, xs, x, order, n, k, at=True)
        if w is None:
            ctx.und(f"{key}: index at point {k}", "not evaluated"); continue
        ctx.ob(f"{key}: index at grid point {k}", w == "", gi.loc(), w)
    ctx.count(functions=len(R.ev.inlined), blocks=R.ev.nblocks)


def witness(R, xs, x, order, n, k, at=False):
    for shift, num in itertools.product((0, 3, -7), (0,) if at else (1, 2, 3)):
        c = [Fraction(SPREAD[j] + shift) for j in range(n)]
        if order:
            c = [-v for v in c]
        m = {xs[j].d.fp: c[j] for j in range(n)}
        q = c[k] if at else c[k] + (c[k + 1] - c[k]) * Fraction(num, 4)
        m[x.fp] = abs(q - c[0])
        for e in R.aborts():
            try:
                if lin.at(e.guard, m) is ONE:
                    return f"terminates at {e.loc()} for distance {float(m[x.fp])} with coordinates {[float(v) for v in c]}"
            except lin.Unknown:
                pass
        for g in R.ev.unfinished:
            try:
                if lin.at(g, m) is ONE:
                    return f"the search has not ended after 14 steps for distance {float(m[x.fp])} with coordinates {[float(v) for v in c]}"
            except lin.Unknown:
                pass
        try:
            r = lin.value(lin.at(R.ret, m), m)
        except lin.Unknown:
            return None
        want = k + (Fraction(0) if at else Fraction(num, 4))
        if r != want:
            return f"index is {float(r)} instead of {float(want)} for distance {float(m[x.fp])} with coordinates {[float(v) for v in c]}"
    return ""
