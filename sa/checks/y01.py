"""Creation: batches tile every grid (BatchGenerator2D, BatchGenerator3D)"""
import itertools
import math
from fractions import Fraction
import core
import gvn
from gvn import Leaf, l_add, l_sub, l_mul, l_div, l_fn, l_neg, atom, const, ZERO, ONE
import pyev
from pyev import B, Obj, traces, cond

MINIMUM = 30
MOD = "geomodelgrids.create.utils.batch"
MODEL = "geomodelgrids.create.core.model"
AX = "xyz"


# ---- terms as numbers ------------------------------------------------------------------------------
class NoNumber(Exception):
    pass


def num(t, env):
    """value of a term for given values of its parameters"""
    if isinstance(t, Leaf):
        if t.fp in env:
            return env[t.fp]
        if t.const is not None:
            return t.const
        r = num(t.tree, env)
        return r
    k = t[0]
    if k == "c":
        return t[1]
    if k in "+-*/" and len(t) == 3:
        a, b = num(t[1], env), num(t[2], env)
        if k == "/":
            if b == 0:
                raise NoNumber()
            return Fraction(a) / Fraction(b) if not isinstance(a, float) and not isinstance(b, float) else a / b
        return a + b if k == "+" else a - b if k == "-" else a * b
    if k == "fn":
        a = [num(x, env) for x in t[2:]]
        f = {"round": round, "floor": math.floor, "ceil": math.ceil, "trunc": int, "int": int, "float": float, "min": min, "max": max, "fabs": abs,
             "pow": lambda x, y: float(x) ** float(y), "sqrt": lambda x: math.sqrt(x), "mod": lambda x, y: x % y}.get(t[1])
        if f is None or not a:
            raise NoNumber()
        return f(*a)
    raise NoNumber()


def lit(b, v, env):
    x = num(b.l, env)
    r = x < 0 if b.kind == "lt" else x == 0
    return (r != b.neg) == v


def pick(ts, env):
    """the trace for given values"""
    for t in ts:
        try:
            if all(lit(b, v, env) for b, v in t.m.trail):
                return t
        except NoNumber:
            raise
        except (OverflowError, ValueError, ZeroDivisionError):
            raise NoNumber()
    raise NoNumber()


# ---- products at most a bound ---------------------------------------------------------------------
def factors(l):
    t = l.tree
    if t[0] == "*" and len(t) == 3:
        return factors(t[1]) + factors(t[2])
    return [l] if l.const != 1 else []


def isfn(l, n):
    return isinstance(l, Leaf) and l.tree[0] == "fn" and l.tree[1] == n


def parts(m):
    """the terms the conditions of the trace and its result speak of: {fp: term}, without sums"""
    if getattr(m, "_parts", None) is not None:
        return m._parts
    out = {}

    def go(t, d=0):
        if d > 12:
            return
        if isinstance(t, Leaf):
            if t.fp in out:
                return
            if t.tree[0] == "fn" or t.tree[0] not in ("c", "+", "-", "*", "/"):
                out[t.fp] = t
            t = t.tree
        if isinstance(t, tuple):
            for x in t[1:]:
                if isinstance(x, (Leaf, tuple)):
                    go(x, d + 1)
    for b, _ in m.trail:
        go(b.l)
    m._parts = out
    return out


def rootfn(l):
    """(n, v) of [round|floor](v ** (1 / n))"""
    if not (isfn(l, "floor") or isfn(l, "trunc") or isfn(l, "round")):
        return None
    x = l.tree[2]
    while isfn(x, "float"):
        x = x.tree[2]
    if isfn(x, "sqrt"):
        return 2, x.tree[2]
    if isfn(x, "pow") and x.tree[3].const is not None and x.tree[3].const > 0:
        n = 1 / float(x.tree[3].const)
        if abs(n - round(n)) < 1e-9:
            return round(n), x.tree[2]
    return None


def rootof(m, l):
    """(n, v): the term to the nth power is at most v"""
    if isfn(l, "floor") or isfn(l, "trunc"):
        return rootfn(l)
    for r in parts(m).values():
        c = l_sub(r, l).const
        if c is not None and c >= 1 and rootfn(r):
            return rootfn(r)
    return None


def literals(m):
    """terms known to be at most 0"""
    for ss, d in list(m.signs.values()):
        for dd, flip in ((d, 1), (l_neg(d), -1)):
            if {x * flip for x in ss} <= {-1, 0}:
                yield dd


def uppers(m, l):
    """terms known to be at least the term, by the conditions of the trace"""
    ps = parts(m)
    out = []
    for dd in literals(m):
        u = l_sub(l, dd)
        if u.fp in ps:
            out.append(ps[u.fp])
        elif rootof(m, u):
            out.append(u)
    return out


def powers(m):
    """terms the conditions raise to a power and compare: {fp: (n, v)}"""
    ps = parts(m); out = {}
    lits = list(literals(m))
    for r in list(ps.values()):
        p = r
        for k in (2, 3):
            p = l_mul(p, r)
            for dd in lits:
                v = l_sub(p, dd)
                if v.fp in ps:
                    out[r.fp] = (k, ps[v.fp])
    return out


def within(m, fs, bound, ge1, depth=0, seen=None):
    """the product of the factors (each at least 1) is at most the bound"""
    seen = set() if seen is None else seen
    key = tuple(sorted(f.fp for f in fs))
    if key in seen or depth > 7 or len(fs) > 6:
        return False
    seen.add(key)
    if not fs or len(fs) == 1 and fs[0].fp == bound.fp:
        return True
    prod = ONE
    for f in fs:
        prod = l_mul(prod, f)
    if m.poss(l_sub(prod, bound)) <= {-1, 0}:
        return True
    if getattr(m, "_pw", None) is None:
        m._pw = powers(m)
    pw = m._pw
    done = set()
    for f in fs:
        if f.fp in done:
            continue
        done.add(f.fp)
        rest = list(fs); k = 0
        while any(x.fp == f.fp for x in rest):
            rest.remove(next(x for x in rest if x.fp == f.fp)); k += 1
        r = rootof(m, f) or pw.get(f.fp)
        if r and k <= r[0]:
            if within(m, rest + factors(r[1]), bound, ge1, depth + 1, seen):
                return True
        rest1 = list(fs); rest1.remove(f)
        if isfn(f, "floor") and f.tree[2].tree[0] == "/":
            q = f.tree[2]; num_, den = q.tree[1], factors(q.tree[2])
            r2 = list(rest1)
            for d in den:
                x = next((y for y in r2 if y.fp == d.fp), None)
                if x is not None:
                    r2.remove(x)
            # floor(a / (b c)) b <= a for c at least 1
            if within(m, r2 + factors(num_), bound, ge1, depth + 1, seen):
                return True
        for u in uppers(m, f):
            if u.fp != f.fp and within(m, rest1 + factors(u), bound, ge1, depth + 1, seen):
                return True
    return False


def atleast1(m, l, ones, depth=0):
    """the term is at least 1"""
    if depth > 5:
        return False
    if l.const is not None:
        return l.const >= 1
    if l.fp in ones:
        return True
    t = l.tree
    if t[0] == "*" and len(t) == 3:
        return all(atleast1(m, x, ones, depth + 1) for x in t[1:])
    if isfn(l, "floor") and t[2].tree[0] == "/":
        a, b = t[2].tree[1], t[2].tree[2]
        return atleast1(m, b, ones, depth + 1) and within(m, factors(b), a, ones)
    if isfn(l, "round") or isfn(l, "floor") or isfn(l, "trunc"):
        x = t[2]
        if isfn(x, "pow") and x.tree[3].const is not None and x.tree[3].const > 0 or isfn(x, "sqrt"):
            return atleast1(m, x.tree[2], ones, depth + 1)
    for r in parts(m).values():
        if l_sub(r, l).const == 1 and rootfn(r) and isfn(r, "round"):
            # round(root) - 1, taken where round(root)**n > v >= 1, so that round(root) is at least 2
            n, v = rootfn(r)
            p = ONE
            for _ in range(n):
                p = l_mul(p, r)
            return m.poss(l_sub(p, v)) <= {1} and atleast1(m, v, ones, depth + 1)
    return False


def ceilq(l, n, b):
    """the term is the number of batches of b that hold n"""
    if n.fp == b.fp and l.const == 1:
        return True
    x = l
    while isfn(x, "round") or isfn(x, "trunc") or isfn(x, "int"):
        x = x.tree[2]
    q = l_div(n, b)
    if isfn(x, "ceil"):
        return x.tree[2].fp == q.fp
    fl = lambda y: l_fn("floor", y)
    return any(x.fp == w.fp for w in (fl(l_div(l_sub(l_add(n, b), ONE), b)), l_neg(fl(l_div(l_neg(n), b))), l_add(fl(l_div(l_sub(n, ONE), b)), ONE)))


# ---- one generator ---------------------------------------------------------------------------------
class Gen:
    def __init__(self, prog, name, dim, limit):
        self.name = name; self.dim = dim
        self.n = [atom("batch", a, tree=("fn", f"num_{a}")) for a in AX[:dim]]
        self.mx = atom("batch", "max", tree=("fn", "max_nvalues")) if limit else None
        args = list(self.n) + ([self.mx] if limit else [])

        def init(m):
            for x in self.n + ([self.mx] if limit else []):
                m.learn(B("lt", l_sub(x, ONE), True))
            m.learn(B("lt", ZERO))
            return m.call(m.get(MOD, name), args, {}, None)
        self.ts = traces(prog, init)

    def grid(self):
        dims = (1, 2, 3, 5, 7, 11, 40, 100)
        lim = (1, 2, 3, 5, 7, 10, 16, 60, 120, 1000) if self.mx is not None else (None,)
        for sz in itertools.product(dims, repeat=self.dim):
            for mx in lim:
                yield sz, mx

    def env(self, sz, mx):
        e = {x.fp: Fraction(v) for x, v in zip(self.n, sz)}
        if mx is not None:
            e[self.mx.fp] = Fraction(mx)
        return e

    def show(self, sz, mx):
        return ", ".join(f"num_{a}={v}" for a, v in zip(AX, sz)) + (f", max_nvalues={mx}" if mx is not None else "")


def evens(l):
    return isinstance(l, Leaf)


def sizes(ctx, prog, name, dim, fn):
    """construction: never fails, batch sizes at least 1 with at most the largest number of points"""
    g = Gen(prog, name, dim, True)
    st = step(prog, name, dim, g)
    key = f"{name}:"
    loc = fn.loc
    # raising traces
    bad = None; und = None; nt = 0
    for t in g.ts:
        nt += 1
        if t.kind == "unknown":
            und = f"{t.value}"
        elif t.kind == "raises":
            w = None
            for sz, mx in g.grid():
                try:
                    if all(lit(b, v, g.env(sz, mx)) for b, v in t.m.trail):
                        w = (sz, mx); break
                except (NoNumber, OverflowError):
                    break
            if w and not bad:
                bad = (t.loc, f"{t.value[0]} is raised for {g.show(*w)} (when {cond(t.m)[:300]})")
            elif not w:
                und = f"{t.loc}: not shown that {t.value[0]} is never raised"
    ctx.count(paths=nt)
    rets = [t for t in g.ts if t.kind == "returns"]
    if not rets:
        ctx.und(key + "constructed", und or "construction not understood"); return None
    if bad:
        ctx.ob(key + "constructed", False, bad[0], bad[1])
    elif und:
        ctx.und(key + "constructed", und)
    else:
        ctx.ob(key + "constructed", True, loc, f"none of the {nt} combinations of conditions raises")
    if st is None:
        ctx.und(key + "batch sizes", "which attributes are the sizes of a batch is not understood")
        tile(ctx, g, None, key, loc)
        return g
    bs, nbs, cs, steps = st
    # sizes
    for i, t in enumerate(rets):
        o = t.value
        b = [o.attrs.get(x) for x in bs]
        tag = f"{key}sizes {i+1}"
        if not all(evens(x) for x in b):
            ctx.und(tag, "sizes not understood"); continue
        ones = {x.fp for x in g.n + [g.mx]}
        ok1 = all(atleast1(t.m, x, ones) for x in b)
        okm = within(t.m, [f for x in b for f in factors(x)], g.mx, ones)
        where = loc
        what = " x ".join(gvn.show(x.tree)[:60] for x in b)
        if ok1 and okm:
            ctx.ob(tag, True, where, f"{what}: each at least 1, together at most max_nvalues, when {cond(t.m)[:120]}"); continue
        w = None
        for sz, mx in g.grid():
            e = g.env(sz, mx)
            try:
                if not all(lit(x, v, e) for x, v in t.m.trail):
                    continue
                v = [num(x, e) for x in b]
            except (NoNumber, OverflowError, ValueError):
                break
            if any(x < 1 for x in v) or math.prod(v) > mx:
                w = f"{g.show(sz, mx)}: batches of {' x '.join(str(int(x)) for x in v)} points"; break
        if w:
            ctx.ob(tag, False, where, f"sizes {what}: {w}")
        else:
            ctx.und(tag, f"sizes {what} not shown to be within the limit")
    # everything in one batch when it fits
    one(ctx, prog, name, dim, key, bs, loc)
    tile(ctx, g, st, key, loc)
    return g


def one(ctx, prog, name, dim, key, bs, loc):
    """no limit, or everything fits: a single batch"""
    for lim, what in ((None, "no largest number"), (ZERO, "0 as largest number"), ("fits", "everything fits")):
        n = [atom("batch", a, tree=("fn", f"num_{a}")) for a in AX[:dim]]
        mx = atom("batch", "max", tree=("fn", "max_nvalues")) if lim == "fits" else lim

        def init(m):
            for x in n + ([mx] if lim == "fits" else []):
                m.learn(B("lt", l_sub(x, ONE), True))
            if lim == "fits":
                p = ONE
                for x in n:
                    p = l_mul(p, x)
                m.learn(B("lt", l_sub(mx, p), True))
            return m.call(m.get(MOD, name), n + ([mx] if lim is not None else []), {}, None)
        for t in traces(prog, init):
            tag = f"{key}{what}"
            if t.kind == "raises":
                ctx.ob(tag, False, t.loc, f"{t.value[0]} is raised for valid sizes ({cond(t.m)[:200]})")
            elif t.kind == "unknown":
                ctx.und(tag, t.value)
            else:
                b = [t.value.attrs.get(x) for x in bs]
                if not all(evens(x) for x in b):
                    ctx.und(tag, "sizes not understood"); continue
                ok = all(x.fp == y.fp for x, y in zip(b, n))
                if not ok and t.m.trail:
                    # conditions left: the difference may be between equals
                    e = None
                    for sz in itertools.product((1, 2, 3, 7, 40), repeat=dim):
                        env = {x.fp: Fraction(v) for x, v in zip(n, sz)}
                        if lim == "fits":
                            env[mx.fp] = Fraction(math.prod(sz))
                        try:
                            if all(lit(x, v, env) for x, v in t.m.trail) and [num(x, env) for x in b] != list(sz):
                                e = sz; break
                        except (NoNumber, OverflowError, ValueError):
                            break
                    if e is None:
                        ctx.und(tag, "sizes not shown to be those of the grid"); continue
                ctx.ob(tag, ok, loc, f"a batch has {' x '.join(gvn.show(x.tree)[:50] for x in b)} points" if not ok else f"{what}: one batch of all the points")


def step(prog, name, dim, g):
    """(attributes with the sizes, with the numbers of batches, counters, traces of __next__)"""
    o0 = next((t.value for t in g.ts if t.kind == "returns"), None)
    if not isinstance(o0, Obj):
        return None
    attrs = {k: v for k, v in o0.attrs.items()}
    selfs = {k: atom("self", name, k, tree=("fn", f"self.{k}")) for k, v in attrs.items() if isinstance(v, Leaf)}
    lens = {}

    def nxt(m, counters=()):
        o = m.call(m.get(MOD, name), list(g.n), {}, None)
        for k, v in selfs.items():
            o.attrs[k] = v
        for k in selfs:
            if k in counters:
                m.learn(B("lt", selfs[k], True))
        for d, nb in lens.items():
            m.learn(B("lt", l_sub(selfs[nb], l_add(selfs[d], ONE)), True))
        r = m.call(m.attr(o, "__next__", None), [], {}, None)
        return o, r
    ts = traces(prog, nxt)
    rets = [t for t in ts if t.kind == "returns"]
    if not rets or any(t.kind == "unknown" for t in ts):
        return None
    counters = sorted({k for t in rets for k in selfs if isinstance(t.value[0].attrs.get(k), Leaf) and t.value[0].attrs[k].fp != selfs[k].fp})
    return resolve(prog, name, dim, g, selfs, counters, nxt, lens, ts)


def rng(t, a):
    o = t.value[1]
    r = o.attrs.get(f"{a}_range") if isinstance(o, Obj) else None
    if isinstance(r, pyev.PList):
        r = tuple(r.items)
    return r if isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Leaf) for x in r) else None


def resolve(prog, name, dim, g, selfs, counters, nxt, lens, ts):
    bs = []; cs = []; nbs = []
    t = next(x for x in ts if x.kind == "returns")
    o0 = next(x.value for x in g.ts if x.kind == "returns")
    for i, a in enumerate(AX[:dim]):
        r = rng(t, a)
        if r is None:
            return None
        hit = [(c, b) for c in counters for b in selfs if b not in counters and l_mul(selfs[c], selfs[b]).fp == r[0].fp]
        if len(hit) != 1:
            return None
        cs.append(hit[0][0]); bs.append(hit[0][1])
    if len(set(cs)) != dim or len(set(bs)) != dim or set(cs) != set(counters):
        return None
    # numbers of batches: what the counter is compared with
    for c in cs:
        hit = set()
        for x in ts:
            for b, _ in x.m.trail:
                for k in selfs:
                    if k in counters:
                        continue
                    for d in (l_sub(selfs[c], selfs[k]), l_sub(l_add(selfs[c], ONE), selfs[k])):
                        if b.l.fp in (d.fp, l_neg(d).fp):
                            hit.add(k)
        if len(hit) != 1:
            return None
        nbs.append(hit.pop())
    for c, nb in list(zip(cs, nbs))[1:]:
        lens[c] = nb
    ts = traces(prog, lambda m: nxt(m, counters))
    return bs, nbs, cs, (ts, selfs)


def tile(ctx, g, st, key, loc):
    if st is None:
        simulate(ctx, g, key, loc)
        return
    bs, nbs, cs, (ts, selfs) = st
    nm = {a: None for a in AX[:g.dim]}
    good = True; why = ""
    # what the attributes are after construction
    rets = [t for t in g.ts if t.kind == "returns"]
    for t in rets:
        for i, (b, nb, c) in enumerate(zip(bs, nbs, cs)):
            v = t.value.attrs
            if v[c].const != 0:
                good = False; why = f"{c} does not start at 0"
            if not ceilq(v[nb], g.n[i], v[b]):
                good = False; why = f"{nb} is {gvn.show(v[nb].tree)[:80]}"
    byv = {}
    for k in selfs:
        for i, n in enumerate(g.n):
            if all(isinstance(t.value.attrs.get(k), Leaf) and t.value.attrs[k].fp == n.fp for t in rets):
                byv.setdefault(i, []).append(k)
    # the step
    for t in ts:
        m = t.m
        d0 = l_sub(selfs[cs[0]], selfs[nbs[0]])
        if t.kind == "raises":
            if t.value[0] != "StopIteration" or not m.poss(d0) <= {0, 1}:
                good = False; why = f"{t.value[0]} when {cond(m)[:200]}"
            continue
        if t.kind == "unknown":
            good = False; why = t.value; continue
        if not m.poss(d0) <= {-1}:
            good = False; why = f"a batch is returned when {cond(m)[:200]}"
        for i, a in enumerate(AX[:g.dim]):
            r = rng(t, a)
            s = l_mul(selfs[cs[i]], selfs[bs[i]])
            e = l_add(s, selfs[bs[i]])
            if r is None or r[0].fp != s.fp:
                good = False; why = f"the {a} range starts at {gvn.show(r[0].tree)[:80] if r else '?'}"; continue
            ok = False
            for k in byv.get(i, []):
                N = selfs[k]
                p = m.poss(l_sub(e, N))
                if any(r[1].fp == l_fn("min", *o).fp for o in ((e, N), (N, e))) or r[1].fp == N.fp and p <= {0, 1} or r[1].fp == e.fp and p <= {-1, 0}:
                    ok = True
            if not ok:
                good = False; why = f"the {a} range ends at {gvn.show(r[1].tree)[:80]}"
        # counters
        o = t.value[0].attrs
        for signs in itertools.product((-1, 0), repeat=g.dim - 1):
            if not all(s in m.poss(l_sub(l_add(selfs[cs[i + 1]], ONE), selfs[nbs[i + 1]])) for i, s in enumerate(signs)):
                continue
            carry = True
            for i in range(g.dim - 1, -1, -1):
                c = selfs[cs[i]]; new = o[cs[i]]
                if not carry:
                    want = c
                elif i == 0 or signs[i - 1] < 0:
                    want = l_add(c, ONE); carry = False
                else:
                    want = ZERO
                if new.fp != want.fp and not (new.fp == l_sub(want, want).fp and want.const == 0):
                    good = False; why = f"{cs[i]} becomes {gvn.show(new.tree)[:80]} when {cond(m)[:200]}"
    if good:
        for w in ("ranges", "order", "end"):
            ctx.ob(key + w, True, loc, {"ranges": "every batch is [i b, min((i + 1) b, n)) in each direction", "order": "the last direction fastest, each carrying into the one before",
                                        "end": "StopIteration exactly after ceil(n / b) batches in each direction"}[w])
        return
    simulate(ctx, g, key, loc, why)


def simulate(ctx, g, key, loc, why="iteration not understood"):
    """looks for sizes for which the formulas do not tile the grid"""
    try:
        w = counterexample(g)
    except NoNumber:
        w = None
    if w:
        ctx.ob(key + "tiles", False, loc, f"{why}; {w}" if why else w)
    else:
        ctx.und(key + "tiles", why)


def counterexample(g):
    o0 = next(t.value for t in g.ts if t.kind == "returns")
    names = [k for k, v in o0.attrs.items() if isinstance(v, Leaf)]
    selfs = {k: atom("self", g.name, k, tree=("fn", f"self.{k}")) for k in names}

    def nxt(m):
        o = m.call(m.get(MOD, g.name), list(g.n), {}, None)
        for k, v in selfs.items():
            o.attrs[k] = v
        return o, m.call(m.attr(o, "__next__", None), [], {}, None)
    ts = traces(g.prog, nxt)
    if any(t.kind == "unknown" for t in ts):
        return None
    for sz, mx in g.grid():
        if math.prod(sz) > 300 or mx is not None and math.prod(sz) / mx > 30:
            continue
        env = g.env(sz, mx)
        try:
            t = pick(g.ts, env)
            if t.kind != "returns":
                continue
            st = {k: num(t.value.attrs[k], env) for k in names}
        except NoNumber:
            return None
        got = []
        while len(got) < 400:
            e = dict(env)
            e.update({selfs[k].fp: v for k, v in st.items()})
            try:
                s = pick(ts, e)
                if s.kind == "raises":
                    break
                rr = [rng(s, a) for a in AX[:g.dim]]
                if any(r is None for r in rr):
                    return None
                got.append([(num(r[0], e), num(r[1], e)) for r in rr])
                st = {k: num(s.value[0].attrs[k], e) for k in names}
            except NoNumber:
                return None
        txt = f"{g.show(sz, mx)}: " + ", ".join("[" + ",".join(f"{int(a)}:{int(b)}" for a, b in x) + "]" for x in got[:4]) + (" ..." if len(got) > 4 else "")
        cells = set(); n = 0
        for x in got:
            if any(b <= a for a, b in x):
                return txt + " (an empty batch)"
            if any(a < 0 or b > m for (a, b), m in zip(x, sz)):
                return txt + " (beyond the grid)"
            for c in itertools.product(*[range(int(a), int(b)) for a, b in x]):
                if c in cells:
                    return txt + " (a point twice)"
                cells.add(c)
        if len(cells) != math.prod(sz):
            return txt + " (points left out)"
        if got != sorted(got):
            return txt + " (not in the order of the points)"
    return None


# ---- the batches of a surface and a block ----------------------------------------------------------
def getb(ctx, prog, cls, gen, dim):
    size = atom("batch_size", tree=("fn", "batch_size"))

    def built(m, fn, args, kw, node):
        # the generator is what it is constructed with
        if fn.self_ is not None:
            o = fn.self_
        else:
            o = args[0]; args = args[1:]
        names = [x.arg for x in fn.node.args.args][1:]
        for k in names:
            o.attrs[k] = None
        for k, v in list(zip(names, args)) + list(kw.items()):
            o.attrs[k] = v
        return None

    def f(m):
        import y02
        o = y02.make(m, cls)
        d = m.call(m.attr(o, "get_dims", None), [], {}, None)
        d = list(d) if isinstance(d, tuple) else d.items
        a = m.call(m.attr(o, "get_batches", None), [size], {}, None)
        b = m.call(m.get(MOD, gen), d[:dim] + [size], {}, None)
        return a, b
    n = 0
    for t in traces(prog, f, opaque={"string_to_list"}, models={f"{g}.__init__": built for g in ("BatchGenerator2D", "BatchGenerator3D")}):
        key = f"{cls}.get_batches {n+1}"
        if t.kind != "returns":
            if t.kind == "unknown":
                ctx.und(key, t.value); n += 1
            continue
        n += 1
        a, b = t.value
        if not isinstance(a, Obj):
            ctx.und(key, "result not understood"); continue
        where = "geomodelgrids/create/core/model.py"
        if str(a.cls) != str(b.cls):
            ctx.ob(key, False, where, f"{a.cls} for a grid of {dim} dimensions"); continue
        bad = [k for k in b.attrs if pyev.leaf(a.attrs.get(k)).fp != pyev.leaf(b.attrs[k]).fp]
        ctx.ob(key, not bad, where, f"{bad[0]} of the generator is {gvn.show(pyev.leaf(a.attrs.get(bad[0])).tree)[:100]}, expected {gvn.show(pyev.leaf(b.attrs[bad[0]]).tree)[:100]}" if bad
               else f"the generator has the numbers of points of the {cls.lower()} and the size given")
    if not n:
        ctx.und(f"{cls}.get_batches", "not understood")


class At:
    def __init__(self, loc): self.loc = loc


def check(ctx):
    prog = pyev.Program()
    md = prog.mod(MOD)
    for name, dim in (("BatchGenerator2D", 2), ("BatchGenerator3D", 3)):
        node = next((n for n in md.tree.body if getattr(n, "name", "") == name), None)
        if node is None:
            raise core.AnalysisBroken(f"{name} vanished")
        Gen.prog = prog
        ctx.guard(f"{name}", sizes, ctx, prog, name, dim, At(f"{md.path}:{node.lineno}"))
    for cls, gen, dim in (("Surface", "BatchGenerator2D", 2), ("Block", "BatchGenerator3D", 3)):
        ctx.guard(f"{cls}.get_batches", getb, ctx, prog, cls, gen, dim)
