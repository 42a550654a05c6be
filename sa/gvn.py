"""Gated value numbering over SSA (abstract interpretation in the domain of decision diagrams whose
terminals are algebraic value numbers).

 * Every SSA value is a decision diagram (DD): inner nodes test *condition atoms*, terminals are
   value numbers.  States are merged at every join (no path enumeration, no solver).
 * Terminals are arithmetic expressions identified by a fingerprint: the expression evaluated over
   GF(2^127-1) with every atom mapped to a hash of its canonical name.  Two expressions that are
   equal as rational functions have equal fingerprints, whatever the association, order or helper
   temporaries the source uses (random-interpretation value numbering, Gulwani & Necula).
 * Loops with constant trip counts are unrolled; every other loop is summarised: header phis and the
   locations written in the loop become atoms of a generic iteration.
 * Calls into the repository are inlined (bounded depth) unless declared opaque; everything else is
   an uninterpreted function of its arguments (contents, for pointers to locals).
"""
import hashlib
import math
import re
from fractions import Fraction

P = (1 << 127) - 1
MAXNODES = 6000
LIMIT = 1500000


class Blowup(Exception):
    pass


class Unsupported(Exception):
    pass


def H(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=16).digest(), "big") % P


# ---------------------------------------------------------------------------------------------
class Leaf:
    __slots__ = ("fp", "tree", "const", "base", "off")

    def __init__(self, fp, tree, const=None, base=None, off=None):
        self.fp = fp; self.tree = tree; self.const = const; self.base = base; self.off = off

    def __repr__(self):
        return "L%x" % self.fp          # part of hash keys: the whole value, not its text


    def __str__(self):
        return show(self.tree)


def show(t, depth=0):
    if depth > 14:
        return "..."
    if isinstance(t, Leaf):
        return show(t.tree, depth)
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "c":
        f = t[1]
        return str(f) if f.denominator == 1 else repr(float(f))
    if k in "+-*/" and len(t) == 3:
        return f"({s(t[1])} {k} {s(t[2])})"
    if k == "fn":
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    if k == "ld":
        return f"{s(t[1])}"
    if k == "dd":
        return "<cond>"
    return f"{k}({', '.join(s(x) for x in t[1:])})" if len(t) > 1 else str(k)


_leaves = {}


def mkleaf(fp, tree, const=None, base=None, off=None):
    l = _leaves.get(fp)
    if l is None:
        l = Leaf(fp, tree, const, base, off)
        _leaves[fp] = l
    elif base is not None and l.base is None:
        l.base = base; l.off = off
    return l


PI_FP = H("PI")


def const(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mkleaf(H("fc", repr(v)), ("fn", repr(v)))
        if v != 0 and v != int(v):
            for q in (1, 2, 3, 4, 6, 180, 360, 90):
                r = v / math.pi * q
                p = round(r)
                if p != 0 and abs(r - p) < 1e-12 * max(1, abs(r)):
                    f = Fraction(p, q)
                    return mkleaf(PI_FP * fr(f) % P, ("fn", f"{f}*PI"))
            # 180/pi style
            for q in (1, 180, 360):
                r = v * math.pi / q
                p = round(r)
                if p != 0 and abs(r - p) < 1e-12 * max(1, abs(r)):
                    return mkleaf(p * q % P * pow(PI_FP, P - 2, P) % P, ("fn", f"{p*q}/PI"))
        v = Fraction(repr(v))
    v = Fraction(v)
    f = fr(v)
    if f not in _constfp:
        _constfp[f] = v; _constfp[(-f) % P] = -v
    return mkleaf(f, ("c", v), v)


_constfp = {}


def fr(f):
    return f.numerator % P * pow(f.denominator % P, P - 2, P) % P


def atom(*key, tree=None, base=None, off=None):
    return mkleaf(H("atom", *key), tree or ("fn", str(key[0])) + tuple(str(x) for x in key[1:]), None, base, off)


ZERO = const(0)
ONE = const(1)


def ptrparts(l):
    """(base, off Leaf)"""
    if l.base is not None:
        return l.base, l.off
    return ("v", l.fp), ZERO


def padd(l, off):
    """pointer leaf + byte offset leaf"""
    if off.const == 0:
        return l
    b, o = ptrparts(l)
    no = l_add(o, off)
    if b[0] == "v":
        _vbase.setdefault(b[1], mkleaf(b[1], ("fn", "v")))
    return mkleaf((l.fp + off.fp) % P, ("+", l, off), None, b, no)


_vbase = {}


def l_add(a, b):
    if a.const is not None and b.const is not None:
        return const(a.const + b.const)
    if a.const == 0:
        return b
    if b.const == 0:
        return a
    if a.base is not None and b.base is None:
        return mkleaf((a.fp + b.fp) % P, ("+", a, b), None, a.base, l_add(a.off, b))
    if b.base is not None and a.base is None:
        return l_add(b, a)
    return _num((a.fp + b.fp) % P, ("+", a, b))


def _num(fp, tree):
    if fp == 0:
        return ZERO
    l = _leaves.get(fp)
    if l is not None:
        return l
    # small constants
    return mkleaf(fp, tree)


def l_sub(a, b):
    if a.const is not None and b.const is not None:
        return const(a.const - b.const)
    if b.const == 0:
        return a
    if a.fp == b.fp:
        return ZERO
    d = (a.fp - b.fp) % P
    k = _small.get(d)
    if k is None:
        k = _constfp.get(d)
    if k is not None:
        return const(k)
    if a.base is not None and b.base is not None and a.base == b.base and a.off.base is None and b.off.base is None:
        return l_sub(a.off, b.off)
    return _num(d, ("-", a, b))


def l_mul(a, b):
    if a.const is not None and b.const is not None:
        return const(a.const * b.const)
    if a.const == 0 or b.const == 0:
        return ZERO
    if a.const == 1:
        return b
    if b.const == 1:
        return a
    return _num(a.fp * b.fp % P, ("*", a, b))


def l_div(a, b):
    if a.const is not None and b.const not in (None, 0):
        return const(a.const / b.const)
    if a.const == 0:
        return ZERO
    if b.const == 1:
        return a
    if b.fp == 0:
        return atom("div0", a.fp)
    return _num(a.fp * pow(b.fp, P - 2, P) % P, ("/", a, b))


def l_neg(a):
    return l_sub(ZERO, a)


_small = {k % P: k for k in range(-4096, 4097)}
_K = H("trig")


def l_fn(name, *args):
    """uninterpreted / specially interpreted scalar function"""
    if name in ("sin", "cos"):
        a = args[0]
        if a.const == 0:
            return ZERO if name == "sin" else ONE
        t = a.fp * _K % P
        den = pow((1 + t * t) % P, P - 2, P)
        fp = (2 * t * den if name == "sin" else (1 - t * t) * den) % P
        return mkleaf(fp, ("fn", name, a))
    if name == "tan":
        return l_div(l_fn("sin", args[0]), l_fn("cos", args[0]))
    if all(x.const is not None for x in args):
        try:
            v = [float(x.const) for x in args]
            if name == "floor":
                return const(math.floor(v[0]))
            if name == "ceil":
                return const(math.ceil(v[0]))
            if name == "fabs":
                return const(abs(args[0].const))
            if name == "round":
                return const(math.floor(abs(v[0]) + 0.5) * (1 if v[0] >= 0 else -1))
            if name == "trunc":
                return const(math.trunc(args[0].const))
            if name == "sqrt" and v[0] >= 0:
                r = math.isqrt(int(v[0]))
                if r * r == args[0].const:
                    return const(r)
        except (OverflowError, ValueError):
            pass
    if name == "trunc" and args[0].tree[0] == "fn" and args[0].tree[1] in ("floor", "ceil", "round", "trunc"):
        return args[0]
    if name == "fabs":
        f = args[0].fp; k = min(f, P - f)
        return mkleaf(H("fabs", k), ("fn", "fabs", args[0]))
    if name == "hypot":
        k = tuple(sorted(x.fp for x in args))
        return mkleaf(H("hypot", k), ("fn", "hypot") + args)
    if name == "pow" and args[1].const == 2:
        return l_mul(args[0], args[0])
    return mkleaf(H("fn", name, tuple(x.fp for x in args)), ("fn", name) + args)


# ---------------------------------------------------------------------------------------------
class Node:
    __slots__ = ("var", "hi", "lo", "id", "__weakref__")


_uniq = {}
_nid = [0]
_vars = {}
_varinfo = []


def getvar(key, info, pair=False):
    v = _vars.get(key)
    if v is None:
        v = len(_varinfo)
        _varinfo.append(info)
        _varinfo.append(("pos", info) if pair else None)
        _vars[key] = v
    return v


def nid(x):
    return x.id if isinstance(x, Node) else ("l", x.fp)


def mk(var, hi, lo):
    if isinstance(hi, Leaf):
        i = _varinfo[var]
        if i is not None and i[0] == "==" and hi is i[1] and i[2].const is not None:
            hi = i[2]           # a value known to equal a constant is that constant
    if hi is lo:
        return hi
    k = (var, nid(hi), nid(lo))
    n = _uniq.get(k)
    if n is None:
        n = Node(); n.var = var; n.hi = hi; n.lo = lo
        _nid[0] += 1
        n.id = _nid[0]
        _uniq[k] = n
    return n


def top(*xs):
    return min(x.var for x in xs if isinstance(x, Node))


def cof(x, v):
    if isinstance(x, Node) and x.var == v:
        return x.hi, x.lo
    return x, x


_memo = {}
_budget = [0]


def _charge():
    _budget[0] += 1
    if _budget[0] > LIMIT:
        raise Blowup()


def reset_budget():
    _budget[0] = 0


def app1(name, f, a, memo=None):
    if not isinstance(a, Node):
        return f(a)
    if memo is None:
        memo = {}
    r = memo.get(a.id)
    if r is None:
        _charge()
        r = memo[a.id] = mk2(a.var, app1(name, f, a.hi, memo), app1(name, f, a.lo, memo))
    return r


def mk2(var, hi, lo):
    """node whose children may contain smaller vars (after leaf results are DDs)"""
    th = hi.var if isinstance(hi, Node) else 1 << 60
    tl = lo.var if isinstance(lo, Node) else 1 << 60
    if var < th and var < tl:
        return mk(var, hi, lo)
    return ite(mk(var, ONE, ZERO), hi, lo)


def app2(name, f, a, b, memo=None):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return f(a, b)
    if memo is None:
        memo = {}
    k = (nid(a), nid(b))
    r = memo.get(k)
    if r is None:
        _charge()
        v = top(a, b)
        a1, a0 = cof(a, v); b1, b0 = cof(b, v)
        r = memo[k] = mk2(v, app2(name, f, a1, b1, memo), app2(name, f, a0, b0, memo))
    return r


_itememo = {}


def ite(c, a, b):
    if not isinstance(c, Node):
        if c.const is not None:
            return a if c.const != 0 else b
        return ite(tobool(c), a, b)
    if a is b:
        return a
    k = (c.id, nid(a), nid(b))
    r = _itememo.get(k)
    if r is not None:
        return r
    _charge()
    v = top(c, *[x for x in (a, b) if isinstance(x, Node)])
    c1, c0 = cof(c, v); a1, a0 = cof(a, v); b1, b0 = cof(b, v)
    r = mk(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _itememo[k] = r
    return r


def AND(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return ite(a, b, ZERO)


def OR(a, b):
    if a is ONE or b is ONE:
        return ONE
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return ite(a, ONE, b)


def NOT(a):
    return ite(tob(a), ZERO, ONE)


def tobool(l):
    """numeric leaf -> boolean DD (l != 0)"""
    if l.const is not None:
        return ONE if l.const != 0 else ZERO
    return NOT_(eqc(l, 0))


def NOT_(d):
    return ite(d, ZERO, ONE)


def tob(d):
    """DD with arbitrary leaves -> boolean DD"""
    if not isinstance(d, Node):
        return tobool(d)
    return app1("tob", tobool, d)


def eqc(l, c):
    """DD var: leaf equals integer constant c (used for ints/pointers/enums)"""
    if l.const is not None:
        return ONE if l.const == c else ZERO
    if l.base is not None and l.base[0] in ("al", "new", "g") and c == 0:
        return ZERO
    v = getvar(("eqc", l.fp, c), ("==", l, const(c)))
    return mk(v, ONE, ZERO)


def leq_eq(a, b):
    d = l_sub(a, b)
    if d.const is not None:
        return ONE if d.const == 0 else ZERO
    if a.base is not None and b.base is not None and a.base != b.base and a.base[0] in ("al", "new", "g") and b.base[0] in ("al", "new", "g"):
        return ZERO
    s = sorted((d.fp, (-d.fp) % P))
    v = getvar(("eq", s[0]), ("==", a, b))
    return mk(v, ONE, ZERO)


def _sign(d):
    """returns (N, Qvar) such that d<0 is N etc., orientation-normalised: (flip, v)"""
    nfp = (-d.fp) % P
    flip = nfp < d.fp
    k = nfp if flip else d.fp
    dl = l_neg(d) if flip else d
    v = getvar(("sgn", k), ("<0", dl), pair=True)
    return flip, v


def l_lt(a, b):
    """boolean DD for a < b on ordered numbers"""
    d = l_sub(a, b)
    if d.const is not None:
        return ONE if d.const < 0 else ZERO
    flip, v = _sign(d)
    if not flip:
        return mk(v, ONE, ZERO)
    return mk(v, ZERO, mk(v + 1, ONE, ZERO))


def l_feq(a, b):
    d = l_sub(a, b)
    if d.const is not None:
        return ONE if d.const == 0 else ZERO
    _, v = _sign(d)
    return mk(v, ZERO, mk(v + 1, ZERO, ONE))


def dd_lt(a, b):
    return app2("lt", l_lt, a, b)


def dd_le(a, b):
    return NOT_(dd_lt(b, a))


def leaves(d, care=None, out=None, seen=None):
    """set of terminal leaves reachable (no care filtering)"""
    if out is None:
        out = {}; seen = set()
    if not isinstance(d, Node):
        out[d.fp] = d
        return out
    if d.id in seen:
        return out
    seen.add(d.id)
    leaves(d.hi, None, out, seen); leaves(d.lo, None, out, seen)
    return out


def theory(*ds):
    """consistency axioms over the condition variables of the given diagrams: one value equals at most one
    constant; signs of values that differ by a known constant are monotone"""
    sup = set()
    for d in ds:
        support(d, sup, set())
    groups = {}; sgn = []
    for v in sorted(sup):
        i = _varinfo[v]
        if i is None or i[0] == "pos":
            if i is not None:
                sgn.append((v - 1, i[1][1]))
            continue
        if i[0] == "==" and isinstance(i[2], Leaf) and i[2].const is not None:
            groups.setdefault(i[1].fp, []).append((v, i[1], i[2].const))
        elif i[0] == "<0":
            sgn.append((v, i[1]))
    ax = ONE
    for fp, vs in groups.items():
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                ax = AND(ax, NOT_(AND(mk(vs[i][0], ONE, ZERO), mk(vs[j][0], ONE, ZERO))))
    sg = {v: l for v, l in sgn}
    def s3(v):
        return mk(v, ONE, ZERO), mk(v, ZERO, mk(v + 1, ONE, ZERO)), mk(v, ZERO, mk(v + 1, ZERO, ONE))
    items = sorted(sg.items())
    for fp, vs in groups.items():
        for v, l, c in vs:
            e = mk(v, ONE, ZERO)
            for w, d in items:
                for flip in (0, 1):
                    dd = l_neg(d) if flip else d
                    k = l_sub(dd, l).const
                    if k is None:
                        continue
                    val = c + k
                    if flip:
                        val = -val
                    n, p, z = s3(w)
                    ax = AND(ax, OR(NOT_(e), n if val < 0 else p if val > 0 else z))
                    if val == 0:
                        ax = AND(ax, OR(NOT_(z), e))
    for i in range(len(items)):
        for j in range(len(items)):
            if i == j:
                continue
            (v, d), (w, q) = items[i], items[j]
            k = l_sub(d, q).const
            if k is not None and k > 0:          # d = q + k
                n1, p1, z1 = s3(v); n2, p2, z2 = s3(w)
                ax = AND(ax, OR(n2, p1))         # q >= 0 -> d > 0
            if i < j:
                k = l_add(d, q).const
                if k is not None:                # d = k - q
                    n1, p1, z1 = s3(v); n2, p2, z2 = s3(w)
                    if k > 0:
                        ax = AND(ax, OR(p1, p2))
                    elif k < 0:
                        ax = AND(ax, OR(n1, n2))
    return ax


def care_leaves(d, g):
    """leaves of d reachable under guard g"""
    g = AND(g, theory(g, d))
    m = ite(g, d, BOT)
    r = leaves(m)
    r.pop(BOT.fp, None)
    return list(r.values())


BOT = atom("bot")


def support(d, out=None, seen=None):
    if out is None:
        out = set(); seen = set()
    if isinstance(d, Node) and d.id not in seen:
        seen.add(d.id); out.add(d.var)
        support(d.hi, out, seen); support(d.lo, out, seen)
    return out


def same(a, b, g=ONE):
    """equal under guard"""
    x, y = ite(g, a, BOT), ite(g, b, BOT)
    if x is y:
        return True
    t = theory(g, a, b)
    if t is ONE:
        return False
    g = AND(g, t)
    return ite(g, a, BOT) is ite(g, b, BOT)


def implies(a, b):
    x = AND(a, NOT_(b))
    return x is ZERO or AND(x, theory(x)) is ZERO


def feasible(g):
    return g is not ZERO and AND(g, theory(g)) is not ZERO


def exists(d, pred):
    """existentially quantify the vars satisfying pred(var index) out of boolean DD d"""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            h, l = go(x.hi), go(x.lo)
            if pred(x.var):
                r = OR(h, l)
            else:
                r = mk2(x.var, h, l)
            memo[x.id] = r
        return r
    return go(d)


def forall(d, pred):
    return NOT_(exists(NOT_(d), pred))


def var_leaf(v):
    """the leaves mentioned by condition variable v, as a list"""
    i = _varinfo[v] if v < len(_varinfo) else None
    if i is None:
        return []
    if i[0] == "pos":
        i = i[1]
    return [x for x in i[1:] if isinstance(x, Leaf)]


def showvar(v):
    i = _varinfo[v]
    if i is None:
        return f"v{v}"
    if i[0] == "pos":
        return f"{show(i[1][1])} > 0"
    if i[0] == "<0":
        return f"{show(i[1])} < 0"
    if len(i) < 3:
        return f"{i[1]} {i[0]}"
    return f"{show(i[1])} {i[0]} {show(i[2])}"


def showdd(d, n=6):
    if not isinstance(d, Node):
        return show(d)
    if n == 0:
        return "..."
    return f"[{showvar(d.var)} ? {showdd(d.hi, n-1)} : {showdd(d.lo, n-1)}]"


def cubes(d, target=ONE, limit=8):
    """a few satisfying partial assignments, printable"""
    out = []

    def go(x, acc):
        if len(out) >= limit:
            return
        if not isinstance(x, Node):
            if x is target:
                out.append(" && ".join(acc) or "true")
            return
        go(x.hi, acc + [showvar(x.var)]); go(x.lo, acc + ["!(" + showvar(x.var) + ")"])
    go(d, [])
    return out


def tree_contains(t, fp, depth=0, seen=None):
    """does expression tree mention leaf fp (syntactically, over the stored representative)"""
    if seen is None:
        seen = set()
    if isinstance(t, Leaf):
        if t.fp == fp:
            return True
        if t.fp in seen:
            return False
        seen.add(t.fp)
        return tree_contains(t.tree, fp, depth, seen)
    if isinstance(t, tuple):
        return any(tree_contains(x, fp, depth + 1, seen) for x in t if isinstance(x, (tuple, Leaf)))
    return False


def restrict_vars(d, dec):
    """d with the conditions for which dec(var) is True/False decided"""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            c = dec(x.var)
            r = memo[x.id] = (go(x.hi) if c else go(x.lo)) if c is not None else mk2(x.var, go(x.hi), go(x.lo))
        return r
    return go(d)


def constrain(d, c):
    """d where c holds, in few conditions: what d is elsewhere does not matter"""
    if c is ZERO or not isinstance(d, Node) or not isinstance(c, Node):
        return d
    memo = {}

    def go(x, c):
        if not isinstance(x, Node) or not isinstance(c, Node):
            return x
        k = (x.id, c.id)
        r = memo.get(k)
        if r is None:
            v = min(x.var, c.var)
            if c.var > v:
                r = mk2(v, go(x.hi, c), go(x.lo, c))
            elif x.var > v:
                r = go(x, OR(c.hi, c.lo))
            elif c.hi is ZERO:
                r = go(x.lo, c.lo)
            elif c.lo is ZERO:
                r = go(x.hi, c.hi)
            else:
                r = mk2(v, go(x.hi, c.hi), go(x.lo, c.lo))
            memo[k] = r
        return r
    return go(d, c)
