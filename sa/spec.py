"""Small vocabulary for stating expected value numbers and comparing them with computed ones."""
import re

import ev as EV
import gvn
from gvn import *


class X:
    """operator sugar over decision diagrams"""
    __slots__ = ("d",)

    def __init__(self, d):
        if isinstance(d, X):
            d = d.d
        if isinstance(d, (int, float)):
            d = gvn.const(d)
        self.d = d

    def __add__(s, o): return X(app2("add", l_add, s.d, X(o).d))
    def __radd__(s, o): return X(o) + s
    def __sub__(s, o): return X(app2("sub", l_sub, s.d, X(o).d))
    def __rsub__(s, o): return X(o) - s
    def __mul__(s, o): return X(app2("mul", l_mul, s.d, X(o).d))
    def __rmul__(s, o): return X(o) * s
    def __truediv__(s, o): return X(app2("div", l_div, s.d, X(o).d))
    def __neg__(s): return X(0) - s
    def __lt__(s, o): return X(dd_lt(s.d, X(o).d))
    def __gt__(s, o): return X(dd_lt(X(o).d, s.d))
    def __le__(s, o): return X(NOT_(dd_lt(X(o).d, s.d)))
    def __ge__(s, o): return X(NOT_(dd_lt(s.d, X(o).d)))
    def __and__(s, o): return X(AND(tob(s.d), tob(X(o).d)))
    def __or__(s, o): return X(OR(tob(s.d), tob(X(o).d)))
    def __invert__(s): return X(NOT(s.d))
    def eq(s, c): return X(app1("eqc", lambda l: eqc(l, c), s.d))
    def nz(s): return ~s.eq(0)

    def __repr__(s):
        return showdd(s.d)[:300]


def IF(c, a, b):
    return X(ite(tob(X(c).d), X(a).d, X(b).d))


def FN(name, *a):
    a = [X(x).d for x in a]
    if len(a) == 1:
        return X(app1(name, lambda l: l_fn(name, l), a[0]))
    return X(app2(name, lambda p, q: l_fn(name, p, q), a[0], a[1]))


def cos(x): return FN("cos", x)
def sin(x): return FN("sin", x)
def floor(x): return FN("floor", x)


PI = X(gvn.const(3.141592653589793))
TRUE = X(ONE)
FALSE = X(ZERO)


def txt(d, n=260):
    d = d.d if isinstance(d, X) else d
    if isinstance(d, tuple):
        return "agg"
    if d is None:
        return "none"
    return showdd(d, 4)[:n]


class Run:
    """one evaluation of a root function"""

    def __init__(self, prog, fn, opaque=(), args=None, state=None, assume=ONE, **kw):
        from core import AnalysisBroken
        self.prog = prog
        self.fn = fn if not isinstance(fn, str) else prog.get(fn)
        fu = kw.pop("force_unroll", 0)
        self.ev = EV.Evaluator(prog, opaque=opaque, **kw); self.ev.force_unroll = fu
        self.ret = self.ev.run(self.fn, args, state, assume)
        self.guard = self.ev.retguard
        self.events = self.ev.events
        self.st = self.ev.state

    def calls(self, rx):
        return [e for e in self.events if e.kind == "call" and re.search(rx, e.callee)]

    def stores(self):
        return [e for e in self.events if e.kind == "store"]

    def aborts(self):
        return [e for e in self.events if e.kind in ("abort", "noreturn")]

    def arg(self, n):
        return X(atom("arg", n, tree=("fn", self.fn.args[n]["n"] or f"arg{n}")))

    def outval(self, e, n, off=0, ty="double", size=8):
        """value written by call e through its pointer argument n"""
        if n not in e.outs:
            return None
        l, token = e.outs[n]
        st = EV.State()
        st2 = EV.State()
        self.ev.clobber(st2, l, token)
        return X(self.ev.load1(st2, padd(l, gvn.const(off)), ty, size, None))


def ld(prog_run, addr, off=0, ver=0):
    """initial content of memory at addr+off"""
    a = padd(X(addr).d, gvn.const(off))
    return X(atom("ld", a.fp, ver, tree=("fn", "ld", a)))


class Fields:
    """addresses and values of an object's attributes, resolved through its public getters (not through
    private member names), for an object pointer leaf"""

    def __init__(self, prog, cls, this):
        self.prog = prog; self.cls = cls; self.this = X(this).d

    def get(self, name, *args):
        f = self.prog.get(f"{self.cls}::{name}")
        e = EV.Evaluator(self.prog)
        return X(e.run(f, [self.this] + [X(a).d for a in args]))

    def arr(self, name, i, esz=8):
        a = self.get(name)
        return ld(None, a, i * esz)


def diff(a, b, g=ONE, limit=2):
    """printable witnesses of a != b under guard g"""
    a = X(a).d; b = X(b).d
    g = AND(g, theory(g, a, b))
    ne = app2("ne", lambda x, y: ZERO if x.fp == y.fp else ONE, ite(g, a, BOT), ite(g, b, BOT))
    return cubes(ne, ONE, limit)


def index_into(leaf, begin, esz):
    """index Leaf if `leaf` is an address begin + esz*index (+ constant), else None"""
    if not isinstance(leaf, Leaf):
        return None
    d = l_sub(leaf, X(begin).d)
    b, o = ptrparts(leaf)
    if b != ptrparts(X(begin).d)[0] and d.const is None:
        return None
    return l_div(d, gvn.const(esz))


def deref(leaf):
    """address Leaf a if leaf is the (initial) content of memory at a"""
    if isinstance(leaf, Leaf) and leaf.tree[0] == "fn" and leaf.tree[1] == "ld" and len(leaf.tree) >= 3 and isinstance(leaf.tree[2], Leaf):
        return leaf.tree[2]
    return None


def elem_index(leaf, container, esz):
    """index Leaf if leaf is the pointer stored in element [index] of the vector object at address `container`"""
    a = deref(leaf)
    if a is None:
        return None
    return index_into(a, ld(None, container, 0), esz)


def loop_of_it(R, itleaf):
    for k, v in R.ev.loopinfo.items():
        if v.get("it") is not None and v["it"].fp == itleaf.fp:
            return v
    return None


def backguard(info):
    g = ZERO
    for _, x, _ in info["back"]:
        g = OR(g, x)
    return g


def enum(prog, name):
    for k, t in prog.types.items():
        if k.endswith(name) and t.get("enums"):
            return dict(map(tuple, t["enums"]))
    from core import AnalysisBroken
    raise AnalysisBroken("enum vanished: " + name)


def setter_field(prog, cls, setter, argn=1):
    """offset (within the object) a setter stores its argument to"""
    R = Run(prog, f"{cls}::{setter}")
    for e in R.stores():
        b, o = ptrparts(e.args[0]) if isinstance(e.args[0], Leaf) else (None, None)
        if e.args[1] is R.arg(argn).d and b is not None and o.const is not None:
            return int(o.const)
    return None


def cur(R, addr, ty="double", size=8):
    """content of memory at addr in the final state"""
    return X(R.ev.load(R.st, X(addr).d, ty, size, None))


def subst(l, m, memo=None):
    """rebuild an expression leaf with sub-expressions (by fingerprint) replaced"""
    if memo is None:
        memo = {}
    if not isinstance(l, Leaf):
        return l
    if l.fp in m:
        return m[l.fp]
    if l.const is not None:
        return l
    r = memo.get(l.fp)
    if r is not None:
        return r
    t = l.tree
    if t[0] in ("+", "-", "*", "/") and len(t) == 3:
        a, b = subst(t[1], m, memo), subst(t[2], m, memo)
        if a is t[1] and b is t[2]:
            r = l
        else:
            r = {"+": l_add, "-": l_sub, "*": l_mul, "/": l_div}[t[0]](a, b)
    elif t[0] == "fn" and len(t) > 2 and all(isinstance(x, Leaf) for x in t[2:]) and t[1] in EV.MATH:
        a = [subst(x, m, memo) for x in t[2:]]
        r = l if all(x is y for x, y in zip(a, t[2:])) else l_fn(t[1], *a)
    else:
        r = l
    memo[l.fp] = r
    return r


def restrict(d, m):
    """decision diagram with every condition that becomes constant under the substitution decided"""
    memo = {}
    dec = {}

    def decide(v):
        if v in dec:
            return dec[v]
        i = gvn._varinfo[v]
        r = None
        if i is not None:
            if i[0] == "==":
                a, b = subst(i[1], m), subst(i[2], m)
                d = l_sub(a, b)
                if d.const is not None:
                    r = d.const == 0
            elif i[0] in ("<0", "pos"):
                x = subst(i[1] if i[0] == "<0" else i[1][1], m)
                if x.const is not None:
                    r = x.const < 0 if i[0] == "<0" else x.const > 0
        dec[v] = r
        return r

    def go(x):
        if not isinstance(x, Node):
            return x
        r = memo.get(x.id)
        if r is None:
            c = decide(x.var)
            if c is not None:
                r = go(x.hi if c else x.lo)
            else:
                r = gvn.mk2(x.var, go(x.hi), go(x.lo))
            memo[x.id] = r
        return r
    return go(d)
