"""Linear-inequality entailment over value numbers (Fourier-Motzkin elimination, exact rationals) and evaluation of
value numbers at sample points, used only to exhibit a witness for an inequality that is not entailed."""
import itertools
import math
from fractions import Fraction

import gvn
from gvn import *


class TooBig(Exception):
    pass


def linform(l, atoms):
    """leaf -> ({fp: coef}, const)"""
    if l.const is not None:
        return {}, Fraction(l.const)
    t = l.tree
    if t[0] in ("+", "-") and len(t) == 3:
        a, ca = linform(t[1], atoms); b, cb = linform(t[2], atoms)
        s = 1 if t[0] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t[0] == "*" and len(t) == 3:
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if x.const is not None:
                a, c = linform(y, atoms)
                return {k: v * x.const for k, v in a.items()}, c * x.const
    if t[0] == "/" and len(t) == 3 and t[2].const:
        a, c = linform(t[1], atoms)
        return {k: v / t[2].const for k, v in a.items()}, c / t[2].const
    atoms[l.fp] = l
    return {l.fp: Fraction(1)}, Fraction(0)


def isint_leaf(l, ints):
    return l.fp in ints or l.tree[:1] == ("fn",) and l.tree[1] in ("floor", "trunc", "ceil", "round", "rint", "idiv", "it", "rem")


class System:
    """constraints  sum coef*atom + c  <= 0 (or < 0)"""

    def __init__(self, ints=()):
        self.rows = []; self.atoms = {}; self.ints = set(ints); self.seen = set()

    def add(self, l, op):
        """leaf op 0, op in '<','<=','==','>','>='"""
        a, c = linform(l, self.atoms)
        self._row(a, c, op)
        self.expand()

    def _row(self, a, c, op):
        if op in (">", ">="):
            a = {k: -v for k, v in a.items()}; c = -c; op = "<" if op == ">" else "<="
        if op == "==":
            self._row(a, c, "<="); self._row({k: -v for k, v in a.items()}, -c, "<="); return
        a, c, strict = self.tighten(a, c, op == "<")
        self.rows.append((a, c, strict))

    def tighten(self, a, c, strict):
        """integer rounding of  sum + c <= 0  (or < 0)"""
        if a and all(isint_leaf(self.atoms[k], self.ints) for k in a):
            m = math.lcm(*[v.denominator for v in a.values()])
            g = math.gcd(*[int(v * m) for v in a.values()])
            a = {k: v * m / g for k, v in a.items()}
            b = -(c * m / g)
            b = (math.ceil(b) - 1) if strict else math.floor(b)
            return a, Fraction(-b), False
        return a, c, strict

    def expand(self):
        for fp in list(self.atoms):
            if fp in self.seen:
                continue
            self.seen.add(fp)
            l = self.atoms[fp]
            t = l.tree
            if t[0] != "fn" or len(t) < 3 or not isinstance(t[2], Leaf):
                continue
            if t[1] in ("floor", "trunc", "ceil", "round", "rint"):
                d = l_sub(l, t[2])          # floor(x)-x in (-1,0]
                a, c = linform(d, self.atoms)
                neg = {k: -v for k, v in a.items()}
                if t[1] in ("floor", "trunc"):      # truncation: of non-negative quantities (unsigned conversions)
                    self._row(a, c, "<="); self._row(neg, -c - 1, "<")
                elif t[1] == "ceil":
                    self._row(neg, -c, "<="); self._row(a, c - 1, "<")
                else:
                    h = Fraction(1, 2)
                    self._row(a, c - h, "<="); self._row(neg, -c - h, "<=")
                self.expand()
            elif t[1] == "idiv" and t[3].const and t[3].const > 0:
                n = t[3].const              # q <= x/n, q >= x/n - (n-1)/n for x >= 0
                a, c = linform(l_sub(l, l_div(t[2], t[3])), self.atoms)
                self._row(a, c, "<="); self._row({k: -v for k, v in a.items()}, -c - Fraction(n - 1) / n, "<=")
                self.expand()

    def infeasible(self):
        """no solution; integer rounding depends on the order of elimination: real unknowns first, then some orders of the others"""
        for o in range(4):
            try:
                if self._infeasible(o):
                    return True
            except TooBig:
                if o == 0:
                    raise
        return False

    def _infeasible(self, order):
        rows = list(self.rows)
        vars_ = {k for a, c, s in rows for k in a}
        while vars_:
            best = None
            for v in vars_:
                p = sum(1 for r in rows if r[0].get(v, 0) > 0); n = sum(1 for r in rows if r[0].get(v, 0) < 0)
                isint = isint_leaf(self.atoms[v], self.ints)
                key = (isint, p * n - p - n, v if order == 0 else -v) if order < 2 else (isint, v if order == 2 else -v)
                if best is None or key < best[0]:
                    best = (key, v)
            v = best[1]; vars_.discard(v)
            pos = [r for r in rows if r[0].get(v, 0) > 0]; neg = [r for r in rows if r[0].get(v, 0) < 0]
            rows = [r for r in rows if not r[0].get(v, 0)]
            seen = set()
            for a, c, s in pos:
                for b, d, u in neg:
                    x = -b[v]; y = a[v]
                    r = {}
                    for k, w in a.items():
                        r[k] = w * x
                    for k, w in b.items():
                        r[k] = r.get(k, 0) + w * y
                    r = {k: w for k, w in r.items() if w != 0}
                    cc = c * x + d * y
                    if r:
                        n = abs(next(iter(sorted(r.items())))[1])
                        r = {k: w / n for k, w in r.items()}; cc /= n
                    r, cc, st = self.tighten(r, cc, s or u)
                    key = (tuple(sorted(r.items())), cc, st)
                    if key in seen:
                        continue
                    seen.add(key)
                    if not r:
                        if cc > 0 or (cc == 0 and st):
                            return True
                        continue
                    rows.append((r, cc, st))
            if len(rows) > 4000:
                raise TooBig()
            for a, c, s in rows:
                if not a and (c > 0 or (c == 0 and s)):
                    return True
        return any(not a and (c > 0 or (c == 0 and s)) for a, c, s in rows)

    def copy(self):
        s = System(self.ints)
        s.rows = list(self.rows); s.atoms = dict(self.atoms); s.seen = set(self.seen)
        return s

    def entails(self, l, op):
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
        if op == "==":
            return self.entails(l, "<=") and self.entails(l, ">=")
        s = self.copy()
        s.add(l, neg[op])
        return s.infeasible()


def addlit(S, v, val):
    """add the condition variable v (of a decision diagram) with truth value val to the system"""
    i = gvn._varinfo[v]
    if i is None:
        return
    if i[0] == "<0":
        S.add(i[1], "<" if val else ">=")
    elif i[0] == "pos":
        S.add(i[1][1], ">" if val else "<=")
    elif i[0] == "==" and val and isinstance(i[2], Leaf):
        S.add(l_sub(i[1], i[2]), "==")


def paths(d, limit=3000):
    """[(literals, leaf)] of a decision diagram"""
    out = []

    def go(x, acc):
        if not isinstance(x, Node):
            out.append((acc, x))
            if len(out) > limit:
                raise TooBig()
            return
        go(x.hi, acc + [(x.var, True)]); go(x.lo, acc + [(x.var, False)])
    go(d, [])
    return out


class Unknown(Exception):
    pass


def value(l, m, memo=None):
    """numeric value of a leaf at a sample point m: {fp: Fraction}"""
    if l.const is not None:
        return Fraction(l.const)
    if l.fp in m:
        return m[l.fp]
    t = l.tree
    if t[0] in ("+", "-", "*", "/") and len(t) == 3:
        a, b = value(t[1], m), value(t[2], m)
        if t[0] == "/" and b == 0:
            raise Unknown("division by zero")
        return a + b if t[0] == "+" else a - b if t[0] == "-" else a * b if t[0] == "*" else a / b
    if t[0] == "fn" and len(t) > 2 and all(isinstance(x, Leaf) for x in t[2:]):
        a = [value(x, m) for x in t[2:]]
        f = t[1]
        if f == "floor": return Fraction(math.floor(a[0]))
        if f == "ceil": return Fraction(math.ceil(a[0]))
        if f == "trunc": return Fraction(math.trunc(a[0]))
        if f == "round": return Fraction(math.floor(abs(a[0]) + Fraction(1, 2))) * (1 if a[0] >= 0 else -1)
        if f == "fabs": return abs(a[0])
        if f == "idiv" and a[1] != 0: return Fraction(math.trunc(a[0] / a[1]))
        if f == "rem" and a[1] != 0: return a[0] - a[1] * math.trunc(a[0] / a[1])
    raise Unknown(show(l)[:200])


def lit_value(v, m):
    i = gvn._varinfo[v]
    if i is not None:
        if i[0] == "<0":
            return value(i[1], m) < 0
        if i[0] == "pos":
            return value(i[1][1], m) > 0
        if i[0] == "==" and isinstance(i[2], Leaf):
            return value(i[1], m) == value(i[2], m)
    raise Unknown(gvn.showvar(v))


def at(d, m):
    """leaf of decision diagram d selected at sample point m"""
    while isinstance(d, Node):
        d = d.hi if lit_value(d.var, m) else d.lo
    return d
