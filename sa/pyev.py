"""Abstract evaluation of Python sources: value-numbered terms (gvn), arrays as functions of their indices, one trace for each combination of undecided conditions"""
import ast
import warnings
import pathlib
import gvn
from gvn import Leaf, H, mkleaf, const, l_add, l_sub, l_mul, l_div, l_neg, l_fn, atom, P, ZERO, ONE
import core


class Unknown(Exception):
    """construct the evaluation does not understand"""


class Return(Exception):
    def __init__(self, v): self.v = v


class Break(Exception): pass
class Continue(Exception): pass


class Raised(Exception):
    def __init__(self, name, loc, v=None): self.name = name; self.loc = loc; self.v = v


class Ext:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


class Mod:
    def __init__(self, path, name, tree):
        self.path = path; self.name = name; self.tree = tree; self.env = {}; self.done = False
    def __repr__(self): return self.name


class Cls:
    def __init__(self, node, env, mod, name=None):
        self.node = node; self.env = env; self.mod = mod; self.name = name or node.name; self.attrs = None
    def __repr__(self): return self.name


class Fn:
    def __init__(self, node, env, mod, qual, self_=None, static=False):
        self.node = node; self.env = env; self.mod = mod; self.qual = qual; self.self_ = self_; self.static = static
    def bind(self, o): return Fn(self.node, self.env, self.mod, self.qual, o)
    def __repr__(self): return self.qual


class BoundOpaque:
    """method of an object whose body is not looked into"""
    def __init__(self, fn, o): self.fn = fn; self.o = o


class Obj:
    def __init__(self, cls, ident): self.cls = cls; self.attrs = {}; self.ident = ident; self.leaf = atom("obj", str(cls), ident, tree=("fn", f"{cls}"))
    def __repr__(self): return f"<{self.cls}>"


class Native:
    """an object of a model written in Python: get, set, del_, has, attr, enter, exit, call"""
    leaf = None
    def get(self, m, i, node): raise Unknown(f"subscript of {type(self).__name__}")
    def set(self, m, i, v, node): raise Unknown(f"subscript of {type(self).__name__} set")
    def del_(self, m, i, node): raise Unknown(f"subscript of {type(self).__name__} deleted")
    def has(self, m, i): raise Unknown(f"in {type(self).__name__}")
    def attr(self, m, n, node): raise Unknown(f"attribute {n} of {type(self).__name__}")
    def setattr(self, m, n, v, node): raise Unknown(f"attribute {n} of {type(self).__name__} set")
    def call(self, m, args, kw, node): raise Unknown(f"call of {type(self).__name__}")
    def keys(self, m): return None
    def enter(self, m, node): return self
    def exit(self, m, node): pass


class NatFn(Native):
    """a function of a model: f(m, args, kw, node)"""
    def __init__(self, f): self.f = f; self.leaf = atom("natfn", id(f))
    def call(self, m, args, kw, node): return self.f(m, args, kw, node)


class PList:
    def __init__(self, items): self._items = list(items); self.bad = None
    @property
    def items(self):
        if self.bad:
            raise Unknown(self.bad)
        return self._items


class PDict:
    def __init__(self, items): self.items = dict(items)


class Range:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s


class Slice:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s
    def full(self): return self.a is None and self.b is None and self.s is None


class IX:
    """index arrays, one for each axis"""
    def __init__(self, arrs): self.arrs = arrs


class B:
    """condition: lt: term < 0, eq: term == 0, t: holds (unknown)"""
    def __init__(self, kind, l, neg=False): self.kind = kind; self.l = l; self.neg = neg
    def __invert__(self): return B(self.kind, self.l, not self.neg)


class Arr:
    """array or sequence: shape (terms; None if the rank is unknown) and the element at given indices"""
    def __init__(self, shape, elem, kind="array", src=None):
        self.shape = shape; self.base = elem; self.patches = []; self.kind = kind; self.src = src

    def snap(self):
        ps = list(self.patches); base = self.base
        def elem(idx):
            for match, val in reversed(ps):
                r = match(idx)
                if r is not None and r is not False:
                    return val(r)
            return base(idx)
        return elem

    def at(self, idx):
        return self.snap()(idx)


def S(s):
    return mkleaf(H("pystr", s), ("fn", repr(s)))


NONE = mkleaf(H("pynone"), ("fn", "None"))
TRUE = mkleaf(H("pytrue"), ("fn", "True")); FALSE = mkleaf(H("pyfalse"), ("fn", "False"))


def leaf(v):
    """a value as a term"""
    if isinstance(v, Leaf):
        return v
    if v is None:
        return NONE
    if v is True or v is False:
        return TRUE if v else FALSE
    if isinstance(v, str):
        return S(v)
    if isinstance(v, (int, float)):
        return const(v)
    if isinstance(v, (Obj, Native)):
        return v.leaf
    if isinstance(v, Arr):
        if v.src is not None:
            return v.src
        try:
            ix = [atom("any", i, tree=("fn", f"i{i}")) for i in range(len(v.shape))] if v.shape is not None else [atom("any", 0)]
            return l_fn("array", *(v.shape or []), leaf(v.at(ix)))
        except Exception:
            return atom("arr", id(v), tree=("fn", "array"))
    if v is Ellipsis_:
        return S("...")
    if isinstance(v, (tuple, PList)):
        return l_fn("seq", *[leaf(x) for x in (v if isinstance(v, tuple) else v.items)])
    if isinstance(v, PDict):
        return l_fn("dict", *[x for k, w in v.items.items() for x in (leaf(k), leaf(w))])
    if isinstance(v, Slice):
        return l_fn("slice", leaf(v.a), leaf(v.b), leaf(v.s))
    if isinstance(v, B):
        return l_fn("not" if v.neg else "cond", S(v.kind), v.l)
    if isinstance(v, Range):
        return l_fn("range", v.a, v.b, v.s)
    if isinstance(v, IX):
        return l_fn("ix", *[leaf(a) for a in v.arrs])
    if isinstance(v, (Ext, Fn, Cls, Mod)):
        return S(repr(v))
    if isinstance(v, BoundOpaque):
        return l_fn("method", S(v.fn.qual), leaf(v.o))
    raise Unknown(f"value {type(v).__name__}")


class Event:
    def __init__(self, m, kind, name, args, kw, res, node):
        self.kind = kind; self.name = name; self.args = args; self.kw = kw; self.res = res
        self.loops = tuple(m.loops); self.line = getattr(node, "lineno", 0); self.file = m.file(); self.n = len(m.events)
        self.lits = dict(m.signs), dict(m.facts)

    def loc(self):
        return f"{self.file}:{self.line}"


class Program:
    """the Python package under the root, module by module"""
    def __init__(self, root=None):
        self.root = pathlib.Path(root or core.REPO)
        self.mods = {}
        for f in sorted((self.root / "geomodelgrids").rglob("*.py")):
            rel = f.relative_to(self.root)
            if rel.parts[1] == "scripts":
                continue
            name = ".".join(rel.with_suffix("").parts)
            if name.endswith(".__init__"):
                name = name[:-9]
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(f.read_text(), str(f))
            except SyntaxError as e:
                raise core.AnalysisBroken(f"{rel} does not parse: {e}")
            self.mods[name] = Mod(str(rel), name, tree)

    def mod(self, name):
        if name not in self.mods:
            raise core.AnalysisBroken(f"module {name} vanished")
        return self.mods[name]


class M:
    """one trace"""
    LIMIT = 200000

    def __init__(self, prog, dec=(), opaque=(), models=None, assume=None):
        self.prog = prog; self.dec = list(dec); self.pos = 0; self.trail = []
        self.signs = {}; self.facts = {}; self.events = []; self.loops = []; self.uid = 0; self.stack = []
        self.opaque = set(opaque); self.models = models or {}; self.steps = 0; self.notes = []
        self.envs = {}
        self.loopinfo = {}

    # ---- conditions
    def canon(self, d):
        n = (-d.fp) % P
        return (n, True) if n < d.fp else (d.fp, False)

    def poss(self, d):
        """signs a term can have"""
        if d.const is not None:
            return {-1 if d.const < 0 else 1 if d.const > 0 else 0}
        k, f = self.canon(d)
        r = {-1, 0, 1}
        if k in self.signs:
            r = set(self.signs[k][0])
        if f:
            r = {-x for x in r}
        for kk, (ss, l) in self.signs.items():
            for w, flip in ((l, 1), (l_neg(l), -1)):
                c = l_sub(d, w).const
                if c is None or kk == k:
                    continue
                s2 = {x * flip for x in ss}
                if c >= 0 and s2 <= {1}:
                    r &= {1}
                elif c >= 0 and s2 <= {0, 1}:
                    r &= ({1} if c > 0 else {0, 1})
                elif c <= 0 and s2 <= {-1}:
                    r &= {-1}
                elif c <= 0 and s2 <= {-1, 0}:
                    r &= ({-1} if c < 0 else {-1, 0})
        return r

    def setsign(self, d, s):
        k, f = self.canon(d)
        self.signs[k] = (frozenset({-x for x in s} if f else s), l_neg(d) if f else d)

    def choose(self, what):
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True; self.dec.append(True)
        self.pos += 1
        self.trail.append((what, v))
        if len(self.trail) > 60:
            raise Unknown("too many undecided conditions")
        return v

    def holds(self, b):
        """True, False, or None if undecided"""
        if isinstance(b, bool):
            return b
        if b.kind == "t":
            r = self.facts.get(b.l.fp)
        else:
            p = self.poss(b.l); want = {-1} if b.kind == "lt" else {0}
            r = True if p <= want else False if not (p & want) else None
        return None if r is None else r != b.neg

    def decide(self, b):
        if isinstance(b, bool):
            return b
        r = self.holds(b)
        if r is not None:
            return r
        v = self.choose(b)
        self.learn(b, v)
        return v

    def learn(self, b, v=True):
        if isinstance(b, bool):
            return
        v = v != b.neg
        if b.kind == "t":
            self.facts[b.l.fp] = v; return
        want = {-1} if b.kind == "lt" else {0}
        p = self.poss(b.l)
        self.setsign(b.l, (p & want) if v else (p - want))

    def truth(self, v):
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Leaf):
            if v.const is not None:
                return v.const != 0
            if v is NONE or v is FALSE:
                return False
            return B("eq", v, True)
        if isinstance(v, (tuple,)):
            return bool(v)
        if isinstance(v, PList):
            return bool(v.items)
        if isinstance(v, PDict):
            return bool(v.items)
        if isinstance(v, Arr) and v.kind == "array":
            self.note("truth of an array")
        return True

    # ---- helpers
    def note(self, w):
        self.notes.append(w)

    def file(self):
        return self.stack[-1].mod.path if self.stack else ""

    def fresh(self, what, *a):
        self.uid += 1
        return mkleaf(H("fresh", what, self.uid, tuple(self.loops), tuple(x.fp for x in a)), ("fn", what) + a)

    def emit(self, kind, name, args, kw, res, node):
        e = Event(self, kind, name, args, kw, res, node)
        self.events.append(e)
        return e

    # ---- modules
    def menv(self, mod):
        if mod.name in self.envs:
            return self.envs[mod.name]
        env = self.envs[mod.name] = {"__name__": mod.name, "__file__": mod.path}
        self.stack.append(Fn(None, env, mod, mod.name))
        try:
            for s in mod.tree.body:
                if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                    self.stmt(s, [env])
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    try:
                        self.stmt(s, [env])
                    except Unknown:
                        pass
        finally:
            self.stack.pop()
        return env

    def get(self, modname, name):
        env = self.menv(self.prog.mod(modname))
        if name not in env:
            raise core.AnalysisBroken(f"{modname}.{name} vanished")
        return env[name]

    def modval(self, name):
        if name in self.prog.mods:
            return self.prog.mods[name]
        return Ext(name)

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unknown("too long")
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unknown(f"statement {k}")
        return f(s, env)

    def s_Pass(self, s, env): pass
    def s_Global(self, s, env): raise Unknown("global")
    def s_Nonlocal(self, s, env): raise Unknown("nonlocal")
    def s_Break(self, s, env): raise Break()
    def s_Continue(self, s, env): raise Continue()

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env[0][a.asname] = self.modval(a.name)
            else:
                env[0][a.name.split(".")[0]] = self.modval(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            cur = self.stack[-1].mod.name.split(".") if self.stack else []
            isp = self.stack and self.stack[-1].mod.path.endswith("__init__.py")
            up = s.level - (1 if isp else 0)
            base = ".".join((cur[:len(cur) - up] if up else cur) + ([base] if base else []))
        for a in s.names:
            full = f"{base}.{a.name}"
            if full in self.prog.mods:
                v = self.prog.mods[full]
            elif base in self.prog.mods:
                e = self.menv(self.prog.mods[base])
                if a.name not in e:
                    v = Ext(full); self.note(f"{full} is not defined")
                else:
                    v = e[a.name]
            else:
                v = Ext(full)
            env[0][a.asname or a.name] = v

    def s_FunctionDef(self, s, env):
        q = s.name
        if self.stack and self.stack[-1].node is not None:
            q = self.stack[-1].qual + "." + s.name
        env[0][s.name] = Fn(s, list(env), self.stack[-1].mod, q)

    def s_ClassDef(self, s, env):
        env[0][s.name] = Cls(s, list(env), self.stack[-1].mod)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ex(s.value, env)

    def s_Assign(self, s, env):
        v = self.ex(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value, env), env)

    def s_AugAssign(self, s, env):
        a = self.ex(s.target, env); b = self.ex(s.value, env)
        v = self.binop(s.op, a, b, s)
        if isinstance(a, Arr) and isinstance(s.target, ast.Name):
            if not isinstance(v, Arr):
                raise Unknown("array changed in place")
            snap = v.snap(); a.patches = [(lambda idx: [idx], lambda r, snap=snap: snap(r[0]))]
            return
        self.assign(s.target, v, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[0][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Starred) for x in t.elts):
            if isinstance(v, PList):
                v = tuple(v.items)
            if not isinstance(v, tuple):
                raise Unknown("unpacking")
            k = next(j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)); r = len(t.elts) - k - 1
            if len(v) < len(t.elts) - 1:
                raise Raised("ValueError", self.at(t))
            for x, y in zip(t.elts[:k], v[:k]):
                self.assign(x, y, env)
            self.assign(t.elts[k].value, PList(v[k:len(v) - r]), env)
            for x, y in zip(t.elts[k + 1:], v[len(v) - r:] if r else ()):
                self.assign(x, y, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, PList):
                v = tuple(v.items)
            if isinstance(v, tuple):
                if len(v) != len(t.elts):
                    raise Raised("ValueError", self.at(t))
                for x, y in zip(t.elts, v):
                    self.assign(x, y, env)
            elif isinstance(v, Arr) and v.shape is not None:
                for i, x in enumerate(t.elts):
                    self.assign(x, self.index(v, const(i), t), env)
            elif isinstance(v, Leaf):
                for i, x in enumerate(t.elts):
                    self.assign(x, l_fn("[]", v, const(i)), env)
            else:
                raise Unknown("unpacking")
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, env)
            if isinstance(o, Native):
                o.setattr(self, t.attr, v, t)
            elif isinstance(o, Obj):
                o.attrs[t.attr] = v
                self.emit("setattr", t.attr, [o, v], {}, None, t)
            else:
                self.emit("setattr", t.attr, [o, v], {}, None, t)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env); i = self.ex(t.slice, env)
            self.setitem(o, i, v, t)
        else:
            raise Unknown("assignment")

    def at(self, n):
        return f"{self.file()}:{getattr(n, 'lineno', 0)}"

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ex(t.value, env); i = self.ex(t.slice, env)
                if isinstance(o, Native):
                    o.del_(self, i, t)
                    continue
                if isinstance(o, PDict) and isinstance(i, str):
                    if i not in o.items:
                        raise Raised("KeyError", self.at(t), i)
                    del o.items[i]
                self.emit("delitem", "del", [o, i], {}, None, t)
            elif isinstance(t, ast.Name):
                env[0].pop(t.id, None)

    def s_Return(self, s, env):
        raise Return(self.ex(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        if self.decide(self.truth(self.ex(s.test, env))):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.decide(self.truth(self.ex(s.test, env))):
            raise Raised("AssertionError", self.at(s))

    def s_Raise(self, s, env):
        name = "Exception"; v = None
        if s.exc is not None:
            c = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = c.id if isinstance(c, ast.Name) else getattr(c, "attr", "Exception")
            v = self.ex(s.exc, env)
        raise Raised(name, self.at(s), v)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    names = [] if h.type is None else [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not names or e.name in names or "Exception" in names or "BaseException" in names:
                        if h.name:
                            env[0][h.name] = self.fresh("exception")
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        vs = []
        for it in s.items:
            v = self.ex(it.context_expr, env)
            vs.append(v)
            if isinstance(v, Native):
                v = v.enter(self, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        finally:
            for v in reversed(vs):
                if isinstance(v, Native):
                    v.exit(self, s)
                    continue
                self.emit("exit", "exit", [v], {}, None, s)

    def s_While(self, s, env):
        t = self.truth(self.ex(s.test, env))
        if self.holds(t) is False:
            return
        raise Unknown("while loop")

    def seq(self, it, node):
        """elements of something that is finite and known, or None"""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, PList):
            return list(it.items)
        if isinstance(it, PDict):
            return list(it.items)
        if isinstance(it, Native):
            return it.keys(self)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Range) and all(x.const is not None for x in (it.a, it.b, it.s)):
            r = range(int(it.a.const), int(it.b.const), int(it.s.const))
            if len(r) <= 12:
                return [const(x) for x in r]
        if isinstance(it, Arr) and it.shape and it.shape[0].const is not None and it.shape[0].const <= 12:
            return [self.index(it, const(i), node) for i in range(int(it.shape[0].const))]
        if isinstance(it, Zip):
            ss = [self.seq(x, node) for x in it.its]
            if all(x is not None for x in ss):
                return [tuple(x) for x in zip(*ss)]
        return None

    def element(self, it, i, node):
        """element number i of something iterated over"""
        if isinstance(it, Range):
            return l_add(it.a, l_mul(i, it.s))
        if isinstance(it, Arr):
            return self.index(it, i, node)
        if isinstance(it, Zip):
            return tuple(self.element(x, i, node) if not isinstance(x, Count) else l_add(x.a, i) for x in it.its)
        if isinstance(it, Count):
            return l_add(it.a, i)
        if isinstance(it, Leaf):
            return l_fn("item", it, i)
        if isinstance(it, Obj):
            return l_fn("item", it.leaf, i)
        if isinstance(it, (tuple, PList)):
            return self.index(it, i, node)
        raise Unknown(f"iteration over {type(it).__name__}")

    def s_For(self, s, env):
        it = self.ex(s.iter, env)
        xs = self.seq(it, s)
        if xs is not None:
            for x in xs:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Break:
                    return
                except Continue:
                    continue
            self.block(s.orelse, env)
            return
        lid = ("loop", self.file(), len(self.loopinfo))
        i = atom("it", lid[1], lid[2], tree=("fn", f"n{lid[2]}"))
        self.loopinfo[lid] = {"it": i, "over": it, "node": s}
        saved = dict(env[0])
        self.loops.append(lid)
        keep = dict(self.signs), dict(self.facts)
        self.learn(B("lt", i, True))
        outer = getattr(self, "grown", []); self.grown = []; ntrail = len(self.trail)
        self.muts = getattr(self, "muts", [])
        mark = len(self.muts)
        carried = [n for n in assigned(s.body) if n in env[0] and n not in names_of(s.target)]
        for n in carried:
            if not isinstance(env[0][n], (Fn, Cls, Mod, Ext)):
                env[0][n] = atom("loopval", lid[2], n, tree=("fn", f"value of {n} in the loop"))
        ended = False
        pre = {}
        try:
            self.assign(s.target, self.element(it, i, s), env)
            self.block(s.body, env)
        except Continue:
            pass
        except Break:
            ended = True
        finally:
            self.loops.pop()
            self.signs, self.facts = keep
            grown, self.grown = self.grown, outer
        muts = self.muts[mark:]; del self.muts[mark:]
        for a, idx, pos, before in muts:
            self.loopwrite(a, idx, before, s, env, saved, i, it)
        for n in assigned(s.body) + names_of(s.target):
            if n in saved or n in env[0]:
                v = env[0].get(n)
                if isinstance(v, (Leaf, B)) or n in carried:
                    env[0][n] = atom("after", lid[2], n, tree=("fn", f"{n} after the loop"))
        for l in {id(x): x for x in grown}.values():
            l.bad = "list grown in a loop"
            if sum(x is l for x in grown) == 1 and len(l._items) == 1 and len(self.trail) == ntrail and not ended and not self.loops:
                for n in [n for n, v in env[0].items() if v is l]:
                    env[0][n] = self.appended(n, s, env, saved, it)
            elif self.loops:
                self.grown.append(l)
        if not ended:
            self.block(s.orelse, env) if s.orelse else None

    def appended(self, n, s, env, saved, it):
        """list made by appending once in every pass of a loop"""
        m = self; stk = list(self.stack); rest = list(env[1:])
        def elem(ix):
            en = [dict(saved)] + rest
            l = en[0][n] = PList([])
            was, m.stack = m.stack, list(stk)
            ev, m.events = m.events, []
            try:
                m.assign(s.target, m.element(it, ix[0], s), en)
                try:
                    m.block(s.body, en)
                except Continue:
                    pass
                if len(l.items) != 1:
                    raise Unknown("list grown in a loop")
                return l.items[0]
            finally:
                m.stack = was; m.events = ev
        return Arr([self.length(it)], elem, kind="list")

    def loopwrite(self, a, idx, before, s, env, saved, i, it):
        """a write in a loop: the element at the loop's index, computed for that index"""
        off = it.a if isinstance(it, Range) and it.s.const == 1 else ZERO
        pos = [k for k, x in enumerate(idx) if isinstance(x, Leaf) and x.fp == l_add(off, i).fp]
        if len(pos) != 1 or isinstance(it, (Leaf, Obj)):
            a.patches = [(lambda x: [x], lambda r: (_ for _ in ()).throw(Unknown("array written in a loop")))]
            return
        pos = pos[0]
        m = self
        a.patches = list(before)
        busy = []
        def match(ix):
            v = ix[pos]
            if isinstance(it, Range):
                if it.s.const != 1:
                    return None
                if not (it.a.const == 0) and m.holds(B("lt", l_sub(v, it.a))) is not False:
                    return False if m.holds(B("lt", l_sub(v, it.a))) else (_ for _ in ()).throw(Unknown("range of a loop"))
                if not (a.shape is not None and it.b.fp == a.shape[pos].fp):
                    r = m.holds(B("lt", l_sub(v, it.b)))
                    if r is not True:
                        return False if r is False else (_ for _ in ()).throw(Unknown("range of a loop"))
            return [ix]
        def value(r):
            ix = r[0]
            was = list(a.patches); e0 = dict(env[0])
            a.patches = list(before)
            env[0].clear(); env[0].update(saved)
            ev = m.events; m.events = []
            try:
                m.assign(s.target, m.element(it, l_sub(ix[pos], off), s), env)
                try:
                    m.block(s.body, env)
                except Continue:
                    pass
                return a.at(ix)
            finally:
                a.patches = was; env[0].clear(); env[0].update(e0); m.events = ev
        a.patches = list(before) + [(match, value)]

    # ---- expressions
    def ex(self, e, env):
        self.steps += 1
        k = type(e).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unknown(f"expression {k}")
        return f(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return const(v)
        if v is ...:
            return Ellipsis_
        return S(repr(v))

    def e_Name(self, e, env):
        for d in env:
            if e.id in d:
                return d[e.id]
        if e.id in BUILTINS:
            return Ext(e.id)
        self.emit("undefined", e.id, [], {}, None, e)
        raise Raised("NameError", self.at(e), e.id)

    def e_Tuple(self, e, env):
        return tuple(self.items(e.elts, env))

    def items(self, elts, env):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.ex(x.value, env), x)
                if s is None:
                    raise Unknown("unpacking")
                r += s
            else:
                r.append(self.ex(x, env))
        return r

    def e_List(self, e, env):
        return PList(self.items(e.elts, env))

    def e_Set(self, e, env):
        return PList(self.items(e.elts, env))

    def e_Dict(self, e, env):
        r = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unknown("unpacking")
            k = self.ex(k, env)
            r[k if isinstance(k, (str, bool)) or k is None else leaf(k)] = self.ex(v, env)
        return PDict(r)

    def e_JoinedStr(self, e, env):
        vs = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ex(x.value, env)
                try:
                    vs.append(leaf(v))
                except Unknown:
                    vs.append(S("?"))
            else:
                vs.append(S(x.value))
        if all(x.tree[1].startswith("'") for x in vs):
            return "".join(ast.literal_eval(x.tree[1]) for x in vs)
        return l_fn("text", *vs)

    def e_Starred(self, e, env):
        raise Unknown("starred")

    def e_Slice(self, e, env):
        g = lambda x: self.ex(x, env) if x is not None else None
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def e_IfExp(self, e, env):
        return self.ex(e.body if self.decide(self.truth(self.ex(e.test, env))) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values[:-1]:
            v = self.ex(x, env)
            t = self.decide(self.truth(v))
            if t != isinstance(e.op, ast.And):
                return v if not isinstance(v, B) else t
        return self.ex(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.ex(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else ~t
        if isinstance(e.op, ast.USub):
            return self.map1(l_neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, B):
                return ~v
        raise Unknown("operator")

    def map1(self, f, v):
        if isinstance(v, Arr):
            s = v.snap()
            return Arr(v.shape, lambda ix: f(num(s(ix))))
        return f(num(v))

    def binop(self, op, a, b, node):
        k = type(op).__name__
        if isinstance(a, str) or isinstance(b, str):
            if k == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if k == "Mod" and isinstance(a, str):
                return l_fn("text", S(a), leaf(b))
            return l_fn("text" + k, leaf(a), leaf(b))
        if k == "Add" and isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return PList((a.items if isinstance(a, PList) else list(a)) + (b.items if isinstance(b, PList) else list(b)))
        if k == "Mult" and isinstance(a, PList) and isinstance(b, Leaf) and b.const is not None:
            return PList(a.items * int(b.const))
        f = OPS.get(k)
        if f is None:
            raise Unknown(f"operator {k}")
        return self.map2(f, a, b)

    def map2(self, f, a, b):
        if isinstance(a, (PList, tuple)) and isinstance(b, Arr):
            a = self.toarr(a)
        if isinstance(b, (PList, tuple)) and isinstance(a, Arr):
            b = self.toarr(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            sa, ra = (a.snap(), a.shape) if isinstance(a, Arr) else ((lambda ix, a=a: num(a)), [])
            sb, rb = (b.snap(), b.shape) if isinstance(b, Arr) else ((lambda ix, b=b: num(b)), [])
            if ra is None or rb is None:
                raise Unknown("array of unknown rank")
            n = max(len(ra), len(rb)); shape = []
            for k in range(n):
                x = ra[k - n + len(ra)] if k - n + len(ra) >= 0 else None
                y = rb[k - n + len(rb)] if k - n + len(rb) >= 0 else None
                shape.append(y if x is None or (x.const == 1 and y is not None) else x)
                if x is not None and y is not None and x.const != 1 and y.const != 1 and x.fp != y.fp:
                    self.mismatch(x, y)
            def pick(r, ix):
                ix = ix[n - len(r):]
                return [ZERO if r[k].const == 1 else ix[k] for k in range(len(r))]
            return Arr(shape, lambda ix: f(num(sa(pick(ra, ix))), num(sb(pick(rb, ix)))))
        return f(num(a), num(b))

    def mismatch(self, x, y):
        d = l_sub(x, y)
        if d.const is not None:
            raise Raised("ValueError", self.stack[-1].qual if self.stack else "", "shapes")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ex(e.left, env), self.ex(e.right, env), e)

    def e_Compare(self, e, env):
        l = self.ex(e.left, env); r = True
        for op, c in zip(e.ops, e.comparators):
            w = self.ex(c, env)
            r = self.compare(op, l, w)
            if len(e.ops) > 1:
                r = self.decide(r)
                if not r:
                    return False
            l = w
        return r

    def compare(self, op, a, b):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            if isinstance(a, Leaf) and a not in (NONE, TRUE, FALSE) and b is None:
                r = B("t", l_fn("isnone", a)) if a.const is None and not numeric(a) else False
            elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                x = NONE if a is None else a; y = NONE if b is None else b
                if isinstance(x, Leaf) and isinstance(y, Leaf) and not (x is NONE and y is NONE):
                    r = x.fp == y.fp
                else:
                    r = (a is None or a is NONE) and (b is None or b is NONE) if a is None or b is None else a is b
            elif isinstance(a, (Obj, Ext, Cls)) and isinstance(b, (Obj, Ext, Cls)):
                r = a is b or repr(a) == repr(b)
            else:
                r = B("t", l_fn("is", leaf(a), leaf(b)))
            return r if k == "Is" else ((not r) if isinstance(r, bool) else ~r)
        if k in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if k == "In" else ((not r) if isinstance(r, bool) else ~r)
        if k in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if k == "Eq" else ((not r) if isinstance(r, bool) else ~r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.map2(lambda x, y: l_fn("cmp" + k, x, y), a, b)
        x, y = num(a), num(b)
        if k == "Lt":
            return lt(x, y)
        if k == "Gt":
            return lt(y, x)
        r = lt(y, x) if k == "LtE" else lt(x, y)
        return (not r) if isinstance(r, bool) else ~r

    def equal(self, a, b):
        if isinstance(a, (str, bool)) and isinstance(b, (str, bool)) or a is None or b is None:
            if isinstance(a, Leaf) or isinstance(b, Leaf):
                return B("t", l_fn("isnone", a if isinstance(a, Leaf) else b))
            return a == b
        if isinstance(a, (Ext, Cls, Fn)) or isinstance(b, (Ext, Cls, Fn)):
            if isinstance(a, (Ext, Cls, Fn)) and isinstance(b, (Ext, Cls, Fn)):
                return repr(a) == repr(b)
            return B("eq", l_sub(*sorted((leaf(a), leaf(b)), key=lambda l: l.fp)))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return B("t", l_fn("equal", leaf(a), leaf(b)))
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            a = list(a) if isinstance(a, tuple) else a.items; b = list(b) if isinstance(b, tuple) else b.items
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.decide(self.equal(x, y)):
                    return False
            return True
        d = l_sub(leaf(a), leaf(b))
        if d.const is not None:
            return d.const == 0
        return B("eq", d)

    def contains(self, a, b):
        if isinstance(b, (tuple, PList)):
            for x in (b if isinstance(b, tuple) else b.items):
                if self.decide(self.equal(a, x)):
                    return True
            return False
        if isinstance(b, PDict):
            if isinstance(a, str):
                return a in b.items
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, Native):
            return b.has(self, a)
        return B("t", l_fn("in", leaf(a), leaf(b)))

    def e_Attribute(self, e, env):
        return self.attr(self.ex(e.value, env), e.attr, e)

    def attr(self, o, n, node):
        if isinstance(o, Native):
            return o.attr(self, n, node)
        if isinstance(o, Mod):
            env = self.menv(o)
            if n in env:
                return env[n]
            full = f"{o.name}.{n}"
            if full in self.prog.mods:
                return self.prog.mods[full]
            raise Raised("AttributeError", self.at(node), n)
        if isinstance(o, Ext):
            if o.name == "math" and n == "pi" or o.name == "numpy" and n == "pi":
                import math
                return const(math.pi)
            if o.name == "numpy" and n == "newaxis":
                return None
            return Ext(f"{o.name}.{n}")
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            f = self.lookup(o.cls, n) if isinstance(o.cls, Cls) else None
            if f is None:
                if isinstance(o.cls, Cls) and not self.openclass(o.cls):
                    self.emit("undefined", n, [o], {}, None, node)
                    raise Raised("AttributeError", self.at(node), n)
                return l_fn("." + n, o.leaf)
            if isinstance(f, Fn):
                q = f"{o.cls.name}.{n}"
                if q in self.opaque or f.qual in self.opaque:
                    return BoundOpaque(f, o)
                if f.static == "property":
                    return self.call(f.bind(o), [], {}, node)
                return f if f.static else f.bind(o)
            return f
        if isinstance(o, Cls):
            f = self.lookup(o, n)
            if f is None:
                raise Raised("AttributeError", self.at(node), n)
            return f
        if isinstance(o, Arr):
            if n == "shape":
                if o.shape is None:
                    raise Unknown("shape of an array of unknown rank")
                return tuple(o.shape)
            if n == "size" and o.shape is not None:
                r = ONE
                for x in o.shape:
                    r = l_mul(r, x)
                return r
            if n == "ndim" and o.shape is not None:
                return const(len(o.shape))
            if n == "T":
                return self.call(Ext("numpy.transpose"), [o], {}, node)
            return ("method", o, n)
        if isinstance(o, (PList, PDict, str)):
            return ("method", o, n)
        if isinstance(o, tuple) and len(o) == 2 and o and isinstance(o[0], SuperTag):
            for b in self.bases(o[0].cls):
                f = self.lookup(b, n) if isinstance(b, Cls) else None
                if f is not None:
                    return f.bind(o[1])
            return Ext("object." + n)
        if isinstance(o, Leaf):
            return l_fn("." + n, o)
        if o is None:
            self.emit("undefined", f"None.{n}", [], {}, None, node)
            raise Raised("AttributeError", self.at(node), f"None.{n}")
        if isinstance(o, tuple):
            return ("method", o, n)
        raise Unknown(f"attribute {n} of {type(o).__name__}")

    def bases(self, c):
        r = []
        for b in c.node.bases:
            try:
                r.append(self.ex(b, [self.menv(c.mod)]))
            except (Raised, Unknown):
                r.append(Ext("?"))
        return r

    def openclass(self, c):
        """has a base that is not part of the program"""
        return any(not isinstance(b, Cls) and repr(b) not in ("object", "abc.ABC") or isinstance(b, Cls) and self.openclass(b) for b in self.bases(c))

    def lookup(self, c, n):
        if not isinstance(c, Cls):
            return None
        if c.attrs is None or c.attrs[0] is not self:
            d = {}
            self.stack.append(Fn(None, {}, c.mod, c.name))
            try:
                for s in c.node.body:
                    if isinstance(s, ast.FunctionDef):
                        decs = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in s.decorator_list]
                        d[s.name] = Fn(s, list(c.env), c.mod, f"{c.name}.{s.name}", None, "property" if "property" in decs else "static" if "staticmethod" in decs else False)
                        if "classmethod" in decs:
                            d[s.name].self_ = c
                    elif isinstance(s, ast.Assign):
                        try:
                            v = self.ex(s.value, [d] + list(c.env))
                        except (Unknown, Raised):
                            continue
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                d[t.id] = v
            finally:
                self.stack.pop()
            c.attrs = (self, d)
        if n in c.attrs[1]:
            return c.attrs[1][n]
        for b in self.bases(c):
            r = self.lookup(b, n) if isinstance(b, Cls) else None
            if r is not None:
                return r
        return None

    def e_Subscript(self, e, env):
        return self.index(self.ex(e.value, env), self.ex(e.slice, env), e)

    def toarr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (tuple, PList)):
            xs = list(v) if isinstance(v, tuple) else list(v.items)
            if xs and all(isinstance(x, Arr) for x in xs):
                return self.stack_(xs, 0)
            def elem(ix):
                if ix[0].const is not None and 0 <= ix[0].const < len(xs):
                    return num(xs[int(ix[0].const)])
                if len(xs) == 1:
                    return num(xs[0])
                return l_fn("item", leaf(tuple(xs)), ix[0])
            return Arr([const(len(xs))], elem)
        if isinstance(v, Range):
            return Arr([l_div(l_sub(v.b, v.a), v.s)], lambda ix: l_add(v.a, l_mul(ix[0], v.s)))
        if isinstance(v, Leaf):
            return Arr(None, lambda ix, v=v: l_fn("data", v, *ix), src=v)
        raise Unknown("array")

    def stack_(self, xs, axis):
        xs = [self.toarr(x) for x in xs]; ss = [x.snap() for x in xs]
        r = xs[0].shape
        if r is None:
            raise Unknown("array of unknown rank")
        if axis < 0:
            axis += len(r) + 1
        def elem(ix):
            c = ix[axis]
            if c.const is None:
                raise Unknown("component")
            return ss[int(c.const)](ix[:axis] + ix[axis + 1:])
        return Arr(r[:axis] + [const(len(xs))] + r[axis:], elem)

    def bound(self, x, n, default):
        """start or end of a slice"""
        if x is None:
            return default
        x = num(x)
        if x.const is not None and x.const < 0:
            return l_add(n, x)
        return x

    def index(self, o, i, node):
        if isinstance(o, Native):
            return o.get(self, i, node)
        if isinstance(o, (tuple, PList)):
            xs = list(o) if isinstance(o, tuple) else o.items
            if isinstance(i, Leaf) and i.const is not None:
                k = int(i.const)
                if not -len(xs) <= k < len(xs):
                    raise Raised("IndexError", self.at(node))
                return xs[k]
            if isinstance(i, Slice) and all(x is None or isinstance(x, Leaf) and x.const is not None for x in (i.a, i.b, i.s)):
                g = lambda x: None if x is None else int(x.const)
                r = xs[g(i.a):g(i.b):g(i.s)]
                return tuple(r) if isinstance(o, tuple) else PList(r)
            return l_fn("[]", leaf(o), leaf(i))
        if isinstance(o, PDict):
            k = i if isinstance(i, (str, bool)) or i is None else leaf(i)
            if k in o.items:
                return o.items[k]
            if isinstance(k, str):
                raise Raised("KeyError", self.at(node), k)
            return l_fn("[]", leaf(o), leaf(i))
        if isinstance(o, str):
            return l_fn("[]", S(o), leaf(i))
        if isinstance(o, Obj):
            f = self.lookup(o.cls, "__getitem__")
            if f is not None:
                return self.call(f.bind(o), [i], {}, node)
            return l_fn("[]", o.leaf, leaf(i))
        if isinstance(o, Leaf):
            its = i if isinstance(i, tuple) else (i,)
            if isinstance(i, IX):
                return self.index(Arr(None, lambda ix: l_fn("data", o, *ix)), i, node)
            if any(isinstance(x, Slice) for x in its):
                if all(isinstance(x, Slice) and x.full() for x in its) and len(its) == 1:
                    return o
                if len(its) > 1 or not textual(o):
                    return self.index(Arr(None, lambda ix: l_fn("data", o, *ix), src=None), i, node)
            return l_fn("[]", o, leaf(i))
        if isinstance(o, Arr):
            return self.aindex(o, i, node)
        if isinstance(o, Range):
            return self.aindex(self.toarr(o), i, node)
        if o is None:
            self.emit("undefined", "None[]", [], {}, None, node)
            raise Raised("TypeError", self.at(node), "None[]")
        raise Unknown(f"subscript of {type(o).__name__}")

    def plan(self, o, i):
        """for each axis: ("at", term), ("slice", start, step, size) or ("arr", array)"""
        its = list(i) if isinstance(i, tuple) else [i]
        if isinstance(i, IX):
            return [("arr", self.toarr(a)) for a in i.arrs]
        if any(x is Ellipsis_ for x in its):
            k = next(q for q, x in enumerate(its) if x is Ellipsis_)
            if o.shape is None:
                raise Unknown("ellipsis")
            its[k:k + 1] = [Slice(None, None, None)] * (len(o.shape) - sum(1 for x in its if x is not None) + 1)
        r = []
        for x in its:
            k = sum(1 for y in r if y[0] != "new")
            if x is None:
                r.append(("new",)); continue
            n = o.shape[k] if o.shape is not None and k < len(o.shape) else l_fn("len", o.src or atom("n", k), const(k)) if o.shape is None else None
            if n is None:
                raise Raised("IndexError", "")
            if isinstance(x, Slice):
                st = num(x.s) if x.s is not None else ONE
                if st.const is not None and st.const < 0:
                    if st.const == -1 and x.a is None and x.b is None:
                        r.append(("slice", l_sub(n, ONE), st, n)); continue
                    raise Unknown("slice")
                a = self.bound(x.a, n, ZERO); b = self.bound(x.b, n, n)
                size = l_sub(b, a) if st.const == 1 else l_fn("ceil", l_div(l_sub(b, a), st))
                r.append(("slice", a, st, size))
            elif isinstance(x, (PList, Arr)) or isinstance(x, tuple):
                r.append(("arr", self.toarr(x)))
            else:
                x = num(x)
                r.append(("at", l_add(n, x) if x.const is not None and x.const < 0 else x))
        if o.shape is not None:
            used = sum(1 for x in r if x[0] != "new")
            r += [("slice", ZERO, ONE, n) for n in o.shape[used:]]
        return r

    def aindex(self, o, i, node):
        if isinstance(i, Leaf) and o.shape is not None and len(o.shape) == 1:
            n = o.shape[0]
            return o.at([l_add(n, i) if i.const is not None and i.const < 0 else i])
        pl = self.plan(o, i)
        if sum(1 for x in pl if x[0] == "arr") > 1 and not isinstance(i, IX):
            raise Unknown("index arrays")
        s = o.snap(); unk = o.shape is None
        shape = [x[3] if x[0] == "slice" else x[1].shape[0] if x[0] == "arr" else ONE for x in pl if x[0] != "at"]
        def elem(ix):
            ix = list(ix); out = []
            for x in pl:
                if x[0] == "at":
                    out.append(x[1])
                elif x[0] == "slice":
                    out.append(l_add(x[1], l_mul(ix.pop(0), x[2])))
                elif x[0] == "arr":
                    out.append(num(x[1].at([ix.pop(0)])))
                else:
                    ix.pop(0)
            return s(out + ix)
        if not shape and not unk:
            return elem([])
        if unk and not isinstance(i, IX):
            if all(x[0] == "at" for x in pl):
                return elem([])
            return Arr(None, elem, src=l_fn("part", o.src, *[leaf(x) for x in (i if isinstance(i, tuple) else [i])]) if o.src is not None else None)
        return Arr(shape, elem, kind=o.kind if o.shape is not None and len(o.shape) == 1 else "array")

    def setitem(self, o, i, v, node):
        if isinstance(o, Native):
            o.set(self, i, v, node)
            return
        if isinstance(o, PDict):
            o.items[i if isinstance(i, (str, bool)) else leaf(i)] = v
            self.emit("setitem", "[]", [o, i, v], {}, None, node)
            return
        if isinstance(o, PList) and isinstance(i, Leaf) and i.const is not None:
            o.items[int(i.const)] = v
            return
        if isinstance(o, Arr):
            if o.shape is None:
                raise Unknown("array of unknown rank written")
            if isinstance(i, Arr):
                raise Unknown("masked write")
            pl = self.plan(o, i)
            before = list(o.patches)
            val = v.snap() if isinstance(v, Arr) else None
            rank = len(v.shape) if isinstance(v, Arr) and v.shape is not None else 0
            nsl = sum(1 for x in pl if x[0] == "slice")
            m = self
            vshape = v.shape if isinstance(v, Arr) else None
            def match(ix):
                out = []; ats = [0]; unkn = o.shape is None
                for x, k in zip(pl, ix):
                    if x[0] == "at":
                        ats[0] += 1
                        d = l_sub(k, x[1])
                        if d.const is None:
                            p = m.poss(d)
                            if p == {0}:
                                continue
                            if 0 not in p:
                                return False
                            if m.decide(B("eq", d)):
                                continue
                            return False
                        if d.const != 0:
                            return False
                    elif x[0] == "slice":
                        if x[2].const != 1:
                            raise Unknown("strided write")
                        if x[1].const != 0 and m.decide(B("lt", l_sub(k, x[1]))):
                            return False
                        full = o.shape[len(out) + ats[0]] if not unkn else None
                        if full is None or l_sub(l_sub(full, x[1]), x[3]).fp != ZERO.fp:
                            if not m.decide(B("lt", l_sub(l_sub(k, x[1]), x[3]))):
                                return False
                        out.append(l_sub(k, x[1]))
                    else:
                        raise Unknown("written part")
                return [out]
            def value(r):
                out = r[0]
                if val is None:
                    return num(v)
                if rank > len(out):
                    raise Unknown("value of higher rank")
                ix = out[len(out) - rank:]
                return val([ZERO if vshape[k].const == 1 else ix[k] for k in range(rank)])
            o.patches.append((match, value))
            if self.loops:
                self.muts.append((o, [x[1] if x[0] == "at" else None for x in pl], None, before))
            return
        self.emit("setitem", "[]", [o, i, v], {}, None, node)

    def e_Lambda(self, e, env):
        return Fn(e, list(env), self.stack[-1].mod, "lambda")

    def comp(self, e, env):
        if len(e.generators) != 1:
            raise Unknown("comprehension")
        g = e.generators[0]
        it = self.ex(g.iter, env)
        xs = self.seq(it, e)
        if xs is not None:
            out = []
            for x in xs:
                en = [{}] + list(env)
                self.assign(g.target, x, en)
                if all(self.decide(self.truth(self.ex(c, en))) for c in g.ifs):
                    out.append(self.ex(e.elt, en))
            return PList(out)
        if g.ifs:
            return self.fresh("selection", leaf(it))
        n = self.length(it)
        stk = list(self.stack)
        def elem(ix):
            en = [{}] + list(env)
            was = self.stack; self.stack = list(stk)
            try:
                self.assign(g.target, self.element(it, ix[0], e), en)
                return self.ex(e.elt, en)
            finally:
                self.stack = was
        # one element is looked at, for what it calls
        self.loops.append(("comp", self.file(), e.lineno))
        try:
            elem([atom("it", self.file(), e.lineno, tree=("fn", "n"))])
        finally:
            self.loops.pop()
        return Arr([n], elem, kind="list")

    e_ListComp = comp
    e_GeneratorExp = comp
    e_SetComp = comp

    def e_DictComp(self, e, env):
        g = e.generators[0]
        it = self.ex(g.iter, env)
        xs = self.seq(it, e)
        if xs is None or len(e.generators) != 1:
            return self.fresh("dict", leaf(it))
        r = {}
        for x in xs:
            en = [{}] + list(env)
            self.assign(g.target, x, en)
            if all(self.decide(self.truth(self.ex(c, en))) for c in g.ifs):
                k = self.ex(e.key, en)
                r[k if isinstance(k, (str, bool)) else leaf(k)] = self.ex(e.value, en)
        return PDict(r)

    def length(self, v):
        if isinstance(v, (tuple,)):
            return const(len(v))
        if isinstance(v, (PList, PDict)):
            return const(len(v.items))
        if isinstance(v, str):
            return const(len(v))
        if isinstance(v, Arr):
            if v.shape is None:
                return l_fn("len", leaf(v))
            return v.shape[0]
        if isinstance(v, Range):
            return l_div(l_sub(v.b, v.a), v.s)
        if isinstance(v, Zip):
            return self.length([x for x in v.its if not isinstance(x, Count)][0])
        if isinstance(v, Obj):
            return l_fn("len", v.leaf)
        return l_fn("len", leaf(v))

    # ---- calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = next((x for x in reversed(self.stack) if x.self_ is not None), None)
            if f is None:
                raise Unknown("super")
            cls = f.qual.split(".")[0]
            c = self.menv(f.mod).get(cls)
            return (SuperTag(c), f.self_)
        fn = self.ex(e.func, env)
        args = self.items(e.args, env); kw = {}
        for k in e.keywords:
            v = self.ex(k.value, env)
            if k.arg is None:
                if not isinstance(v, PDict):
                    raise Unknown("keyword arguments")
                kw.update(v.items)
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node):
        if isinstance(fn, Native):
            return fn.call(self, args, kw, node)
        if isinstance(fn, Cls):
            if fn.name in self.opaque:
                r = self.fresh("new " + fn.name, *[leaf(a) for a in args])
                self.emit("call", fn.name, args, kw, r, node)
                return r
            self.uid += 1
            o = Obj(fn, self.uid)
            f = self.lookup(fn, "__init__")
            if f is not None:
                self.call(f.bind(o), args, kw, node)
            elif self.openclass(fn):
                self.emit("call", fn.name, [o] + args, kw, o.leaf, node)
            return o
        if isinstance(fn, BoundOpaque):
            args, kw = self.normal(fn.fn, args, kw, True)
            r = l_fn("result", S(fn.fn.qual), leaf(fn.o), *[leaf(a) for a in args], *[x for k in sorted(kw) for x in (S(k), leaf(kw[k]))], const(len(self.events)))
            self.emit("call", fn.fn.qual, [fn.o] + args, kw, r, node)
            return r
        if isinstance(fn, Fn):
            if fn.qual in self.models:
                r = self.models[fn.qual](self, fn, args, kw, node)
                if r is not NotImplemented:
                    return r
            if fn.qual in self.opaque:
                args, kw = self.normal(fn, args, kw, False)
                r = l_fn("result", S(fn.qual), *[leaf(a) for a in args], *[x for k in sorted(kw) for x in (S(k), leaf(kw[k]))])
                self.emit("call", fn.qual, args, kw, r, node)
                return r
            return self.inline(fn, args, kw, node)
        if isinstance(fn, Ext):
            if fn.name in self.models:
                r = self.models[fn.name](self, fn, args, kw, node)
                if r is not NotImplemented:
                    return r
            return self.external(fn.name, args, kw, node)
        if isinstance(fn, tuple) and len(fn) == 3 and fn[0] == "method":
            return self.method(fn[1], fn[2], args, kw, node)
        if isinstance(fn, Leaf):
            if fn.tree[0] == "fn" and str(fn.tree[1]).startswith("."):
                name, o = fn.tree[1], fn.tree[2]
                if name in PUREM:
                    return l_fn("call " + name, o, *[leaf(a) for a in args], *[x for k in sorted(kw) for x in (S(k), leaf(kw[k]))])
                r = self.fresh("call " + name, o, *[leaf(a) for a in args])
                self.emit("call", name, [o] + args, kw, r, node)
                return r
            r = self.fresh("call", fn, *[leaf(a) for a in args])
            self.emit("call", "?", [fn] + args, kw, r, node)
            return r
        if fn is None:
            raise Raised("TypeError", self.at(node))
        raise Unknown(f"call of {type(fn).__name__}")

    def normal(self, fn, args, kw, bound):
        """arguments in the order of the parameters"""
        a = fn.node.args; names = [x.arg for x in a.args][1 if bound and fn.static != "static" else 0:]
        d = [None] * (len(names) - len(a.defaults)) + list(a.defaults) if len(a.defaults) <= len(names) else [None] * len(names)
        out = list(args); kw = dict(kw)
        for k in range(len(args), len(names)):
            if names[k] in kw:
                out.append(kw.pop(names[k]))
            elif d[k] is not None:
                out.append(self.ex(d[k], [self.menv(fn.mod)]))
            else:
                raise Raised("TypeError", "", f"argument {names[k]} of {fn.qual} is missing")
        return out, kw

    def inline(self, fn, args, kw, node):
        if len(self.stack) > 40:
            raise Unknown("recursion")
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if fn.self_ is not None and not fn.static:
            args = [fn.self_] + list(args)
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise Raised("TypeError", self.at(node), f"too many arguments for {fn.qual}")
            env[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise Raised("TypeError", self.at(node), f"{k} given twice")
                env[k] = v
            else:
                rest[k] = v
        if rest:
            if a.kwarg is None:
                raise Raised("TypeError", self.at(node), f"{fn.qual} has no parameter {sorted(rest)[0]}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = PDict(rest)
        genv = list(fn.env) if isinstance(fn.env, list) else [fn.env]
        menv = self.menv(fn.mod)
        if not any(x is menv for x in genv):
            genv.append(menv)
        off = len(names) - len(a.defaults)
        for k, n in enumerate(names):
            if n not in env:
                if k < off:
                    raise Raised("TypeError", self.at(node), f"argument {n} of {fn.qual} is missing")
                env[n] = self.ex(a.defaults[k - off], genv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise Raised("TypeError", self.at(node), f"argument {x.arg} of {fn.qual} is missing")
                env[x.arg] = self.ex(d, genv)
        self.stack.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ex(fn.node.body, [env] + genv)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
                raise Unknown("generator")
            self.block(fn.node.body, [env] + genv)
            return None
        except Return as r:
            return r.v
        finally:
            self.stack.pop()

    def method(self, o, n, args, kw, node):
        if isinstance(o, PList):
            if n == "append":
                if self.loops:
                    getattr(self, "grown", []).append(o)
                o.items.append(args[0]); return None
            if n == "extend":
                s = self.seq(args[0], node)
                if s is None:
                    raise Unknown("extend")
                o.items += s; return None
            if n == "copy":
                return PList(o.items)
            if n == "index" or n == "count":
                return self.fresh(n, leaf(o))
        if isinstance(o, PDict):
            if n == "items":
                return PList([(k if not isinstance(k, Leaf) else k, v) for k, v in o.items.items()])
            if n == "keys":
                return PList(list(o.items))
            if n == "values":
                return PList(list(o.items.values()))
            if n == "get" and isinstance(args[0], str):
                return o.items.get(args[0], args[1] if len(args) > 1 else None)
            if n == "update" and args and isinstance(args[0], PDict):
                o.items.update(args[0].items); return None
            if n == "copy":
                return PDict(o.items)
        if isinstance(o, str):
            k1 = [int(a.const) if isinstance(a, Leaf) and a.const is not None else a for a in args]
            if all(isinstance(a, (str, int)) for a in k1) and not kw and n in ("strip", "lower", "upper", "split", "rsplit", "replace", "startswith", "endswith", "lstrip", "rstrip", "partition", "rpartition", "removeprefix", "removesuffix", "splitlines", "title", "capitalize"):
                r = getattr(o, n)(*k1)
                return PList(r) if isinstance(r, list) else r
            if n == "join" and isinstance(args[0], (tuple, PList)):
                xs = list(args[0]) if isinstance(args[0], tuple) else args[0].items
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
            return l_fn("text." + n, S(o), *[leaf(a) for a in args], *[x for k in sorted(kw) for x in (S(k), leaf(kw[k]))])
        if isinstance(o, Arr):
            if n in ("squeeze", "reshape", "ravel", "transpose", "copy", "astype", "min", "max", "sum", "searchsorted", "flatten", "tolist", "mean"):
                if n in ("copy", "astype", "tolist"):
                    s = o.snap(); return Arr(o.shape, s, kind=o.kind, src=o.src)
                return self.external("numpy." + n, [o] + args, kw, node)
            if n == "sort":
                s = o.snap(); src = l_fn("sorted", leaf(o)); o.src = src; o.shape = o.shape
                o.patches = [(lambda ix: [ix], lambda r: l_fn("item", src, *r[0]))]
                return None
        r = self.fresh("call ." + n, leaf(o), *[leaf(a) for a in args])
        self.emit("call", "." + n, [o] + args, kw, r, node)
        return r

    def external(self, name, args, kw, node):
        f = EXT.get(name)
        if name in self.models:
            r = self.models[name](self, None, args, kw, node)
            if r is not NotImplemented:
                return r
        if f is not None:
            r = f(self, args, kw, node)
            if r is not NotImplemented:
                return r
        if name.startswith("str.") and args and "." + name[4:] in PUREM:
            return self.call(self.attr(args[0], name[4:], node), args[1:], kw, node)
        la = [leaf(a) for a in args] + [x for k in sorted(kw) for x in (S(k), leaf(kw[k]))]
        if name.split(".")[0] in ("numpy", "math", "json", "str", "bool", "type", "repr", "os"):
            return l_fn(name, *la)
        r = self.fresh("call " + name, *la)
        self.emit("call", name, args, kw, r, node)
        return r


class SuperTag:
    def __init__(self, cls): self.cls = cls


class Zip:
    def __init__(self, its): self.its = its


class Count:
    def __init__(self, a): self.a = a


Ellipsis_ = object()
PUREM = {".keys", ".items", ".values", ".get", ".split", ".strip", ".lower", ".upper", ".join", ".format", ".replace", ".startswith", ".endswith", ".decode", ".encode"}
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


def textual(l):
    x = l
    while isinstance(x, Leaf) and x.tree[0] == "fn" and x.tree[1] == "[]" and len(x.tree) > 2:
        x = x.tree[2]
        if isinstance(x, Leaf) and x.tree == ("fn", "config"):
            return True         # options of a configuration are texts
    return l.tree[0] == "fn" and ("text" in str(l.tree[1]) or str(l.tree[1]) in ("list_string",))


def names_of(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def assigned(body):
    r = []
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in r:
                r.append(x.id)
    return r


def num(v):
    if isinstance(v, Leaf):
        return v
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, B):
        return l_fn("cond", leaf(v))
    return leaf(v)


def numeric(l):
    return l.tree[0] in ("c", "+", "-", "*", "/") or l.tree[0] == "fn" and l.tree[1] in ("float", "trunc", "floor", "ceil", "round", "len", "sqrt", "pow", "fabs", "int", "min", "max")


def lt(a, b):
    d = l_sub(a, b)
    if d.const is not None:
        return d.const < 0
    return B("lt", d)


def power(a, b):
    if b.const is not None and b.const.denominator == 1 and 0 <= b.const <= 6:
        r = ONE
        for _ in range(int(b.const)):
            r = l_mul(r, a)
        return r
    return l_fn("pow", a, b)


def floordiv(a, b):
    if a.const is not None and b.const not in (None, 0):
        return const(a.const // b.const)
    q = l_div(a, b)
    return q if b.const == 1 else l_fn("floor", q)


OPS = {"Add": l_add, "Sub": l_sub, "Mult": l_mul, "Div": l_div, "Pow": power, "FloorDiv": floordiv,
       "Mod": lambda a, b: const(a.const % b.const) if a.const is not None and b.const not in (None, 0) else l_fn("mod", a, b),
       "BitAnd": lambda a, b: l_fn("and", a, b), "BitOr": lambda a, b: l_fn("or", a, b)}


# ---- functions of other packages ------------------------------------------------------------------
def arg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


def x_float(m, a, kw, n):
    v = a[0] if a else const(0)
    if isinstance(v, str):
        try:
            return const(float(v))
        except ValueError:
            raise Raised("ValueError", m.at(n))
    if isinstance(v, Leaf):
        return v if v.const is not None or numeric(v) else l_fn("float", v)
    if isinstance(v, Arr):
        return v
    return NotImplemented


INTEGER = ("trunc", "floor", "ceil", "len", "round", "int")


INTS = set()      # atoms that are integers


def integer(l):
    t = l.tree
    if l.fp in INTS:
        return True
    if l.const is not None:
        return l.const.denominator == 1
    if t[0] == "fn":
        return t[1] in INTEGER or t[1].startswith("n") and t[1][1:].isdigit()
    if t[0] in ("+", "-", "*"):
        return integer(t[1]) and integer(t[2])
    return False


def x_int(m, a, kw, n):
    v = a[0]
    if isinstance(v, str):
        try:
            return const(int(v))
        except ValueError:
            raise Raised("ValueError", m.at(n))
    if not isinstance(v, Leaf):
        return NotImplemented
    if integer(v):
        return v
    if v.tree[0] == "fn" and v.tree[1] in ("[]", "text", ".", "item") or str(v.tree[1]).startswith("call"):
        return l_fn("int", v)
    return l_fn("trunc", v)


def f1(name):
    def f(m, a, kw, n):
        if len(a) != 1 or kw and set(kw) - {"dtype"}:
            return NotImplemented
        def one(l):
            return l if name in ("floor", "ceil", "round", "trunc") and integer(l) else l_fn(name, l)
        if isinstance(a[0], (Arr, Leaf)):
            return m.map1(one, a[0])
        return NotImplemented
    return f


def x_radians(m, a, kw, n):
    import math
    return m.map1(lambda l: l_mul(l, const(math.pi / 180.0)), a[0])


def x_degrees(m, a, kw, n):
    import math
    return m.map1(lambda l: l_mul(l, const(180.0 / math.pi)), a[0])


def x_range(m, a, kw, n):
    a = [num(x) for x in a]
    return Range(ZERO, a[0], ONE) if len(a) == 1 else Range(a[0], a[1], a[2] if len(a) > 2 else ONE)


def x_len(m, a, kw, n):
    return m.length(a[0])


def x_tuple(m, a, kw, n):
    if not a:
        return ()
    v = a[0]
    s = m.seq(v, n)
    if s is not None:
        return tuple(s)
    if isinstance(v, Arr):
        r = Arr(v.shape, v.snap(), kind="tuple", src=v.src); return r
    if isinstance(v, Range):
        r = m.toarr(v); r.kind = "tuple"; return r
    if isinstance(v, Leaf):
        return Arr([l_fn("len", v)], lambda ix: l_fn("item", v, ix[0]), kind="tuple", src=v)
    return NotImplemented


def x_list(m, a, kw, n):
    if not a:
        return PList([])
    r = x_tuple(m, a, kw, n)
    if isinstance(r, tuple):
        return PList(r)
    if isinstance(r, Arr):
        r.kind = "list"
    return r


def x_map(m, a, kw, n):
    s = m.seq(a[1], n) if len(a) == 2 else None
    if s is not None:
        return PList([m.call(a[0], [x], {}, n) for x in s])
    if len(a) != 2:
        return NotImplemented
    it = a[1]
    ln = m.length(it)
    return Arr([ln], lambda ix: m.call(a[0], [m.element(it, ix[0], n)], {}, n), kind="list")


def x_zip(m, a, kw, n):
    return Zip(list(a))


def x_enumerate(m, a, kw, n):
    s = m.seq(a[0], n)
    st = num(arg(a, kw, 1, "start", ZERO))
    if s is not None:
        return PList([(l_add(st, const(i)), x) for i, x in enumerate(s)])
    return Zip([Count(st), a[0]])


def x_minmax(name):
    def f(m, a, kw, n):
        xs = list(a)
        if len(xs) == 1:
            s = m.seq(xs[0], n)
            if s is None:
                return l_fn(name, leaf(xs[0]))
            xs = s
        xs = [num(x) for x in xs]
        if all(x.const is not None for x in xs):
            return const((min if name == "min" else max)(x.const for x in xs))
        # drop those that are known not to be it
        keep = []
        for x in xs:
            if not any(x.fp == y.fp for y in keep):
                keep.append(x)
        out = []
        for x in keep:
            bad = False
            for y in keep:
                if y is not x:
                    p = m.poss(l_sub(x, y))
                    if name == "min" and p <= {1} or name == "max" and p <= {-1}:
                        bad = True
                    elif (p <= {0, 1} if name == "min" else p <= {-1, 0}) and y not in out and keep.index(y) < keep.index(x):
                        bad = True
            if not bad:
                out.append(x)
        keep = out or keep
        if len(keep) == 1:
            return keep[0]
        keep.sort(key=lambda l: l.fp)
        return l_fn(name, *keep)
    return f


def x_linspace(m, a, kw, n):
    lo, hi = num(a[0]), num(a[1]); k = num(arg(a, kw, 2, "num", const(50)))
    if kw.get("endpoint", True) is not True:
        return Arr([k], lambda ix: l_add(lo, l_mul(ix[0], l_div(l_sub(hi, lo), k))))
    return Arr([k], lambda ix: l_add(lo, l_mul(ix[0], l_div(l_sub(hi, lo), l_sub(k, ONE)))))


def x_arange(m, a, kw, n):
    a = [num(x) for x in a]
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    if "start" in kw or "stop" in kw:
        return NotImplemented
    st = num(a[2] if len(a) > 2 else kw.get("step", ONE))
    q = l_div(l_sub(hi, lo), st)
    return Arr([q if integer(q) else l_fn("ceil", q)], lambda ix: l_add(lo, l_mul(ix[0], st)))


def shape_of(v):
    if isinstance(v, tuple):
        return [num(x) for x in v]
    if isinstance(v, PList):
        return [num(x) for x in v.items]
    return [num(v)]


def x_full(c):
    def f(m, a, kw, n):
        sh = shape_of(arg(a, kw, 0, "shape"))
        v = c if c is not None else num(arg(a, kw, 1, "fill_value"))
        return Arr(sh, lambda ix: v)
    return f


def x_like(c):
    def f(m, a, kw, n):
        v = m.toarr(a[0])
        return Arr(v.shape, lambda ix: c)
    return f


def x_meshgrid(m, a, kw, n):
    xs = [m.toarr(x) for x in a]; ss = [x.snap() for x in xs]
    if kw.get("sparse") or any(x.shape is None or len(x.shape) != 1 for x in xs):
        return NotImplemented
    order = list(range(len(xs)))
    if kw.get("indexing", "xy") == "xy" and len(xs) > 1:
        order[0], order[1] = 1, 0
    shape = [xs[k].shape[0] for k in order]
    return PList([Arr(list(shape), lambda ix, s=s, p=order.index(k): s([ix[p]])) for k, s in enumerate(ss)])


def x_stack(m, a, kw, n):
    xs = m.seq(a[0], n)
    ax = arg(a, kw, 1, "axis", ZERO)
    if xs is None or ax.const is None:
        return NotImplemented
    return m.stack_(xs, int(ax.const))


def x_array(m, a, kw, n):
    v = a[0]
    if isinstance(v, Arr):
        return Arr(v.shape, v.snap(), src=v.src)
    if isinstance(v, (tuple, PList, Range)):
        return m.toarr(v)
    if isinstance(v, Leaf):
        return v
    return NotImplemented


def x_ix(m, a, kw, n):
    return IX(list(a))


def x_squeeze(m, a, kw, n):
    v = a[0]
    if not isinstance(v, Arr) or v.shape is None:
        if isinstance(v, Leaf):
            return l_fn("squeeze", v)
        return NotImplemented
    ax = arg(a, kw, 1, "axis")
    if ax is None:
        drop = [k for k, x in enumerate(v.shape) if x.const == 1]
        maybe = [x for x in v.shape if x.const is None and m.poss(l_sub(x, ONE)) & {0}]
        if maybe:
            m.emit("squeeze", "squeeze", [v, maybe[0]], {}, None, n)
    else:
        drop = [int(x.const) % len(v.shape) for x in ([ax] if isinstance(ax, Leaf) else ax)]
    s = v.snap()
    def elem(ix):
        ix = list(ix)
        return s([ZERO if k in drop else ix.pop(0) for k in range(len(v.shape))])
    return Arr([x for k, x in enumerate(v.shape) if k not in drop], elem)


def x_reshape(m, a, kw, n):
    v = a[0]
    sh = shape_of(a[1]) if len(a) == 2 else [num(x) for x in a[1:]]
    if not isinstance(v, Arr) or v.shape is None:
        return NotImplemented
    # axes of one point added or taken away
    old = [k for k, x in enumerate(v.shape) if x.const != 1]
    new = [k for k, x in enumerate(sh) if x.const != 1]
    if len(old) != len(new) or any(v.shape[i].fp != sh[j].fp for i, j in zip(old, new)):
        return NotImplemented
    s = v.snap()
    def elem(ix):
        out = [ZERO] * len(v.shape)
        for i, j in zip(old, new):
            out[i] = ix[j]
        return s(out)
    return Arr(sh, elem)


def x_transpose(m, a, kw, n):
    v = a[0]
    if not isinstance(v, Arr) or v.shape is None:
        return NotImplemented
    r = len(v.shape)
    ax = arg(a, kw, 1, "axes")
    ax = list(range(r))[::-1] if ax is None else [int(x.const) for x in shape_of(ax)]
    s = v.snap()
    def elem(ix):
        out = [None] * r
        for k, p in enumerate(ax):
            out[p] = ix[k]
        return s(out)
    return Arr([v.shape[p] for p in ax], elem)


def x_same(m, a, kw, n):
    return a[0] if a and isinstance(a[0], (Arr, Leaf)) else NotImplemented


def x_npminmax(name):
    def f(m, a, kw, n):
        if len(a) != 1 or kw:
            return NotImplemented
        v = a[0]
        if isinstance(v, Arr) and v.shape is not None and len(v.shape) == 1:
            if ascending(v):
                return num(v.at([ZERO if name == "min" else l_sub(v.shape[0], ONE)]))
            return l_fn(name, leaf(v))
        return NotImplemented
    return f


def ascending(v):
    try:
        e = num(v.at([atom("asc", tree=("fn", "n0"))]))
    except (Unknown, Raised):
        return False
    t = e
    while t.tree[0] in ("+", "-") and any(not has_index(x) for x in t.tree[1:]):
        if t.tree[0] == "-" and not has_index(t.tree[1]):
            return False
        t = t.tree[1] if has_index(t.tree[1]) else t.tree[2]
    return t.tree[0] == "fn" and t.tree[1] == "searchsorted"


def has_index(l):
    if not isinstance(l, Leaf):
        return False
    if l.tree == ("fn", "n0"):
        return True
    return any(has_index(x) for x in l.tree[1:] if isinstance(x, Leaf))


def x_searchsorted(m, a, kw, n):
    v = leaf(a[0]); w = a[1]
    side = kw.get("side", "left")
    def one(l):
        return l_fn("searchsorted", v, num(l)) if side == "left" else l_fn("searchsorted right", v, num(l))
    if isinstance(w, (PList, tuple)):
        w = m.toarr(w)
    return m.map1(one, w)


def x_isinstance(m, a, kw, n):
    v, t = a
    ts = list(t) if isinstance(t, tuple) else [t]
    names = [repr(x) for x in ts]
    if isinstance(v, (str,)):
        return "str" in names
    if isinstance(v, Arr):
        return {"array": "numpy.ndarray", "list": "list", "tuple": "tuple"}[v.kind] in names
    if isinstance(v, tuple):
        return "tuple" in names
    if isinstance(v, PList):
        return "list" in names
    if isinstance(v, PDict):
        return "dict" in names
    if v is None:
        return False
    if isinstance(v, bool):
        return "bool" in names or "int" in names
    if isinstance(v, Leaf) and v.tree[0] == "fn" and v.tree[1] == "float":
        return "float" in names
    return B("t", l_fn("isinstance", leaf(v), *[leaf(x) for x in ts]))


def x_getattr(m, a, kw, n):
    if isinstance(a[1], str):
        try:
            return m.attr(a[0], a[1], n)
        except Raised:
            if len(a) > 2:
                return a[2]
            raise
    return l_fn("getattr", leaf(a[0]), leaf(a[1]))


def x_setattr(m, a, kw, n):
    if isinstance(a[1], str) and isinstance(a[0], Obj):
        a[0].attrs[a[1]] = a[2]
        m.emit("setattr", a[1], [a[0], a[2]], {}, None, n)
        return None
    raise Unknown("setattr")


def x_abs(m, a, kw, n):
    return m.map1(lambda l: const(abs(l.const)) if l.const is not None else l_fn("fabs", l), a[0])


def x_sorted(m, a, kw, n):
    if isinstance(a[0], PDict):
        return PList(sorted(x for x in a[0].items if isinstance(x, str)))
    src = l_fn("sorted", leaf(a[0]))
    return Arr([m.length(a[0])], lambda ix: l_fn("item", src, ix[0]), kind="list", src=src)


def x_str(m, a, kw, n):
    return a[0] if a and isinstance(a[0], str) else l_fn("text", leaf(a[0])) if a else ""


def x_print(m, a, kw, n):
    return None


def x_logger(m, a, kw, n):
    return l_fn("logger")


def x_dict(m, a, kw, n):
    if not a:
        return PDict(kw)
    if isinstance(a[0], PDict):
        return PDict({**a[0].items, **kw})
    return NotImplemented


def x_pow(m, a, kw, n):
    return m.map2(power, a[0], a[1])


EXT = {
    "float": x_float, "numpy.float64": x_float, "numpy.float32": x_float, "int": x_int, "range": x_range, "len": x_len, "tuple": x_tuple, "list": x_list, "map": x_map, "zip": x_zip,
    "enumerate": x_enumerate, "min": x_minmax("min"), "max": x_minmax("max"), "round": f1("round"), "abs": x_abs, "isinstance": x_isinstance, "getattr": x_getattr,
    "slice": lambda m, a, kw, n: Slice(*( [None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))),
    "setattr": x_setattr, "sorted": x_sorted, "str": x_str, "print": x_print, "dict": x_dict, "pow": x_pow,
    "math.cos": f1("cos"), "math.sin": f1("sin"), "math.ceil": f1("ceil"), "math.floor": f1("floor"), "math.sqrt": f1("sqrt"), "math.fabs": x_abs, "math.radians": x_radians,
    "math.degrees": x_degrees, "math.trunc": f1("trunc"), "math.pow": x_pow,
    "numpy.cos": f1("cos"), "numpy.sin": f1("sin"), "numpy.ceil": f1("ceil"), "numpy.floor": f1("floor"), "numpy.sqrt": f1("sqrt"), "numpy.abs": x_abs, "numpy.fabs": x_abs,
    "numpy.radians": x_radians, "numpy.deg2rad": x_radians, "numpy.degrees": x_degrees, "numpy.rad2deg": x_degrees, "numpy.round": f1("round"),
    "numpy.linspace": x_linspace, "numpy.arange": x_arange, "numpy.zeros": x_full(ZERO), "numpy.ones": x_full(ONE), "numpy.empty": x_full(mkleaf(H("uninit"), ("fn", "uninitialised"))),
    "numpy.full": x_full(None), "numpy.zeros_like": x_like(ZERO), "numpy.ones_like": x_like(ONE), "numpy.empty_like": x_like(mkleaf(H("uninit"), ("fn", "uninitialised"))),
    "numpy.meshgrid": x_meshgrid, "numpy.stack": x_stack, "numpy.array": x_array, "numpy.asarray": x_array, "numpy.copy": x_array, "numpy.ix_": x_ix, "numpy.squeeze": x_squeeze,
    "numpy.reshape": x_reshape, "numpy.transpose": x_transpose, "numpy.ascontiguousarray": x_array, "numpy.min": x_npminmax("min"), "numpy.max": x_npminmax("max"),
    "numpy.amin": x_npminmax("min"), "numpy.amax": x_npminmax("max"), "numpy.searchsorted": x_searchsorted, "numpy.sort": x_sorted, "numpy.int64": x_int, "numpy.int32": x_int,
    "logging.getLogger": x_logger,
}


class Trace:
    def __init__(self, kind, value, m, loc=""):
        self.kind = kind; self.value = value; self.m = m; self.loc = loc; self.ev = m.events


def traces(prog, f, limit=600, **k):
    """all traces of f(machine): ("returns", value), ("raises", name) or ("unknown", why)"""
    out = []; dec = []
    while True:
        m = M(prog, dec, **k)
        try:
            v = f(m)
            out.append(Trace("returns", v, m))
        except Raised as e:
            out.append(Trace("raises", (e.name, e.v), m, e.loc))
        except (Unknown, gvn.Unsupported, RecursionError) as e:
            out.append(Trace("unknown", str(e), m))
        d = m.dec[:m.pos]
        while d and d[-1] is False:
            d.pop()
        if not d:
            return out
        d[-1] = False
        dec = d
        if len(out) >= limit:
            raise Unknown("too many traces")


def cond(m):
    """conditions of a trace as text"""
    r = []
    for b, v in m.trail:
        v = v != b.neg
        t = gvn.show(b.l.tree)
        if b.kind == "lt":
            t = f"{t} {'<' if v else '>='} 0"
        elif b.kind == "eq":
            t = f"{t} {'==' if v else '!='} 0"
        else:
            t = t if v else f"not {t}"
        r.append(t)
    return " && ".join(r)
