"""In-memory model of the dumped LLVM IR facts."""
import re
from collections import defaultdict

TERMS = {"br", "switch", "ret", "unreachable", "resume", "invoke", "indirectbr"}


class Instr:
    __slots__ = ("o", "id", "t", "a", "line", "d", "bb", "idx", "fn")

    def __init__(self, d, bb, idx, fn):
        self.o = d["o"]; self.id = d.get("i"); self.t = d.get("t"); self.a = d.get("a", [])
        self.line = d.get("l"); self.d = d; self.bb = bb; self.idx = idx; self.fn = fn

    @property
    def callee(self):
        return self.d.get("c")

    @property
    def uid(self):
        """identification within the function that also exists for instructions without a result"""
        return self.id if self.id is not None else ("v", self.bb, self.idx)

    def succs(self):
        o = self.o
        if o == "br":
            return list(self.d["s"])
        if o == "invoke":
            return [self.d["nd"], self.d["ud"]]
        if o == "switch":
            return [self.d["d"]] + [c[1] for c in self.d["cases"]]
        return []

    def __repr__(self):
        return f"<{self.fn.short}:{self.line} {self.o} {self.callee or ''} {self.a}>"


class Function:
    def __init__(self, d, tu, prog):
        self.prog = prog
        self.name = d["name"]; self.dem = d["dem"]; self.tu = tu
        self.qual = d.get("qual"); self.file = d.get("file", ""); self.line = d.get("line", 0)
        self.repo = d["repo"]; self.args = d["args"]; self.ret = d["ret"]; self.vn = d.get("vn", {}); self.vt = d.get("vt", {})
        self.nounwind = d.get("nounwind", False); self.internal = d.get("internal", False)
        self.calls = d.get("calls", []); self.catchall = d.get("catchall"); self.hasresume = d.get("resume")
        self.dity = d.get("dity", []); self.access = d.get("access"); self.static = d.get("static", False)
        self.blocks = None
        if "blocks" in d:
            self.blocks = [[Instr(x, bi, ii, self) for ii, x in enumerate(b)] for bi, b in enumerate(d["blocks"])]
            self.defs = {}
            for b in self.blocks:
                for i in b:
                    if i.id is not None:
                        self.defs[i.id] = i
            self._succ = [b[-1].succs() for b in self.blocks]
            self._pred = [[] for _ in self.blocks]
            for i, ss in enumerate(self._succ):
                for s in ss:
                    if i not in self._pred[s]:
                        self._pred[s].append(i)

    @property
    def short(self):
        q = self.qual or self.dem
        return q.replace("geomodelgrids::", "")

    @property
    def relfile(self):
        from core import REPO
        return self.file.replace(str(REPO) + "/", "")

    def loc(self, i=None):
        return f"{self.relfile}:{(i.line if i is not None and i.line else self.line)}"

    def succ(self, b):
        return self._succ[b]

    def pred(self, b):
        return self._pred[b]

    def instrs(self):
        for b in self.blocks or []:
            yield from b

    def calls_i(self):
        for i in self.instrs():
            if i.o in ("call", "invoke"):
                yield i

    def reachable(self, start=0, skip=()):
        seen = {start}; st = [start]
        while st:
            b = st.pop()
            for s in self._succ[b]:
                if s not in seen and s not in skip:
                    seen.add(s); st.append(s)
        return seen

    def dominators(self):
        if hasattr(self, "_dom"):
            return self._dom
        n = len(self.blocks); order = self.rpo(); allb = set(order)
        dom = {b: set(allb) for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [p for p in self._pred[b] if p in allb]
                nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        self._dom = dom
        return dom

    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        seen = set(); out = []
        st = [(0, iter(self._succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self._succ[s]))); break
            else:
                out.append(b); st.pop()
        self._rpo = out[::-1]
        return self._rpo

    def loops(self):
        """natural loops: header -> set of blocks"""
        if hasattr(self, "_loops"):
            return self._loops
        dom = self.dominators(); L = {}
        for b in self.rpo():
            for s in self._succ[b]:
                if s in dom[b]:
                    body = L.setdefault(s, {s}); st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x); st.extend(p for p in self._pred[x] if p in dom)
        self._loops = L
        return L

    def __repr__(self):
        return f"<fn {self.dem}>"


class Program:
    def __init__(self):
        self.fns = {}; self.decls = {}; self.types = {}; self.globals = {}; self.tus = []; self.tuglobals = defaultdict(dict)
        self.internal = defaultdict(dict)

    def add(self, d, tu):
        self.tus.append(tu)
        for f in d["functions"]:
            fn = Function(f, tu, self)
            old = self.fns.get(fn.name)
            if fn.internal:
                # internal linkage: may clash over TUs (e.g. global ctors); key also by tu
                self.internal[tu][fn.name] = fn
                if old is None:
                    self.fns[fn.name] = fn
                elif old.internal and old.tu != tu:
                    self.fns[fn.name + "@" + tu] = fn
                continue
            if fn.name == "main" and old is not None and old.tu != tu:
                self.fns["main@" + tu] = fn
                continue
            if old is None or (old.blocks is None and fn.blocks is not None):
                self.fns[fn.name] = fn
        for x in d["decls"]:
            self.decls[x["name"]] = x
        for k, v in d["types"].items():
            if k not in self.types or len(v["methods"]) > len(self.types[k]["methods"]):
                self.types[k] = v
        for k, v in d["globals"].items():
            self.tuglobals[tu][k] = v
            if k not in self.globals or ("init" in v and "init" not in self.globals[k]):
                self.globals[k] = v

    def finish(self):
        self.byqual = defaultdict(list)
        for f in self.fns.values():
            if f.qual:
                self.byqual[f.qual].append(f)

    def repo_fns(self, pred=None):
        return [f for f in self.fns.values() if f.repo and f.blocks and (pred is None or pred(f))]

    def get(self, qual, nargs=None, need=True):
        full = qual if qual.startswith("geomodelgrids") else "geomodelgrids::" + qual
        c = [f for f in self.byqual.get(full, []) + self.byqual.get("::" + qual, []) if f.blocks]
        if nargs is not None:
            c = [f for f in c if len(f.args) == nargs]
        # constructors: prefer C2/C1 body
        if len(c) > 1:
            big = max(c, key=lambda f: sum(len(b) for b in f.blocks))
            names = {re.sub(r"C[12]E|D[012]E", "XE", f.name) for f in c}
            if len(names) == 1:
                return big
        if not c:
            if need:
                from core import AnalysisBroken
                raise AnalysisBroken(f"anchor vanished: {qual}")
            return None
        return c[0]

    def getall(self, qual):
        full = qual if qual.startswith("geomodelgrids") else "geomodelgrids::" + qual
        return [f for f in self.byqual.get(full, []) if f.blocks]

    def dem(self, name):
        f = self.fns.get(name)
        if f:
            return f.dem
        d = self.decls.get(name)
        return d["dem"] if d else name

    def string(self, op, tu=None):
        """constant C string an operand denotes, or None"""
        off = 0
        if op and op[0] == "go":
            off = op[2]; op = op[1]
        if not op or op[0] != "g":
            return None
        g = (self.tuglobals.get(tu, {}).get(op[1]) if tu else None) or self.globals.get(op[1])
        if not g or "init" not in g or not g.get("const"):
            return None
        i = g["init"]
        if i[0] == "s":
            s = i[1][off:]
            return s.split("\0")[0]
        if i[0] == "z":
            return ""
        return None

    def field(self, sty, off):
        """(class, field name, rest offset) for a byte offset within struct type '%class.ns::X'"""
        n = re.sub(r"^%(class|struct)\.", "", sty or "")
        n = re.sub(r"\.base$", "", n)
        t = self.types.get(n)
        if not t:
            return None
        best = None
        for m in t["members"]:
            if m.get("static"):
                continue
            if m["off"] <= off < m["off"] + max(1, m["size"]):
                best = m
        if best:
            return (n, best["n"], off - best["off"])
        for b in t["bases"]:
            bt = self.types.get(b["t"])
            if bt and b["off"] <= off < b["off"] + bt["size"]:
                return self.field("%class." + b["t"], off - b["off"])
        return None
