"""Hyperslab: object state after construction, field roles (through the HDF5 read call), evaluation of queries."""
from spec import *
import core

HS = "serial::Hyperslab"
OPQ = [r"serial::HDF5::"]


class Slab:
    def __init__(self, prog, ndims):
        """state of a Hyperslab built with rank `ndims`"""
        self.p = prog; self.nd = ndims; self.sd = ndims - 1
        f = prog.get(HS + "::Hyperslab")
        args = [atom("arg", i, tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args)]
        sizes = [i for i, a in enumerate(f.args) if a["t"] in ("i64", "i32")]
        if len(sizes) != 1:
            raise core.AnalysisBroken("Hyperslab constructor: rank argument not identified")
        args[sizes[0]] = gvn.const(ndims)
        self.cargs = args
        self.C = Run(prog, f, OPQ, args=args)
        self.this = args[0]
        st = EV.State()
        g = AND(self.C.guard, ONE)
        for k, (o, v, sz) in self.C.st.mem.items():
            if k[0][0] == "al":
                continue
            vs = care_leaves(v, g)
            if len(vs) == 1:
                st.mem[k] = (o, vs[0], sz)
        for b, v in self.C.st.ver.items():
            st.ver[b] = ("ctor", str(b[-1]) + str(b[1][-1] if isinstance(b[1], tuple) else "")) if b[0] == "new" else v
        self.st0 = st
        self.vals = atom("arg", "values", tree=("fn", "values"))
        self.idx = atom("arg", "indexFloat", tree=("fn", "indexFloat"))
        self.first = self.run("interpolate", st.copy())
        rd = self.first.calls(r"serial::HDF5::readDatasetHyperslab\(")
        if not rd:
            raise core.AnalysisBroken("Hyperslab::interpolate does not read the dataset")
        e = rd[0]; self.read = e
        a = [care_leaves(x, e.guard) for x in e.args[:6]]
        self.origin_ptr = a[3][0] if len(a[3]) == 1 else None
        self.values_ptr = a[1][0] if len(a[1]) == 1 else None
        self.dims_ptr = a[4][0] if len(a[4]) == 1 else None
        if None in (self.origin_ptr, self.values_ptr, self.dims_ptr):
            raise gvn.Unsupported("origin, dims or values of the slab are not single objects")
        # address of the pointer to the origin
        self.origin_field = None
        for k, (o, v, sz) in self.first.st.mem.items():
            if k[0][0] != "al" and isinstance(v, Leaf) and v is self.origin_ptr:
                self.origin_field = (k, o)
        # general state: a slab has been read before
        self.ORIG = atom("slab", "origin", tree=("fn", "origin"))
        self.VALS = atom("slab", "values", tree=("fn", "slabvalues"))
        self.DIMS = atom("slab", "dims", tree=("fn", "dims"))
        g = EV.State(st.mem, {})
        if self.origin_field is not None:
            g.mem[self.origin_field[0]] = (self.origin_field[1], self.ORIG, 8)
        b, o = ptrparts(self.this)
        sub = {self.values_ptr.fp: self.VALS, self.dims_ptr.fp: self.DIMS}
        for k, (off, v, sz) in list(g.mem.items()):
            if isinstance(v, Leaf) and v.fp in sub:
                g.mem[k] = (off, sub[v.fp], sz)
        a = deref(self.values_ptr)
        if a is not None:
            bb, oo = ptrparts(a)
            g.mem[(bb, oo.fp)] = (oo, self.VALS, 8)
        self.stgen = g
        # extents of the whole dataset: what the constructor obtained from the file
        self.alldims = None
        for e in self.C.calls(r"serial::HDF5::getDatasetDims\("):
            for n, (l, tok) in e.outs.items():
                v = self.C.ev.load(self.C.st, l, "ptr", 8, None)
                if isinstance(v, Leaf) and n == 1:
                    self.alldims = v

    def run(self, name, st, assume=ONE):
        f = self.p.get(f"{HS}::{name}")
        return Run(self.p, f, OPQ, args=[self.this, self.vals, self.idx], state=st, assume=assume)

    # --- whole dataset in one slab, first query, index of the last grid point along every axis
    def use_edge(self):
        self.edge = True
        ev = self.C.ev
        st = EV.State(self.stgen.mem, {})
        if self.origin_field is not None:
            k = self.origin_field[0]
            st.mem[k] = (self.origin_field[1], ZERO, 8)
        for i in range(self.nd):
            ev._store1(st, padd(self.DIMS, gvn.const(8 * i)), self.all(i).d, 8, None)
        g = X(NOT_(eqc(self.VALS, 0))) & X(NOT_(eqc(self.vals, 0))) & X(NOT_(eqc(self.idx, 0))) & X(NOT_(eqc(self.alldims, 0)))
        for i in range(self.sd):
            ev._store1(st, padd(self.idx, gvn.const(8 * i)), (self.all(i) - 1).d, 8, None)
            g = g & (self.all(i) > 1)
        return st, g.d

    edge = False
    ver = 0

    # --- symbolic quantities of the general state
    def t(self, i):
        """index of the target point along axis i"""
        if self.edge:
            return self.all(i) - 1
        return ld(None, self.idx, 8 * i)

    def org(self, i):
        return X(0) if self.edge else ld(None, self.ORIG, 8 * i)

    def dim(self, i):
        return self.all(i) if self.edge else ld(None, self.DIMS, 8 * i)

    def all(self, i):
        return ld(None, self.alldims, 8 * i)

    def cached(self):
        """the current slab is known to contain the cell of the target index"""
        g = X(NOT_(eqc(self.ORIG, 0))) & X(NOT_(eqc(self.VALS, 0))) & X(NOT_(eqc(self.vals, 0))) & X(NOT_(eqc(self.idx, 0)))
        for i in range(self.sd):
            g = g & (self.t(i) - self.org(i) >= 0) & (self.t(i) < self.org(i) + self.dim(i) - 1)
        return g.d
