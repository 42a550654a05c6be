"""Model of h5py for abstract evaluation of Python: what happens to a file is kept in order in m.h5ops"""
import gvn
from gvn import Leaf, l_fn, l_add, atom, const, ZERO
import pyev
from pyev import B, Native, NatFn, Raised, Unknown, Slice, S


class Op:
    def __init__(self, kind, file, path, loc, **kw):
        self.kind = kind; self.file = file; self.path = path; self.loc = loc; self.__dict__.update(kw)
    def __repr__(self): return f"{self.kind} {self.path} {getattr(self, 'name', '')}"


def st(m):
    if not hasattr(m, "h5ops"):
        m.h5ops = []; m.h5state = {}; m.h5files = []; m.h5attrs = {}
    return m


def join(p, n):
    return (p.rstrip("/") + "/" + n.strip("/")) if not n.startswith("/") else n.rstrip("/") or "/"


def name_of(m, i):
    if isinstance(i, str):
        return i
    raise Unknown("name in a file that is not known")


def exists(m, f, path):
    st(m)
    if path == "/":
        return True
    parent = path.rsplit("/", 1)[0] or "/"
    if not exists(m, f, parent):
        return False
    k = (f.key, path)
    if k not in m.h5state:
        if f.mode == "w" or f.fresh or m.h5state.get((f.key, parent)) == "new":
            m.h5state[k] = None
        else:
            m.h5state[k] = "old" if m.decide(B("t", l_fn("in the file", f.leafname, S(path)))) else None
    return m.h5state[k] is not None


class Item(Native):
    def __init__(self, f, path):
        self.f = f; self.path = path; self.leaf = l_fn("h5", f.leafname, S(path))

    def need(self, m, node, write=False):
        if not self.f.open:
            raise Raised("ValueError", m.at(node), "file is closed")
        if write and self.f.mode == "r":
            raise Raised("ValueError", m.at(node), "file is opened for reading")

    def has(self, m, i):
        self.need(m, None)
        return exists(m, self.f, join(self.path, name_of(m, i)))

    def child(self, m, name, node):
        p = join(self.path, name)
        if not exists(m, self.f, p):
            raise Raised("KeyError", m.at(node), p)
        return make(self.f, p)

    def get(self, m, i, node):
        self.need(m, node)
        return self.child(m, name_of(m, i), node)

    def del_(self, m, i, node):
        self.need(m, node, True)
        p = join(self.path, name_of(m, i))
        if not exists(m, self.f, p):
            raise Raised("KeyError", m.at(node), p)
        remove(m, self.f, p, node)

    def set(self, m, i, v, node):
        raise Unknown("dataset made by an assignment to a group")

    def attr(self, m, n, node):
        if n == "attrs":
            return Attrs(self.f, self.path)
        if n == "name":
            return self.path
        if n == "file":
            return self.f
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Unknown(f"method {n} of an HDF5 object")
        return NatFn(f)

    # methods
    def m_get(self, m, a, kw, node):
        self.need(m, node)
        p = join(self.path, name_of(m, a[0]))
        if exists(m, self.f, p):
            return make(self.f, p)
        return a[1] if len(a) > 1 else kw.get("default")

    def m_create_group(self, m, a, kw, node):
        self.need(m, node, True)
        p = join(self.path, name_of(m, a[0]))
        if exists(m, self.f, p):
            raise Raised("ValueError", m.at(node), f"{p} exists")
        st(m).h5state[(self.f.key, p)] = "new"
        m.h5ops.append(Op("group", self.f, p, m.at(node)))
        return make(self.f, p)

    def m_require_group(self, m, a, kw, node):
        p = join(self.path, name_of(m, a[0]))
        if exists(m, self.f, p):
            return make(self.f, p)
        return self.m_create_group(m, a, kw, node)

    def m_create_dataset(self, m, a, kw, node):
        self.need(m, node, True)
        kw = dict(kw)
        for k, v in zip(("name", "shape", "dtype", "data"), a):
            kw[k] = v
        p = join(self.path, name_of(m, kw.pop("name")))
        if exists(m, self.f, p):
            raise Raised("ValueError", m.at(node), f"{p} exists")
        st(m)
        parent = p.rsplit("/", 1)[0]
        q = parent
        while q and not exists(m, self.f, q):
            m.h5state[(self.f.key, q)] = "new"; q = q.rsplit("/", 1)[0]
        m.h5state[(self.f.key, p)] = "new"
        for k in [x for x in m.h5attrs if x[:2] == (self.f.key, p)]:
            del m.h5attrs[k]
        m.h5ops.append(Op("dataset", self.f, p, m.at(node), kw=kw))
        return make(self.f, p)

    def m_require_dataset(self, m, a, kw, node):
        kw = dict(kw)
        for k, v in zip(("name", "shape", "dtype"), a):
            kw[k] = v
        p = join(self.path, name_of(m, kw["name"]))
        if exists(m, self.f, p):
            return make(self.f, p)
        return self.m_create_dataset(m, [], kw, node)

    def m_pop(self, m, a, kw, node):
        p = join(self.path, name_of(m, a[0]))
        if not exists(m, self.f, p):
            if len(a) > 1:
                return a[1]
            raise Raised("KeyError", m.at(node), p)
        remove(m, self.f, p, node)

    def keys(self, m):
        return None


def remove(m, f, p, node):
    st(m).h5state[(f.key, p)] = None
    for k in [x for x in m.h5state if x[0] == f.key and x[1].startswith(p + "/")]:
        m.h5state[k] = None
    for k in [x for x in m.h5attrs if x[0] == f.key and (x[1] == p or x[1].startswith(p + "/"))]:
        del m.h5attrs[k]
    m.h5ops.append(Op("delete", f, p, m.at(node)))


class Attrs(Native):
    def __init__(self, f, path):
        self.f = f; self.path = path; self.leaf = l_fn("h5attrs", f.leafname, S(path))

    def key(self, m, i):
        return (self.f.key, self.path, name_of(m, i))

    def need(self, m, node, write=False):
        Item.need(self, m, node, write)

    def get(self, m, i, node):
        self.need(m, node)
        k = self.key(m, i)
        return st(m).h5attrs[k] if k in m.h5attrs else stored(self.f, self.path, k[2])

    def set(self, m, i, v, node):
        self.need(m, node, True)
        st(m).h5attrs[self.key(m, i)] = v
        m.h5ops.append(Op("attr", self.f, self.path, m.at(node), name=name_of(m, i), value=v))

    def del_(self, m, i, node):
        self.need(m, node, True)
        st(m).h5attrs.pop(self.key(m, i), None)
        m.h5ops.append(Op("delattr", self.f, self.path, m.at(node), name=name_of(m, i)))

    def has(self, m, i):
        # attributes of a dataset that is there are there as well, all or none
        if self.key(m, i) in st(m).h5attrs:
            return True
        if st(m).h5state.get((self.f.key, self.path)) == "new":
            return False
        return B("t", l_fn("has attributes", self.leaf))

    def attr(self, m, n, node):
        def create(m, a, kw, node):
            names = ("name", "data", "shape", "dtype")
            kw = dict(kw)
            for k, v in zip(names, a):
                kw[k] = v
            self.set(m, kw["name"], kw.get("data", kw.get("value")), node)
            m.h5ops[-1].dtype = kw.get("dtype")
        if n == "get":
            return NatFn(lambda m, a, kw, node: self.get(m, a[0], node))
        if n in ("create", "modify"):
            return NatFn(create)
        if n == "update":
            def upd(m, a, kw, node):
                if not isinstance(a[0], pyev.PDict):
                    raise Unknown("attributes updated")
                for k, v in a[0].items.items():
                    self.set(m, k, v, node)
            return NatFn(upd)
        raise Unknown(f"method {n} of attributes")


def stored(f, path, name):
    """attribute of the file"""
    return l_fn("attribute", f.leafname, S(path), S(name))


class Dataset(Item):
    def rank(self):
        return 3 if self.path.startswith("/surfaces/") else 4

    def arr(self):
        return pyev.Arr([l_fn("extent", self.leaf, const(k)) for k in range(self.rank())], lambda ix: l_fn("data", self.leaf, *ix))

    def get(self, m, i, node):
        self.need(m, node)
        if i == () or i is pyev.Ellipsis_:
            i = Slice(None, None, None)
        r = m.index(self.arr(), i, node)
        st(m).h5ops.append(Op("read", self.f, self.path, m.at(node), index=i))
        return r

    def set(self, m, i, v, node):
        self.need(m, node, True)
        st(m).h5ops.append(Op("write", self.f, self.path, m.at(node), index=i, value=v, sel=self.sel(i)))

    def sel(self, i):
        """[(start, stop)] for every direction, None = all"""
        its = list(i) if isinstance(i, tuple) else [i]
        n = self.rank()
        if any(x is pyev.Ellipsis_ for x in its):
            k = next(j for j, x in enumerate(its) if x is pyev.Ellipsis_)
            its[k:k + 1] = [Slice(None, None, None)] * (n - len(its) + 1)
        its += [Slice(None, None, None)] * (n - len(its))
        if len(its) != n:
            raise Unknown("subscript of a dataset")
        out = []
        for x in its:
            if isinstance(x, Slice):
                if x.s is not None and not (isinstance(x.s, Leaf) and x.s.const == 1):
                    out.append((x.a, x.b, x.s))
                elif x.a is None and x.b is None:
                    out.append(None)
                else:
                    out.append((x.a if x.a is not None else ZERO, x.b, None))
            elif isinstance(x, Leaf):
                out.append((x, l_add(x, const(1)), None))
            else:
                raise Unknown("subscript of a dataset")
        return out

    def attr(self, m, n, node):
        if n == "shape":
            return tuple(self.arr().shape)
        return super().attr(m, n, node)


class File(Item):
    def __init__(self, m, name, mode):
        self.leafname = pyev.leaf(name); self.key = self.leafname.fp
        self.mode = mode; self.open = True
        self.fresh = mode == "w"
        super().__init__(self, "/")
        st(m).h5files.append(self)

    def m_close(self, m, a, kw, node):
        self.open = False

    def m_flush(self, m, a, kw, node):
        pass

    def exit(self, m, node):
        self.open = False


def make(f, path):
    if path == "/":
        return f
    return (Dataset if path.count("/") >= 2 else Item)(f, path)


def open_(m, fn, a, kw, node):
    kw = dict(kw)
    for k, v in zip(("name", "mode"), a):
        kw[k] = v
    mode = kw.get("mode", "r")
    if not isinstance(mode, str):
        raise Unknown("mode of a file")
    f = File(m, kw["name"], "w" if mode in ("w",) else mode)
    m.h5ops.append(Op("open", f, "/", m.at(node), mode=mode))
    if mode == "w":
        for k in [x for x in m.h5state if x[0] == f.key]:
            m.h5state[k] = None
        m.h5state[(f.key, "/")] = "new"
    return f


MODELS = {"h5py.File": open_}
