"""Models of standard-library value types used while evaluating: smart pointers and std::string."""
import re

from gvn import *
import gvn

S = r"std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>"
SP = r"std::(__shared_ptr|shared_ptr|unique_ptr)<.*>"


def strleaf(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    key = tuple(p if isinstance(p, str) else p.fp for p in out)
    l = mkleaf(H("strval", key), ("str",) + tuple(out))
    return l


def parts_of(l):
    if isinstance(l, Leaf) and l.tree and l.tree[0] == "str":
        return list(l.tree[1:])
    return [l]


def const_string(l):
    """python string of a leaf denoting a constant C string or std::string value"""
    if not isinstance(l, Leaf):
        return None
    if l.base is not None and l.base[0] == "gs":
        o = l.off.const
        return l.base[1][int(o):] if o is not None else None
    if l.tree and l.tree[0] == "str":
        ps = l.tree[1:]
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
    if l.tree and l.tree[0] == "fn" and l.tree[1] == "cstr":
        return const_string(l.tree[2])
    return None


def show_string(l):
    """printable form of a string-valued leaf: constants literal, the rest as <..>"""
    s = const_string(l)
    if s is not None:
        return s
    if isinstance(l, Leaf) and l.tree and l.tree[0] == "fn" and l.tree[1] == "cstr":
        l = l.tree[2]
    if isinstance(l, Leaf) and l.tree and l.tree[0] == "str":
        return "".join(p if isinstance(p, str) else "<" + show(p)[:60] + ">" for p in l.tree[1:])
    return "<" + (show(l)[:60] if isinstance(l, Leaf) else "cond") + ">"


def sval(ev, st, addr):
    """value of the std::string object at addr (Leaf)"""
    def one(l):
        b, o = ptrparts(l)
        e = st.mem.get((b, o.fp))
        if e is not None:
            v = e[1]
            if isinstance(v, Leaf) and not v.tree[0] == "str":
                return strleaf([mkleaf(H("strof", v.fp), ("fn", "str", v))])
            if isinstance(v, Node):
                return app1("sv", lambda x: x if x.tree[0] == "str" else strleaf([mkleaf(H("strof", x.fp), ("fn", "str", x))]), v)
            return v
        ver = st.ver.get(b, 0)
        return strleaf([mkleaf(H("strld", l.fp if b[0] != "al" else H(o.fp), ver), ("fn", "ld", l))])
    return app1("sv", one, addr)


def cval(p):
    """string value denoted by a char pointer"""
    def one(l):
        s = const_string(l)
        if s is not None:
            return strleaf([s])
        if l.tree[0] == "fn" and l.tree[1] == "cstr":
            return l.tree[2]
        return strleaf([mkleaf(H("cs", l.fp), ("fn", "chars", l))])
    return app1("cv", one, p)


def cat(a, b):
    return app2("cat", lambda x, y: strleaf(parts_of(x) + parts_of(y)), a, b)


def cstr(v):
    def one(l):
        return mkleaf(H("cstr", l.fp), ("fn", "cstr", l))
    return app1("cstr", one, v)


def m_str(act, i, dem, args, g, st, setres):
    ev = act.ev
    sret = 1 if i.d.get("sret") else 0
    m = re.search(r"basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::(basic_string|~basic_string|c_str|data|operator=|operator\+=|append|operator\[\]|assign|clear|empty|size|length|substr|resize|erase|insert|replace|push_back|pop_back|swap)(<[^(]*>)?\(", dem)
    from ev import params_of, Event
    ps = params_of(dem)
    isref = lambda t: "basic_string" in t
    if m:
        k = m.group(1); this = args[sret]
        if k == "~basic_string":
            return None
        if k in ("c_str", "data"):
            setres(cstr(sval(ev, st, this))); return None
        if k in ("empty", "size", "length"):
            n = strlength(sval(ev, st, this))
            setres(app1("isz", lambda l: eqc(l, 0), n) if k == "empty" else n); return None
        if isinstance(this, Node):
            return NotImplemented
        def put(v):
            ev.store(st, this, v, 32, g, ("str", i.line))
            b, _ = ptrparts(this)
            if b[0] != "al":
                ev.events.append(Event("store", AND(act.guard0, g), None, [this, v], None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events)))
            setres(this)
        n = len(ps)
        def edited(what, *vs):
            return mkleaf(H("stredit", act.ctx, act.path, i.uid, what, tuple(ev.loopstack), *[v.fp for v in vs]), ("fn", what, *vs))
        if k == "substr" and sret:
            v = sval(ev, st, this)
            whole = n == 2 and all(isinstance(a, Leaf) and a.const is not None for a in args[2:4]) and args[2].const == 0 and args[3].const in (-1, 2**64 - 1)
            ev.store(st, args[0], v if whole else app1("substr", lambda x: strleaf([edited("part", x, *[a for a in args[2:] if isinstance(a, Leaf)])]), v), 32, g, ("str", i.line))
            return None
        if sret:
            return NotImplemented
        if k == "push_back" and n == 1 and isinstance(args[1], Leaf):
            put(cat(sval(ev, st, this), strleaf([chr(int(args[1].const) & 255) if args[1].const is not None else edited("character", args[1])]))); setres(ZERO); return None
        if k == "swap" and n == 1 and isinstance(args[1], Leaf):
            x, y = sval(ev, st, this), sval(ev, st, args[1])
            put(y); ev.store(st, args[1], x, 32, g, ("str", i.line)); return None
        if k in ("resize", "erase", "insert", "replace", "pop_back"):
            put(app1("stred", lambda x: strleaf([edited("edited", x)]), sval(ev, st, this))); return NotImplemented if k == "erase" and "iterator" in ps[0:1] else None
        if k == "clear":
            put(strleaf([])); return None
        if k in ("basic_string", "operator=", "assign"):
            if n == 0:
                put(strleaf([])); return None
            if isref(ps[0]) and n in (1, 2) and (n == 1 or "allocator" in ps[1]):
                put(sval(ev, st, args[1])); return None
            if ps[0].startswith("std::allocator") and n == 1:
                put(strleaf([])); return None
            if re.match(r"char const\*", ps[0]) and (n == 1 or (n == 2 and "allocator" in ps[1])):
                put(cval(args[1])); return None
            if k == "assign" and ps and isref(ps[0]) and n == 3:
                put(app1("sub3", lambda x: strleaf([edited("part", x, *[a for a in args[2:] if isinstance(a, Leaf)])]), sval(ev, st, args[1]))); return None
            if k == "assign":
                put(strleaf([edited("edited", *[a for a in args[1:] if isinstance(a, Leaf)])])); return None
            return NotImplemented
        if k in ("operator+=", "append"):
            if n == 1 and isref(ps[0]):
                put(cat(sval(ev, st, this), sval(ev, st, args[1]))); return None
            if n == 1 and ps[0].startswith("char const*"):
                put(cat(sval(ev, st, this), cval(args[1]))); return None
            put(app1("stred", lambda x: strleaf([edited("edited", x, *[a for a in args[1:] if isinstance(a, Leaf)])]), sval(ev, st, this))); return None
        return NotImplemented
    m = re.search(r"std::operator\+<char", dem)
    if m and sret and len(ps) == 2:
        vs = []
        for n, t in enumerate(ps):
            a = args[1 + n]
            if isref(t):
                vs.append(sval(ev, st, a))
            elif t.startswith("char const*"):
                vs.append(cval(a))
            elif t == "char" and not isinstance(a, Node) and a.const is not None:
                vs.append(strleaf([chr(int(a.const))]))
            else:
                return NotImplemented
        ev.store(st, args[0], cat(vs[0], vs[1]), 32, g, ("str", i.line))
        return None
    m = re.search(r"std::operator(==|!=)<char", dem)
    if m and len(ps) == 2:
        vs = [sval(ev, st, a) if isref(t) else cval(a) for a, t in zip(args, ps)]
        def eq(a, b):
            x, y = const_string(a), const_string(b)
            if x is not None and y is not None:
                return ONE if x == y else ZERO
            if a.fp == b.fp:
                return ONE
            if x == "" or y == "":
                return app1("isz", lambda l: eqc(l, 0), strlength(b if x == "" else a))
            k = tuple(sorted((a.fp, b.fp)))
            return mk(getvar(("streq", k), ("str==", a, b)), ONE, ZERO)
        r = app2("streq", eq, vs[0], vs[1])
        setres(r if m.group(1) == "==" else NOT_(r)); return None
    return NotImplemented


def m_strcmp(act, i, dem, args, g, st, setres):
    """strcmp/strcasecmp(...) as an opaque function of the two string values"""
    a, b = cval(args[0]), cval(args[1])
    if isinstance(a, Node) or isinstance(b, Node):
        return NotImplemented
    k = tuple(sorted((a.fp, b.fp)))
    setres(mkleaf(H(dem, k), ("fn", dem, a, b))); return None


def strlength(v):
    """number of characters of a string value"""
    def one(l):
        s = const_string(l)
        return const(len(s)) if s is not None else l_fn("strlen", l)
    return app1("strlen", one, v)


def m_strlen(act, i, dem, args, g, st, setres):
    setres(strlength(cval(args[0]))); return None


def m_sp(act, i, dem, args, g, st, setres):
    ev = act.ev
    from ev import params_of, Event
    sret = 1 if i.d.get("sret") else 0
    tail = re.search(r">::((?:~?\w+|operator=|operator bool))(<.*>)?\(([^()]*(?:\([^()]*\)[^()]*)*)\)( const)?$", dem)
    def put(this, v):
        ev.store(st, this, v, 8, g, ("sp", i.line))
        for l in leaves(this).values():
            b, _ = ptrparts(l)
            if b[0] != "al":
                ev.events.append(Event("store", AND(act.guard0, g), None, [l, v], None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events)))
                break
    m = re.search(r"std::(make_shared|make_unique)<", dem)
    if m and sret:
        b = ("new", act.ctx, act.path, i.uid)
        l = mkleaf(H("addr", b), ("fn", "new"), None, b, ZERO)
        mm = re.search(r"std::make_(?:shared|unique)<(?:geomodelgrids::)?([\w:]+)", dem)
        cont = {}
        for n, a in enumerate(args):
            if isinstance(a, Leaf) and a.base is not None and a.base[0] in ("al", "new"):
                bb, o = ptrparts(a)
                cont[n] = {l_sub(off, o).const: v for k, (off, v, sz) in st.mem.items() if k[0] == bb}
        ev.events.append(Event("new", AND(act.guard0, g), mm.group(1) if mm else "?", args[1:], l, i, act.ctx, tuple(ev.loopstack), cont, len(ev.events)))
        st.ver[b] = ("ctor", mm.group(1) if mm else "?")
        ev.store(st, args[0], l, 8, g, ("sp", i.line))
        return None
    if not tail:
        return NotImplemented
    k = tail.group(1); ps = params_of(dem)
    if k.startswith("~"):
        return None
    this = args[0]
    if k in ("shared_ptr", "unique_ptr", "__shared_ptr"):
        if not ps or ps[0] in ("decltype(nullptr)", "std::nullptr_t"):
            put(this, ZERO); return None
        if re.match(r"std::(__)?(shared_ptr|unique_ptr)<.*(&|&&|const&)$", ps[0]) and len(ps) == 1:
            put(this, ev.load(st, args[1], "ptr", 8, None)); return None
        if ps[0].endswith("*") and len(ps) == 1:
            put(this, args[1]); return None
        return NotImplemented
    if k == "operator=":
        if ps and re.match(r"std::(__)?(shared_ptr|unique_ptr)<.*(&|&&|const&)$", ps[0]):
            put(this, ev.load(st, args[1], "ptr", 8, None)); setres(this); return None
        if ps and ps[0] in ("decltype(nullptr)", "std::nullptr_t"):
            put(this, ZERO); setres(this); return None
        return NotImplemented
    if k == "reset":
        if not ps:
            put(this, ZERO); return None
        if len(ps) == 1:
            put(this, args[1]); return None
    if k == "release":
        setres(ev.load(st, this, "ptr", 8, None)); put(this, ZERO); return None
    return NotImplemented


DEFAULT = {
    r"basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::(basic_string|~basic_string|c_str|data|operator=|operator\+=|append|assign|clear|empty|size|length|substr|resize|erase|insert|replace|push_back|pop_back|swap)(?=\W)|^(std::.* )?std::operator(\+|==|!=)<char|std::operator(\+|==|!=)<char": m_str,
    r"^(strcmp|strcasecmp)$": m_strcmp,
    r"^strlen$": m_strlen,
    r"std::(__shared_ptr|shared_ptr|unique_ptr)<.*>::(~?(__shared_ptr|shared_ptr|unique_ptr)|operator=|reset|release)(<.*>)?\(|std::make_(shared|unique)<": m_sp,
}
