"""Models of the standard streams used by the programs: what is read and written, in which order, in which format, and the error state"""
import re

from gvn import *
import gvn
import models as MD
from ev import Event, params_of

BASE = 1 << 20
STATE, OPEN, PREC, FMT, WIDTH = BASE, BASE + 8, BASE + 16, BASE + 24, BASE + 32
C = gvn.const


def root(a):
    def one(l):
        return padd(l, l_neg(ptrparts(l)[1]))
    return app1("strroot", one, a)


def get(ev, st, r, off):
    return ev.load(st, padd(r, C(off)), "i64", 8, None)


def put(ev, st, r, off, v, g, tag):
    ev.store(st, padd(r, C(off)), v, 8, g, tag)


def emit(act, i, g, callee, args, res=None, extra=None):
    e = Event("call", AND(act.guard0, g), callee, args, res, i, act.ctx, tuple(act.ev.loopstack), extra, len(act.ev.events))
    act.ev.events.append(e)
    return e


# ---- error state: functions of the operations done so far --------------------------------------
def is_fn(l, name):
    return isinstance(l, Leaf) and l.tree[0] == "fn" and l.tree[1] == name


def isopen(l):
    return NOT(eqc(l_fn("is open", l), 0)) if is_fn(l, "opened") else NOT(eqc(l_fn("is open?", l), 0))


def bit(name, s):
    def one(l):
        if is_fn(l, "opened"):
            return NOT(isopen(l)) if name == "failbit" else ZERO
        if is_fn(l, "text"):
            return ZERO
        return NOT(eqc(l_fn(name, l), 0))
    return app1("bit" + name, one, s)


def failed(s):
    return OR(bit("failbit", s), bit("badbit", s))


def ended(s):
    return bit("eofbit", s)


def consistent(s, depth=0):
    """what an operation does to a stream that has already failed or ended"""
    g = ONE
    while isinstance(s, Leaf) and s.tree[0] == "fn" and s.tree[1] in ("read", "wrote", "flushed", "closed") and depth < 12:
        t = s.tree[2]
        if not isinstance(t, Leaf):
            break
        g = AND(g, OR(NOT(failed(t)), bit("failbit", s) if s.tree[1] == "read" else failed(s)))
        g = AND(g, OR(NOT(bit("badbit", t)), bit("badbit", s)))
        if s.tree[1] == "read":
            g = AND(g, OR(NOT(ended(t)), bit("failbit", s)))
        s = t; depth += 1
    return g


def fname(ev, st, a, ps):
    if ps and "basic_string" in ps[0]:
        return MD.sval(ev, st, a)
    return MD.cval(a)


def m_open(act, i, dem, args, g, st, setres):
    ps = params_of(dem) or []
    ev = act.ev
    r = root(args[0])
    if not isinstance(r, Leaf):
        return NotImplemented
    put(ev, st, r, PREC, C(6), g, ("o", i.line)); put(ev, st, r, FMT, l_fn("general"), g, ("o", i.line)); put(ev, st, r, WIDTH, C(0), g, ("o", i.line))
    if not ps or not re.match(r"(std::(__cxx11::)?basic_string|char const\*)", ps[0]):
        if ps:
            return NotImplemented
        put(ev, st, r, STATE, l_fn("unopened"), g, ("o", i.line)); put(ev, st, r, OPEN, l_fn("unopened"), g, ("o", i.line))
        return None
    name = fname(ev, st, args[1], ps)
    def mode(l):
        return l_fn("opened", l, r)
    o = app1(("op", r.fp), mode, name)
    put(ev, st, r, STATE, o, g, ("o", i.line)); put(ev, st, r, OPEN, o, g, ("o", i.line))
    emit(act, i, g, "open", [r, name], None, ("in" if "ifstream" in dem else "out", args[2] if len(args) > 2 else None))
    return None


def m_pred(act, i, dem, args, g, st, setres):
    ev = act.ev
    r = root(args[0])
    k = re.search(r"(is_open|good|eof|fail|bad|operator bool|operator!)\(", dem).group(1)
    def one(x):
        s = get(ev, st, x, STATE)
        if k == "is_open":
            return app1("isopen", isopen, get(ev, st, x, OPEN))
        if k == "good":
            return NOT(OR(failed(s), ended(s)))
        if k == "eof":
            return ended(s)
        if k == "bad":
            return bit("badbit", s)
        return NOT(failed(s)) if k == "operator bool" else failed(s)
    setres(app1(("pred", k, i.id, act.ctx), one, r))
    return None


def m_read(act, i, dem, args, g, st, setres):
    """a number: its value depends on what has been read before"""
    ev = act.ev
    ps = params_of(dem) or []
    if ps not in (["double&"],):
        return NotImplemented
    r = root(args[0])
    if not isinstance(r, Leaf):
        return NotImplemented
    s = get(ev, st, r, STATE)
    v = app1("num", lambda l: l_fn("number", l), s)
    ns = app1("rd", lambda l: l_fn("read", l), s)
    ev.store(st, args[1], v, 8, g, ("read", i.line))
    put(ev, st, r, STATE, ns, g, ("read", i.line))
    emit(act, i, g, "read", [r, args[1]], v, (s, ns))
    setres(args[0])
    return None


def token(act, i, g, st, r, kind, v):
    ev = act.ev
    s = get(ev, st, r, STATE)
    w, pr, fm = get(ev, st, r, WIDTH), get(ev, st, r, PREC), get(ev, st, r, FMT)
    emit(act, i, g, "token", [r, v], None, (kind, w, pr, fm))
    put(ev, st, r, WIDTH, C(0), g, ("tok", i.line))
    put(ev, st, r, STATE, app1("wr", lambda l: l if is_fn(l, "wrote") else l_fn("wrote", l), s), g, ("tok", i.line))


FMTS = {"_ZSt10scientificRSt8ios_base": "scientific", "_ZSt5fixedRSt8ios_base": "fixed", "_ZSt12defaultfloatRSt8ios_base": "general", "_ZSt8hexfloatRSt8ios_base": "hex"}


def fnname(a):
    if isinstance(a, Leaf) and a.base is not None:
        for x in a.base:
            if isinstance(x, str) and x.startswith("_Z"):
                return x
    m = re.search(r"_Z\w+", show(a)) if isinstance(a, Leaf) else None
    return m.group(0) if m else None


def m_write(act, i, dem, args, g, st, setres):
    ev = act.ev
    ps = params_of(dem) or []
    memb = "std::ostream::" in dem or re.match(r"std::basic_ostream<.*>::operator<<\(", dem)
    if i.d.get("sret") or not args:
        return NotImplemented
    ty = ps[0] if memb else (ps[1] if len(ps) > 1 else "")
    r = root(args[0])
    if not isinstance(r, Leaf) or len(args) < 2:
        setres(args[0]); return None
    a = args[1]
    setres(args[0])
    if "ios_base& (*)" in ty or "(*)(std::ios" in ty or "(*)(std::basic_ios" in ty or "(*)(std::ostream" in ty or "(*)(std::basic_ostream" in ty:
        n = fnname(a) or ""
        if n in FMTS:
            put(ev, st, r, FMT, l_fn(FMTS[n]), g, ("f", i.line)); return None
        if "endl" in n or "flush" in n:
            if "endl" in n:
                token(act, i, g, st, r, "text", MD.strleaf(["\n"]))
            s = get(ev, st, r, STATE)
            ns = app1("fl", lambda l: l_fn("flushed", l), s)
            put(ev, st, r, STATE, ns, g, ("f", i.line))
            emit(act, i, g, "flushed", [r], None, (s, ns))
            return None
        put(ev, st, r, FMT, l_fn("format", a), g, ("f", i.line))
        emit(act, i, g, "format", [r, a]); return None
    if "_Setw" in ty:
        put(ev, st, r, WIDTH, a, g, ("f", i.line)); return None
    if "_Setprecision" in ty:
        put(ev, st, r, PREC, a, g, ("f", i.line)); return None
    if "_Setiosflags" in ty or "_Resetiosflags" in ty or "_Setfill" in ty or "_Setbase" in ty:
        put(ev, st, r, FMT, l_fn("format", a if isinstance(a, Leaf) else C(0)), g, ("f", i.line)); return None
    if ty.startswith("char const*"):
        token(act, i, g, st, r, "text", MD.cval(a)); return None
    if "basic_string<char" in ty:
        token(act, i, g, st, r, "text", MD.sval(ev, st, a)); return None
    if ty == "char":
        v = a
        if isinstance(a, Leaf) and a.const is not None:
            v = MD.strleaf([chr(int(a.const) & 255)])
        token(act, i, g, st, r, "text", v); return None
    if ty in ("double", "float", "long double"):
        token(act, i, g, st, r, "number", a); return None
    if ty in ("int", "unsigned int", "long", "unsigned long", "short", "bool", "unsigned short", "long long", "unsigned long long"):
        token(act, i, g, st, r, "integer", a); return None
    token(act, i, g, st, r, "unknown", a if isinstance(a, (Leaf, Node)) else C(0))
    return None


def m_putn(act, i, dem, args, g, st, setres):
    """a number of characters, as they are"""
    r = root(args[0])
    if not isinstance(r, Leaf) or len(args) < 3:
        return NotImplemented
    v = MD.cval(args[1])
    n = MD.strlength(v) if isinstance(v, Leaf) else None
    setres(args[0])
    if isinstance(n, Leaf) and isinstance(args[2], Leaf) and n.fp == args[2].fp:
        token(act, i, g, st, r, "text", v); return None
    token(act, i, g, st, r, "unknown", args[1] if isinstance(args[1], (Leaf, Node)) else C(0))
    return None


def m_manip(act, i, dem, args, g, st, setres):
    setres(args[0]); return None


def m_set(act, i, dem, args, g, st, setres):
    """width(n) and precision(n) as functions of the stream"""
    r = root(args[0])
    k = WIDTH if "width" in dem else PREC
    setres(get(act.ev, st, r, k))
    if len(args) > 1:
        put(act.ev, st, r, k, args[1], g, ("f", i.line))
    return None


def m_close(act, i, dem, args, g, st, setres):
    ev = act.ev
    r = root(args[0])
    if not isinstance(r, Leaf):
        return NotImplemented
    k = "closed" if "close" in dem else "flushed"
    s = get(ev, st, r, STATE)
    ns = app1(k, lambda l: l_fn(k, l), s)
    put(ev, st, r, STATE, ns, g, ("c", i.line))
    emit(act, i, g, k, [r], None, (s, ns))
    setres(args[0])
    return None


def m_sstream(act, i, dem, args, g, st, setres):
    """a text stream"""
    ev = act.ev
    ps = params_of(dem) or []
    m = re.search(r"stringstream<.*>::(~?basic_[io]?stringstream|str)\(", dem)
    k = m.group(1)
    if k == "str" and i.d.get("sret"):
        r = root(args[1])
        ev.store(st, args[0], app1("ostr", lambda l: MD.strleaf([l_fn("text of", l)]), r), 32, g, ("ss", i.line))
        return None
    if k.startswith("~"):
        return None
    r = root(args[0])
    if isinstance(r, Leaf):
        put(ev, st, r, PREC, C(6), g, ("o", i.line)); put(ev, st, r, FMT, l_fn("general"), g, ("o", i.line)); put(ev, st, r, WIDTH, C(0), g, ("o", i.line))
        if k != "str":
            emit(act, i, g, "text stream", [r], None, (fname(ev, st, args[1], ps) if ps and "basic_string" in ps[0] else None,))
    return None


def m_nop(act, i, dem, args, g, st, setres):
    return None


IO = {
    r"^std::basic_[io]?fstream<.*>::(basic_[io]?fstream|open)\(": m_open,
    r"^std::basic_[io]?fstream<.*>::~basic_[io]?fstream\(": m_nop,
    r"^std::basic_[io]?fstream<.*>::is_open\(|^std::basic_ios<.*>::(good|eof|fail|bad|operator bool|operator!)\(": m_pred,
    r"^std::basic_[io]?fstream<.*>::close\(|^std::(ostream|basic_ostream<.*>)::flush\(": m_close,
    r"^std::(istream|basic_istream<.*>)::operator>>\(": m_read,
    r"^std::(ostream|basic_ostream<.*>)::write\(": m_putn,
    r"^std::(setw|setprecision)\(": m_manip,
    r"^std::ios_base::(width|precision)\(": m_set,
    r"(^std::(ostream|basic_ostream<.*>)::operator<<\()|(std::operator<< ?<)|(std::operator<<\()|(& std::operator<<)": m_write,
    r"^std::(__cxx11::)?basic_[io]?stringstream<.*>::(~?basic_[io]?stringstream|str)\(": m_sstream,
}
