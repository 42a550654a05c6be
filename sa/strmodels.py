"""Optional models for string vectors, std::find, std::map, streams (used by the value-name and metadata checks)."""
import re

from gvn import *
import models as MD
from ev import params_of, Event

VS = r"std::vector<std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>, std::allocator<std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>\s*>\s*>"


def key_of(ev, st, addr):
    """value of a key passed by reference"""
    return ev.load(st, addr, "i64", 8, None)


def m_mapindex(act, i, dem, args, g, st, setres):
    """std::map<K,V>::operator[](key) / at(key): the address of the mapped value, a function of map object and key"""
    ev = act.ev
    m, k = args[0], args[1]
    kv = key_of(ev, st, k)
    if isinstance(m, Node) or isinstance(kv, (Node, tuple)):
        return NotImplemented
    b = ("mapel", m.fp)
    l = mkleaf(H("addr", b, kv.fp), ("fn", "mapel", m, kv), None, b, l_mul(kv, const(64)))
    ev.events.append(Event("call", AND(act.guard0, g), dem, args, l, i, act.ctx, tuple(ev.loopstack), {1: {0: kv}}, len(ev.events)))
    setres(l)
    return None


def m_mapcount(act, i, dem, args, g, st, setres):
    ev = act.ev
    m, k = args[0], args[1]
    kv = key_of(ev, st, k)
    if isinstance(m, Node) or isinstance(kv, (Node, tuple)):
        return NotImplemented
    r = mkleaf(H("mapcount", m.fp, kv.fp), ("fn", "mapcount", m, kv))
    ev.events.append(Event("call", AND(act.guard0, g), dem, args, r, i, act.ctx, tuple(ev.loopstack), {1: {0: kv}}, len(ev.events)))
    setres(r)
    return None


def m_find(act, i, dem, args, g, st, setres):
    ev = act.ev
    if len(args) != 3 or any(isinstance(a, (Node, tuple)) for a in args):
        return NotImplemented
    v = MD.sval(ev, st, args[2])
    if isinstance(v, Node):
        return NotImplemented
    r = mkleaf(H("find", args[0].fp, args[1].fp, v.fp), ("fn", "find", args[0], args[1], v))
    ev.events.append(Event("call", AND(act.guard0, g), dem, args, r, i, act.ctx, tuple(ev.loopstack), {2: {0: v}}, len(ev.events)))
    setres(r)
    return None


def m_vecval(act, i, dem, args, g, st, setres):
    """copy/move construction and assignment of vectors: the target denotes the same elements"""
    ev = act.ev
    ps = params_of(dem)
    if len(ps) < 1 or not re.match(r"std::vector<.*>\s*(const)?\s*&&?$|std::vector<.*>( const)?&&?$", ps[0]) or len(ps) > 1:
        return NotImplemented
    if isinstance(args[0], (Node, tuple)) or isinstance(args[1], (Node, tuple)):
        return NotImplemented
    for o in (0, 8):
        v = ev.load(st, padd(args[1], const(o)), "ptr", 8, None)
        ev.store(st, padd(args[0], const(o)), v, 8, g, ("vec", i.line))
    b, _ = ptrparts(args[0])
    if b[0] != "al":
        ev.events.append(Event("store", AND(act.guard0, g), None, [args[0], ev.load(st, args[0], "ptr", 8, None)], None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events)))
    setres(args[0])
    return None


def m_mapval(act, i, dem, args, g, st, setres):
    """move/copy assignment of maps: record which map object now holds which one's contents"""
    ev = act.ev
    ps = params_of(dem)
    if len(ps) != 1 or not re.match(r"std::map<.*&&?$", ps[0]):
        return NotImplemented
    if isinstance(args[0], (Node, tuple)) or isinstance(args[1], (Node, tuple)):
        return NotImplemented
    ev.events.append(Event("call", AND(act.guard0, g), "mapassign", args, None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events)))
    setres(args[0])
    return None


def m_stream(act, i, dem, args, g, st, setres):
    setres(args[0] if args and not isinstance(args[0], tuple) else ZERO)
    return None


def m_nop(act, i, dem, args, g, st, setres):
    return None


STREAMS = {
    r"operator<<|std::(__cxx11::)?basic_(o|i)?stringstream<.*>::(~?basic_(o|i)?stringstream|str)\(|std::basic_ostream<.*>::(operator<<|put|write|flush)": m_stream,
}
MAPS = {
    r"^std::map<.*>::(operator\[\]|at)\(": m_mapindex,
    r"^std::map<.*>::count\(": m_mapcount,
    r"^std::map<.*>::operator=\(": m_mapval,
}
FIND = {r"(^|\s)std::find<": m_find}
VECS = {r"^std::vector<.*>::(vector|operator=)\(": m_vecval, r"^std::vector<.*>::~vector\(|std::allocator<.*>::~?allocator\(|__new_allocator": m_nop}


def tolower_reach(prog):
    """repo functions that (transitively) call tolower/toupper"""
    direct = {}
    for f in prog.repo_fns():
        for i in f.instrs():
            if i.o in ("call", "invoke") and i.callee:
                direct.setdefault(f.name, set()).add(i.callee)
        # functions whose address is passed (std::transform)
        for i in f.instrs():
            for a in (i.a or []):
                if a and a[0] == "g":
                    direct.setdefault(f.name, set()).add(a[1])
    low = set()
    changed = True
    while changed:
        changed = False
        for n, cs in direct.items():
            if n not in low and (cs & {"tolower", "toupper"} or cs & low):
                low.add(n); changed = True
    return low


ESZ = ((r"^std::vector<(std::unique_ptr<|double|unsigned long|long|[^<]*\*)", 8), (r"^std::vector<std::map<", 48), (r"^std::vector<(std::__cxx11::basic_string|std::string)", 32), (r"^std::vector<std::shared_ptr", 16))


def m_vecmut(act, i, dem, args, g, st, setres):
    """std::vector members that change the extent: begin@0, end@8, capacity@16"""
    ev = act.ev
    dem = dem[dem.index("std::vector<"):]
    k = re.search(r">::(clear|resize|swap|operator=|push_back|emplace_back|reserve|assign|shrink_to_fit|pop_back|insert|erase|vector|~vector)(<.*>)?\((?!.*>::)", dem) or re.search(r">::(clear|resize|swap|operator=|push_back|emplace_back|reserve|assign|shrink_to_fit|pop_back|insert|erase|vector|~vector)\(", dem)
    if not k or isinstance(args[0], (Node, tuple)):
        return NotImplemented
    k = k.group(1)
    ps = params_of(dem)
    this = args[0]
    esz = next((n for rx, n in ESZ if re.match(rx, dem)), None)
    def get(o, a=this):
        return ev.load(st, padd(a, const(o)), "ptr", 8, None)
    def put(o, v, a=this):
        ev.store(st, padd(a, const(o)), v, 8, g, ("vec", i.line))
    fresh = lambda what: mkleaf(H("vecmut", act.ctx, act.path, i.uid, what, tuple(ev.loopstack)), ("fn", "vec" + what))
    ev.events.append(Event("call", AND(act.guard0, g), dem, args, None, i, act.ctx, tuple(ev.loopstack), None, len(ev.events)))
    if k in ("push_back", "emplace_back") and len(args) == 2 and re.match(r"std::vector<(std::__cxx11::basic_string|std::string)", dem):
        a, p0 = args[1], (ps or [""])[0]
        if re.match(r"(std::(__cxx11::)?basic_string|std::string)", p0):
            ev.events[-1].extra = (MD.sval(ev, st, a),)
        elif p0.startswith("char*&") or p0.startswith("char const*&") or p0.startswith("char const* const&"):
            ev.events[-1].extra = (MD.cval(ev.load(st, a, "ptr", 8, None)),)
    if k == "clear" or k == "resize" and not isinstance(args[1], (Node, tuple)) and args[1] is ZERO:
        put(8, get(0)); return None
    if k == "~vector" or k in ("reserve", "shrink_to_fit"):
        return None
    if k == "vector" and not ps:
        for o in (0, 8, 16):
            put(o, ZERO)
        return None
    mv = len(ps) == 1 and re.match(r"std::vector<.*&&$", ps[0])
    if k == "swap" and isinstance(args[1], Leaf) or k in ("operator=", "vector") and mv and isinstance(args[1], Leaf):
        a = [get(o) for o in (0, 8, 16)]; b = [get(o, args[1]) for o in (0, 8, 16)]
        for o, x, y in zip((0, 8, 16), a, b):
            put(o, y); put(o, x if k == "swap" else ZERO, args[1])
        setres(this); return None
    if k in ("operator=", "vector") and len(ps) == 1 and re.match(r"std::vector<.*const&$", ps[0]) and isinstance(args[1], Leaf):
        b = fresh("begin")
        e = app2("vc", l_add, b, app2("vs", l_sub, get(8, args[1]), get(0, args[1])))
        put(0, b); put(8, e); setres(this); return None
    b = fresh("begin")
    put(0, b)
    if k == "resize" and esz and len(args) == 2:
        put(8, app2("vr", l_add, b, app1("vm", lambda n: l_mul(n, const(esz)), args[1]) if not isinstance(args[1], Node) else b))
    else:
        put(8, fresh("end"))
    setres(this if k == "operator=" else fresh("it"))
    return None


VECMUT = {r"^(\S.*[&*] |void )?std::vector<.*>::(clear|resize|swap|operator=|push_back|emplace_back|reserve|assign|shrink_to_fit|pop_back|insert|erase|vector|~vector)(<.*>)?\(": m_vecmut}
