"""Evaluator: IR function -> gated value numbers, recorded events (opaque calls, stores, returns)."""
import re

import core

from gvn import *
import gvn

INLINE_STD = re.compile(
    r"(std::(max|min|abs|move|forward|__addressof|addressof|get|__get_helper|swap|isnan|isinf|fabs|floor|sqrt|round|pow|hypot|sin|cos|tan)\b"
    r"|std::(__shared_ptr|__shared_ptr_access|shared_ptr|unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base|array|__array_traits|pair)<.*>::(operator->|operator\*|operator bool|get|_M_get|_M_ptr|_M_head|operator\[\]|data|size|begin|end|_S_ref|_S_ptr|_M_get_deleter)(?=\W|$)"
    r"|std::vector<.*>::(operator\[\]|size|begin|end|cbegin|cend|empty|data|front|back)(?=\W|$)"
    r"|std::(operator==|operator!=)\b"
    r"|__gnu_cxx::__normal_iterator<"
    r"|__gnu_cxx::operator(==|!=|<|-)"
    r"|std::operator(==|!=)<.*shared_ptr"
    r"|std::(__cxx11::)?basic_string<.*>::(c_str|data|size|length|empty|_M_data)\b)")

MATH = {"sin", "cos", "tan", "floor", "ceil", "round", "fabs", "sqrt", "exp", "log", "pow", "atan2", "asin", "acos", "atan", "hypot", "trunc", "fmod", "fmin", "fmax", "lround", "llround", "rint", "nearbyint", "abs"}
IGNORE = re.compile(r"^llvm\.(lifetime|dbg|assume|experimental\.noalias|va_|stackrestore|donothing)")


class State:
    __slots__ = ("mem", "ver")

    def __init__(self, mem=None, ver=None):
        self.mem = dict(mem or {}); self.ver = dict(ver or {})

    def copy(self):
        return State(self.mem, self.ver)


class Event:
    __slots__ = ("kind", "guard", "callee", "args", "res", "instr", "ctx", "loops", "extra", "n", "outs", "thr")

    def __init__(self, kind, guard, callee, args, res, instr, ctx, loops, extra=None, n=0):
        self.kind = kind; self.guard = guard; self.callee = callee; self.args = args; self.res = res
        self.instr = instr; self.ctx = ctx; self.loops = loops; self.extra = extra; self.n = n; self.outs = {}; self.thr = None

    @property
    def fn(self):
        return self.instr.fn

    def loc(self):
        return self.instr.fn.loc(self.instr)

    def __repr__(self):
        return f"<{self.kind} {self.callee} {[showdd(a)[:100] if isinstance(a, (Leaf, Node)) else None for a in (self.args or [])]} @{self.loc()}>"


class Evaluator:
    def __init__(self, prog, opaque=(), maxdepth=12, unroll=70, models=None, inline_pred=None):
        self.prog = prog; self.opaque = opaque; self.maxdepth = maxdepth; self.unroll = unroll
        self.lstores = []; self.events = []; self.loopstack = []; self.loopinfo = {}; self.fnstack = []
        import models as MD
        self.models = {**(models or {}), **MD.DEFAULT}
        self.mcache = {}
        self.undecided = []
        self.inline_pred = inline_pred
        self.throwing = None
        self.assume = None; self.unwound = []; self.stop = None; self.its = {}; self.force_unroll = 0; self.unfinished = []
        self.extents = []; self.maxiter_hit = False
        self.inlined = set()
        self.nblocks = 0

    # ---- entry
    def run(self, fn, args=None, state=None, assume=ONE):
        reset_budget()
        self.root = fn
        if args is None:
            args = [atom("arg", i, tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(fn.args)]
        st = state or State()
        ret, st, g = self.call_fn(fn, args, st, assume, ())
        self.ret = ret; self.state = st; self.retguard = g
        return ret

    # ---- function activation
    def call_fn(self, fn, args, st, guard, ctx, path=()):
        self.inlined.add(fn.name)
        act = Activation(self, fn, args, guard, ctx); act.path = path
        r = act.run(st)
        self.unwound = [(AND(guard, g), s) for g, s in act.unw]
        return r

    # ---- operand-independent helpers
    def globaladdr(self, name, tu=None):
        if name.startswith(".str") or name.startswith("__const") or name.startswith("__PRETTY"):
            t = self.prog.string(["g", name], tu)
            if t is not None:
                b = ("gs", t)
                return mkleaf(H("addr", b), ("fn", repr(t)), None, b, ZERO)
            name = name + "@" + (tu or "")
        b = ("g", name)
        return mkleaf(H("addr", b), ("fn", "&" + name), None, b, ZERO)

    # ---- memory
    def load(self, st, addr, ty, size, tu):
        def one(l):
            return self.load1(st, l, ty, size, tu)
        if not isinstance(addr, Node):
            return one(addr)
        return app1("load", one, addr)

    def load1(self, st, l, ty, size, tu):
        b, o = ptrparts(l)
        k = (b, o.fp)
        e = st.mem.get(k)
        if e is not None:
            return e[1]
        if b[0] == "g" and o.const is not None:
            v = self.globalinit(b[1], int(o.const), ty, size, tu)
            if v is not None:
                return v
        ver = st.ver.get(b, 0)
        if ver == 0 and b[0] in ("al",):
            # uninitialised or aggregate-initialised local
            return atom("undef", b, o.fp, tree=("fn", "undef"))
        if b[0] in ("al",):
            return atom("ldv", ver, o.fp, ty if ty == "ptr" else "", tree=("fn", "out", *([_vertree(ver)] if ver else []), o))
        return atom("ld", l.fp, ver, tree=("fn", "ld", l) + ((("fn", "after"),) if ver else ()))

    def globalinit(self, name, off, ty, size, tu):
        if "@" in name:
            name, tu = name.split("@", 1)
        g = self.prog.tuglobals.get(tu, {}).get(name) or self.prog.globals.get(name)
        if not g or not g.get("const") or "init" not in g:
            return None
        init = g["init"]

        def flat(x):
            if x[0] == "a":
                out = []
                for y in x[1]:
                    r = flat(y)
                    if r is None:
                        return None
                    out += r
                return out
            if x[0] == "i":
                return [(x[2] // 8 or 1, const(x[1]))]
            if x[0] == "f":
                return [(8, const(float(x[1])))]
            if x[0] == "n":
                return [(8, ZERO)]
            if x[0] == "g":
                return [(8, self.globaladdr(x[1], tu))]
            return None
        if init[0] == "z":
            return ZERO
        fl = flat(init)
        if fl is None:
            return None
        p = 0
        for sz, v in fl:
            if p == off:
                return v
            p += sz
        return None

    def store(self, st, addr, val, size, guard=None, tag=None):
        if isinstance(addr, Node):
            for l in leaves(addr).values():
                # weak update
                cond = app1("isl", lambda x: ONE if x.fp == l.fp else ZERO, addr)
                old = self.load1(st, l, "", size, None)
                self._store1(st, l, ite(cond, val, old), size, tag)
        else:
            self._store1(st, addr, val, size, tag)

    def _store1(self, st, l, val, size, tag):
        b, o = ptrparts(l)
        kill = []
        for k, (off, _, sz) in st.mem.items():
            if k[0] != b or k[1] == o.fp:
                continue
            d = l_sub(off, o)
            if d.const is None:
                if not self.apart(d, sz, size):
                    kill.append(k)
            elif -sz < d.const < size:
                kill.append(k)
        for k in kill:
            del st.mem[k]
        if o.const is None:
            st.ver[b] = ("st", H(tag, o.fp, nid(val), st.ver.get(b, 0)))
        st.mem[(b, o.fp)] = (o, val, size)

    def apart(self, d, sz, size):
        """an offset difference c + s*IT (IT counts from 0) that never makes the two places overlap"""
        import spec
        for it in self.its.values():
            d0 = spec.subst(d, {it.fp: ZERO})
            if d0.const is None:
                continue
            s = l_sub(spec.subst(d, {it.fp: ONE}), d0)
            if s.const is None or l_add(d0, l_mul(s, it)).fp != d.fp:
                continue
            return d0.const <= -sz and s.const <= 0 or d0.const >= size and s.const >= 0
        return False

    def clobber(self, st, l, token):
        b, o = ptrparts(l)
        if b[0] in ("al", "new"):
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
            st.ver[b] = token
        elif b[0] not in ("g", "gs"):
            for k in [k for k in st.mem if k[0] == b]:
                off = st.mem[k][0]
                d = l_sub(off, o)
                if d.const is None or d.const == 0:
                    del st.mem[k]
            st.mem[(b, o.fp)] = (o, atom("outv", token, o.fp if b[0] != "v" else 0, tree=("fn", "out", _vertree(token))), 8)
            if l.base is None:
                # pointer parameter: its pointee array is written by the callee
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
                st.ver[b] = token

    def clobber_part(self, st, l, token, size, ty=None):
        """an object of known size at the start of a larger one is written"""
        s2 = State()
        self.clobber(s2, l, token)
        for o in range(0, size, 8):
            z = min(8, size - o)
            self._store1(st, padd(l, const(o)), self.load1(s2, padd(l, const(o)), ty or ("ptr" if z == 8 else "i32"), z, None), z, None)

    def contents(self, st, l):
        b, o = ptrparts(l)
        items = []
        for k, (off, v, sz) in st.mem.items():
            if k[0] == b:
                d = l_sub(off, o)
                items.append((d.fp, nid_stable(v)))
        return (tuple(sorted(items)), st.ver.get(b, 0))

    def merge(self, pairs):
        """pairs: [(guard, state)] -> state"""
        if len(pairs) == 1:
            return pairs[0][1].copy()
        base = pairs[0][1]
        res = State()
        bs = set()
        for _, s in pairs:
            bs.update(s.ver)
        for b in bs:
            vs = [s.ver.get(b, 0) for _, s in pairs]
            if all(v == vs[0] for v in vs):
                res.ver[b] = vs[0]
            else:
                res.ver[b] = ("phi", H(*((nid_stable(g), v) for (g, _), v in zip(pairs, vs))))
        keys = {}
        for _, s in pairs:
            for k, e in s.mem.items():
                keys.setdefault(k, e)
        for k, (off, v0, sz) in keys.items():
            vals = []
            for g, s in pairs:
                e = s.mem.get(k)
                if e is not None:
                    vals.append(e[1])
                else:
                    b = k[0]
                    addr = self._addr(b, off)
                    vals.append(self.load1(s, addr, "", sz, None))
            v = vals[-1]
            for (g, _), x in zip(reversed(pairs[:-1]), reversed(vals[:-1])):
                v = ite(g, x, v)
            res.mem[k] = (off, v, sz)
        return res

    def _addr(self, b, off):
        if b[0] == "v":
            base = gvn._leaves.get(b[1])
            if base is None:
                base = mkleaf(b[1], ("fn", "v"))
            return padd(base, off)
        base = mkleaf(H("addr", b), ("fn", "&" + str(b[-1])), None, b, ZERO)
        return padd(base, off)


_stable = {}


def nid_stable(d):
    """canonical hash of a DD independent of construction history"""
    if not isinstance(d, Node):
        return d.fp
    r = _stable.get(d.id)
    if r is None:
        r = H("dd", d.var, nid_stable(d.hi), nid_stable(d.lo))
        _stable[d.id] = r
    return r


def _vertree(v):
    if isinstance(v, tuple) and v and v[0] == "out":
        return ("fn", f"{v[1].split('(')[0].split('::')[-1]}#{v[3]}") + tuple(v[4] if len(v) > 4 else ())
    return ("fn", "v")


def params_of(dem):
    """parameter type strings of a demangled signature"""
    i = dem.rfind(")")
    if i < 0:
        return None
    depth = 0
    j = i
    while j >= 0:
        if dem[j] == ")":
            depth += 1
        elif dem[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    s = dem[j + 1:i]
    out = []; cur = ""; d = 0
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip() and cur.strip() != "void":
        out.append(cur.strip())
    return out


_fn = {}


def fname(dem):
    """qualified function name (with template arguments) of a demangled signature: no return type, no parameters"""
    r = _fn.get(dem)
    if r is not None:
        return r
    t = dem
    if t.endswith(" const"):
        t = t[:-6]
    i = len(t)
    if t.endswith(")"):
        d = 0; i -= 1
        while i >= 0:
            if t[i] == ")":
                d += 1
            elif t[i] == "(":
                d -= 1
                if d == 0:
                    break
            i -= 1
    t = t[:i]
    d = 0; j = len(t) - 1; start = 0
    m = re.search(r"operator[^\w]*( ?\w+)?$|operator ?[<>=!+*/-]+(<.*)?$", t)
    lim = m.start() if m and ("::operator" in t[max(0, m.start() - 2):] or t.startswith("operator")) else len(t)
    k = lim - 1
    while k >= 0:
        c = t[k]
        if c == ">" and not t[:k].endswith("operator-"):
            d += 1
        elif c == "<":
            d -= 1
        elif c == " " and d <= 0:
            start = k + 1
            break
        k -= 1
    r = t[start:]
    _fn[dem] = r
    return r


def const_method(dem):
    return dem.rstrip().endswith("const")


class Activation:
    def __init__(self, ev, fn, args, guard, ctx):
        self.ev = ev; self.fn = fn; self.args = args; self.guard0 = guard; self.ctx = ctx + (fn.name,)
        self.env = {}; self.rets = []; self.unw = []; self._exc = []
        self.loops = fn.loops()
        self.rpo = fn.rpo(); self.rank = {b: i for i, b in enumerate(self.rpo)}

    def run(self, st):
        if len(self.ctx) > 40:
            raise Unsupported("depth")
        region = set(self.rpo)
        self.eval_region(region, 0, [(None, ONE, st)], toplevel=True)
        if not self.rets:
            return None, State(), ZERO
        pairs = [(g, s) for g, s, v in self.rets]
        stt = self.ev.merge(pairs)
        g = ZERO
        for x, _ in pairs:
            g = OR(g, x)
        v = None
        if self.rets[0][2] is not None:
            v = self.rets[-1][2]
            for gg, _, x in reversed(self.rets[:-1]):
                v = ite(gg, x, v)
        return v, stt, g

    # --- region evaluation.  entries: [(pred, guard, state)] into `entry`.
    def eval_region(self, region, entry, entries, toplevel=False):
        inc = {entry: list(entries)}
        exits = []     # (frm, to, guard, state)
        order = sorted((b for b in region if b in self.rank), key=lambda b: self.rank[b])
        done = set()
        for b in order:
            if b not in inc or b in done:
                continue
            if b in self.loops and not (b == entry and not toplevel) and b in region:
                body = self.loops[b]
                outs = self.eval_loop(b, inc.pop(b))
                done |= body
                for frm, to, g, s in outs:
                    if g is ZERO:
                        continue
                    if to in region and to not in body and to != entry:
                        inc.setdefault(to, []).append((frm, g, s))
                    else:
                        exits.append((frm, to, g, s))
                continue
            ins = inc.pop(b); done.add(b)
            g = ZERO
            for _, gg, _ in ins:
                g = OR(g, gg)
            if g is ZERO:
                continue
            st = self.ev.merge([(gg, s) for _, gg, s in ins])
            for frm, to, gg, s in self.eval_block(b, ins, g, st):
                if gg is ZERO:
                    continue
                if to in region and to != entry:
                    inc.setdefault(to, []).append((frm, gg, s))
                else:
                    exits.append((frm, to, gg, s))
        return exits

    def eval_loop(self, h, entries):
        ev = self.ev
        body = self.loops[h]
        key = (self.ctx, h)
        # ---- mode A: constant trip count
        mark = len(ev.events); saved_env = dict(self.env); saved_rets = list(self.rets)
        outs = []; cur = [(f, g, s.copy()) for f, g, s in entries]
        ok = False; snaps = []
        for it in range(ev.unroll):
            g0 = ZERO
            for _, g, _ in cur:
                g0 = OR(g0, g)
            self.boundedness = False
            self._probe = (body, h)
            ex = self.eval_region(body, h, cur)
            back = [(f, g, s) for f, t, g, s in ex if t == h]
            new = [(f, t, g, s) for f, t, g, s in ex if t != h]
            outs += new
            snaps.append((new, {v: self.env[v] for v in self._liveouts(h) if v in self.env}))
            bg = ZERO
            for _, g, _ in back:
                bg = OR(bg, g)
            if bg is ZERO:
                ok = True
                break
            if not self._const_exit(h, body) and it >= ev.force_unroll and not (it < 9 and self._bounded(h, body)):
                if ev.force_unroll:
                    ev.unfinished.append(AND(self.guard0, bg))
                break
            cur = back
        if ok:
            # values computed in the loop and used after it: those of the iteration that leaves the loop
            for v in self._liveouts(h):
                r = None
                for new, env in snaps:
                    if v in env:
                        for f, t, g, s in new:
                            if g is not ZERO:
                                r = env[v] if r is None or isinstance(r, tuple) or isinstance(env[v], tuple) else ite(g, env[v], r)
                if r is not None:
                    self.env[v] = r
            return self._merge_exits(h, outs, entries)
        # ---- mode B: summary
        del ev.events[mark:]
        self.env = saved_env; self.rets = saved_rets
        g0 = ZERO
        for _, g, _ in entries:
            g0 = OR(g0, g)
        st0 = ev.merge([(g, s) for _, g, s in entries])
        # phi inputs
        phis = [i for i in self.fn.blocks[h] if i.o == "phi"]
        init = {}
        for i in phis:
            v = None
            for frm, g, s in reversed(entries):
                x = self.phi_in(i, frm, entries)
                v = x if v is None else ite(g, x, v)
            init[i.id] = v
        written = None; induct = {}
        known = {}
        for v in list(saved_env.values()) + [x[1] for x in st0.mem.values()]:
            if isinstance(v, (Leaf, Node)):
                leaves(v, None, known, self.__dict__.setdefault("_kseen", set()) if False else set())
        search = {}; tried = False; merged = None; rnd = -1; last = 6
        while rnd <= last:
            rnd += 1
            mark = len(ev.events)
            self.env = dict(saved_env); self.rets = list(saved_rets)
            st = st0.copy()
            if written:
                wk, wb = written
                for k, (off, sz) in wk.items():
                    b = k[0]
                    if off.const is not None:
                        st.mem[k] = (off, atom("loopmem", self.loopkey(h), b if b[0] != "al" else (b[0], b[-1]), off.fp, tree=("fn", "loopval", off)), sz)
                    else:
                        st.mem.pop(k, None)
                for b in wb:
                    st.ver[b] = ("loop", H(self.loopkey(h), st0.ver.get(b, 0)))
                    for k in [k for k in st.mem if k[0] == b and k not in wk]:
                        if any(kk[0] == b and l_sub(o2, st.mem[k][0]).const is None and not ev.apart(l_sub(st.mem[k][0], o2), st.mem[k][2], s2) for kk, (o2, s2) in wk.items()):
                            del st.mem[k]
            self._looppre = None
            for i in phis:
                self.env[i.id] = atom("iter", self.loopkey(h), phis.index(i), i.t, tree=("fn", self.fn.vn.get(str(i.id), "it")))
            for pid, v in induct.get("phi", {}).items():
                self.env[pid] = v
            for k, (off, v, sz) in induct.get("mem", {}).items():
                st.mem[k] = (off, v, sz)
            self.env.update(search)
            ent = {k: e for k, e in st.mem.items()}
            ev.loopstack.append((self.ctx, h))
            self._skip_phi = h
            self.__dict__.setdefault("_linds", []).append((set(body), induct.get("it"), known))
            ex = self.eval_region(body, h, [(None, g0, st)])
            self._linds.pop()
            if search:
                ex, merged = self._found(h, body, ex, search)
            ev.loopstack.pop()
            if merged is False:
                search = {}; merged = None; induct = {}; del ev.events[mark:]
                continue
            back = [(f, g, s) for f, t, g, s in ex if t == h]
            outs = [(f, t, g, s) for f, t, g, s in ex if t != h]
            # collect writes
            wk = {}; wb = set()
            for _, _, _, s in ex:
                for k, (off, v, sz) in s.mem.items():
                    o = st0.mem.get(k)
                    if o is None or o[1] is not v:
                        if written and k in written[0] and s.mem[k][1] is st.mem.get(k, (0, None))[1]:
                            pass
                        wk[k] = (off, sz)
                for b, v in s.ver.items():
                    if st0.ver.get(b, 0) != v and not (isinstance(v, tuple) and v[:2] == ("loop", self.loopkey(h)) and False):
                        wb.add(b)
            if written:
                wk = {**written[0], **wk}; wb |= written[1]
            stable = written is not None and set(wk) == set(written[0]) and wb == written[1]
            if stable and induct:
                if not tried:
                    # a flag that ends the loop as soon as it is set: the iteration that sets it is the last one
                    tried = True
                    for (w, pid), (var, c) in induct.get("sticky", {}).items():
                        if w == "phi" and isinstance(init[pid], Leaf) and init[pid].const is not None and init[pid].fp != c.fp \
                                and all(gvn.restrict_vars(g, lambda x: ONE if x == var else None) is ZERO for _, g, _ in back):
                            search[pid] = init[pid]
                    if search:
                        del ev.events[mark:]
                        induct = {}; last = rnd + 6
                        continue
                break
            if stable or (not wk and not wb):
                induct = self._inductions(h, phis, init, back, written, st0, ent, known, bool(search))
                if written is None or any(off.const is None for off, _ in written[0].values()):
                    written = ({}, set())      # places written depend on the iteration number: collect them again in terms of it
                del ev.events[mark:]
                continue
            if rnd == last:
                break
            del ev.events[mark:]
            written = (wk, wb)
        nxt = {}
        for i in phis:
            v = None
            for frm, g, s in reversed(back):
                x = self.phi_in(i, frm, back)
                v = x if v is None else ite(g, x, v)
            nxt[i.id] = v
        ev.loopinfo[key] = dict(fn=self.fn, guard0=self.guard0, header=h, phis=phis, init=init, next=nxt, guard=g0, exits=outs, back=back, it=induct.get("it"), key=key, sticky=induct.get("sticky", {}),
                                atoms={i.id: atom("iter", self.loopkey(h), phis.index(i), i.t) for i in phis})
        if merged:
            gt, vals = merged
            for v, x in vals.items():
                y = self.env.get(v)
                self.env[v] = x if y is None or isinstance(x, tuple) or isinstance(y, tuple) else ite(gt, x, y)
        return self._merge_exits(h, outs, entries, summary=True)

    def _found(self, h, body, ex, search):
        """the edges back to the header taken with a flag set that ends the loop there, as exits; False if they do not all end it"""
        ev = self.ev
        keep = dict(self.env); rets = list(self.rets); nev = len(ev.events)
        res = []; done = []
        for f, t, g, s in ex:
            if t != h:
                res.append((f, t, g, s)); continue
            T = ZERO
            for i in self.fn.blocks[h]:
                if i.o == "phi" and i.id in search:
                    v = self.phi_in(i, f, None); c = search[i.id]
                    T = OR(T, tob(app1("changed" + str(c.fp), lambda l: ZERO if l.fp == c.fp else ONE, v)))
            if AND(g, T) is not ZERO:
                done.append((f, AND(g, T), s.copy()))
            res.append((f, h, AND(g, NOT_(T)), s))
        if not done:
            return ex, None
        more = self.eval_region(body, h, done)
        env = self.env; self.env = keep; self.rets = rets
        if any(t == h and g is not ZERO for f, t, g, s in more) or len(ev.events) != nev:
            del ev.events[nev:]
            return ex, False
        gt = ZERO
        for _, _, g, _ in more:
            gt = OR(gt, g)
        lo = {v: env[v] for v in self._liveouts(h) if v in env and env[v] is not keep.get(v)}
        return res + more, (gt, lo)

    def _liveouts(self, h):
        memo = self.fn.__dict__.setdefault("_lo", {})
        if h not in memo:
            body = set(self.loops[h])
            defs = {i.id for b in body for i in self.fn.blocks[b] if i.id is not None}
            used = set()
            for b, blk in enumerate(self.fn.blocks):
                for i in blk:
                    if i.o == "phi":
                        if b in body:
                            continue
                        ops = [v for v, _ in i.d["in"]]
                    elif b in body:
                        continue
                    else:
                        ops = list(i.a or []) + [x[0] for x in i.d.get("var", ())] + [i.d[k] for k in ("ci",) if k in i.d]
                    for o in ops:
                        if o and o[0] == "%":
                            used.add(o[1])
            memo[h] = sorted(defs & used)
        return memo[h]

    def _invariant(self, l, known, st0=None, depth=0):
        """value known before the loop, or arithmetic on such values"""
        if l.const is not None or l.fp in known:
            return True
        t = l.tree
        if depth < 8 and t[0] in ("+", "-", "*", "/") and len(t) == 3:
            return self._invariant(t[1], known, st0, depth + 1) and self._invariant(t[2], known, st0, depth + 1)
        return False

    def _step(self, d, known):
        """an increment that is the same in every iteration: a constant, or a multiple of a value known before the loop"""
        if d.const is not None:
            return d
        for k in (1, 8, 4, 24, 16, 32, 2, 3, -1, -8):
            if d.fp * pow(k % P, P - 2, P) % P in known:
                return l_mul(const(k), known[d.fp * pow(k % P, P - 2, P) % P])
        return None

    def _inductions(self, h, phis, init, back, written, st0, ent, known, search=False):
        """loop-carried values with a constant step: init + step*IT, IT the iteration number"""
        it = atom("IT", self.loopkey(h), self.ctx, tree=("fn", "IT"))
        self.ev.its[it.fp] = it
        res = {"phi": {}, "mem": {}, "it": it, "on": True, "sticky": {}}

        def only(v, g):
            ls = gvn.care_leaves(v, g) if isinstance(v, Node) else []
            return ls[0] if len(ls) == 1 else v

        def step(vals, cur):
            nx = None
            for x in vals:
                if x is None or isinstance(x, (Node, tuple)) or isinstance(cur, (Node, tuple)):
                    return None
                d = self._step(l_sub(x, cur), known)
                if d is None or (nx is not None and nx.fp != d.fp):
                    return None
                nx = d
            return nx
        for i in phis:
            vals = [self.phi_in(i, frm, back) for frm, g, s in back]
            if search:
                vals = [only(v, g) for v, (frm, g, s) in zip(vals, back)]
            nx = step(vals, self.env[i.id])
            if nx is not None and not isinstance(init[i.id], (Node, tuple)):
                res["phi"][i.id] = self._affine(init[i.id], nx, it)
            elif nx is None:
                r = self._sticky(h, vals, [g for _, g, _ in back], self.env[i.id], init[i.id], ("phi", phis.index(i)))
                if r:
                    res["phi"][i.id] = r[0]; res["sticky"]["phi", i.id] = r[1:]
        for k in (written or ({}, set()))[0]:
            e = ent.get(k); o = st0.mem.get(k)
            if e is None or o is None or isinstance(e[1], Node):
                continue
            vals = [s.mem[k][1] if k in s.mem else None for frm, g, s in back]
            nx = step(vals, e[1]) if not isinstance(o[1], Node) else None
            if nx is not None:
                res["mem"][k] = (e[0], self._affine(o[1], nx, it), e[2])
            elif k[0][0] == "al" and e[2] <= 8:
                r = self._sticky(h, vals, [g for _, g, _ in back], e[1], o[1], ("mem", k[1]))
                if r:
                    res["mem"][k] = (e[0], r[0], e[2]); res["sticky"]["mem", k] = r[1:]
        return res

    def _sticky(self, h, vals, guards, cur, init, what):
        """a flag that an iteration either leaves alone or sets to one constant: that constant if some iteration set it"""
        if isinstance(cur, (Node, tuple)) or isinstance(init, tuple) or init is None:
            return None
        c = None
        for v in vals:
            if v is None or isinstance(v, tuple):
                return None
        vals = [ite(g, v, cur) for v, g in zip(vals, guards)]
        for v in vals:
            for l in (leaves(v).values() if isinstance(v, Node) else [v]):
                if l.fp == cur.fp:
                    continue
                if c is False or l.const is None or c is not None and c.fp != l.fp:
                    c = False
                elif c is not False:
                    c = l
        if c is None:
            return None
        if c is False:
            # a truth value: what it becomes when it was false, and when it was true
            z = gvn.eqc(cur, 0)
            if not isinstance(z, Node) or any(l.const not in (0, 1) for l in leaves(init).values()):
                return None
            at = lambda v, b: gvn.restrict_vars(v, lambda x: b if x == z.var else None)
            was = [{None if l.fp == cur.fp else l.const if l.const is not None else -1 for v in vals for l in leaves(at(v, b == (z.hi is ONE))).values()} for b in (True, False)]
            if was[1] <= {None, 1} and was[0] <= {None, 0, 1}:
                c = const(1)
            elif was[0] <= {None, 0} and was[1] <= {None, 0, 1}:
                c = const(0)
            else:
                return None
        var = getvar(("sticky", self.loopkey(h), self.ctx, what), ("sticky", what))
        return ite(mk(var, ONE, ZERO), c, init), var, c

    def _exit_test(self, c, b, succ, g):
        """a loop that counts up to exactly n leaves when the iteration number is not below n"""
        body, it, known = self._linds[-1]
        if it is None or b not in body or all(s in body for s in succ):
            return c
        neg = c.hi is ZERO and c.lo is ONE
        if not (neg or c.hi is ONE and c.lo is ZERO):
            return c
        inf = gvn._varinfo[c.var]
        if not inf or inf[0] != "==":
            return c
        # the loop continues while the values differ
        cont = succ[0] in body
        if cont != neg:
            return c
        import spec
        d = l_sub(inf[1], inf[2])
        d0 = spec.subst(d, {it.fp: ZERO}); st = l_sub(spec.subst(d, {it.fp: ONE}), d0)
        if st.const in (None, 0) or l_add(d0, l_mul(st, it)).fp != d.fp or not self._invariant(d0, known):
            return c
        n = l_div(l_neg(d0), st)
        lt = l_lt(it, n)
        return lt if neg else NOT_(lt)

    def _affine(self, init, step, it):
        off = l_mul(step, it)
        return padd(init, off) if (init.base is not None or init.tree[0] == "fn" and init.const is None) else l_add(init, off)

    def loopkey(self, h):
        # identity of a loop: function + ordinal of the loop in program order
        hs = sorted(self.loops, key=lambda b: self.rank.get(b, 1 << 30))
        return (self.fn.qual or self.fn.name, hs.index(h), len([c for c in self.ctx if c == self.fn.name]))

    def _const_exit(self, h, body):
        """some exiting branch of the loop folded to a constant in the last iteration"""
        for b in body:
            t = self.fn.blocks[b][-1]
            if t.o == "br" and t.a and any(s not in body for s in t.d["s"]):
                c = self.env.get(("brc", b))
                if c is not None and not isinstance(c, Node):
                    return True
        return False

    def _bounded(self, h, body):
        """the loop also tests its counter against a small constant"""
        for b in body:
            t = self.fn.blocks[b][-1]
            c = self.env.get(("brc", b)) if t.o == "br" and t.a else None
            d = self.fn.defs.get(t.a[0][1]) if c is not None and not isinstance(c, Node) and t.a[0][0] == "%" else None
            if d is None or d.o != "icmp":
                continue
            for x, y in (d.a[:2], d.a[1::-1]):
                q = self.fn.defs.get(x[1]) if x[0] == "%" else None
                while q is not None and q.o in ("zext", "sext", "trunc"):
                    q = self.fn.defs.get(q.a[0][1]) if q.a[0][0] == "%" else None
                if q is not None and q.o == "phi" and q in self.fn.blocks[h]:
                    n = self.val(y)
                    if isinstance(n, Leaf) and n.const is not None and n.const <= 8:
                        return True
        return False

    def _merge_exits(self, h, outs, entries, summary=False):
        if not summary:
            # several iterations may leave through the same edge: merge them into one
            by = {}
            for f, t, g, s in outs:
                by.setdefault((f, t), []).append((g, s))
            if len(by) == len(outs):
                return outs
            res = []
            # values defined in the loop and used after it: env holds last iteration only; guard merges
            # need per-exit values, handled by recording exit envs below when more than one exit is live
            for (f, t), lst in by.items():
                if len(lst) == 1:
                    res.append((f, t, lst[0][0], lst[0][1]))
                else:
                    g = ZERO
                    for x, _ in lst:
                        g = OR(g, x)
                    res.append((f, t, g, self.ev.merge(lst)))
            return res
        live = [o for o in outs if o[2] is not ZERO]
        if len({o[1] for o in live}) == 1 and len(live) == 1:
            g0 = ZERO
            for _, g, _ in entries:
                g0 = OR(g0, g)
            f, t, g, s = live[0]
            return [(f, t, g0, s)]
        return live

    def phi_in(self, i, frm, ins):
        for v, b in i.d["in"]:
            if b == frm:
                return self.val(v)
        return atom("undef", "phi")

    # --- block
    def eval_block(self, b, ins, g, st):
        ev = self.ev; ev.nblocks += 1
        blk = self.fn.blocks[b]
        out = []
        # phis first, in parallel
        newvals = {}
        for i in blk:
            if i.o != "phi":
                break
            if ins and ins[0][0] is None and b in self.loops and i.id in self.env:
                continue   # summary header: already an atom
            v = None
            for frm, gg, s in reversed(ins):
                x = self.phi_in(i, frm, ins)
                v = x if v is None else ite(gg, x, v)
            newvals[i.id] = v
        self.env.update(newvals)
        for i in blk:
            o = i.o
            if o == "phi":
                continue
            if o == "br":
                if i.a:
                    c = tob(self.val(i.a[0]))
                    if getattr(self, "_linds", None) and isinstance(c, Node):
                        c = self._exit_test(c, b, i.d["s"], g)
                    c = self._simp(c, AND(self.guard0, g))
                    self.env[("brc", b)] = c
                    t, e = i.d["s"]
                    out.append((b, t, AND(g, c), st)); out.append((b, e, AND(g, NOT_(c)), st.copy()))
                    if t == e:
                        return [(b, t, g, st)]
                else:
                    out.append((b, i.d["s"][0], g, st))
                return out
            if o == "switch":
                c = self.val(i.a[0]); rest = g
                for cv, t in i.d["cases"]:
                    cond = app1("eqc", lambda l: eqc(l, cv), c)
                    out.append((b, t, AND(rest, cond), st.copy()))
                    rest = AND(rest, NOT_(cond))
                out.append((b, i.d["d"], rest, st))
                # merge duplicates to the same target (phi lookups are by predecessor block)
                m = {}
                for f, t, gg, s in out:
                    if t in m:
                        m[t] = (f, t, OR(m[t][2], gg), s)
                    else:
                        m[t] = (f, t, gg, s)
                return list(m.values())
            if o == "ret":
                v = self.val(i.a[0]) if i.a else None
                self.rets.append((g, st, v))
                return []
            if o == "resume" and ev.throwing is not None:
                self.unw.append((g, st))
            if o in ("unreachable", "resume"):
                return []
            if o in ("call", "invoke"):
                self._exc = []
                cont = self.do_call(i, g, st)
                for ge, se in self._exc:
                    if ge is ZERO:
                        continue
                    if o == "invoke":
                        out.append((b, i.d["ud"], ge, se))
                    else:
                        self.unw.append((ge, se))
                self._exc = []
                if isinstance(cont, tuple):
                    g = cont[0]; st = cont[1]
                    if g is ZERO:
                        return out
                elif cont is False:
                    return out
                if o == "invoke":
                    if len(out) > 1:
                        # several exceptional exits of one call share an edge
                        ge = ZERO
                        for x in out:
                            ge = OR(ge, x[2])
                        out[:] = [(b, i.d["ud"], ge, ev.merge([(x[2], x[3]) for x in out]))]
                    return out + [(b, i.d["nd"], g, st)]
                continue
            self.do_instr(i, g, st)
        raise Unsupported(f"block without terminator in {self.fn.dem}")

    def _simp(self, c, g):
        """drop decisions already implied by g"""
        if not isinstance(c, Node):
            return c
        if AND(g, c) is ZERO:
            return ZERO
        if AND(g, NOT_(c)) is ZERO:
            return ONE
        return c

    # --- operands
    def val(self, op):
        k = op[0]
        if k == "%":
            v = self.env.get(op[1])
            if v is None:
                return atom("undef", self.fn.name, op[1], tree=("fn", "undef"))
            return v
        if k == "p":
            return self.args[op[1]] if op[1] < len(self.args) else atom("undef", "arg", op[1])
        if k == "i":
            if op[2] == 1:
                return ONE if op[1] else ZERO
            return const(op[1])
        if k == "I":
            return const(int(op[1]))
        if k == "f":
            return const(float(op[1]))
        if k == "n":
            return ZERO
        if k == "g":
            return self.ev.globaladdr(op[1], self.fn.tu)
        if k == "go":
            return padd(self.val(op[1]), const(op[2]))
        if k == "z":
            return ZERO
        if k == "a":
            return ("agg", [self.val(x) for x in op[1]])
        if k in ("u", "?"):
            return atom("undef", "const", tree=("fn", "undef"))
        if k == "ce":
            if op[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.val(op[2])
            return atom("ce", repr(op))
        return atom("op", repr(op))

    def do_instr(self, i, g, st):
        ev = self.ev; o = i.o
        A = lambda n: self.val(i.a[n])
        r = None
        if o == "alloca":
            b = ("al", self.ctx, i.id)
            r = mkleaf(H("addr", b), ("fn", "&" + (self.fn.vn.get(str(i.id)) or i.d.get("n", "tmp"))), None, b, ZERO)
            # fresh storage each time the block runs
        elif o == "load":
            if i.t.replace(" ", "") in ("{i64,i64}", "{ptr,i64}", "{ptr,ptr}", "{i64,ptr}"):
                r = ("agg", [ev.load(st, app2("padd", padd, A(0), const(8 * n)), "ptr", 8, self.fn.tu) for n in (0, 1)])
            else:
                r = ev.load(st, A(0), i.t, i.d.get("sz", 8), self.fn.tu)
            if i.t == "i1":
                r = tob(r)
        elif o == "store":
            v = A(0); p = A(1)
            if isinstance(v, tuple):
                if isinstance(p, Leaf):
                    for n, x in enumerate(v[1]):
                        if not isinstance(x, tuple):
                            ev.store(st, padd(p, const(8 * n)), x, 8, g, (self.fn.qual or self.fn.name, i.line))
                return
            ev.store(st, p, v, i.d.get("sz", 8), g, (self.fn.qual or self.fn.name, i.line))
            for l in leaves(p).values():
                b, off = ptrparts(l)
                if b[0] not in ("al",):
                    ev.events.append(Event("store", AND(self.guard0, g), None, [p, v], None, i, self.ctx, tuple(ev.loopstack), None, len(ev.events)))
                    break
                if off.const is None:
                    ev.lstores.append(Event("local store", AND(self.guard0, g), None, [p, v], None, i, self.ctx, tuple(ev.loopstack), None, len(ev.events)))
            return
        elif o == "getelementptr":
            p = A(0)
            off = i.d.get("off")
            if off is None:
                r = atom("gep", repr(i.a))
            else:
                r = p
                tot = const(off)
                for v, sc in i.d.get("var", []):
                    x = self.val(v)
                    y = app1("sc", lambda l: l_mul(l, const(sc)), x)
                    tot = app2("add", l_add, tot, y)
                r = app2("padd", padd, p, tot)
        elif o in ("add", "fadd"):
            r = app2("add", l_add, A(0), A(1))
        elif o in ("sub", "fsub"):
            r = app2("sub", l_sub, A(0), A(1))
        elif o in ("mul", "fmul"):
            r = app2("mul", l_mul, A(0), A(1))
        elif o == "fdiv":
            r = app2("div", l_div, A(0), A(1))
        elif o == "fneg":
            r = app1("neg", l_neg, A(0))
        elif o in ("sdiv", "udiv"):
            def idiv(a, b):
                if a.const is not None and b.const not in (None, 0):
                    return const(int(a.const // b.const) if (a.const >= 0) == (b.const >= 0) else -int((-a.const) // b.const))
                if b.const == 1:
                    return a
                return mkleaf(H("idiv", a.fp, b.fp), ("fn", "idiv", a, b))
            if o == "sdiv" and i.a and self._is_ptrdiff(i):
                r = app2("div", l_div, A(0), A(1))
            else:
                r = app2("idiv", idiv, A(0), A(1))
        elif o in ("srem", "urem", "frem"):
            def rem(a, b):
                if a.const is not None and b.const not in (None, 0) and o != "frem":
                    return const(int(a.const) % int(b.const))
                return mkleaf(H("rem", a.fp, b.fp), ("fn", "rem", a, b))
            r = app2("rem", rem, A(0), A(1))
        elif o == "shl":
            def shl(a, b):
                if b.const is not None:
                    return l_mul(a, const(1 << int(b.const)))
                return mkleaf(H("shl", a.fp, b.fp), ("fn", "shl", a, b))
            r = app2("shl", shl, A(0), A(1))
        elif o in ("lshr", "ashr"):
            def shr(a, b):
                if a.const is not None and b.const is not None:
                    return const(int(a.const) >> int(b.const))
                return mkleaf(H("shr", a.fp, b.fp), ("fn", "shr", a, b))
            r = app2("shr", shr, A(0), A(1))
        elif o in ("and", "or", "xor"):
            if i.t == "i1":
                a, b = tob(A(0)), tob(A(1))
                r = AND(a, b) if o == "and" else OR(a, b) if o == "or" else ite(a, NOT_(b), b)
            else:
                def bit(a, b):
                    if a.const is not None and b.const is not None:
                        x, y = int(a.const), int(b.const)
                        return const(x & y if o == "and" else x | y if o == "or" else x ^ y)
                    if o == "and" and (a.const == 0 or b.const == 0):
                        return ZERO
                    if o == "and" and b.const == 1 and a.base is not None and a.base[0] == "g":
                        return ZERO             # functions are even-aligned
                    if o in ("or", "xor") and b.const == 0:
                        return a
                    if o in ("or", "xor") and a.const == 0:
                        return b
                    if o == "xor" and b.const == 1:
                        return l_sub(ONE, a) if False else mkleaf(H("xor", a.fp, b.fp), ("fn", "xor", a, b))
                    k = tuple(sorted((a.fp, b.fp)))
                    return mkleaf(H(o, k), ("fn", o, a, b))
                r = app2(o, bit, A(0), A(1))
        elif o in ("icmp", "fcmp"):
            r = self.compare(i, A(0), A(1))
        elif o in ("zext", "sext", "fpext", "fptrunc", "uitofp", "sitofp", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            r = A(0)
            if o == "sext" and i.d.get("ot") == "i1":
                r = app1("neg", l_neg, r)
        elif o == "trunc":
            r = A(0)
            if i.t == "i1":
                r = tob(r)
        elif o in ("fptoui", "fptosi"):
            r = app1("trunc", lambda l: l_fn("trunc", l), A(0))
        elif o == "select":
            r = ite(tob(A(0)), A(1), A(2))
        elif o == "extractvalue":
            v = A(0)
            if isinstance(v, tuple) and v[0] == "agg":
                r = v[1][i.d["x"][0]] if i.d["x"][0] < len(v[1]) else atom("undef")
            else:
                x = tuple(i.d["x"])
                r = app1("ev", lambda l: mkleaf(H("ev", l.fp, x), ("fn", f".{x[0]}", l)), v)
        elif o == "insertvalue":
            v = A(0); x = i.d["x"][0]
            lst = list(v[1]) if isinstance(v, tuple) and v[0] == "agg" else []
            while len(lst) <= x:
                lst.append(atom("undef", "iv"))
            lst[x] = A(1)
            r = ("agg", lst)
        elif o in ("landingpad",):
            r = ("agg", [atom("exc", self.ctx, self.path, i.id), atom("ehsel", tree=("fn", "ehsel"))])
        elif o in ("atomicrmw", "cmpxchg", "fence", "va_arg", "extractelement", "insertelement", "shufflevector"):
            r = atom(o, self.ctx, i.id)
        else:
            r = atom("instr", o, self.ctx, i.id)
        if i.id is not None:
            self.env[i.id] = r

    def _is_ptrdiff(self, i):
        d = self.fn.defs.get(i.a[0][1]) if i.a[0][0] == "%" else None
        if d is not None and d.o == "sub":
            for x in d.a:
                dd = self.fn.defs.get(x[1]) if x[0] == "%" else None
                if dd is not None and dd.o == "ptrtoint":
                    return True
        return False

    def compare(self, i, a, b):
        p = i.d["pred"]; ot = i.d.get("ot", "")
        if isinstance(a, tuple) or isinstance(b, tuple):
            return atom("cmpagg", self.ctx, i.id)
        if i.o == "fcmp":
            if p in ("true", "ord"):
                return ONE
            if p in ("false", "uno"):
                return ZERO
            q = p[1:]
            if q == "lt":
                return dd_lt(a, b)
            if q == "gt":
                return dd_lt(b, a)
            if q == "le":
                return NOT_(dd_lt(b, a))
            if q == "ge":
                return NOT_(dd_lt(a, b))
            e = app2("feq", l_feq, a, b)
            return e if q == "eq" else NOT_(e)
        if p in ("eq", "ne"):
            if ot == "i1":
                x, y = tob(a), tob(b)
                e = ite(x, y, NOT_(y))
            else:
                def eq(x, y):
                    if y.const is not None and y.const == int(y.const):
                        return eqc(x, int(y.const)) if not (x.const is None and x.tree[0] == "+" and False) else ZERO
                    if x.const is not None:
                        return eqc(y, int(x.const))
                    return leq_eq(x, y)
                e = app2("eq", eq, a, b)
            return e if p == "eq" else NOT_(e)
        uns = p[0] == "u"
        q = p[1:]

        def lt(x, y):
            if uns and x.const is None and y.const == 0:
                return ZERO
            if uns and x.const == 0 and y.const is None:
                return NOT_(eqc(y, 0))
            if uns and y.const == 1 and x.const is None:
                return eqc(x, 0)
            return l_lt(x, y)
        if q == "lt":
            return app2("ilt", lt, a, b)
        if q == "gt":
            return app2("ilt", lt, b, a)
        if q == "le":
            return NOT_(app2("ilt", lt, b, a))
        return NOT_(app2("ilt", lt, a, b))

    # --- calls
    def do_call(self, i, g, st):
        ev = self.ev; prog = ev.prog
        name = i.callee
        args = [self.val(x) for x in i.a]
        G = AND(self.guard0, g)

        def setres(v):
            if i.id is not None:
                if i.t == "i1" and not isinstance(v, tuple):
                    v = tob(v)
                self.env[i.id] = v
        fn = None
        if name is None:
            cv = self.val(i.d["ci"])
            if ev.assume is not None:
                cv = ev.assume(cv, G)
                args = [ev.assume(a, G) for a in args]
            if not isinstance(cv, (Node, tuple)) and cv.base and cv.base[0] == "g":
                name = cv.base[1]
            else:
                vn = self.indirect_name(i, cv)
                for rx, m in getattr(ev, "vmodels", {}).items():
                    if re.search(rx, vn):
                        r = m(self, i, vn, args, g, st, setres)
                        if r is not NotImplemented:
                            return r
                return self.opaque_call(i, vn, args + [cv], g, st, setres, indirect=cv)
        if name.startswith("llvm."):
            return self.intrinsic(i, name, args, g, st, setres)
        base = name
        if base in MATH or (base.endswith("f") and base[:-1] in MATH) or (base.endswith("l") and base[:-1] in MATH and base != "ceil"):
            if base not in MATH:
                base = base[:-1]
            if base in ("fmin", "fmax"):
                a, b = args
                setres(ite(dd_lt(a, b), a, b) if base == "fmin" else ite(dd_lt(a, b), b, a))
                return None
            base = {"lround": "round", "llround": "round", "abs": "fabs"}.get(base, base)
            v = self.mathfn(base, args)
            setres(v)
            return None
        if name in ("__assert_fail", "__cxa_throw", "abort", "_ZSt9terminatev", "exit", "__cxa_rethrow") or i.d.get("nr"):
            ev.events.append(Event("abort" if name == "__assert_fail" else "noreturn", G, name, args, None, i, self.ctx, tuple(ev.loopstack), None, len(ev.events)))
            if ev.throwing is not None and name in ("__cxa_throw", "__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"):
                self._exc = [(g, st)]
            return False
        if name in ("_Znwm", "_Znam", "malloc", "calloc"):
            b = ("new", self.ctx, self.path, i.uid) + getattr(ev, "tag", ())       # tag: runs on one state
            l = mkleaf(H("addr", b), ("fn", "new"), None, b, ZERO)
            ev.events.append(Event("call", G, name, args, l, i, self.ctx, tuple(ev.loopstack), None, len(ev.events)))
            setres(l)
            return None
        dem = prog.dem(name)
        fn = prog.internal.get(self.fn.tu, {}).get(name) or prog.fns.get(name)
        ms = ev.mcache.get(dem)
        if ms is None:
            ms = ev.mcache[dem] = [m for rx, m in ev.models.items() if re.search(rx, dem)]
        for model in ms:
            if True:
                r = model(self, i, dem, args, g, st, setres)
                if r is not NotImplemented:
                    return r
        if dem.startswith("std::fabs") or re.match(r"(double )?std::(floor|ceil|round|fabs|abs|sqrt|sin|cos|tan|pow|hypot)\b", dem):
            m = re.match(r"(?:.* )?std::(\w+)", dem).group(1)
            if not (fn and fn.blocks):
                setres(self.mathfn("fabs" if m == "abs" else m, args))
                return None
        if fn is not None and fn.blocks and self.should_inline(fn, dem):
            try:
                v, s2, rg = ev.call_fn(fn, args, st, G, self.ctx, self.path + (i.uid,))
            except RecursionError:
                raise Unsupported("recursion")
            if ev.throwing is not None:
                self._exc = [(AND(g, ge), se) for ge, se in ev.unwound]
            if rg is ZERO:
                return False
            if v is not None:
                setres(v)
            ng = AND(g, rg)
            return (ng, s2)
        return self.opaque_call(i, dem, args, g, st, setres)

    def mathfn(self, name, args):
        if len(args) == 1:
            return app1(name, lambda l: l_fn(name, l), args[0])
        if len(args) == 2:
            return app2(name, lambda a, b: l_fn(name, a, b), args[0], args[1])
        return atom(name)

    def should_inline(self, fn, dem):
        ev = self.ev
        if len(self.ctx) >= ev.maxdepth or fn.name in self.ctx:
            return False
        for rx in ev.opaque:
            if re.search(rx, dem):
                return False
        if ev.inline_pred is not None:
            r = ev.inline_pred(fn, dem)
            if r is not None:
                return r
        if fn.repo:
            return True
        return bool(INLINE_STD.match(fname(dem))) and sum(len(b) for b in fn.blocks) <= 120

    def intrinsic(self, i, name, args, g, st, setres):
        ev = self.ev
        if IGNORE.match(name):
            return None
        m = re.match(r"llvm\.(\w+)\.", name)
        op = m.group(1) if m else name
        if op in ("fabs", "floor", "ceil", "round", "sqrt", "sin", "cos", "pow", "trunc", "exp", "log", "rint"):
            setres(self.mathfn(op, args)); return None
        if op in ("minnum", "maxnum", "umin", "umax", "smin", "smax"):
            a, b = args
            setres(ite(dd_lt(a, b), a, b) if "min" in op else ite(dd_lt(a, b), b, a)); return None
        if op in ("fmuladd", "fma"):
            setres(app2("add", l_add, app2("mul", l_mul, args[0], args[1]), args[2])); return None
        if op == "memcpy" or op == "memmove":
            d, s, n = args[:3]
            if not isinstance(d, Node) and not isinstance(s, Node) and not isinstance(n, Node):
                sb, so = ptrparts(s); db, do = ptrparts(d)
                if n.const is not None and n.const <= 4096:
                    new = []
                    for k, (off, v, sz) in st.mem.items():
                        if k[0] == sb:
                            df = l_sub(off, so)
                            if df.const is not None and 0 <= df.const < n.const:
                                new.append((df, v, sz))
                    if not new and sb[0] == "g":
                        for o2 in range(0, int(n.const), 8):
                            v = ev.globalinit(sb[1], int(so.const or 0) + o2, "", 8, self.fn.tu)
                            if v is not None:
                                new.append((const(o2), v, 8))
                    elif not new and sb[0] != "al":
                        for o2 in range(0, int(n.const), 8):
                            new.append((const(o2), ev.load1(st, padd(s, const(o2)), "", 8, self.fn.tu), 8))
                    if sb[0] == "al" and st.ver.get(sb, 0) and not new:
                        for o2 in range(0, int(n.const), 8):
                            new.append((const(o2), ev.load1(st, padd(s, const(o2)), "", 8, self.fn.tu), 8))
                    for df, v, sz in new:
                        ev.store(st, padd(d, df), v, sz, g, ("memcpy", i.line))
                    return None
            for l in leaves(d).values():
                ev.clobber(st, l, ("memcpy", nid_stable(s), nid_stable(n)))
            return None
        if op == "memset":
            d, v, n = args[:3]
            if not isinstance(d, Node) and getattr(n, "const", None) is not None and getattr(v, "const", None) == 0 and n.const <= 1024:
                for o2 in range(0, int(n.const), 8):
                    ev.store(st, padd(d, const(o2)), ZERO, 8, g, ("memset", i.line))
                return None
            for l in leaves(d).values():
                ev.clobber(st, l, ("memset", i.line))
            return None
        if op in ("trap",):
            return False
        if op == "eh":
            a = i.a[0] if i.a else None     # exceptions followed derive from std::exception
            if name.startswith("llvm.eh.typeid") and a and a[:2] == ["g", "_ZTISt9exception"]:
                setres(atom("ehsel", tree=("fn", "ehsel"))); return None
            setres(atom("eh", repr(a), tree=("fn", "typeid"))); return None
        if op in ("umul", "uadd", "usub", "smul", "sadd", "ssub"):
            a, b = args[:2]
            f = {"mul": l_mul, "add": l_add, "sub": l_sub}[op[1:]]
            setres(("agg", [app2(op, f, a, b), ZERO])); return None
        if op == "expect":
            setres(args[0]); return None
        setres(atom("intr", name, tuple(nid_stable(a) for a in args if not isinstance(a, tuple))))
        return None

    def indirect_name(self, i, cv):
        # virtual call: callee pointer = load(gep(load(this), 8*slot))
        d = self.fn.defs.get(i.d["ci"][1]) if i.d["ci"][0] == "%" else None
        if d is not None and d.o == "load" and d.a[0][0] == "%":
            gp = self.fn.defs.get(d.a[0][1])
            slot = None; src = None
            if gp is not None and gp.o == "getelementptr" and "var" not in gp.d and gp.d.get("st") == "ptr":
                slot = gp.d["off"] // 8; src = gp.a[0]
            elif gp is not None and gp.o == "load":
                slot = 0
            if slot is not None:
                return self.ev.virtual_name(slot, i.d.get("cft", ""), len(i.a), i.d.get("vc"))
        return "indirect"

    def opaque_call(self, i, dem, args, g, st, setres, indirect=None):
        ev = self.ev
        ps = params_of(dem) if "(" in dem else None
        nargs = [a for a in args if not isinstance(a, tuple)]
        ismeth = ps is not None and len(ps) == len(i.a) - 1 - (1 if i.d.get("sret") else 0)
        sret = 1 if i.d.get("sret") else 0
        keys = []
        outs = []
        for n, a in enumerate(args):
            if isinstance(a, tuple):
                keys.append("agg"); continue
            isthis = ismeth and n == sret
            if sret and n == 0:
                outs.append((n, a)); keys.append("sret"); continue
            pi = n - sret - (1 if ismeth else 0)
            pt = ps[pi] if ps is not None and 0 <= pi < len(ps) else None
            ptrs = [l for l in leaves(a).values() if l.base is not None and l.base[0] in ("al", "new")]
            cst = (isthis and const_method(dem)) or (pt is not None and re.search(r"\bconst\s*[&*]$|\bconst\s*\*\s*const$|const\s*\[\]$", pt))
            # C functions without a signature: pointers to locals are outputs; global const strings inputs
            if ptrs:
                if cst or (pt is not None and pt.endswith("const&")):
                    keys.append(("in", tuple(ev.contents(st, l) for l in ptrs)))
                elif isthis:
                    keys.append(("obj", tuple(ev.contents(st, l) for l in ptrs))); outs.append((n, a))
                elif pt is not None and not re.search(r"[&*]|\[\]$", pt):
                    keys.append(("in", tuple(ev.contents(st, l) for l in ptrs)))
                else:
                    keys.append(("out", tuple(ev.contents(st, l) for l in ptrs) if pt is not None and "&" in pt else 0)); outs.append((n, a))
            else:
                keys.append(nid_stable(a))
                isptrparam = pt is not None and re.search(r"[&*]$|\[\]$", pt) and not cst
                if isptrparam and a is not ZERO:
                    outs.append((n, a))
        short = re.sub(r"\(.*", "", dem)
        trees = tuple(a if not isinstance(a, (Node, tuple)) else ("dd",) for a in args)
        callkey = ("call", dem, tuple(keys))
        if self.impure(dem):
            callkey = callkey + (self.ctx, self.path, i.uid)
        res = atom(*callkey, tree=("fn", short.split("::")[-1] if "operator" not in short else short) + trees)
        # contents of in-arguments, for rules that need them
        cont = {}
        for n, a in enumerate(args):
            if isinstance(a, tuple):
                continue
            offs = {}; ls = list(leaves(a).values())
            for l in ls:
                if len(ls) > 1 or l.base is not None and l.base[0] in ("al", "new") or ismeth and n == sret or pt_ref(ps, n - sret - (1 if ismeth else 0)):
                    b, o = ptrparts(l)
                    for k, (off, v, sz) in st.mem.items():
                        if k[0] == b:
                            offs[l_sub(off, o).const] = (v, sz)
            if offs and len(ls) == 1:
                cont[n] = {o: v for o, (v, sz) in offs.items()}
            elif offs:
                cont[n] = {o: ev.load(st, padd_dd(a, o), "ptr" if sz == 8 else "i32", sz, None) for o, (v, sz) in offs.items() if o is not None}
        e = Event("call", AND(self.guard0, g), dem, args, res, i, self.ctx, tuple(ev.loopstack), cont, len(ev.events))
        ev.events.append(e)
        for n, a in outs:
            for l in leaves(a).values():
                token = ("out", dem, H(tuple(keys) + ((self.ctx, self.path, i.uid) if self.impure(dem) else ())), n, tuple(t for t in trees if isinstance(t, Leaf)))
                size = next((z for rx, z in EXTENTS if ismeth is not None and ps and 0 <= n - sret - ismeth < len(ps) and re.match(rx, ps[n - sret - ismeth])), None)
                ty = None
                for rx, ks in ev.extents:
                    if n - sret in ks and re.search(rx, dem):
                        size, ty = ks[n - sret]
                if size and (l.base is None or ev.extents):
                    ev.clobber_part(st, l, token, size, ty)
                else:
                    ev.clobber(st, l, token)
                e.outs[n] = (l, token)
        setres(res)
        if ev.throwing is not None and not i.d.get("nu") and ev.throwing(dem):
            t = e.thr = mk(getvar(("throws", self.ctx, self.path, i.uid, len(ev.events)), ("throws", dem)), ONE, ZERO)
            self._exc = [(AND(g, t), st.copy())]
            if ev.stop is not None and ev.stop(dem):
                return False
            return (AND(g, NOT(t)), st)
        return None

    def impure(self, dem):
        return bool(re.match(r"(H5|proj_create|GDAL|CSL|getopt|operator new|std::(basic_)?[io]?f?stream|std::basic_)", dem))


# objects passed by pointer or reference whose size is known: the call writes them, not what surrounds them
EXTENTS = [(r"std::vector<.*>[&*]$", 24), (r"(std::__cxx11::basic_string<|std::string\b).*[&*]$", 32)]


def padd_dd(a, o):
    return app1("padd", lambda l: padd(l, const(o)), a)


def virtual_name(self, slot, cft, nargs, cls=None):
    types = self.prog.types
    todo = [cls] if cls in types and "file" in types[cls] and not types[cls]["file"].startswith(str(core.REPO)) else []
    while todo:
        c = todo.pop(0)
        for m in types[c]["methods"]:
            if m["virt"] and m["idx"] == slot:
                return f"{cls}::{m['n']}()"
        todo += [b["t"] for b in types[c]["bases"] if b["t"] in types]
    cands = {}
    for cname, t in types.items():
        if not t["file"].startswith(str(core.REPO)):
            continue
        for m in t["methods"]:
            if m["virt"] and m["idx"] == slot:
                fn = self.prog.fns.get(m["link"]) if m["link"] else None
                cands.setdefault(m["n"], []).append(None if fn is None else len(fn.args) == nargs)
    ok = [n for n, v in cands.items() if True in v or all(x is None for x in v)]
    if len(ok) == 1:
        return "virtual::" + ok[0]
    return f"virtual::slot{slot}"


Evaluator.virtual_name = virtual_name


def pt_ref(ps, k):
    """whether a parameter is an object passed by reference or pointer"""
    return ps is not None and 0 <= k < len(ps) and bool(re.match(r"geomodelgrids::.*[&*]$", ps[k]))
