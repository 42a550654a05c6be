"""Exceptions: which repository functions can raise, conditions on calls raising"""
from common_model import *
import core
import ev as EV
import gvn

RAISES = r"^std::__throw_|__cxa_throw$|^std::vector<.*>::at\("


def raisers(p):
    """demangled names of repository functions from which a throw can be reached (exceptions raised by the standard
    library for lack of memory are not counted)"""
    direct = {}; calls = {}
    for f in p.repo_fns():
        n = f.dem
        for i in f.instrs():
            if i.o not in ("call", "invoke") or not i.callee:
                if i.o in ("call", "invoke"):
                    calls.setdefault(n, set()).add("?")
                continue
            d = p.dem(i.callee)
            if re.search(RAISES, d) or i.callee == "__cxa_throw":
                direct[n] = True
            calls.setdefault(n, set()).add(d)
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n not in out and cs & out:
                out.add(n); ch = True
    return out


def is_throw_var(v):
    i = gvn._varinfo[v]
    return bool(i) and i[0] == "throws"


def nothrow(d):
    """d with every call returning normally"""
    return gvn.restrict_vars(d, lambda v: False if is_throw_var(v) else None)


def throwing(d, event_dem):
    """d with the calls to `event_dem` raising and every other call returning normally"""
    def f(v):
        if not is_throw_var(v):
            return None
        return gvn._varinfo[v][1] == event_dem
    return gvn.restrict_vars(d, f)
