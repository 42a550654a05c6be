"""Which elements a loop goes over: the values an index takes, from the trip count of its loop"""
import gvn
from gvn import Leaf, l_sub, const, ZERO, ONE
from spec import subst
from h03 import trip, gvn_contains, feasible, nothrow, backguard
from gvn import AND, NOT


class V_:
    def __init__(self, ev): self.E = ev


def loop_of(ev, loops, idx):
    """the loops (keys) whose iteration number occurs in idx"""
    out = []
    for k in loops:
        i = ev.loopinfo.get(k)
        if i and i.get("it") is not None and gvn_contains(idx, i["it"].fp):
            out.append(k)
    return out


def values_of(ev, loops, idx):
    """(first, step, number) of the values idx takes, None when not recognised"""
    ks = loop_of(ev, loops, idx)
    if len(ks) != 1:
        return None
    it, n = trip(V_(ev), ks[0])
    if n is None:
        return None
    first = subst(idx, {it.fp: ZERO})
    step = l_sub(subst(idx, {it.fp: const(1)}), first)
    if gvn_contains(step, it.fp) or step.const not in (1, -1):
        return None
    return first, int(step.const), n, ks[0]


def same_len(a, b):
    d = l_sub(a, b)
    return d.const if isinstance(d, Leaf) else None


def span(ctx, key, ev, loops, idx, wants, loc, what):
    """idx takes the values 0 .. want-1, each once, for the first of `wants` the number of iterations differs from by a constant"""
    r = values_of(ev, loops, idx)
    if r is None:
        ctx.und(key, f"the elements gone over are not recognised: {gvn.show(idx.tree)[:80]}"); return None
    first, step, n, k = r
    for w in wants:
        d = same_len(n, w)
        if d is None:
            continue
        low = first if step == 1 else None
        if step == 1:
            off = first.const
        else:
            off = same_len(first, l_sub(w, const(1)))
        if off is None:
            ctx.und(key, f"first element {gvn.show(first.tree)[:80]}"); return None
        ctx.ob(key, d == 0 and off == 0, loc, f"{what}: begins {'at' if step == 1 else 'from the end,'} {int(off):+d}, number of elements {int(d):+d}")
        return k
    ctx.und(key, f"number of elements {gvn.show(n.tree)[:100]}")
    return None


def every(ctx, key, ev, k, guard, loc, unless=ZERO, given=ONE):
    """no iteration of loop k goes on without what happens under guard"""
    i = ev.loopinfo[k]
    m = AND(AND(nothrow(backguard(i)), nothrow(i["guard"])), AND(AND(NOT(nothrow(guard)), nothrow(given)), NOT(unless)))
    ctx.ob(key, not feasible(m), loc, "an element is left out")


def vector_len(l, size, depth=0, out=None):
    """numbers of elements of vectors (whole (end - begin)/size) that occur in l"""
    if out is None:
        out = []
    if not isinstance(l, Leaf) or depth > 10:
        return out
    if getattr(l, "poly", None) is not None:
        pass
    for x in (l.tree or ())[1:]:
        if isinstance(x, Leaf):
            vector_len(x, size, depth + 1, out)
    return out
