"""After a slab could not be read, the next query reads it again instead of using the buffer"""
from common_slab import *
from q09 import pick

MINIMUM = 4
RD = r"serial::HDF5::readDatasetHyperslab\("


def check(ctx):
    p = core.load(("lib",))
    for nd in (3, 4):
        for name in ("interpolate", "nearest"):
            ctx.guard(f"{name} rank {nd-1}", one, ctx, p, nd, name)


def evaluate(S, name, st, idx, throwing):
    f = S.p.get(f"{HS}::{name}")
    E = EV.Evaluator(S.p, opaque=OPQ + [r"_Hyperslab::_(interpolate|nearest)\dD"])     # interpolation itself does not matter here
    if throwing:
        E.throwing = E.stop = lambda dem: re.search(RD, dem) is not None
    try:
        E.run(f, [S.this, S.vals, idx], st)
    except (gvn.Blowup, gvn.Unsupported):
        if throwing or not any(e.kind == "call" and re.search(RD, e.callee) for e in E.events):
            raise
    return E


def one(ctx, p, nd, name):
    S = Slab(p, nd)
    idx2 = atom("arg", "indexNext", tree=("fn", "indexNext"))
    for first in (True, False):
        key = f"{name} in {nd-1}-D: after a failed read" + (" on the first query" if first else "")
        E = evaluate(S, name, S.stgen.copy(), S.idx, True)
        rd = [e for e in E.events if e.kind == "call" and re.search(RD, e.callee)]
        if not rd:
            ctx.und(key, "no read of the dataset"); continue
        if not E.unwound:
            # the failure is swallowed: the query then uses data that was not read
            ctx.ob(f"{key}, the query itself fails", False, rd[0].loc(), "the exception of the failed read does not leave the query"); continue
        ctx.ob(f"{key}, the query itself fails", True, rd[0].loc())
        for n, (g, st) in enumerate(E.unwound):
            g = pick(S, g, first)
            if g is ZERO:
                continue
            E2 = evaluate(S, name, settle(S, st, first), idx2, False)
            reads = ZERO
            for e in E2.events:
                if e.kind == "call" and re.search(RD, e.callee):
                    reads = OR(reads, e.guard)
            z = {idx2.fp: False}
            kept = pick(S, AND(g, NOT_(reads)), first, z)
            ctx.ob(f"{key}, the next query reads the slab", kept is ZERO, rd[0].loc(), f"data that was never read is used for the next query when {txt_cubes(kept)}")
    ctx.count(functions=len(E.inlined), failures=len(E.unwound))


def settle(S, st, first):
    """state with the branches on what was live before the failed query decided"""
    st = st.copy()
    for k, (o, v, sz) in list(st.mem.items()):
        if isinstance(v, Node):
            st.mem[k] = (o, pick(S, v, first), sz)
    return st


def txt_cubes(d):
    c = gvn.cubes(d, ONE, 1)
    return (c[0][:300] if c else "?") if isinstance(d, Node) else "always"
