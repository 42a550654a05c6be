"""A query object that is not initialised (never, unsuccessfully, or no longer) answers without touching any model"""
from common_query import *
import ev as EV
import strmodels as SM

MINIMUM = 18
OPAQUE = [r"serial::Model::"]
MODELS = {**SM.VECMUT, **SM.STREAMS, **SM.MAPS, **SM.FIND}
THROWS = r"geomodelgrids::|^std::make_unique<|^std::map<|^operator new|^std::vector<.*>::(resize|reserve|push_back|operator=|at)\(|^std::__throw_"


def check(ctx):
    p = core.load(("lib",))
    ctx.guard("after construction", constructed, ctx, p)
    ctx.guard("after a failed initialize", failed, ctx, p)
    ctx.guard("after finalize", finalized, ctx, p)


def evaluator(p, throwing=False):
    E = EV.Evaluator(p, opaque=OPAQUE, models=MODELS)
    if throwing:
        E.throwing = lambda dem: re.search(THROWS, dem) is not None and not re.search(r"::~|::close\(", dem)
        # while looking for failures only functions that can reach the object being initialised are followed
        E.inline_pred = lambda fn, dem: None if not fn.repo or "serial::Query::" in EV.fname(dem) or any(re.search(r"(^std::vector<.*[^t]|Query)\s*[&*]$", q) for q in EV.params_of(dem)) else False
    return E


def this_of(f):
    return atom("arg", 0, tree=("fn", "this"))


def after(ctx, p, when, states, loc):
    """the queries from each of the states"""
    se = enum(p, "ErrorHandler::StatusEnum")
    acc = {}
    def note(key, ok, where, detail=""):
        o = acc.get(key)
        if o is None or o[0] and not ok:
            acc[key] = (ok, where, detail)
    for g, st in states:
        if g is ZERO:
            continue
        for name in ("query", "queryTopElevation", "queryTopoBathyElevation"):
            f = p.get(f"{QQ}::{name}")
            args = [this_of(f)] + [atom("arg", ("q", i), tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args) if i]
            E = evaluator(p)
            E.run(f, args, st.copy())
            used = [(e, AND(g, e.guard)) for e in E.events if e.kind == "call" and re.search(OPAQUE[0], e.callee)]
            used = [(e, x) for e, x in used if x is not ZERO]
            note(f"{when}: {name} uses no model", not used, used[0][0].loc() if used else f.loc(), (fname_(used[0][0]) + " is called when " + " / ".join(cubes(used[0][1], ONE, 1))[-300:]) if used else "")
            ls = care_leaves(E.ret, AND(g, E.retguard))
            if name == "query":
                note(f"{when}: query returns an error", bool(ls) and all(l.const == se["ERROR"] for l in ls), f.loc(), f"returns {[txt(l, 60) for l in ls]}")
            else:
                note(f"{when}: {name} gives NODATA_VALUE", bool(ls) and all(l.const == -10**20 for l in ls), f.loc(), f"gives {[txt(l, 60) for l in ls]}")
            ctx.count(functions=len(E.inlined))
    for key, (ok, where, d) in acc.items():
        ctx.ob(key, ok, where, d)
    return acc


def fname_(e):
    return e.callee.split("(")[0]


def constructed(ctx, p):
    f = p.get(QQ + "::Query")
    E = evaluator(p)
    E.run(f, [this_of(f)])
    after(ctx, p, "after construction", [(E.retguard, E.state)], f.loc())


def failed(ctx, p):
    f = p.get(QQ + "::initialize")
    E = evaluator(p, True)
    E.run(f, [this_of(f)] + [atom("arg", i, tree=("fn", a["n"] or f"arg{i}")) for i, a in enumerate(f.args) if i])
    if not E.unwound:
        ctx.ob("after a failed initialize: the failure is reported by an exception", False, f.loc(), "no exception leaves initialize()"); return
    ctx.count(failures=len(E.unwound))
    after(ctx, p, "after a failed initialize", E.unwound, f.loc())


def finalized(ctx, p):
    f = p.get(QQ + "::finalize")
    E = evaluator(p)
    E.run(f, [this_of(f)])
    cl = [e for e in E.events if e.kind == "call" and re.search(r"serial::Model::(close|~Model)\(", e.callee)]
    ctx.ob("finalize: every model is closed", bool(cl) or any(re.search(r"Model.*::(clear|~vector|swap|resize)\(", e.callee or "") for e in E.events), f.loc(), "no model is closed or destroyed")
    after(ctx, p, "after finalize", [(E.retguard, E.state)], f.loc())
    E2 = evaluator(p)
    E2.run(f, [this_of(f)], E.state.copy())
    used = [e for e in E2.events if e.kind == "call" and re.search(OPAQUE[0], e.callee) and AND(E.retguard, e.guard) is not ZERO]
    ctx.ob("after finalize: finalize again uses no model", not used, used[0].loc() if used else f.loc(), "a model is used")
