from common_model import *
import core

QQ = "serial::Query"
NODATA = -1.0e20


def run_query(p):
    return Run(p, QQ + "::query", [r"serial::Model::"])


def squash_expected(p, R, model, events=None):
    """documented squashed elevation for the model object `model` (leaf), with the flags it depends on"""
    so = setter_field(p, QQ, "setSquashing"); mo = setter_field(p, QQ, "setSquashMinElev")
    if so is None or mo is None:
        raise core.AnalysisBroken("setSquashing/setSquashMinElev do not store their argument")
    this = R.arg(0)
    sq = ld(None, padd(this.d, gvn.const(so))); mn = ld(None, padd(this.d, gvn.const(mo)))
    en = enum(p, "Query::SquashingEnum")
    z = R.arg(4)
    def surf(name):
        c = [e for e in R.calls(rf"serial::Model::{name}\(") if e.args[0] is model]
        return X(c[-1].res) if c else None
    t = surf("queryTopElevation"); b = surf("queryTopoBathyElevation")
    return sq, mn, en, z, t, b


def nodata_fill(R):
    """events that set values[0..n) to NODATA: [(guard, first address, n or None, event)]"""
    out = []
    for e in R.calls(r"std::fill(_n)?<"):
        v = e.args[2]
        val = None
        if isinstance(v, Leaf) and v.base is not None:
            if v.base[0] == "g":
                val = R.ev.globalinit(v.base[1], 0, "double", 8, e.instr.fn.tu)
            elif 2 in e.extra:
                val = e.extra[2].get(0)
        out.append((e, val))
    return out
