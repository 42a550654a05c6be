"""Check runner: python3 sa/run.py <PROPERTY> --tier quick|thorough"""
import argparse
import importlib
import json
import os
import pathlib
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / "checks"))
sys.setrecursionlimit(20000)
import core

EVID = pathlib.Path(os.environ.get("SA_EVIDENCE", str(core.VERIF / "evidence")))


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obs = []; self.counts = {}; self.undecided = []; self.assumptions = []; self.samples = []
        self.rules = []; self.minimum = 1

    def ob(self, key, ok, where="", detail=""):
        """one obligation. key: stable identification of the instance (no line numbers)."""
        self.obs.append((key, bool(ok), where, detail))
        return ok

    def und(self, key, why):
        self.undecided.append((key, why))

    def guard(self, key, f, *a, **k):
        """run one group of obligations; engine limits leave it undecided, missing anchors are errors"""
        try:
            return f(*a, **k)
        except core.AnalysisBroken:
            raise
        except Exception as e:
            self.und(key, f"{type(e).__name__}: {e} at {traceback.format_exc().strip().splitlines()[-3].strip()}")
            return None

    def rule(self, s):
        self.rules.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v


def known(prop):
    p = core.VERIF / "KNOWN_FINDINGS.json"
    if not p.exists():
        return {}
    d = json.loads(p.read_text())
    return {f["key"]: f["what"] for f in d.get("findings", []) if f["property"] == prop and f.get("status", "open") == "open"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    ctx = Ctx(a.prop, a.tier)
    mod = importlib.import_module(a.prop.lower())
    err = None
    try:
        mod.check(ctx)
        if len(ctx.obs) < getattr(mod, "MINIMUM", 1) and not ctx.undecided:
            raise core.AnalysisBroken(f"only {len(ctx.obs)} obligations were formed, at least {mod.MINIMUM} were confirmed by hand")
    except core.AnalysisBroken as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kn = known(a.prop)
    bad = []; found = {}
    for key, ok, where, detail in ctx.obs:
        if ok:
            continue
        if key in kn:
            found[key] = (where, detail)
        else:
            bad.append((key, where, detail))
    nok = sum(1 for o in ctx.obs if o[1])
    keys = [o[0] for o in ctx.obs]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": " ".join(ctx.rules) or (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": nok, "undecided": len(ctx.undecided),
            "checker_cmd": f"python3 sa/run.py {a.prop} --tier {a.tier}",
            "trusted_base": getattr(mod, "TRUSTED", ["clang 18 front end and sroa", "sa/ analysis engine", "models of external functions listed in DESIGN.md"]),
            **ctx.counts,
            "samples": keys[:12] if len(keys) > 12 else keys,
            "undecided_items": [f"{k}: {w}" for k, w in ctx.undecided][:20],
            "known_findings_seen": sorted(found),
        },
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(bad),
    }
    EVID.mkdir(parents=True, exist_ok=True)
    if err:
        ev["coverage"]["analysis_error"] = err[-1500:]
    evp = EVID / f"{a.prop}.json"
    evp.write_text(json.dumps(ev, indent=1) + "\n")
    if a.v:
        for key, ok, where, detail in ctx.obs:
            print(("ok   " if ok else "FAIL ") + key, where, "" if ok else detail[:600])
    print(f"{a.prop} [{a.tier}] obligations={len(ctx.obs)} discharged={nok} undecided={len(ctx.undecided)} " + " ".join(f"{k}={v}" for k, v in ctx.counts.items()) + f" wall={ev['wall_s']}s")
    for k, w in ctx.undecided:
        print(f"UNDECIDED {k}: {w}"[:400])
    for k in sorted(found):
        print(f"KNOWN-FINDING: property={a.prop} {k}: {kn[k]}")
    if bad:
        rp = EVID / f"{a.prop}.violations.txt"
        with open(rp, "w") as f:
            for key, where, detail in bad:
                f.write(f"rule instance: {key}\n  where: {where}\n  {detail}\n")
        for key, where, detail in bad[:20]:
            print(f"  {where}: {key}: {detail[:700]}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if err:
        print("ANALYSIS ERROR:", err[-1500:], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
