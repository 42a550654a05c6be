"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source), and checks them against the schemas."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
import props
ids = set()
with open(V / "properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert p["id"] not in ids, p["id"]; ids.add(p["id"]); assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 sa/run.py {p['id']} --tier quick", "thorough_cmd": f"python3 sa/run.py {p['id']} --tier thorough",
                   "technique": p["tech"], "level": p.get("level", "other"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V / "properties.jsonl"):
    jsonschema.validate(json.loads(l), sch)
print(len(checks), "checks,", len(na), "not applicable")
# DESIGN.md
import subprocess
import decide
t = (V / "tools/design.in.md").read_text()
rows = []
for p in props.PROPS:
    if "na" in p:
        continue
    rows.append(f"**{p['id']} {p['title']}.** {decide.D[p['id']]} *Why beyond tests:* {p['why']}\n")
nas = [p for p in props.PROPS if "na" in p]
if nas:
    rows.append("Not applicable to this family (also in MANIFEST.json):\n")
    rows += [f"* {p['id']} {p['title']}: {p['na']}" for p in nas]
t = t.replace("@@PROPS@@", "\n".join(rows))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
t = t.replace("@@FIXES@@", "\n".join("* " + l for l in log if " fix:" in l))
sd = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    sd.append(f"* `{d.name}`: caught by {m['property']}. Needs {m['needs']}; {m['what_it_breaks']}.")
t = t.replace("@@SEEDS@@", "\n".join(sd))
(V / "DESIGN.md").write_text(t)
