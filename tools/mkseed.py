"""mkseed(id, prop, edits, demo, needs, breaks): edits = [(file, old, new)], demo = python source; writes /verif/seeded/<id>/"""
import difflib, json, os, pathlib, shutil, subprocess, sys
V = pathlib.Path("/verif"); R = pathlib.Path("/repo")

def mkseed(sid, prop, edits, demo, needs, breaks):
    d = V / "seeded" / sid
    shutil.rmtree(str(d), ignore_errors=True); d.mkdir(parents=True)
    by = {}
    for f, old, new in edits:
        s = by.get(f) or (R / f).read_text()
        occ = 0
        if old.startswith("@"):
            n, old = old.split(" ", 1); occ = int(n[1:])
        parts = s.split(old)
        if len(parts) < occ + 2 or (len(parts) != 2 and occ == 0 and len(parts) > 2 and not sys.flags.interactive and parts.__len__() > 2):
            if len(parts) < occ + 2: sys.exit(f"{sid}: not found in {f}: {old!r}")
        by[f] = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
    patch = ""
    for f, s in by.items():
        o = (R / f).read_text()
        for l in difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f):
            patch += l
    (d / "patch.diff").write_text(patch)
    shutil.copy(V / "tools" / "seedlib" / "lib.py", d / "lib.py")
    (d / "demo.py").write_text(demo)
    (d / "demo.sh").write_text('#!/bin/bash\nexec /usr/bin/python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], capture_output=True, text=True)
    if r.returncode: print(sid, "does not apply", r.stderr)

def demo(sid):
    r = subprocess.run(["bash", str(V / "seeded" / sid / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def try_(sid, checks=None, test=False):
    """apply, build, (test), demo, checks, revert, rebuild"""
    d = V / "seeded" / sid
    prop = json.loads((d / "meta.json").read_text())["property"]
    base = demo(sid)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == "", "repo dirty"
    subprocess.run(["git", "-C", "/repo", "apply", str(d / "patch.diff")], check=True)
    try:
        b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        mut = demo(sid) if b.returncode == 0 else ("build failed", b.stderr[-500:])
        t = None
        if test and b.returncode == 0:
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/o.json"], capture_output=True)
            o = json.load(open("/tmp/o.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            t = sorted(st - set(o["passed"]))[:4]
        c = {}
        for p in checks or [prop]:
            r = subprocess.run([sys.executable, "/verif/sa/run.py", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, SA_EVIDENCE="/tmp/mutev"))
            c[p] = (r.returncode, [l[:200] for l in r.stdout.splitlines() if l.startswith("  ") or l.startswith("UND")][:2])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    print(f"{sid}: demo base {base[0]} mutant {mut[0]} broken-tests {t} checks {c}")
    if base[0] or mut[0] in (0, "build failed"): print("   ", base[1] if base[0] else mut[1])

if __name__ == "__main__":
    for s in sys.argv[1:]:
        try_(s, test=True)
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
