"""Development aid: apply one textual edit to a scratch copy of /repo and run checks on the copy.
usage: mut.py FILE OLD NEW CHECK...   (FILE relative to the repository; OLD must occur; use @N to pick occurrence N)"""
import os, re, shutil, subprocess, sys, pathlib
T = pathlib.Path("/tmp/mutrepo")

def prep():
    shutil.rmtree(str(T), ignore_errors=True)
    T.mkdir()
    subprocess.run("tar -C /repo --exclude=.git --exclude=_build --exclude='*.o' --exclude='*.lo' --exclude=tests --exclude=data -cf - . | tar -C /tmp/mutrepo -xf -", shell=True, check=True)
    if pathlib.Path("/repo/_build/portinfo").exists():
        (T / "_build").mkdir(exist_ok=True); shutil.copy("/repo/_build/portinfo", T / "_build" / "portinfo")

def apply(f, old, new):
    occ = 0
    m = re.match(r"@(\d+) ", old)
    if m:
        occ = int(m.group(1)); old = old[m.end():]
    p = T / f; s = p.read_text()
    parts = s.split(old)
    if len(parts) < occ + 2:
        sys.exit(f"not found: {old!r} in {f}")
    s = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
    p.write_text(s)

def run(checks):
    env = dict(os.environ, SA_REPO=str(T), SA_EVIDENCE="/tmp/mutev", SA_CACHE="/tmp/mutcache")
    for c in checks:
        r = subprocess.run([sys.executable, "/verif/sa/run.py", c], env=env, capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        print(f"-- {c} exit {r.returncode}: " + (out[0][:150] if out else ""))
        for l in out[1:7]:
            print("     " + l[:330])
        if r.returncode == 2:
            print("     ERR " + r.stderr.strip()[-500:])

if __name__ == "__main__":
    prep(); apply(*sys.argv[1:4]); run(sys.argv[4:])
