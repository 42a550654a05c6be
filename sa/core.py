"""Fact base: compiles /repo's current C++ sources to LLVM IR, runs irdump, loads the facts."""
import concurrent.futures as cf
import hashlib
import json
import os
import pathlib
import subprocess
import sys
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path(os.environ.get("SA_REPO", "/repo"))
CACHE = pathlib.Path(os.environ.get("SA_CACHE", str(VERIF / ".cache")))
CLANG = os.environ.get("SA_CLANG", "/usr/bin/clang++-18")


class AnalysisBroken(Exception):
    """The checker cannot decide (missing anchor, source that does not compile, ...): error exit."""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool_path():
    src = HERE / "tool" / "irdump.cc"
    h = hashlib.sha256(src.read_bytes()).hexdigest()[:16]
    out = CACHE / f"irdump-{h}"
    if out.exists():
        return out
    CACHE.mkdir(parents=True, exist_ok=True)
    cfg = "/usr/bin/llvm-config-18"
    cpp = _run([cfg, "--cppflags"]).stdout.split()
    ld = _run([cfg, "--ldflags"]).stdout.split()
    tmp = out.with_suffix(f".tmp{os.getpid()}")
    r = _run([CLANG, "-std=c++17", "-O1", "-fno-rtti", *cpp, str(src), "-o", str(tmp), *ld, "-lLLVM-18"])
    if r.returncode:
        raise AnalysisBroken("cannot build irdump:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def _inc():
    inc = [f"-I{REPO}/libsrc"]
    if (REPO / "_build" / "portinfo").exists():
        inc.append(f"-I{REPO}/_build")
    else:
        inc.append(f"-I{HERE}/stub")
    inc.append("-I/usr/include/hdf5/serial")
    return inc


def _pyinc():
    r = _run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])\ntry:\n import pybind11;print(pybind11.get_include())\nexcept Exception: pass\ntry:\n import numpy;print(numpy.get_include())\nexcept Exception: pass"])
    return ["-I" + x for x in r.stdout.split()]


def sources(group):
    if group == "lib":
        fs = sorted((REPO / "libsrc").rglob("*.cc"))
    elif group == "bin":
        fs = sorted((REPO / "bin").glob("*.cc"))
    elif group == "mod":
        fs = sorted((REPO / "modulesrc").glob("*.cc"))
    else:
        raise ValueError(group)
    return fs


def _headers_digest():
    h = hashlib.sha256()
    for pat in ("libsrc", "modulesrc"):
        for f in sorted((REPO / pat).rglob("*")):
            if f.suffix in (".hh", ".h", ".icc", ".hpp") and f.is_file():
                h.update(str(f.relative_to(REPO)).encode()); h.update(f.read_bytes())
    p = REPO / "_build" / "portinfo"
    if p.exists():
        h.update(p.read_bytes())
    return h


def _facts_one(src, group, hd):
    tool = tool_path()
    h = hd.copy()
    h.update(str(src).encode()); h.update(src.read_bytes()); h.update(tool.name.encode()); h.update(group.encode()); h.update(b"v5")
    out = CACHE / ("f-" + h.hexdigest()[:24] + ".json")
    if out.exists():
        return out
    CACHE.mkdir(parents=True, exist_ok=True)
    bc = CACHE / (out.stem + f".{os.getpid()}.bc")
    inc = _inc() + (_pyinc() if group == "mod" else [])
    r = _run([CLANG, "-std=gnu++17", "-g", "-fstandalone-debug", "-flto", "-fwhole-program-vtables", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-DWITH_GDAL", "-emit-llvm", "-c", "-o", str(bc), *inc, str(src)])
    if r.returncode:
        raise AnalysisBroken(f"{src} does not compile:\n" + r.stderr[-3000:])
    tmp = out.with_suffix(f".tmp{os.getpid()}")
    cmd = [str(tool), str(bc), str(tmp), str(REPO), "function(sroa)"]
    if group == "mod":
        cmd.append("skipsys")
    r = _run(cmd)
    bc.unlink(missing_ok=True)
    if r.returncode:
        raise AnalysisBroken(f"irdump failed on {src}: {r.stderr[-2000:]}")
    os.replace(tmp, out)
    return out


_loaded = {}


def load(groups=("lib",)):
    """Program facts merged over all translation units of the groups."""
    key = tuple(groups)
    if key in _loaded:
        return _loaded[key]
    from ir import Program
    hd = _headers_digest()
    tool_path()
    jobs = [(s, g) for g in groups for s in sources(g)]
    if not jobs:
        raise AnalysisBroken("no source files found")
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda j: _facts_one(j[0], j[1], hd), jobs))
    p = Program()
    for (s, g), o in zip(jobs, outs):
        p.add(json.loads(o.read_text()), str(s.relative_to(REPO)))
    p.finish()
    _loaded[key] = p
    return p
