"""Helpers shared by the demonstrations: write small model files into a scratch directory, query them."""
import atexit, os, shutil, subprocess, sys, tempfile
os.environ.setdefault("PROJ_NETWORK", "OFF")
sys.path.insert(0, "/repo/_build/stage")
sys.dont_write_bytecode = True
import h5py
import numpy

B = "/repo/_build"
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
CRS = "EPSG:26910"


def tmp(name):
    return os.path.join(TMP, name)


def model(name, blocks, surfaces=None, origin=(0.0, 0.0), azimuth=0.0, dims=(1000.0, 1000.0, 1000.0), names=("one", "two"), units=("m", "m/s"), crs=CRS, **extra):
    """blocks: {name: (attrs, array[nx,ny,nz,nv])}, surfaces: {name: (attrs, array[nx,ny])}"""
    f = h5py.File(tmp(name), "w")
    a = dict(title="T " + name, id="id", description="d", keywords=["k"], history="h", comment="c", creator_name="n", creator_email="e", creator_institution="i",
             acknowledgement="a", authors=["a"], references=["r"], repository_name="rn", repository_url="ru", repository_doi="rd", license="l", version="1.0",
             data_layout="vertex", crs=crs, origin_x=origin[0], origin_y=origin[1], y_azimuth=azimuth, dim_x=dims[0], dim_y=dims[1], dim_z=dims[2])
    a.update(extra)
    for k, v in a.items():
        f.attrs[k] = v
    f.attrs.create("data_values", list(names), dtype=h5py.string_dtype())
    f.attrs.create("data_units", list(units), dtype=h5py.string_dtype())
    if surfaces:
        g = f.create_group("surfaces")
        for n, (at, arr) in surfaces.items():
            d = g.create_dataset(n, data=numpy.asarray(arr)[..., None] if numpy.asarray(arr).ndim == 2 else arr, chunks=True)
            for k, v in at.items():
                d.attrs[k] = v
    g = f.create_group("blocks")
    for n, (at, arr) in blocks.items():
        d = g.create_dataset(n, data=arr)
        for k, v in at.items():
            d.attrs[k] = v
    f.close()
    return tmp(name)


def field(xs, ys, zs, *fns):
    out = numpy.zeros((len(xs), len(ys), len(zs), len(fns)))
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            for k, z in enumerate(zs):
                for v, fn in enumerate(fns):
                    out[i, j, k, v] = fn(x, y, z)
    return out


def simple(name, f1=lambda x, y, z: x + 2 * y + 3 * z, f2=lambda x, y, z: 7.0, n=11, dx=100.0, **kw):
    xs = [dx * i for i in range(n)]; zs = [-dx * i for i in range(n)]
    return model(name, {"b": (dict(x_resolution=dx, y_resolution=dx, z_resolution=dx, z_top=0.0), field(xs, xs, zs, f1, f2))}, **kw)


def query(files, names, points, crs=CRS, setup=None):
    from geomodelgrids import Query
    q = Query()
    q.initialize(list(files), list(names), crs)
    if setup:
        setup(q)
    v = q.query(numpy.array(points, dtype=float))
    return v[0] if isinstance(v, tuple) else v


def cxx(src, run=True, args=()):
    """compile a small C++ program against the library just built; returns the completed process"""
    s = tmp("demo.cc"); x = tmp("demo")
    open(s, "w").write(src)
    subprocess.run(["g++", "-std=c++17", "-g", "-O0", "-I/repo/libsrc", "-I" + B, "-I/usr/include/hdf5/serial", "-I/usr/include/gdal", s, "-o", x, "-L" + B + "/libsrc/geomodelgrids/.libs", "-lgeomodelgrids",
                    "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lproj", "-lgdal", "-Wl,-rpath," + B + "/libsrc/geomodelgrids/.libs"], check=True)
    return subprocess.run([x, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=TMP, timeout=200)


def app(name, *args):
    env = dict(os.environ, LD_LIBRARY_PATH=B + "/libsrc/geomodelgrids/.libs")
    return subprocess.run([f"{B}/bin/.libs/geomodelgrids_{name}" if os.path.exists(f"{B}/bin/.libs/geomodelgrids_{name}") else f"{B}/bin/geomodelgrids_{name}", *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=TMP, env=env, timeout=200)


def expect(ok, msg):
    if not ok:
        print("FAILED:", msg); sys.exit(1)


def close(a, b, tol=1e-6):
    return bool(numpy.all(numpy.abs(numpy.asarray(a, float) - numpy.asarray(b, float)) <= tol * (1 + numpy.abs(numpy.asarray(b, float)))))
