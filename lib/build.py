"""Builds the library from /repo's current working tree, plus a driver from
/verif/harness, in /verif/build/<content hash>/ (git-ignored, safe to delete)."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GEN = ("mypaint-brush-settings-gen.h", "brushsettings-gen.h")
CFLAGS = ["-D_POSIX_C_SOURCE=200809L", "-g", "-O2", "-w"]

ALL = [("drv_surface", "std"), ("drv_surface", "omp"), ("drv_surface", "asan"), ("drv_brush", "std"), ("drv_brush", "asan"), ("drv_rng", "std"), ("drv_misc", "std")]

class BuildError(Exception):
    pass

def _pkg(*args):
    return subprocess.run(["pkg-config", *args], check=True, capture_output=True, text=True).stdout.split()

def _files(gegl):
    pats = ["*.c", "*.h", "glib/*.c", "glib/*.h", "fastapprox/*.h", "generate.py", "brushsettings.json"]
    if gegl:
        pats += ["gegl/*.c", "gegl/*.h"]
    fs = []
    for p in pats:
        fs += sorted(glob.glob(os.path.join(REPO, p)))
    return [f for f in fs if os.path.basename(f) not in GEN]

def java():
    """Compiles java/ (operators TLC evaluates in floating point); returns the class directory."""
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        _run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", tmp, *srcs], VERIF)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out

def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s%s" % (" ".join(cmd), r.stdout[-4000:], r.stderr[-4000:]))

def build(driver, variant="std"):
    """Compiles library + harness/<driver>.c; returns the executable's path.
    variant: std | omp (OpenMP) | asan (AddressSanitizer) | wrap (heap calls interposed) | gegl"""
    gegl = variant == "gegl"
    files = _files(gegl)
    hfiles = sorted(glob.glob(os.path.join(VERIF, "harness", "*.[ch]")))
    h = hashlib.sha256()
    h.update(variant.encode())
    for f in files:
        h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, "rb").read())
    libhash = h.hexdigest()[:16]
    for f in hfiles:
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    h.update(driver.encode())
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (driver, variant, h.hexdigest()[:16]))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    libdir = os.path.join(BUILD, "lib-%s-%s" % (variant, libhash))
    pk = ["glib-2.0", "gobject-2.0", "json-c"] + (["gegl-0.4"] if gegl else [])
    inc = _pkg("--cflags", *pk)
    extra = {"omp": ["-fopenmp"], "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"]}.get(variant, [])
    if not os.path.exists(os.path.join(libdir, "ok")):
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        src = os.path.join(tmp, "src")
        for f in files:
            d = os.path.join(src, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(f, d)
        shutil.copyfile(os.path.join(VERIF, "harness", "config.h"), os.path.join(src, "config.h"))
        _run([sys.executable, "generate.py", GEN[0], GEN[1]], src)
        cs = sorted(glob.glob(os.path.join(src, "*.c")))
        if gegl:
            cs += sorted(glob.glob(os.path.join(src, "gegl", "*.c"))) + \
                  sorted(glob.glob(os.path.join(src, "glib", "*gegl*.c")))
        def cc(c):
            o = c[:-2] + ".o"
            _run(["gcc", *CFLAGS, *extra, "-I" + src, *inc, "-c", c, "-o", o], src)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, cs))
        objs = [c[:-2] + ".o" for c in cs]
        _run(["ar", "rcs", os.path.join(tmp, "lib.a"), *objs], src)
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, libdir)
        except OSError:
            shutil.rmtree(tmp)          # somebody else built it meanwhile
    wrap = []
    if variant == "wrap":
        wrap = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
    tmpout = out + ".%d" % os.getpid()
    _run(["gcc", *CFLAGS, *extra, "-DVARIANT_" + variant.upper(), "-I" + os.path.join(libdir, "src"), *inc,
          os.path.join(VERIF, "harness", driver + ".c"), os.path.join(libdir, "lib.a"),
          "-o", tmpout, *wrap, *_pkg("--libs", *pk), "-lm", "-lpthread"], VERIF)
    os.rename(tmpout, out)
    return out
