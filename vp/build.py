"""Builds what the checks need from /repo's current working tree: LLVM bitcode for the symbolic
executor, and (only when a counterexample has to be replayed) a sanitised native build."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "symex")
HARN = os.path.join(VERIF, "harness")

FALLBACK = {
    "src": ["conviqt_math.cpp", "conviqt_util.cpp", "conviqt_io.cpp", "cconviqt.cpp"],
    "levels/cxxsupport": ["error_handling.cc", "mpi_support.cc", "wigner.cc", "fitshandle.cc", "string_utils.cc", "rotmatrix.cc"],
    "levels/Healpix_cxx": ["alm.cc", "alm_fitsio.cc", "alm_powspec_tools.cc", "powspec.cc"],
    "levels/libfftpack": ["bluestein.c", "fftpack.c", "ls_fft.c"],
    "levels/c_utils": ["c_utils.c", "walltime_c.c", "memusage.c", "svd_c.c", "time_utils.c", "wrec3a.c"],
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    out = []
    for d, fb in FALLBACK.items():
        names = []
        try:
            t = open(os.path.join(REPO, d, "Makefile.am")).read().replace("\\\n", " ")
            for m in re.finditer(r"^lib\w+_la_SOURCES\s*\+?=\s*(.*)$", t, re.M):
                names += [x for x in m.group(1).split() if re.search(r"\.(c|cc|cpp)$", x)]
        except OSError:
            pass
        if not names:
            names = fb
        out += [os.path.join(REPO, d, n) for n in names if os.path.exists(os.path.join(REPO, d, n))]
    return out


def repo_fingerprint():
    h = hashlib.sha256()
    for top in ("src", "levels"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if re.search(r"\.(c|cc|cpp|h|hpp|inc|am)$", f):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(VERIF, "engine", "include", "*"))) + [os.path.abspath(__file__)]:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


_mpi = None
def mpi_compile():
    global _mpi
    if _mpi is None:
        _mpi = sh(["mpicxx", "--showme:compile"]).stdout.split()
    return _mpi


def includes(omp_stub=True):
    r = ["-I" + os.path.join(VERIF, "engine", "include") if omp_stub else "-I" + os.path.join(VERIF, "engine", "include_native")]
    for d in ("levels/c_utils", "levels/cxxsupport", "levels/Healpix_cxx", "levels/libfftpack", "src"):
        r.append("-I" + os.path.join(REPO, d))
    return r + ["-I" + HARN, "-DOMPI_SKIP_MPICXX=1"] + mpi_compile()


BCFLAGS = ["-w", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fopenmp", "-DHAVE_CONFIG_H", "-DUSE_MPI", "-gline-tables-only"]
PASSES = "function(sroa,early-cse,simplifycfg)"


def compile_bc(src, out, extra=()):
    cxx = not src.endswith(".c")
    cmd = (["clang++-18", "-std=c++17"] if cxx else ["clang-18"]) + BCFLAGS + includes() + list(extra) + ["-emit-llvm", "-c", src, "-o", out]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(src + ":\n" + r.stdout[-4000:])


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def ensure_engine():
    with Lock("engine"):
        r = sh(["bash", os.path.join(VERIF, "engine", "build.sh")])
        if r.returncode or not os.path.exists(ENGINE):
            raise BuildError("engine:\n" + r.stdout[-4000:])


def cache_dir():
    d = os.path.join(BUILD, "cache", repo_fingerprint())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    top = os.path.join(BUILD, "cache")
    old = sorted((os.path.join(top, x) for x in os.listdir(top)), key=os.path.getmtime)
    for x in old[:-4]:
        if x != d and time.time() - os.path.getmtime(x) > 1800:
            shutil.rmtree(x, ignore_errors=True)
    return d


def ensure_lib():
    """one optimised bitcode file for the whole library; returns its path"""
    d = cache_dir()
    with Lock("lib"):
        out = os.path.join(d, "lib.bc")
        if os.path.exists(out):
            return out
        srcs = lib_sources()
        objs = [os.path.join(d, "o_" + os.path.relpath(s, REPO).replace("/", "_") + ".bc") for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda a: compile_bc(*a), zip(srcs, objs)))
        r = sh(["llvm-link-18"] + objs + ["-o", out + ".all"])
        if r.returncode:
            raise BuildError("llvm-link:\n" + r.stdout[-3000:])
        r = sh(["opt-18", "-passes=" + PASSES, out + ".all", "-o", out + ".tmp"])
        if r.returncode:
            raise BuildError("opt:\n" + r.stdout[-3000:])
        os.rename(out + ".tmp", out)
        for o in objs + [out + ".all"]:
            os.remove(o)
        return out


def harness_id(src, defs):
    h = hashlib.sha256()
    for f in [src] + sorted(glob.glob(os.path.join(HARN, "*.h"))):
        h.update(open(f, "rb").read())
    h.update(repr(defs).encode())
    return h.hexdigest()[:12]


def ensure_harness(name, defs=(), extra_src=()):
    """harness bitcode linked with the library; returns the path"""
    lib = ensure_lib()
    d = os.path.dirname(lib)
    src = os.path.join(HARN, name)
    hid = harness_id(src, (tuple(defs), tuple(extra_src), [open(os.path.join(HARN, e)).read() for e in extra_src]))
    out = os.path.join(d, "h_%s_%s.bc" % (os.path.splitext(name)[0], hid))
    with Lock("h_" + name.replace("/", "_")):
        if os.path.exists(out):
            return out
        parts = []
        for i, s in enumerate([src] + [os.path.join(HARN, e) for e in extra_src]):
            o = out + ".%d" % i
            compile_bc(s, o + ".0", ["-D" + x for x in defs])
            r = sh(["opt-18", "-passes=" + PASSES, o + ".0", "-o", o])
            if r.returncode:
                raise BuildError("opt:\n" + r.stdout[-3000:])
            os.remove(o + ".0")
            parts.append(o)
        r = sh(["llvm-link-18"] + parts + [lib, "-o", out + ".tmp"])
        if r.returncode:
            raise BuildError("llvm-link:\n" + r.stdout[-3000:])
        os.rename(out + ".tmp", out)
        for p in parts:
            os.remove(p)
    return out


NATFLAGS = ["-w", "-O1", "-g", "-fopenmp", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H", "-DUSE_MPI", "-ffp-contract=off"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,shift-base,null"]


def nat_compile(src, out, extra=(), asan=True):
    cxx = not src.endswith(".c")
    cmd = (["g++", "-std=gnu++17"] if cxx else ["gcc"]) + NATFLAGS + (ASAN if asan else []) + includes(False) + list(extra) + ["-c", src, "-o", out]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(src + ":\n" + r.stdout[-4000:])


def ensure_native_lib(asan=True):
    d = cache_dir()
    out = os.path.join(d, "libnat%s.a" % ("_asan" if asan else ""))
    with Lock("nat"):
        if os.path.exists(out):
            return out
        srcs = lib_sources()
        objs = [os.path.join(d, "n%d_" % asan + os.path.relpath(s, REPO).replace("/", "_") + ".o") for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda a: nat_compile(a[0], a[1], (), asan), zip(srcs, objs)))
        if os.path.exists(out + ".tmp"):
            os.remove(out + ".tmp")
        r = sh(["ar", "rcs", out + ".tmp"] + objs)
        if r.returncode:
            raise BuildError(r.stdout)
        os.rename(out + ".tmp", out)
        for o in objs:
            os.remove(o)
        return out


def ensure_native(name, entry, defs=(), extra_src=(), asan=True):
    lib = ensure_native_lib(asan)
    d = os.path.dirname(lib)
    src = os.path.join(HARN, name)
    hid = harness_id(src, (tuple(defs), tuple(extra_src), entry, asan))
    out = os.path.join(d, "n_%s_%s_%s" % (os.path.splitext(name)[0], entry, hid))
    with Lock("n_" + name.replace("/", "_")):
        if os.path.exists(out):
            return out
        objs = []
        for i, s in enumerate([src, os.path.join(HARN, "vp_native.cpp")] + [os.path.join(HARN, e) for e in extra_src]):
            o = out + ".%d.o" % i
            nat_compile(s, o, ["-D" + x for x in defs] + ["-DVP_ENTRY=" + entry, "-DVP_NATIVE"], asan)
            objs.append(o)
        link = sh(["mpicxx", "--showme:link"]).stdout.split()
        r = sh(["g++"] + (ASAN if asan else []) + ["-fopenmp", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"] + objs + [lib] + link + ["-lcfitsio", "-lm", "-o", out + ".tmp"])
        if r.returncode:
            raise BuildError("link:\n" + r.stdout[-4000:])
        os.rename(out + ".tmp", out)
        for o in objs:
            os.remove(o)
    return out
