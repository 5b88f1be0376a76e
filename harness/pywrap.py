# scenarios of the Python wrapper (C36), run by vp/pysym.py on symbolic values, or with concrete values on the real ctypes and numpy
import ctypes as rct, gc, types
import numpy as rnp
import pysym as ps
from pysym import prototypes, real_lib, Lib, Loader, NumpyModel, CtypesModel, SArr, SymC, SymInt, SymReal, SymBool, StrBuf, RealStr, both
import os
REPO = os.environ.get("VP_REPO", "/repo")
GUARD = 64


class Mem:
    """an array owned by the C library"""
    def __init__(self, x, n, dbl):
        self.n, self.sym, self.alive = n, x.conc is None, True
        if self.sym: self.b = ps.SP.new(n, 8 if dbl else 4); self.addr = self.b.addr
        else:
            self.full = ((rct.c_double if dbl else rct.c_float) * (n + 2 * GUARD))(*([-77.5] * (n + 2 * GUARD))); self.dbl = dbl
            self.addr = rct.addressof(self.full) + GUARD * (8 if dbl else 4)
            for i in range(n): self.full[GUARD + i] = 0.
    def __getitem__(self, i): return self.b.cells[i] if self.sym else self.full[GUARD + i]
    def __setitem__(self, i, v):
        if self.sym: self.b.cells[i] = v
        else: self.full[GUARD + i] = v
    def all(self): return [self[i] for i in range(self.n)]
    def release(self):
        self.alive = False
        if self.sym: self.b.alive = False
    def intact(self): return self.sym or all(v == -77.5 for v in list(self.full[:GUARD]) + list(self.full[GUARD + self.n:]))


class Obj:
    def __init__(self, kind, h): self.kind, self.h, self.alive, self.mem, self.dels = kind, h, True, {}, 0


class CLib:
    """the documented behaviour of cconviqt.h; everything it may answer is an input of the scenario"""
    def __init__(self, x):
        self.x, self.log, self.objs, self.h, self.use, self.mems = x, [], {}, 0x7e1100001000, {}, []
        self.fail, self.names = {}, []
    def last(self, name):
        r = [a for n, a in self.log if n == name]; return r[-1] if r else None
    def count(self, name): return sum(1 for n, a in self.log if n == name)
    def obj(self, kind, h, name):
        if not isinstance(h, int): raise ps.Unsupported("symbolic handle")
        o = self.objs.get(h)
        if o is None or o.kind != kind: self.x.violate("%s gets something that is no %s" % (name, kind), fatal=True)
        if not o.alive: self.x.violate("%s gets a %s that has been deleted" % (name, kind), fatal=True)
        return o
    def rc(self, name):
        """return code of a call: 0 or anything else"""
        r = self.x.int("rc_" + name, -3, 3) if name in self.use else 0
        self.fail.setdefault(name, []).append(r); return r
    def mem(self, n, dbl=False): m = Mem(self.x, n, dbl); self.mems.append(m); return m
    def new(self, kind):
        if kind + "_new" in self.use and not self.x.bool("ok_" + kind + "_new"): self.fail.setdefault(kind + "_new", []).append(1); return 0
        self.fail.setdefault(kind + "_new", []).append(0)
        self.h += 0x1230; self.objs[self.h] = Obj(kind, self.h); return self.h
    def __call__(self, name, a):
        x = self.x; short = name[len("conviqt_"):]; kind, fn = short.split("_", 1)
        self.log.append((short, a))
        if fn in ("new", "new_with_id"):
            if kind == "convolver":
                for k, h in zip(("sky", "beam", "detector"), a): self.obj(k, h, name)
            h = self.new(kind)
            if h and kind == "detector": self.objs[h].id, self.objs[h].eps = b"", 0.
            if h and fn == "new_with_id": self.objs[h].id = text(a[0])
            if h and kind == "convolver": self.objs[h].uses = [self.objs[q] for q in a[:3]]
            return h
        if fn == "del":
            if not a[0]: return 0
            o = self.obj(kind, a[0], name); o.alive = False
            for m in o.mem.values(): m.release()
            return self.rc(short)
        o = self.obj(kind, a[0], name)
        if kind == "pointing" and fn == "alloc":
            r = self.rc(short)
            if "d" in o.mem: o.mem.pop("d").release()
            if r == 0:
                n = int(a[1])
                if n < 0: return -1
                if n: o.mem["d"] = self.mem(n, True)
            return r
        if fn == "data": return o.mem["d"].addr if "d" in o.mem else 0
        if fn in ("Tdata", "Gdata", "Cdata"):
            m = o.mem.get(fn[0]); return m.addr if m else 0
        if kind == "detector" and fn == "get_id":
            r = self.rc(short)
            if r == 0: put(a[1], o.id)
            return r
        if fn == "get_epsilon":
            r = self.rc(short)
            if r == 0: a[1].value = o.eps
            return r
        if fn == "set_epsilon":
            r = self.rc(short)
            if r == 0: o.eps = a[1]
            return r
        if fn in ("lmax", "mmax", "normalized"):
            if fn in ("lmax", "mmax") and hasattr(o, fn): return getattr(o, fn)
            r = x.int(short, -(1 << 31), (1 << 31) - 1); self.fail.setdefault(short, []).append(r); return r
        if fn == "normalize":
            r = x.real("scale", -2, 2); self.fail.setdefault(short, []).append(r); return r
        if kind == "convolver" and fn == "convolve":
            self.obj("pointing", a[1], name)
            for q in o.uses:
                if not q.alive: x.violate("a convolver is used after its %s has been deleted" % q.kind, fatal=True)
            return self.rc(short)
        return self.rc(short)
    def finish(self):
        gc.collect()
        for o in self.objs.values(): self.x.require(not o.alive, "every %s is deleted" % o.kind)
        for m in self.mems: self.x.require(m.intact(), "no memory outside of the arrays is written")


def text(p): return p.bytes if isinstance(p, RealStr) else p
def put(p, b):
    if isinstance(p, StrBuf):
        if len(b) >= p.n: ps.X.violate("the identifier does not fit the buffer", fatal=True)
        p.raw_ = b
    else: p.put(b)


class Comm:
    def __init__(self, x, size):
        self.h = x.int("comm", 1, (1 << (8 * size - 1)) - 1)
        if x.conc is None: b = ps.SP.new(1, size); b.cells[0] = self.h; self.addr = b.addr
        else: self.store = (rct.c_int if size == 4 else rct.c_void_p)(self.h); self.addr = rct.addressof(self.store)


def load(x, use=(), csize=8, libs=3):
    """the wrapper module on top of a model of the C library"""
    L = CLib(x); L.use = dict.fromkeys(use)
    protos = prototypes(REPO)
    def cdll(name, *a, **k):
        L.names.append(name)
        if isinstance(name, str) and name == "_conviqt.so" and libs & 1 or name == "/lib/libconviqt.so.0" and libs & 2: return lib
        raise OSError("cannot open shared object file")
    loader = types.SimpleNamespace(cdll=cdll, find_library=lambda n: "/lib/libconviqt.so.0" if n == "conviqt" and libs & 2 else None)
    mpi = types.ModuleType("mpi4py.MPI"); mpi.Comm = type("Comm", (), {}); mpi._sizeof = lambda t: csize; mpi._addressof = lambda c: c.addr; mpi._handleof = lambda c: c.h
    C = Comm(x, csize); mpi.COMM_WORLD = C
    m4 = types.ModuleType("mpi4py"); m4.MPI = mpi
    if x.conc is None:
        ps.INTS["MPI_Comm"] = ps.c_uint if csize == 4 else ps.c_ulong
        lib = Lib(protos, L); fakes = {"ctypes": CtypesModel(loader), "numpy": NumpyModel(), "mpi4py": m4}
    else:
        lib = real_lib(protos, L, rct.c_int if csize == 4 else rct.c_void_p)
        f = types.ModuleType("ctypes"); f.__dict__.update({k: v for k, v in vars(rct).items() if not k.startswith("__")}); f.CDLL = cdll
        f.util = types.ModuleType("ctypes.util"); f.util.find_library = loader.find_library
        fakes = {"ctypes": f, "mpi4py": m4}
    W = Loader(REPO, fakes).load("libconviqt_wrapper", os.path.join(REPO, "python", "libconviqt_wrapper", "__init__.py"))
    return W, L, C


def call(f, *a, **k):
    """(True, result), or (False, None) when the call raises"""
    try: return True, f(*a, **k)
    except Exception: return False, None


def truth(v): return bool(v != 0)
def same(a, b):
    if isinstance(a, (ps.Sym,)) or isinstance(b, (ps.Sym,)): return a == b
    if a is None or b is None: return a is b
    return abs(a - b) <= 1e-5 * (1 + abs(b)) if isinstance(a, float) or isinstance(b, float) else a == b
def flag(x, name):
    """any character or a Python truth value"""
    k = x.choose(name + "_kind", 0, 2); return (True, False, x.int(name, -128, 127))[k]
LIM = (-(1 << 63), (1 << 63) - 1)


# --- loading and queries of beams and skies
def object_main(x):
    sky = x.param("SKY", 0); kind = "sky" if sky else "beam"
    W, L, C = load(x, use=(kind + "_new", kind + "_read", kind + "_del"), csize=(4, 8)[x.choose("csize", 0, 1)])
    lmax = x.int("lmax", *LIM); mmax = x.int("mmax", *LIM); pol = flag(x, "pol"); name = ("file.fits", "a name/\u00e4\u00f6 x.alm")[x.choose("name", 0, 1)]; fwhm = x.real("fwhm", -100, 100)
    def body():
        if sky: ok, b = call(W.Sky, lmax, pol, name, fwhm, C)
        else: ok, b = call(W.Beam, lmax, mmax, pol, name, C)
        newfail = L.fail[kind + "_new"][-1] == 1; rc = L.fail.get(kind + "_read", [1])[-1]
        x.require(L.count(kind + "_new") == 1, "one object is created"); x.require(L.count(kind + "_read") == (0 if newfail else 1), "the file is read once, into an object")
        if newfail: x.require(not ok, "a constructor fails when the C library has no object"); return
        x.require(ok == (not truth(rc)), "a constructor fails exactly when the file cannot be read")
        h = L.last(kind + "_read")
        x.require(same(h[1], lmax), "lmax is passed on")
        if not sky: x.require(same(h[2], mmax), "mmax is passed on")
        x.require(truth(h[2 if sky else 3]) == bool(pol), "the polarisation flag is passed on"); x.require(text(h[3 if sky else 4]) == name.encode(), "the file name is passed on")
        if sky: x.require(same(h[4], fwhm), "fwhm is passed on")
        x.require(same(h[5], C.h), "the communicator is passed on")
        if not ok: return
        ok, v = call(b.lmax); x.require(ok and same(v, L.fail[kind + "_lmax"][-1]), "lmax is that of the object")
        if sky: return
        ok, v = call(b.mmax); x.require(ok and same(v, L.fail["beam_mmax"][-1]), "mmax is that of the object")
        for _ in range(2):
            ok, v = call(b.normalized); r = L.fail["beam_normalized"][-1]
            if r < 0: x.require(not ok, "a failing query raises")
            else: x.require(ok and bool(v) == truth(r), "normalized() is that of the object")
            if _: break
            ok, v = call(b.normalize); r = L.fail["beam_normalize"][-1]
            if r <= 0: x.require(not ok, "a failing normalisation raises")
            else: x.require(ok and same(v, r), "the factor is returned")
            x.require(L.count("beam_normalize") == 1, "the beam is normalised once")
    body(); L.finish(); x.done()


# --- monopole and dipole
def remove_main(x):
    W, L, C = load(x, use=("sky_remove_monopole", "sky_remove_dipole"))
    def body():
        ok, s = call(W.Sky, 2, 0, "s", 0., C); x.require(ok, "constructor")
        for k in range(2):
            w = ("monopole", "dipole")[x.choose("which", 0, 1)]; o = "dipole" if w == "monopole" else "monopole"; n = L.count("sky_remove_" + w); m = L.count("sky_remove_" + o)
            ok, v = call(s.remove_monopole if w == "monopole" else s.remove_dipole)
            x.require(L.count("sky_remove_" + w) == n + 1 and L.count("sky_remove_" + o) == m, "remove_monopole and remove_dipole remove what they say")
            x.require(ok == (not truth(L.fail["sky_remove_" + w][-1])), "a failure raises")
    body(); L.finish(); x.done()


# --- number of coefficients
def count_main(x):
    W, L, C = load(x)
    def body():
        l = x.int("l", 0, 100000); m = x.choose("m", 0, x.param("M", 30))
        x.assume(l >= m)
        ok, b = call(W.Beam, -1, -1, 0, "b", C); ok2, s = call(W.Sky, -1, 0, "s", 0., C); x.require(ok and ok2, "constructors")
        o = L.objs[L.last("beam_read")[0]]; o.lmax, o.mmax = l, m
        ok, n = call(b.num_alms); x.require(ok and same(n, (m + 1) * (l + 1) - m * (m + 1) // 2), "beams have one coefficient for every l <= lmax and m <= min(l, mmax)")
        L.objs[L.last("sky_read")[0]].lmax = m
        ok, n = call(s.num_alms); x.require(ok and n == (m + 1) * (m + 2) // 2, "skies have one coefficient for every m <= l <= lmax")
    body(); L.finish(); x.done()


# --- coefficients
def data_main(x):
    sky = x.param("SKY", 0); W, L, C = load(x); kind = "sky" if sky else "beam"; MX = x.param("L", 2)
    pol = (0, 1, True)[x.choose("pol", 0, 2)]; l = x.choose("l", 0, MX); m = l if sky else x.choose("m", 0, MX)
    x.assume(m <= l); n = (m + 1) * (l + 1) - m * (m + 1) // 2; nc = 3 if pol else 1
    def arr(c, n, real=False):
        v = [(x.real("re%d_%d" % (c, i), -2, 2), x.real("im%d_%d" % (c, i), -2, 2)) for i in range(n)]
        if x.conc is not None: return rnp.array([complex(*p) for p in v] if not real else [p[0] for p in v], dtype=complex if not real else float), v
        a = rnp.empty(n, dtype=object)
        for i, p in enumerate(v): a[i] = SymC(*p) if not real else p[0]
        return a.view(SArr), [(p[0], 0. if real else p[1]) for p in v] if real else v
    def body():
        ok, b = call(W.Sky, -1, pol, "s", 0., C) if sky else call(W.Beam, -1, -1, pol, "b", C); x.require(ok, "constructor")
        o = L.objs[L.last(kind + "_read")[0]]; o.lmax, o.mmax = l, m; before = {}
        for c in "TGC"[:nc]:
            o.mem[c] = L.mem(2 * n)
            for i in range(2 * n): o.mem[c][i] = x.real("%s%d" % (c, i), -2, 2)
        vals = {c: o.mem[c].all() for c in "TGC"[:nc]}
        def unchanged(msg):
            for c in vals:
                for i in range(2 * n): x.require(same(o.mem[c][i], vals[c][i]), msg)
        def compare(d, want, msg):
            x.require(len(d) == nc, "one array for T, three for T, G and C")
            for k in range(min(nc, len(d))):
                x.require(d[k].size == n, "one number for every coefficient")
                for i in range(min(n, d[k].size)):
                    x.require(same(d[k][i].real, want[k][2 * i]), msg); x.require(same(d[k][i].imag, want[k][2 * i + 1]), msg)
        ok, d = call(b.get_data); x.require(ok, "get_data works")
        if not ok: return
        compare(d, [vals[c] for c in "TGC"[:nc]], "get_data returns the coefficients of the object")
        what = x.choose("what", 0, 4)
        if what == 0: # a copy
            for c in vals:
                for i in range(2 * n): o.mem[c][i] = 9.5
            compare(d, [vals[c] for c in "TGC"[:nc]], "get_data returns copies")
        elif what == 1: # overwrite everything, all kinds of numbers
            new = [arr(k, n, real=bool(x.param("REAL", 0)) and k == 1) for k in range(nc)]
            ok, r = call(b.set_data, [a for a, v in new]); x.require(ok, "set_data works")
            if ok:
                for k, c in enumerate("TGC"[:nc]):
                    for i in range(n): x.require(same(o.mem[c][2 * i], new[k][1][i][0]), "set_data stores the real parts"); x.require(same(o.mem[c][2 * i + 1], new[k][1][i][1] if not (x.param("REAL", 0) and k == 1) else 0.), "set_data stores the imaginary parts")
                ok, d2 = call(b.get_data); x.require(ok, "get_data works after set_data")
                if ok: compare(d2, [[q for p in new[k][1] for q in (p if not (x.param("REAL", 0) and k == 1) else (p[0], 0.))] for k in range(nc)], "get_data returns what was set")
        elif what == 2: # what get_data returned can be given back
            ok, r = call(b.set_data, d); x.require(ok, "set_data takes what get_data returns"); unchanged("setting the data returned by get_data changes nothing")
        elif what == 3: # a wrong size in one of the components
            k = x.choose("comp", 0, 2); x.assume(k < nc); wrong = (n - 1, n + 1, 2 * n)[x.choose("size", 0, 2)]
            ok, r = call(b.set_data, [arr(q, wrong if q == k else n)[0] for q in range(nc)])
            x.require(not ok, "arrays of the wrong size are refused"); unchanged("refused data changes nothing")
        elif nc == 3: # not enough components
            ok, r = call(b.set_data, [arr(q, n)[0] for q in range(x.choose("given", 1, 2))])
            x.require(not ok, "missing components are refused"); unchanged("refused data changes nothing")
    body(); L.finish(); x.done()


# --- detectors
def detector_main(x):
    W, L, C = load(x, use=("detector_new", "detector_set_epsilon", "detector_get_epsilon", "detector_get_id", "detector_del"))
    name = (None, "LFI-27", "d\u00e9tecteur", "", "x" * 1000)[x.choose("name", 0, 4)]; eps = x.real("eps", -10, 10) if x.choose("give", 0, 1) else None
    def body():
        ok, d = call(W.Detector, name, eps) if x.choose("kw", 0, 1) else call(W.Detector, name=name, epsilon=eps)
        new = L.count("detector_new") + L.count("detector_new_with_id"); x.require(new == 1, "one object is created")
        newfail = L.fail["detector_new"][-1] == 1
        if newfail: x.require(not ok, "a constructor fails when the C library has no object"); x.require(L.count("detector_set_epsilon") == 0, "nothing is set without object"); return
        o = list(L.objs.values())[-1]
        x.require(o.id == (name or "").encode(), "the identifier is passed on")
        r = L.fail.get("detector_set_epsilon", [0])[-1]
        x.require(ok == (not truth(r)), "a constructor fails exactly when epsilon cannot be set")
        if not truth(r): x.require(same(o.eps, 0. if eps is None else eps), "epsilon is passed on, 0 by default")
        if not ok: return
        o.eps = x.real("e0", -10, 10); ok, v = call(d.get_epsilon); r = L.fail["detector_get_epsilon"][-1]
        x.require(ok == (not truth(r)), "a failing query raises"); 
        if ok: x.require(same(v, o.eps), "epsilon is that of the object")
        e = x.real("e1", -10, 10); old = o.eps; ok, v = call(d.set_epsilon, e); r = L.fail["detector_set_epsilon"][-1]
        x.require(ok == (not truth(r)), "a failing call raises"); x.require(same(o.eps, e if ok else old), "epsilon is set")
        ok, v = call(d.get_id); r = L.fail["detector_get_id"][-1]; x.require(ok == (not truth(r)), "a failing query raises")
        if ok: x.require(v == o.id or v == o.id.decode(), "the identifier is that of the object")
    body(); L.finish(); x.done()


# --- pointings
def pointing_main(x):
    W, L, C = load(x, use=("pointing_new", "pointing_alloc", "pointing_del"))
    def check(p, n):
        o = list(L.objs.values())[-1]; ok, d = call(p.data); x.require(ok, "data() works")
        if not ok: return
        x.require(tuple(d.shape) == (n, 5), "data() has one row of five columns for every sample")
        if tuple(d.shape) != (n, 5) or not n: return
        m = o.mem["d"]; v = [x.real("c", -9, 9) for _ in range(5 * n)]
        for i in range(5 * n): m[i] = v[i]
        for i in range(5 * n): x.require(same(d[i // 5, i % 5], v[i]), "data() shows the memory of the pointing")
        w = x.real("w", -9, 9); k = x.choose("cell", 0, 5 * n - 1); d[k // 5, k % 5] = w
        for i in range(5 * n): x.require(same(m[i], w if i == k else v[i]), "writing data() writes the pointing")
    def body():
        N = x.param("N", 2); n = x.choose("n", 0, N); give = x.choose("give", 0, 1)
        ok, p = call(W.Pointing, n) if give else call(W.Pointing)
        if L.fail["pointing_new"][-1] == 1: x.require(not ok, "a constructor fails when the C library has no object"); x.require(L.count("pointing_alloc") == 0, "nothing is allocated without object"); return
        if give:
            x.require(L.count("pointing_alloc") == 1 and same(L.last("pointing_alloc")[1], 5 * n), "memory for five columns is requested"); x.require(ok == (not truth(L.fail["pointing_alloc"][-1])), "a constructor fails exactly when the memory cannot be had")
            if not ok: return
            check(p, n)
        else: x.require(ok and L.count("pointing_alloc") == 0, "nothing is allocated unless asked"); check(p, 0)
        k = x.choose("n2", 0, N); ok, v = call(p.alloc, k); r = L.fail["pointing_alloc"][-1]
        x.require(same(L.last("pointing_alloc")[1], 5 * k), "memory for five columns is requested"); x.require(ok == (not truth(r)), "a failing allocation raises")
        if ok: check(p, k)
        else:
            ok, d = call(p.data); x.require(not ok or d.size == 0, "no data after a failed allocation")
    body(); L.finish(); x.done()

def bigalloc_main(x):
    W, L, C = load(x)
    def body():
        p = W.Pointing(); n = x.int("n", -(1 << 60), (1 << 60)); L.use = {"pointing_alloc": 1}
        r0 = L.rc; L.rc = lambda name: r0(name) or -1
        ok, v = call(p.alloc, n); L.rc = r0; L.use = {}
        x.require(not ok and same(L.last("pointing_alloc")[1], 5 * n), "memory for five columns is requested")
    body(); L.finish(); x.done()


# --- convolvers
def convolver_main(x):
    W, L, C = load(x, use=("convolver_new", "convolver_convolve", "convolver_del"), csize=(4, 8)[x.choose("csize", 0, 1)])
    pol = flag(x, "pol"); lmax = x.int("lmax", *LIM); mmax = x.int("mmax", *LIM); order = x.int("order", *LIM); verb = x.int("verb", -(1 << 31), (1 << 31) - 1); mode = x.choose("mode", 0, 2)
    sky = lambda: W.Sky(-1, 1, "s", 0., C)
    beam = lambda: W.Beam(-1, -1, 1, "b", C)
    det = lambda: W.Detector("d")
    def body():
        held = None
        if mode == 0: held = (sky(), beam(), det()); ok, c = call(W.Convolver, held[0], held[1], held[2], pol, lmax, mmax, order, verb, C)
        elif mode == 1: ok, c = call(lambda: W.Convolver(sky(), beam(), det(), pol, lmax, mmax, order, verb, C))
        else:
            held = (sky(), beam(), det()); ok, c = call(W.Convolver, sky=held[0], beam=held[1], detector=held[2], pol=pol, lmax=lmax, mmax=mmax, order=order, verbosity=verb, comm=C); held = None; gc.collect()
        a = L.last("convolver_new"); hs = [o.h for o in L.objs.values()][:3]
        x.require(L.count("convolver_new") == 1 and list(a[:3]) == hs, "sky, beam and detector are passed on"); x.require(truth(a[3]) == bool(pol), "the polarisation flag is passed on")
        for i, v, w in ((4, lmax, "lmax"), (5, mmax, "mmax"), (6, order, "order"), (7, verb, "verbosity"), (8, C.h, "communicator")): x.require(same(a[i], v), "%s is passed on" % w)
        x.require(ok == (L.fail["convolver_new"][-1] == 0), "a constructor fails exactly when the C library has no object")
        if not ok: return
        x.require(all(L.objs[h].alive for h in hs), "sky, beam and detector live as long as the convolver")
        p = W.Pointing(2); ph = L.last("pointing_alloc")[0]
        for k in range(2):
            cal = (None if x.choose("default", 0, 1) else flag(x, "cal")) if k == 0 else True
            gc.collect(); ok, v = call(c.convolve, p) if cal is None else call(c.convolve, p, cal) if k else call(c.convolve, p, calibrate=cal)
            a = L.last("convolver_convolve"); x.require(L.count("convolver_convolve") == k + 1 and a[1] == ph, "the pointing is convolved once"); x.require(truth(a[2]) == bool(cal), "the calibration flag is passed on, false by default")
            x.require(ok == (not truth(L.fail["convolver_convolve"][-1])), "a failing convolution raises")
        if x.choose("order_del", 0, 1): del held; gc.collect(); x.require(all(L.objs[h].alive for h in hs), "sky, beam and detector live as long as the convolver")
        del c
    body(); L.finish(); x.done()


# --- finding the library
def library_main(x):
    libs = x.choose("libs", 0, 3)
    try: W, L, C = load(x, libs=libs)
    except Exception: x.require(False, "the module can be imported without library"); return
    x.require(bool(W.available) == (libs != 0), "available says whether the library was found")
    x.require(all(hasattr(W, k) == (libs != 0) for k in ("Beam", "Sky", "Detector", "Pointing", "Convolver")), "the classes exist when the library was found")
    x.done()
