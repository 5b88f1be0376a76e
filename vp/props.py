"""Properties -> verification units."""
def U(h, e, ranks=1, threads=1, p=None, opts=(), defs=(), src=(), dl=(40, 400), tier="q", jobs=1, must=("done",), ignore=(), accept=(), novalid=False):
    return dict(h=h, e=e, ranks=ranks, threads=threads, p=dict(p or {}), opts=list(opts), defs=list(defs), src=list(src), dl=tuple(dl), tier=tier, jobs=jobs,
                must=list(must), ignore=list(ignore), accept=list(accept), novalid=novalid)


def E2E(ranks=1, threads=1, tier="q", dl=(60, 400), jobs=1, opts=(), **p):
    big = max(p.get("LMAX", 2), p.get("SLMAX", 0), p.get("BLMAX", 0)) > 12
    return U("e2e.cpp", "e2e_main", ranks, threads, p, dl=dl, tier=tier, jobs=jobs, opts=opts, defs=("VP_NR=2400",) if big else ())
R = lambda *n: {"NT%d" % i: x for i, x in enumerate(n)}


PROPS = {}
def prop(pid, title, units, bounds, assumptions=(), level="model_checking", technique=None, common=True):
    PROPS[pid] = dict(title=title, units=units, bounds=bounds, assumptions=(list(COMMON) if common else []) + list(assumptions), level=level, technique=technique)


COMMON = [
    "clang 18 -O1 front end IR of the current sources (strict FP contraction off) represents the gcc -O2 build",
    "floating-point values are exact reals with a 1e-4 tolerance unless a unit says bit-precise; rounding is outside the claim",
    "MPI, OpenMP runtime, CFITSIO and libc follow their documented contracts (modelled in engine/lib.inc and harness/fakefits.h)",
]

def conv_units(pol):
    P = dict(POL=pol) if pol else {}
    cfg = [(3, 2, 3, 3, 0), (1, 0, 0, 4, 0), (1, 1, 1, 4, 0), (2, 2, 5, 4, 0), (4, 0, 2, 4, 0), (5, 3, 4, 4, 0), (6, 6, 1, 3, 0), (8, 2, 2, 3, 0), (10, 1, 3, 3, 6), (3, 3, 7, 4, 5),
           (4, 4, 6, 3, 1), (2, 1, 9, 3, 2), (4, 2, 5, 12, 6), (3, 1, 1, 6, 4), (7, 3, 3, 6, 6), (2, 0, 1, 20, 6), (2, 1, 1, 6, 7), (3, 1, 2, 4, 3)]
    u = [E2E(LMAX=l, MMAX=m, ORDER=o, NT0=n, **P, **(dict(TSET=t) if t else {})) for l, m, o, n, t in cfg]
    u += [E2E(LMAX=12, MMAX=4, ORDER=5, NT0=5, TSET=6, tier="t" if pol else "q", **P), E2E(LMAX=12, MMAX=2, ORDER=5, NT0=3, TSET=6, **P), E2E(LMAX=3, MMAX=1, ORDER=3, NT0=3, SLMAX=5, BLMAX=4, BMMAX=3, **P), E2E(LMAX=2, MMAX=2, ORDER=1, NT0=3, SLMAX=2, BLMAX=5, BMMAX=4, **P),
          E2E(LMAX=3, MMAX=2, ORDER=2, NT0=3, CAL=0, **P), E2E(LMAX=2, MMAX=1, ORDER=3, NT0=3, NORM=1, B00=750, **P), E2E(LMAX=3, MMAX=3, ORDER=2, NT0=3, SYMPSI=1, **P)]
    u += [E2E(LMAX=24, MMAX=3, ORDER=3, NT0=4, SPARSE=29, TSET=6, **P), E2E(LMAX=16, MMAX=16, ORDER=1, NT0=3, SPARSE=41, TSET=6, **P), E2E(LMAX=13, MMAX=5, ORDER=8, NT0=3, SPARSE=17, TSET=6, **P), E2E(LMAX=33, MMAX=8, ORDER=1, NT0=4, SPARSE=37, TSET=6, tier="t" if pol else "q", **P),
          E2E(LMAX=18, MMAX=4, ORDER=11, NT0=4, SPARSE=31, TSET=6, SLMAX=21, BLMAX=20, BMMAX=7, **P), E2E(LMAX=53, MMAX=2, ORDER=5, NT0=4, SPARSE=61, TSET=6, tier="t", **P), E2E(LMAX=20, MMAX=20, ORDER=2, NT0=3, SPARSE=41, TSET=6, tier="t", **P)]
    return u

prop("C01", "Unpolarised convolution", conv_units(0), "lmax 1-12, mmax 0-6, order 0-9, 3-20 samples in both hemispheres, at poles, equator and grid nodes; all sky and beam coefficients in [-1, 1] and epsilon symbolic (the signal is bilinear, so the range is immaterial); lmax 13-33 (53), mmax up to 16 (20), order up to 11 with some 20-60 coefficients symbolic and the others fixed; numbers in brackets: thorough tier")
prop("C02", "Polarised convolution", conv_units(1), "lmax 1-12, mmax 0-6, order 0-9, 3-20 samples in both hemispheres, at poles, equator and grid nodes; all T, G, C coefficients in [-1, 1] and epsilon symbolic; lmax 13-24 (53), mmax up to 16 (20), order up to 11 with some 20-100 coefficients symbolic and the others fixed; numbers in brackets: thorough tier")


WIN = dict(opts=("-big", "1000000"), jobs=4, CAL=0, FIXALM=1, SYMTH=1)   # colatitudes symbolic in a window a few hit-map bins wide
def window(ranks, lo, hi, *n, **k):
    return E2E(ranks, **{**WIN, **dict(LMAX=2, MMAX=1, ORDER=1, TH0=lo, TH1=hi, **R(*n)), **k})

prop("C03", "Task count independence", [
    E2E(2, LMAX=2, MMAX=1, ORDER=1, **R(3, 2)), E2E(2, LMAX=3, MMAX=2, ORDER=3, TSET=6, POL=1, **R(2, 5)), E2E(2, LMAX=3, MMAX=1, ORDER=2, **R(0, 4)), E2E(2, LMAX=2, MMAX=1, ORDER=2, **R(3, 0)),
    E2E(2, LMAX=2, MMAX=1, ORDER=1, **R(0, 0)), E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=3, **R(2, 3)), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=4, **R(2, 1, 3)), E2E(3, LMAX=4, MMAX=2, ORDER=3, TSET=6, **R(6, 1, 4)),
    E2E(3, LMAX=2, MMAX=2, ORDER=1, TSET=5, POL=1, **R(0, 5, 1)), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=7, **R(1, 2, 3)), E2E(3, LMAX=3, MMAX=1, ORDER=5, CALLS=3, SWAP=1, **R(2, 1, 2)),
    E2E(4, LMAX=2, MMAX=1, ORDER=1, TSET=6, **R(2, 3, 4, 5)), E2E(4, LMAX=3, MMAX=1, ORDER=3, TSET=1, **R(1, 0, 0, 2)), E2E(4, LMAX=3, MMAX=1, ORDER=0, TSET=2, POL=1, **R(1, 2, 3, 1)), E2E(4, LMAX=1, MMAX=1, ORDER=1, CALLS=2, **R(0, 0, 0, 1)),
    E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=6, **R(9, 12)), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=8, **R(3, 0, 4)), E2E(4, LMAX=2, MMAX=1, ORDER=1, TSET=9, **R(2, 5, 0, 3)), E2E(4, LMAX=5, MMAX=2, ORDER=3, TSET=6, **R(8, 7, 9, 6)),
    E2E(6, LMAX=2, MMAX=1, ORDER=1, TSET=6, **R(2, 3, 0, 2)), E2E(5, LMAX=4, MMAX=2, ORDER=3, TSET=5, POL=1, **R(0, 4, 3, 5)), E2E(8, LMAX=3, MMAX=1, ORDER=2, TSET=4, **R(2, 3, 4, 3)), E2E(3, LMAX=16, MMAX=3, ORDER=3, TSET=6, SPARSE=31, **R(9, 7, 8)), E2E(3, LMAX=3, MMAX=1, ORDER=1, TSET=6, FIXALM=1, **R(60, 110, 37)), E2E(7, LMAX=2, MMAX=1, ORDER=1, TSET=7, **R(1, 2, 0, 1)),
    window(2, 1570780, 1570812, 1, 1), window(2, 0, 30, 1, 1), window(2, 3141570, 3141592, 1, 1), window(3, 700000, 700040, 1, 1, 1), window(2, 1570790, 1570806, 2, 1, FIXALM=0), window(2, 1200000, 1200030, 1, 2, POL=1),
], "2-8 tasks with 0-12 samples each (3 tasks: up to 110); lmax 1-5 and 16, order 0-5, T and TGC; sky, beam and epsilon symbolic; co-latitudes concrete or symbolic in windows of 12-40 microradian around hemisphere, pole and band borders")
prop("C04", "Threads", [
    E2E(1, 2, LMAX=3, MMAX=2, ORDER=3, NT0=4), E2E(1, 3, LMAX=8, MMAX=1, ORDER=1, NT0=4, TSET=6), E2E(1, 2, LMAX=9, MMAX=2, ORDER=1, NT0=3, TSET=6, POL=1), E2E(1, 4, LMAX=4, MMAX=3, ORDER=2, NT0=9, TSET=6),
    E2E(1, 4, LMAX=17, MMAX=1, ORDER=1, NT0=2, TSET=6, FIXALM=1), E2E(2, 2, LMAX=4, MMAX=1, ORDER=1, CALLS=2, POL=1, **R(3, 2)), E2E(2, 3, LMAX=8, MMAX=1, ORDER=1, **R(2, 2)), E2E(1, 3, LMAX=2, MMAX=1, ORDER=1, NT0=16, TSET=6, CALLS=2),
    E2E(1, 2, LMAX=2, MMAX=1, ORDER=1, NT0=4, TSET=3), E2E(1, 4, LMAX=20, MMAX=3, ORDER=3, NT0=5, TSET=6, SPARSE=31), E2E(1, 3, LMAX=11, MMAX=11, ORDER=1, NT0=3, TSET=6, SPARSE=13, POL=1), E2E(1, 4, LMAX=2, MMAX=1, ORDER=1, NT0=130, TSET=6, FIXALM=1),
    E2E(1, 4, LMAX=4, MMAX=2, ORDER=3, NT0=20, TSET=6, FIXALM=1, grant=3), E2E(1, 3, LMAX=3, MMAX=1, ORDER=1, NT0=20, TSET=6, FIXALM=1, grant=1, POL=1), E2E(1, 4, LMAX=4, MMAX=2, ORDER=1, NT0=36, TSET=6, FIXALM=1, procs=2), E2E(1, 2, LMAX=4, MMAX=2, ORDER=1, NT0=20, TSET=6, FIXALM=1, procs=4),
    E2E(2, 3, LMAX=3, MMAX=1, ORDER=1, FIXALM=1, grant=2, procs=1, CALLS=2, TSET=6, **R(9, 17)),
], "1-4 threads on 1-2 tasks, lmax 2-20, up to 16 (lmax 2: 130) samples; teams smaller than omp_get_max_threads (thread limit) and processor counts different from it; races are decided for all interleavings of a parallel region from the access sets of its threads")
prop("C06", "theta", [
    E2E(LMAX=2, MMAX=1, ORDER=o, NT0=1, SYMTH=1, CAL=0, FIXALM=1, jobs=2) for o in (0, 1, 2, 3, 4, 5, 6)] + [
    E2E(LMAX=4, MMAX=1, ORDER=3, NT0=1, SYMTH=1, CAL=0, FIXALM=1, jobs=2), E2E(LMAX=3, MMAX=2, ORDER=1, NT0=1, SYMTH=1, CAL=0, FIXALM=1, POL=1, jobs=2),
    E2E(LMAX=2, MMAX=1, ORDER=1, NT0=2, SYMTH=1, CAL=0, FIXALM=1, jobs=4),
    E2E(LMAX=2, MMAX=1, ORDER=1, NT0=1, SYMTH=1, CAL=0, jobs=4), E2E(LMAX=2, MMAX=1, ORDER=3, NT0=1, SYMTH=1, SYMPHI=1, SYMPSI=1, CAL=0, FIXALM=1, jobs=4),
    E2E(LMAX=12, MMAX=2, ORDER=4, NT0=1, SYMTH=1, CAL=0, FIXALM=1, jobs=2), E2E(LMAX=3, MMAX=1, ORDER=9, NT0=1, SYMTH=1, CAL=0, FIXALM=1, jobs=2), E2E(LMAX=1, MMAX=1, ORDER=8, NT0=1, SYMTH=1, CAL=0, FIXALM=1),
    window(2, 1570780, 1570812, 1, 1), window(3, 1570785, 1570809, 1, 1, 1), window(2, 0, 30, 1, 1), window(2, 3141562, 3141592, 1, 1),
], "co-latitude symbolic over [0, pi] for 1-2 samples on one task and in windows of 24-32 microradian around the equator and the poles on 2-3 tasks; lmax 2-12, mmax 1-2, order 0-9")
prop("C07", "phi psi", [
    E2E(LMAX=2, MMAX=1, ORDER=o, NT0=1, SYMPHI=1, CAL=0, jobs=2) for o in (0, 1, 2, 3, 4, 5)] + [
    E2E(LMAX=3, MMAX=2, ORDER=3, NT0=1, SYMPHI=1, CAL=0, jobs=2), E2E(LMAX=2, MMAX=1, ORDER=1, NT0=1, SYMPHI=1, SYMPSI=1, CAL=0, FIXALM=1, POL=1, jobs=2), E2E(LMAX=2, MMAX=1, ORDER=7, NT0=1, SYMPHI=1, CAL=0, FIXALM=1),
    E2E(LMAX=3, MMAX=3, ORDER=1, NT0=3, SYMPSI=1, POL=1), E2E(LMAX=6, MMAX=6, ORDER=1, NT0=2, SYMPSI=1), E2E(LMAX=1, MMAX=1, ORDER=5, NT0=1, SYMPHI=1, FIXALM=1, CAL=0), E2E(LMAX=5, MMAX=1, ORDER=2, NT0=1, SYMPHI=1, FIXALM=1, CAL=0),
    E2E(LMAX=16, MMAX=12, ORDER=3, NT0=3, TSET=6, FIXALM=1, SYMPSI=1), E2E(LMAX=12, MMAX=2, ORDER=4, NT0=1, SYMPHI=1, FIXALM=1, CAL=0, jobs=2), E2E(LMAX=3, MMAX=1, ORDER=10, NT0=1, SYMPHI=1, FIXALM=1, CAL=0, jobs=2), E2E(LMAX=1, MMAX=1, ORDER=8, NT0=1, SYMPHI=1, FIXALM=1, CAL=0), E2E(LMAX=1, MMAX=1, ORDER=13, NT0=1, SYMPHI=1, FIXALM=1, CAL=0),
    E2E(LMAX=2, MMAX=1, ORDER=1, NT0=2, SYMPHI=1, FIXALM=1, CAL=0, TSET=2, jobs=4, tier="t"),
], "longitude symbolic in [-7, 7], position angle symbolic in [-4, 4]; lmax 1-16, mmax 1-12, order 0-10 and 13; one to three samples")
prop("C05", "columns", [
    E2E(LMAX=2, MMAX=1, ORDER=1, NT0=300, TSET=6, FIXALM=1), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=9, FIXALM=1, **R(150, 31, 120)), E2E(6, LMAX=2, MMAX=1, ORDER=1, TSET=8, FIXALM=1, CALLS=2, **R(3, 0, 14, 2)), E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=3, FIXALM=1, **R(40, 35)), E2E(LMAX=2, MMAX=1, ORDER=1, NT0=70, TSET=4, FIXALM=1),
    E2E(LMAX=2, MMAX=1, ORDER=1, NT0=20, TSET=6, FIXALM=1), E2E(LMAX=2, MMAX=1, ORDER=1, NT0=2, SYMTH=1, CAL=0, FIXALM=1, jobs=4), E2E(LMAX=1, MMAX=0, ORDER=1, NT0=1, SYMTH=1, SYMPHI=1, SYMPSI=1, CAL=0, FIXALM=1, jobs=2),
    E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=6, FIXALM=1, **R(13, 9)), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=6, FIXALM=1, CALLS=2, **R(7, 0, 12)), E2E(4, LMAX=2, MMAX=1, ORDER=1, TSET=3, FIXALM=1, **R(3, 2, 1, 4)), E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=4, FIXALM=1, CALLS=3, POL=1, **R(5, 4)),
    E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=7, FIXALM=1, **R(6, 6, 6)), E2E(3, LMAX=2, MMAX=1, ORDER=1, TSET=8, FIXALM=1, **R(5, 2, 4)), E2E(4, LMAX=3, MMAX=1, ORDER=1, TSET=9, FIXALM=1, **R(7, 4, 0, 6)), E2E(3, LMAX=2, MMAX=0, ORDER=1, TSET=9, FIXALM=1, CALLS=2, **R(0, 1, 8)), E2E(2, LMAX=2, MMAX=1, ORDER=1, TSET=8, FIXALM=1, **R(6, 0)), window(2, 1570780, 1570812, 1, 1), window(3, 700000, 700040, 1, 1, 1), window(2, 1570790, 1570806, 2, 1),
], "1-6 tasks with 0-20 samples each, 1-3 tasks with up to 300, up to 3 calls; equal, reversed, polar and arbitrary directions; co-latitudes symbolic in [0, pi] (two at once) or in windows of 12-40 microradian around hemisphere, pole and band borders on 2-3 tasks")
prop("C34", "history", [
    E2E(LMAX=2, MMAX=1, ORDER=1, CALLS=3, NT0=3), E2E(LMAX=3, MMAX=2, ORDER=3, CALLS=3, SWAP=1, NT0=3, TSET=6), E2E(LMAX=2, MMAX=2, ORDER=2, CALLS=3, SWAP=1, POL=1, NT0=3), E2E(LMAX=2, MMAX=1, ORDER=1, CALLS=3, SWAP=1, NORM=1, B00=750, NT0=2),
    E2E(2, LMAX=2, MMAX=1, ORDER=1, CALLS=4, **R(3, 2)), E2E(3, 2, LMAX=2, MMAX=1, ORDER=1, CALLS=3, SWAP=1, POL=1, **R(2, 0, 3)), E2E(1, 3, LMAX=4, MMAX=1, ORDER=1, CALLS=3, NT0=6, TSET=6), E2E(LMAX=2, MMAX=1, ORDER=1, CALLS=2, NT0=1, SYMTH=1, CAL=0, FIXALM=1, jobs=4),
    E2E(LMAX=3, MMAX=1, ORDER=1, CALLS=3, NT0=3, SLMAX=5, BLMAX=4, BMMAX=3, POL=1), E2E(LMAX=2, MMAX=1, ORDER=3, CALLS=2, NT0=1, SYMPHI=1, CAL=0, FIXALM=1, jobs=2),
], "2-4 calls in sequence on 1-3 tasks and up to 3 threads, with set_sky, set_beam, set_detector between them; lmax 2-4")
prop("C38", "verbosity", [E2E(LMAX=2, MMAX=1, ORDER=1, VERB=v, NT0=3, CALLS=2) for v in (-1, 1, 2, 3, 4, 6, 10)] + [E2E(2, LMAX=2, MMAX=1, ORDER=1, VERB=v, CALLS=2, **R(2, 3)) for v in (1, 3, 6, 11)] + [
    E2E(3, LMAX=2, MMAX=1, ORDER=3, VERB=10, POL=1, **R(2, 0, 1)), E2E(2, 2, LMAX=2, MMAX=1, ORDER=1, VERB=7, POL=1, **R(2, 1)), E2E(2, LMAX=2, MMAX=1, ORDER=1, VERB=10, **R(0, 0))], "verbosity -1..11, 1-3 tasks, 0-3 samples per task, 2 calls")

C = lambda e, ranks=1, **k: U("cfg.cpp", e, ranks, p={x: k.pop(x) for x in list(k) if x.isupper()}, **k)
I = lambda e, ranks=1, **k: U("io.cpp", e, ranks, p={x: k.pop(x) for x in list(k) if x.isupper()}, **k)
prop("C08", "illegal theta", [C("illegal_main", r, N=n, EMPTY=e) for r, n, e in ((1, 0, 0), (1, 2, 0), (2, 1, 0), (2, 1, 1), (3, 1, 0), (3, 2, 1), (4, 0, 1))],
     "one illegal co-latitude of any bit pattern (all of binary64 outside [0, pi], NaN and infinities included) in any row of any task; 1-4 tasks, 1-3 rows per task, also with the other tasks empty; lmax = mmax = order = 1, fixed sky and beam", level="model_checking")
prop("C09", "configuration", [C("config_main", jobs=8, SL=3, BL=3), C("setters_main", jobs=2), C("anycfg_main", jobs=2), E2E(LMAX=2, MMAX=1, ORDER=5, NT0=3, DEFAULTS=1), E2E(2, LMAX=2, MMAX=1, ORDER=5, DEFAULTS=1, POL=1, **R(2, 1))],
     "lmax, mmax: all 64-bit values, order: all values up to 100; sky lmax 1-3, beam lmax 1-3, beam mmax 0-lmax; convolution compared for lmax, mmax in -2..4, order in {-1,0,1,3}; replacement inputs of every size up to lmax 3; default arguments of the constructor and of convolve")
prop("C10", "loading", [I("load_main", r, BEAM=b, POL=q, MAXL=m, FWHM=f) for r, b, q, m, f in ((1, 0, 0, 3, 0), (1, 0, 1, 3, 600), (1, 1, 0, 3, 0), (1, 1, 1, 3, 0), (2, 0, 1, 2, 300), (2, 1, 1, 2, 0), (3, 0, 0, 2, 100), (3, 1, 0, 2, 0))]
     + [I("load_main", 1, BEAM=b, POL=q, MAXL=2, SHAPES=1, jobs=4) for b in (0, 1) for q in (0, 1)] + [I("load_main", r, BEAM=b, POL=1 - r % 2, MAXL=2, REREAD=1, FWHM=60) for r in (1, 2) for b in (0, 1)] + [I("anyreq_main", r, BEAM=b, POL=q) for r in (1, 2) for b in (0, 1) for q in (0, 1)]
     + [I("load_main", 1, BEAM=b, POL=1, MAXL=3, SHAPES=1, jobs=8, tier="t") for b in (0, 1)],
     "file orders 1-3, requested orders: all 64-bit values; symbolic coefficients; table rows in ascending and descending order, with and without gaps, with and without size keywords, single and double precision, chunked reads of 1-4 rows; different sizes per component; deconvolution beam 0-60 arcmin; first read and re-read; 1-3 tasks")
prop("C11", "I/O faults", [I("fault_main", r, BEAM=b, POL=q, NCALL=150 if q else 60, CODES=0) for r in (1, 2) for b in (0, 1) for q in (0, 1)] + [I("fault_main", 3, BEAM=0, POL=1, NCALL=150, CODES=0), I("fault_main", 1, BEAM=0, POL=0, CODES=5, tier="t", jobs=4), I("fault_main", 2, BEAM=1, POL=1, NCALL=150, CODES=5, tier="t", jobs=4)],
     "a failure of any one FITS library call of a load (call index symbolic), missing file, missing table, missing columns, image instead of table, row index out of range, non-positive order keyword, file names of 1-2500 characters; 1-3 tasks; orders 1")

def X(h):
    def f(e, ranks=1, **k): return U(h, e, ranks, p={x: k.pop(x) for x in list(k) if x.isupper()}, **k)
    return f
CA, BS, FF = X("capi.cpp"), X("beamsky.cpp"), X("fft.cpp")
prop("C12", "C interface equivalence", [CA("equiv_main", jobs=4), CA("equiv_main", jobs=4, CONV=1), CA("equiv_main", 2, jobs=8, CONV=1), CA("equiv_main", 3, jobs=8, tier="t", CONV=1), CA("equiv_main", jobs=8, tier="t", SL=3, BL=3, BM=2)],
     "sky lmax 2 (3), beam lmax 2 (3), mmax 1 (2), all requested orders -1..lmax+1, convolver lmax -1..2, mmax -1..1, order -1..3; symbolic coefficients and epsilon; two convolve calls; 1-2 (3) tasks; numbers in brackets: thorough tier")
prop("C13", "C interface errors", [CA("args_main"), CA("alloc_main", jobs=4, NOCONV=1), CA("alloc_main", jobs=4, K=400), CA("alloc_main", jobs=8, K=900, POL=1)],
     "every single failing memory request (index up to 900, symbolic) of a load-configure-convolve-delete scenario at lmax 1; all 64-bit values of lmax, mmax (order below 50); extreme sizes; null pointers")
prop("C14", "beam normalisation", [BS("norm_main", POL=p, SYM=s, LM=l, MM=m) for p, s, l, m in ((0, 0, 2, 1), (0, 1, 2, 2), (1, 0, 2, 1), (1, 1, 2, 1), (0, 0, 4, 3), (1, 1, 3, 0))] + [E2E(LMAX=3, MMAX=2, ORDER=2, NT0=3, CAL=c, POL=q, **({"NORM": 1, "B00": b} if b else {})) for c in (0, 1) for q in (0, 1) for b in (0, 600, -400)],
     "beam b00 symbolic in +-[0.25, 2], other coefficients symbolic or fixed, epsilon in [0, 1]; lmax 2-4, mmax 0-3; 0-2 normalize calls, calibration on and off, re-read beams; T and TGC")
prop("C15", "monopole and dipole", [BS("remove_main", r, POL=q) for r in (1, 2) for q in (0, 1)], "sky lmax 1-3, symbolic coefficients, all orders of up to three removals, re-read afterwards; 1-2 tasks; T and TGC")
prop("C18", "complex FFT", [FF("complex_main", N0=1, N1=16), FF("complex_main", N0=17, N1=40), FF("complex_main", N0=41, N1=64), FF("complex_main", N0=107, N1=107, jobs=1)] + [FF("complex_main", N0=n, N1=n, K=4) for n in (101, 113, 210, 262, 512, 129, 166)] + [FF("complex_main", N0=65, N1=130, jobs=4, K=2, dl=(100, 400)), FF("complex_main", N0=131, N1=260, K=2, jobs=8, tier="t"), FF("complex_main", N0=113, N1=113, tier="t")],
     "lengths 1-64 and 107 with every input symbolic, all lengths 65-130 and some up to 512 with 2-4 symbolic inputs at spread positions (the transform is linear, the others are zero); thorough: all lengths up to 260")
prop("C19", "real FFT", [FF("real_main", N0=1, N1=32), FF("real_main", N0=33, N1=64)] + [FF("real_main", N0=n, N1=n, K=4) for n in (241, 256, 300, 107, 226, 129)] + [FF("real_main", N0=65, N1=130, jobs=4, K=2, dl=(100, 400)), FF("real_main", N0=241, N1=241, tier="t"), FF("real_main", N0=562, N1=562, K=4, tier="t"), FF("real_main", N0=131, N1=260, K=2, jobs=8, tier="t")],
     "lengths 1-64 with every input symbolic, all lengths 65-130 and some up to 300 with 2-4 symbolic inputs at spread positions (the transform is linear); both half-complex and full complex layouts; thorough: up to 562")
prop("C20", "FFT plans", [FF("thread_main", 1, threads=t, N=n, K=3) for n, t in ((12, 3), (107, 2), (226, 2), (30, 4), (17, 3))] + [FF("life_main", A=5, jobs=8), FF("life_main", A=2, BIG=127, K=3, jobs=4), FF("life_main", A=9, jobs=8, tier="t"), FF("life_main", A=2, BIG=241, K=3, jobs=8, tier="t")],
     "plans of all pairs of lengths 1-5 (9) and 127 (241) copied, assigned, moved over, re-set and destroyed in 13 sequences, each followed by a transform of symbolic data; plans of five lengths made, copied and used by 2-4 threads at once (all interleavings); numbers in brackets: thorough tier")

AL, WG = X("alm.cpp"), X("wig.cpp")
prop("C16", "coefficient container", [AL("alm_main", jobs=4), AL("alm_main", jobs=4, FLT=1), AL("layout_main", MX=30), AL("layout_main", MX=200, jobs=8, tier="t"), AL("alm_main", jobs=8, L=5, tier="t")],
     "element operations: orders 0-3 (5), mmax 0..lmax, symbolic coefficients and factors, single and double precision; storage layout: every lmax up to 46339 and every l symbolic, m up to 30 (200); numbers in brackets: thorough tier")
prop("C17", "Gaussian smoothing", [AL("smooth_main", jobs=8), AL("smoothps_main"), AL("smooth_main", L=4, jobs=8, tier="t", dl=(40, 600))],
     "coefficients: lmax 0-3 (4), every mmax, single and double precision; spectra: lmax 0-5, 1, 4 and 6 components; beam width symbolic in [-0.6, 0.6], coefficients symbolic; numbers in brackets: thorough tier")
prop("C21", "Wigner matrix generators", [WG("gen_main", L=4, jobs=8), WG("gen_main", L=3, LO=3240, HI=6180, jobs=4), WG("gen_main", L=3, LO=-3040, HI=-100, jobs=4), WG("gen_main", L=3, LO=1, HI=200, jobs=4), WG("gen_main", L=8, M=2, jobs=8), WG("gen_main", L=2, N=2, jobs=4), WG("gen_main", L=2, SEQ=1, jobs=8),
     WG("gen_main", L=3, EPS=50000, jobs=8), WG("far_main", L=6, jobs=4), WG("deep_main", jobs=2), WG("far_main", jobs=8, tier="t"), WG("gen_main", L=5, jobs=8, tier="t", dl=(40, 600)), WG("gen_main", L=3, SEQ=1, jobs=8, tier="t", dl=(40, 800)), WG("gen_main", L=12, M=2, jobs=8, tier="t"), WG("gen_main", L=3, N=3, jobs=8, tier="t")],
     "angles symbolic in [-3.04, -0.1], [0.001, 0.2], [0.1, 3.04] and [3.24, 6.18]; lmax 2-8 (12), m1, m2 up to 4 (5), one to two (three) angles, sequences of up to four index pairs, thresholds 1e-30 and 0.05; the poles, angles within 1e-9 to 0.02 of them and lmax up to 6 (17), and lmax 220 to 703 with elements starting as low as 1e-300, with concrete angles; numbers in brackets: thorough tier")
prop("C22", "Risbo recursion", [WG("risbo_main", L=6), WG("risbo_main", 1, threads=2, L=4), WG("risbo_main", 1, threads=3, L=4), WG("halfpi_main"), WG("halfpi_main", 1, threads=3, L=6), WG("risbo_main", L=12, jobs=8, tier="t"), WG("halfpi_main", L=30, tier="t", jobs=8)],
     "angle symbolic in [-7, 7], l 0-6 (12); pi/2: l 0-14 (30); serial and parallel recursion on 1-3 threads, all interleavings; numbers in brackets: thorough tier")
prop("C23", "rotation of coefficients", [AL("rotate_main", 1, threads=t, L=l, POL=p, FLT=f) for l, p, f, t in ((0, 0, 0, 1), (1, 0, 1, 1), (2, 0, 0, 1), (3, 0, 0, 2), (4, 0, 0, 1), (1, 1, 0, 1), (2, 1, 1, 1), (3, 1, 0, 3), (5, 0, 0, 3))] + [AL("rotmat_main", L=2), AL("rotmat_main", L=2, FLT=1), AL("rotmat_main", L=3, tier="t"), AL("rotate_main", L=6, tier="t"), AL("rotate_main", 1, threads=2, L=5, POL=1, tier="t")],
     "lmax 0-5 (6), all three Euler angles symbolic in [-7, 7], coefficients symbolic, T and TGC, single and double precision, 1-3 threads; rotations by a matrix: 150 matrices, poles included, symbolic coefficients; numbers in brackets: thorough tier")
prop("C24", "power spectra", [AL("power_main", jobs=2), AL("powspec_main"), AL("consist_main"), AL("power_main", L=6, jobs=8, tier="t")],
     "lmax 0-3 (6), every mmax, symbolic coefficients, single and double precision; containers with 0-7 spectra, lmax 0-3 and arrays of unequal size; consistency of symbolic spectra; numbers in brackets: thorough tier")

SO, MA, RO = X("sort.cpp"), X("math.cpp"), X("rot.cpp")
prop("C27", "sorting", [SO("rows_main", N1=5, jobs=2), SO("rows_main", N0=17, N1=17, S=1, PAT=7), SO("rows_main", N0=1, N1=3, EXTRA=3), SO("rows_main", N0=6, N1=40, S=0, PAT=7), SO("pairs_main"), SO("pairs_main", N0=17, N1=33, S=1, PAT=7), SO("bad_main"),
     SO("rows_main", N1=6, jobs=8, tier="t", dl=(40, 600)), SO("rows_main", N0=17, N1=18, S=2, PAT=3, jobs=8, tier="t", dl=(40, 600)), SO("pairs_main", N1=6, jobs=8, tier="t", dl=(40, 600)), SO("pairs_main", N0=17, N1=19, S=2, PAT=3, jobs=8, tier="t", dl=(40, 600))],
     "all keys symbolic for up to 5 (6) rows or 4 (6) pairs; one (two) symbolic keys among 17-33 rows in eight patterns of the others, differences down to 1e-13 included; 6-40 rows without symbolic key; all three sort columns; numbers in brackets: thorough tier")
prop("C25", "work sharing", [MA("share_main", jobs=2)] + [MA("omp_main", 1, threads=t) for t in (1, 2, 3, 4)] + [MA("chunk_main"), MA("nchunks_main"), MA("wide_main"), MA("chunk_main", K=40, tier="t")],
     "ranges with symbolic ends in +-2^60, 1-8, 16, 31, 100 and 1000 shares; threads 1-4, ranges in +-10^6; chunks: symbolic sizes up to 2^60 with up to 9 (40) chunks, all 64-bit totals with six chunk sizes of at least 2^62; thorough numbers in brackets")
prop("C26", "numeric helpers", [MA("isqrt_main"), MA("square_main", jobs=2), MA("ints_main", jobs=4), MA("cast_main", jobs=4), MA("reals_main", jobs=4), MA("reals_main", jobs=8, N=12, tier="t")],
     "isqrt: all arguments of 7 integer types up to 2^62 - 2^34 with binary64 rounding, next to 16 squares also for every concrete candidate; ilog2, safe_cast: all bit patterns of all type pairs; imodulo: 24 divisors; fmodulo: 20 moduli; interpolation tables of 2-6 (12) values, arguments in [-200, 200]")
prop("C31", "rotation matrices", [RO("algebra_main"), RO("vec_main"), RO("euler_main"), RO("axis_main"), RO("toaxis_main", jobs=4), RO("half_main"), RO("half_main", SYM=1)] + [RO("trip_main", MODE=k) for k in (0, 1, 4)] + [RO("trip_main", MODE=3, LO=l, HI=h) for l, h in ((1, 3140), (-3140, -1))],
     "matrix and vector components symbolic in [-3, 3]; all angles symbolic in [-7, 7]; Euler round trips: three symbolic angles with 0.001 <= |beta| <= 3.14, and with special beta (0, pi, 5e-6, 1e-7, 3.1415926 ...) one symbolic angle; axis-angle round trips: 16 axes, angle symbolic in [-3.1, 3.1], half turns about 16 axes and all axes in the coordinate planes")

CO, MS, RN = X("cov.cpp"), X("msg.cpp"), X("rng.cpp")
prop("C35", "random coefficients", [CO("cov_main"), CO("cov_main", POL=1, jobs=4), CO("cov_main", POL=1, SYMC=1, L=1, jobs=4), CO("incons_main"), CO("cov_main", L=5, tier="t", jobs=4), CO("cov_main", POL=1, L=3, tier="t", jobs=8, dl=(40, 600))],
     "lmax 0-2 (5), every mmax, symbolic spectra, correlations of T and G of 0, +-1, 0.5, -0.75 and (lmax 0-1) symbolic, one vanishing spectrum, single and double precision; the normal numbers are replaced by unit vectors, which decides the covariance of independent normals exactly; numbers in brackets: thorough tier")
prop("C29", "message passing", [MS("msg_main", r, WHAT=w) for w in (0, 1, 2) for r in (1, 2, 3, 4)] + [MS("msg_main", r, WHAT=1, CNT=c, N=n) for c, n in ((1, 3), (2, 1), (3, 0)) for r in (2, 3, 4)],
     "1-4 tasks, 0-4 elements per task, ten element types (eight for reductions), four reductions, every root; symbolic data")
prop("C32", "random numbers", [RN("seed_main", jobs=4), RN("uni_main", accept=("assert",)), RN("gauss_main", jobs=2), RN("gauss_main", SEED=12345, K=50), RN("reseed_main"), RN("seed_main", K=40, tier="t", jobs=8), RN("gauss_main", K=4, tier="t", jobs=4)],
     "all seeds (0-4 of them symbolic 32-bit words, zero included), the first 8 (40) numbers after construction and after seed(); normal numbers: every pair of uniform numbers (words of the generator as arbitrary numbers in their range), up to one (three) rejected pairs; numbers in brackets: thorough tier")
GRP = range(1, 7)
prop("C37", "communicators", [E2E(4, COMM=c, LMAX=2, MMAX=1, ORDER=1, CALLS=2, TSET=6 * (c % 2), **R(2, 3, 1, 2)) for c in GRP] + [E2E(5, COMM=c, LMAX=3, MMAX=2, ORDER=3, POL=1, CALLS=3, SWAP=1, TSET=6, SPARSE=7, **R(3, 2, 0, 2)) for c in GRP]
     + [E2E(3, 2, COMM=c, LMAX=2, MMAX=1, ORDER=2, CALLS=2, VERB=10, TSET=8, **R(0, 2, 3)) for c in (1, 2, 6)] + [E2E(2, COMM=c, LMAX=2, MMAX=1, ORDER=1, CALLS=4, **R(3, 2)) for c in (1, 6)]
     + [MS("msg_main", 4, WHAT=w, COMM=c, CNT=2) for w in (0, 1, 2) for c in (1, 2, 3, 4)] + [C("illegal_main", r, COMM=c, N=1) for r, c in ((3, 1), (4, 2), (4, 3), (3, 4))]
     + [I("fault_main", 3, BEAM=b, POL=1 - b, COMM=c, NCALL=60 if b else 150, CODES=0) for b in (0, 1) for c in (1, 2, 3)] + [CA("equiv_main", r, COMM=c, jobs=8, SL=1, BL=1) for r, c in ((3, 1), (3, 2), (4, 3))] + [CA("equiv_main", 2, COMM=1, jobs=8, SL=1, BL=1, CONV=1)]
     + [CA("equiv_main", 3, COMM=c, jobs=8, SL=1, BL=1, CONV=1, tier="t") for c in (1, 2, 3, 4)],
     "2-5 tasks; communicators: every task by itself, two groups with the tasks in reverse order, the same without the first task, a duplicate, reading with all tasks and convolving with single tasks or with both in turn; symbolic sky, beam and epsilon of each group (lmax 1-3); every wrapper function of MPI_Manager with symbolic data; an illegal co-latitude in any row, and a failure of any call of the FITS library, in one group; the C interface, with convolutions by single tasks (thorough: by all communicators)")
FT = X("fits.cpp")
prop("C33", "FITS files", [FT("alm_main", L=2, CH=3, jobs=4), FT("alm_main", L=2, CH=1, FLT=1, jobs=4), FT("order_main", jobs=2), FT("column_main", jobs=4), FT("string_main"), FT("key_main"), FT("image_main"), FT("hdu_main"), FT("ascii_main", jobs=2), FT("wfault_main", jobs=4), FT("alm_main", L=4, CH=5, tier="t", jobs=8, dl=(60, 600)), FT("alm_main", L=4, CH=3, FLT=1, tier="t", jobs=8, dl=(60, 600))],
     "an in-memory stand-in follows the CFITSIO contract; a_lm tables: lmax 0-2 (4), every mmax, six patterns of zeros, written orders below, at and above those of the object, chunks of 1-3 (5) rows, one or three tables, single and double precision, symbolic values; columns of eight types, 1-3 values per row, two pieces at every offset up to 4 and 5; strings of 1-8 characters; nine types of keywords; images of 1-3 by 1-3 (by 2) pixels; numbers in brackets: thorough tier")
ST = X("str.cpp")
prop("C30", "texts and command lines", [ST("trim_main", N=4, jobs=2), ST("case_main", N=3, jobs=2), ST("bool_main", jobs=4), ST("equalsign_main", ARGS=1, N=4, jobs=4), ST("equalsign_main", ARGS=2, N=2, jobs=4), ST("classic_main", ARGS=3, N=2, jobs=4),
     ST("trim_main", N=9, jobs=4, tier="t", dl=(60, 600)), ST("case_main", N=6, jobs=4, tier="t", dl=(60, 600)), ST("equalsign_main", ARGS=2, N=3, jobs=8, tier="t", dl=(60, 800)), ST("classic_main", ARGS=4, N=2, jobs=8, tier="t", dl=(60, 800))],
     "texts of up to 4 (9) characters, pairs of up to 3 (6), every byte symbolic; truth values: texts of up to 7 characters out of the letters of the documented texts and others; command lines of up to 2 arguments of up to 2 (3) characters, or one of 4, out of letters, '=', blank characters, and up to 3 (4) arguments of up to 2 characters out of '-', letters, digits and points, with and without a leading argument; numbers, streams and files (stringToData of numbers, split, tokenize, parse_file) are outside; numbers in brackets: thorough tier")
AR = X("arr.cpp")
prop("C28", "array containers", [AR("hist_main", jobs=4), AR("hist_main", FAIL=1, jobs=4), AR("hist_main", ALIGN=1, jobs=4), AR("hist_main", ALIGN=1, FAIL=1, jobs=4), AR("view_main", jobs=4), AR("multi_main", jobs=2), AR("multi_main", FAIL=1, jobs=2), AR("more_main", jobs=4), AR("hist_main", K=3, FAIL=1, tier="t", jobs=8, dl=(60, 800)), AR("view_main", N=5, tier="t", jobs=8)],
     "histories of 2 (3) operations out of 14 on two arrays of 0-3 symbolic elements, heap and aligned storage, with and without one failing memory request; queries and sorting of 0-4 (5) symbolic elements; two- and three-dimensional arrays of seven shapes each with every operation, every memory request of which may fail; numbers in brackets: thorough tier")

PW = X("pywrap.py")
prop("C36", "Python wrapper", [PW("object_main", jobs=4), PW("object_main", SKY=1, jobs=2), PW("remove_main"), PW("count_main"), PW("data_main", jobs=4), PW("data_main", SKY=1, jobs=2), PW("data_main", REAL=1, jobs=4), PW("detector_main", jobs=2), PW("pointing_main", jobs=4), PW("bigalloc_main"), PW("convolver_main", jobs=8), PW("library_main"),
     PW("data_main", L=4, jobs=8, tier="t", dl=(60, 600)), PW("count_main", M=200, tier="t", jobs=4), PW("pointing_main", N=4, jobs=8, tier="t", dl=(60, 600))],
     "all 64-bit orders, all characters and truth values as flags, real fwhm and epsilon, two communicator sizes, every return code and every null result of the C library; coefficients of orders 0-2 (4) with symbolic values, wrong sizes in each component; sizes of pointings 0-2 (4); identifiers up to 1000 characters; numbers in brackets: thorough tier",
     assumptions=["CPython executes the wrapper's source; ctypes, numpy and mpi4py follow their documented contracts (modelled in vp/pysym.py, replays use the real ctypes and numpy)", "the C library behaves as its header documents (C12, C13)", "floating-point values are exact reals: rounding to single precision is outside the claim"], common=False,
     technique="symbolic execution of the Python wrapper's source (own executor over z3), counterexamples replayed on the real ctypes and numpy")
