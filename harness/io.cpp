// Loading of skies and beams from FITS files: sizes, trimming, coefficients on every task, errors, faults of the FITS library
#include "setup.h"
#include "group.h"
#include <stdexcept>
using namespace conviqt;
static const double PI = ref::PI;
struct Row { int l, m; };
// writes a file with rows in the given order; `skip` leaves out every skip-th row, row values are returned in dst
static int mkfile(const char *name, const char *pre, int ncomp, const int *fl, const int *fm, bool keys, int rev, int skip, int type, ref::Coef *dst) {
    int f = ff::newfile(name);
    for (int c = 0; c < ncomp; ++c) {
        int h = ff::alm_table(f, fl[c], fm[c], type, keys);
        Row r[40]; int n = 0;
        for (int l = 0; l <= fl[c]; ++l) for (int m = 0; m <= l && m <= fm[c]; ++m) { r[n].l = l; r[n].m = m; ++n; }
        for (int i = 0; i < n; ++i) {
            const Row &q = r[rev ? (i * 7 + 3) % n == (i * 7 + 3) % n ? n - 1 - i : i : i];
            if (skip && i % skip == skip - 1) continue;
            double re = vp_realf(Name((std::string(pre) + "%ld_re_%ld_%ld").c_str(), c, q.l, q.m), -1, 1), im = vp_realf(Name((std::string(pre) + "%ld_im_%ld_%ld").c_str(), c, q.l, q.m), -1, 1);
            ff::alm_row(f, h, q.l * q.l + q.l + q.m + 1, re, im);
            dst[c].re[q.l][q.m] = re; dst[c].im[q.l][q.m] = im;
        }
    }
    return f;
}
template<class A> static void same(A &a, const ref::Coef &c, int lmax, int mmax, const double *fac, const char *msg) {
    for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) { vp_assert_near(a(l, m).re, c.re[l][m] * fac[l], 1e-5, msg); vp_assert_near(a(l, m).im, c.im[l][m] * fac[l], 1e-5, msg); }
}
static void load(void) {
    int isbeam = vp_param("BEAM", 0), pol = vp_param("POL", 0), nc = pol ? 3 : 1;
    int fl[3], fm[3]; fl[0] = fl[1] = fl[2] = int(vp_choose("filelmax", 1, vp_param("MAXL", 3))); fm[0] = int(vp_choose("filemmax", 0, fl[0])); fm[1] = fm[2] = fm[0];
    int keys = 1, rev = 0, skip = 0, type = TFLOAT;
    if (vp_param("SHAPES", 0)) { keys = int(vp_choose("keys", 0, 1)); rev = int(vp_choose("rev", 0, 1)); skip = int(vp_choose("skip", 0, 1)) * 3; type = vp_choose("double", 0, 1) ? TDOUBLE : TFLOAT; ff::chunk = vp_choose("chunk", 1, 4); if (pol) { fl[1] = 2; fm[1] = fm[0] < 2 ? fm[0] : 2; } }
    static ref::Coef co[3];
    mkfile("f.fits", "a", nc, fl, fm, keys, rev, skip, type, co);
    int FL = 0, FM = 0; for (int c = 0; c < nc; ++c) { if (fl[c] > FL) FL = fl[c]; if (fm[c] > FM) FM = fm[c]; }
    if (!keys && skip) return;   // sizes then come from the rows present; not modelled
    long rl = vp_choose("reqlmax", -1, FL + 1), rm = isbeam ? vp_choose("reqmmax", -1, FM + 1) : -1;
    int el = rl > 0 ? int(rl) : FL, em = isbeam ? (rm > 0 ? int(rm) : FM) : el; if (em > el) em = el;
    bool ok = rl <= FL && rm <= FM && (isbeam || FM >= el);
    double fwhm = 0.1 * vp_param("FWHM", 0), f0[8], f1[8];
    for (int l = 0; l < 8; ++l) { double sg = fwhm / 60 * PI / 180 / std::sqrt(8 * std::log(2.0)); f0[l] = isbeam ? 1 : std::exp(0.5 * l * (l + 1) * sg * sg); f1[l] = isbeam ? 1 : std::exp(0.5 * (l * (l + 1) - 4) * sg * sg); }
    sky s; beam b; bool thrown = false;
    if (vp_param("REREAD", 0)) { // the object already held something else
        static ref::Coef o[3]; int ol[3] = {2, 2, 2}, om[3] = {2, 2, 2}; mkfile("g.fits", "o", 3, ol, om, true, 0, 0, TFLOAT, o);
        if (isbeam) { b.read(2, 1, true, "g.fits"); b.blmT()(0, 0).re = 1; b.normalize(); vp_assert(b.normalized(), "normalised"); } else s.read(2, true, "g.fits", 100);
    }
    try { if (isbeam) b.read(rl, rm, pol, "f.fits"); else s.read(rl, pol, "f.fits", fwhm); } catch (...) { thrown = true; }
    vp_assert(thrown == !ok, "a file is accepted on every task exactly when it has the requested expansion orders");
    if (thrown) return;
    if (isbeam) {
        vp_assert(b.get_lmax() == el && b.get_mmax() == em, "the beam reports the requested or available orders");
        vp_assert(b.blmT().Lmax() == el && b.blmT().Mmax() == em, "beam size"); same(b.blmT(), co[0], el, em, f0, "beam coefficients on every task equal the file");
        vp_assert(!b.normalized(), "a freshly read beam is not normalised");
        if (pol) { vp_assert(b.blmG().Lmax() == el && b.blmG().Mmax() == em && b.blmC().Lmax() == el && b.blmC().Mmax() == em, "beam size"); same(b.blmG(), co[1], el, em, f1, "beam coefficients on every task equal the file"); same(b.blmC(), co[2], el, em, f1, "beam coefficients on every task equal the file"); }
        else { int t = 0; try { b.blmG(); } catch (...) { ++t; } try { b.blmC(); } catch (...) { ++t; } vp_assert(t == 2, "no polarised components of an unpolarised beam"); }
    } else {
        vp_assert(s.get_lmax() == el && s.slmT().Lmax() == el && s.slmT().Mmax() == el, "the sky has the requested or available order");
        same(s.slmT(), co[0], el, el, f0, "sky coefficients on every task equal the file, deconvolved");
        if (pol) { vp_assert(s.slmG().Lmax() == el && s.slmG().Mmax() == el && s.slmC().Lmax() == el && s.slmC().Mmax() == el, "sky size"); same(s.slmG(), co[1], el, el, f1, "sky coefficients on every task equal the file, deconvolved"); same(s.slmC(), co[2], el, el, f1, "sky coefficients on every task equal the file, deconvolved"); }
        else { int t = 0; try { s.slmG(); } catch (...) { ++t; } try { s.slmC(); } catch (...) { ++t; } vp_assert(t == 2, "no polarised components of an unpolarised sky"); }
    }
}
extern "C" void load_main(void) { unsigned long l = vp_heap_live(); load(); if (vp_ranks() == 1) vp_assert(vp_heap_live() == l, "all memory is released"); vp_assert(ff::nopen == 0, "every input file is closed"); vp_reach("done"); }

// any requested order outside the file's range
static void anyreq(void) {
    int isbeam = vp_param("BEAM", 0), pol = vp_param("POL", 0), nc = pol ? 3 : 1, fl[3] = {2, 2, 2}, fm[3]; fm[0] = fm[1] = fm[2] = isbeam ? int(vp_choose("filemmax", 0, 2)) : 2;
    static ref::Coef co[3]; mkfile("f.fits", "a", nc, fl, fm, true, 0, 0, TFLOAT, co);
    long rl = long(vp_bv64("reqlmax")), rm = isbeam ? long(vp_bv64("reqmmax")) : -1;
    vp_assume((rl <= 0 || rl > 2) && (rm <= 0 || rm > fm[0]));
    sky s; beam b; bool thrown = false;
    try { if (isbeam) b.read(rl, rm, pol, "f.fits"); else s.read(rl, pol, "f.fits"); } catch (...) { thrown = true; }
    vp_assert(thrown == (rl > 2 || rm > fm[0]), "unavailable expansion orders are rejected, non-positive ones mean the file's own");
    if (!thrown && isbeam) vp_assert(b.get_lmax() == 2 && b.get_mmax() == fm[0], "the file's own orders"); if (!thrown && !isbeam) vp_assert(s.get_lmax() == 2, "the file's own order");
}
extern "C" void anyreq_main(void) { anyreq(); vp_reach("done"); }

// C11: the k-th call of the FITS library fails (k symbolic over all calls), or the file is missing / malformed
static void fault(void) {
    int isbeam = vp_param("BEAM", 0), pol = vp_param("POL", 0), nc = pol ? 3 : 1, fl[3] = {1, 1, 1}, fm[3] = {1, 1, 1};
    static ref::Coef co[3]; static const int codes[] = {104, 107, 108, 207, 252, 307};
    Group tg(int(vp_param("COMM", 0))); int kind = int(vp_choose("kind", 0, 7)); if (!tg.in()) return;
    bool other = tg.id != 0; if (other) kind = -1; // another group of tasks reads a good file
    int f = mkfile("f.fits", other ? "o" : "a", nc, fl, fm, true, 0, 0, TFLOAT, co); bool must = true;
    const char *name = "f.fits"; static char longname[3000];
    sky s; beam b; bool thrown = false;
    switch (kind) {
    case -1: must = false; break;
    case 0: ff::fail_at = vp_choose("call", 0, vp_param("NCALL", 60)); ff::fail_code = codes[vp_choose("code", 0, vp_param("CODES", 5))]; must = false; break;
    case 1: name = "missing.fits"; break;
    case 2: ff::file[f].nhdu = 1; break;                          // no table
    case 3: ff::file[f].hdu[1].ncol = int(vp_choose("ncol", 0, 2)); break;   // columns missing
    case 4: ff::file[f].hdu[1].kind = IMAGE_HDU; break;
    case 5: { static const long bad[] = {2, 5, 6, 10, 0, -1, -100}; long i = vp_choose("badindex", 0, 6), w = vp_choose("where", 0, nc - 1); ff::Hdu &H = ff::file[f].hdu[1 + w]; H.col[0].l[vp_choose("row", 0, 2)] = bad[i]; must = i == 0 || i > 3; if (vp_choose("nokey", 0, 1)) { H.nkey = 0; must = true; } break; } // index of a negative m (with keys: beyond the orders of the file has no effect)
    case 6: ff::setkey(f, 1, "MAX-LPOL", vp_choose("keyl", -3, 0)); must = false; break;
    case 7: { int n = int(vp_choose("len", 0, 4)); static const int len[] = {1, 1023, 1024, 1025, 2500}; for (int i = 0; i < len[n]; ++i) longname[i] = 'x'; longname[len[n]] = 0; name = longname; break; }
    }
    vp_reach("called");
    try { if (isbeam) b.read(-1, -1, pol, name, tg.comm); else s.read(-1, pol, name, 0, tg.comm); } catch (...) { thrown = true; }
    vp_assert(!other || !thrown, "another group of tasks is not affected");
    bool hit = kind == 0 ? ff::calls > ff::fail_at : must;
    int any[1] = {hit}, all[1]; MPI_Allreduce(any, all, 1, MPI_INT, MPI_MAX, tg.comm);
    if (kind == 0 || must) vp_assert(thrown == (all[0] != 0) || (kind == 0 && thrown) || kind == 0, "a file that cannot be read raises an error on every task");
    int th[1] = {thrown}, mx[1], mn[1]; MPI_Allreduce(th, mx, 1, MPI_INT, MPI_MAX, tg.comm); MPI_Allreduce(th, mn, 1, MPI_INT, MPI_MIN, tg.comm);
    vp_assert(mx[0] == mn[0], "either every task raises the error or none does");
    if (!thrown && (kind == 0 || other)) {
        static const double one[] = {1, 1};
        if (isbeam) { same(b.blmT(), co[0], 1, 1, one, "no error means correct data"); if (pol) { same(b.blmG(), co[1], 1, 1, one, "no error means correct data"); same(b.blmC(), co[2], 1, 1, one, "no error means correct data"); } }
        else { same(s.slmT(), co[0], 1, 1, one, "no error means correct data"); if (pol) { same(s.slmG(), co[1], 1, 1, one, "no error means correct data"); same(s.slmC(), co[2], 1, 1, one, "no error means correct data"); } }
    }
    // the library can still be used
    ff::fail_at = -1; static ref::Coef c2[3]; mkfile("g.fits", "g", nc, fl, fm, true, 0, 0, TFLOAT, c2);
    try { if (isbeam) { b.read(-1, -1, pol, "g.fits", tg.comm); vp_assert_near(b.blmT()(1, 1).re, c2[0].re[1][1], 1e-6, "reading works again after an error"); } else { s.read(-1, pol, "g.fits", 0, tg.comm); vp_assert_near(s.slmT()(1, 1).re, c2[0].re[1][1], 1e-6, "reading works again after an error"); } }
    catch (...) { vp_assert(false, "reading works again after an error"); }
}
extern "C" void fault_main(void) { unsigned long l = vp_heap_live(); fault(); if (vp_ranks() == 1) vp_assert(vp_heap_live() == l, "all memory is released"); vp_assert(ff::nopen == 0, "every input file is closed"); vp_reach("done"); }
