// C interface: equivalent to the C++ classes; errors become return codes, nothing is thrown
#include "setup.h"
#include "group.h"
#include <mpi.h>
#include "cconviqt.h"
extern "C" int conviqt_detector_set_id(void *ptr, char *det_id);
using namespace conviqt;
static const double PI = ref::PI;
static void cmp(void *cp, Alm<xcomplex<float> > &a, const char *msg) {
    float *f = (float *)cp; vp_assert(f != nullptr, msg); if (!f) return;
    int L = a.Lmax(), Mm = a.Mmax(), k = 0;
    for (int m = 0; m <= Mm; ++m) for (int l = m; l <= L; ++l) { vp_assert_near(f[2 * k], a(l, m).re, 1e-6, msg); vp_assert_near(f[2 * k + 1], a(l, m).im, 1e-6, msg); ++k; }
}
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

// C12: the same scenario through both interfaces
static void equiv(void) {
    int nc = 3, sl = int(vp_param("SL", 2)), bl = int(vp_param("BL", 2)), bm = int(vp_param("BM", 1)), rank; Group tg(int(vp_param("COMM", 0))); if (!tg.in()) return; rank = tg.rank; int group = tg.id;
    make_alm_file("sky.fits", "s", nc, sl, sl, nullptr, 1, group); make_alm_file("beam.fits", "b", nc, bl, bm, nullptr, 1, group);
    char sn[] = "sky.fits", bn[] = "beam.fits", no[] = "missing.fits", id[] = "detector 7"; char buf[64];
    char bpol = char(vp_bv8("beampol")), spol = char(vp_bv8("skypol")); // every value that is not zero means true
    bool conv = vp_param("CONV", 0);
    long rl = conv ? -1 : vp_choose("beamlmax", -1, bl + 1), rm = conv ? -1 : vp_choose("beammmax", -1, bm + 1); double fwhm = conv ? 0 : vp_choose("fwhm", 0, 1) * 90;
    long srl = conv ? sl : vp_choose("skylmax", 1, sl + 1);
    void *cb = conviqt_beam_new(), *cs = conviqt_sky_new(), *cd = conviqt_detector_new(), *cd2 = conviqt_detector_new_with_id(id);
    vp_assert(cb && cs && cd && cd2, "objects are created");
    beam b; sky s; detector d, d2(id);
    vp_assert(conviqt_beam_read(cb, -1, -1, 0, no, tg.comm) == -1 && conviqt_sky_read(cs, -1, 0, no, 0, tg.comm) == -1, "a failing read returns -1");
    bool tb = throws([&] { b.read(rl, rm, bpol, bn, tg.comm); }), ts = throws([&] { s.read(srl, spol, sn, fwhm, tg.comm); });
    vp_assert(conviqt_beam_read(cb, rl, rm, bpol, bn, tg.comm) == (tb ? -1 : 0), "beam_read fails exactly when beam::read does");
    vp_assert(conviqt_sky_read(cs, srl, spol, sn, fwhm, tg.comm) == (ts ? -1 : 0), "sky_read fails exactly when sky::read does");
    if (!tb) {
        vp_assert(conviqt_beam_lmax(cb) == b.get_lmax() && conviqt_beam_mmax(cb) == b.get_mmax(), "beam orders"); cmp(conviqt_beam_Tdata(cb), b.blmT(), "beam data");
        if (bpol) { cmp(conviqt_beam_Gdata(cb), b.blmG(), "beam data"); cmp(conviqt_beam_Cdata(cb), b.blmC(), "beam data"); } else vp_assert(!conviqt_beam_Gdata(cb) && !conviqt_beam_Cdata(cb), "no polarised data");
        vp_assert(conviqt_beam_normalized(cb) == 0, "beam not normalised yet");
        if (vp_choose("norm", 0, 1)) { vp_assume(b.blmT()(0, 0).re > 0.5); double f = b.normalize(), g = conviqt_beam_normalize(cb); vp_assert_near(f, g, 1e-6, "normalisation factor"); vp_assert(conviqt_beam_normalized(cb) == 1, "beam is normalised"); cmp(conviqt_beam_Tdata(cb), b.blmT(), "normalised beam data"); if (bpol) { cmp(conviqt_beam_Gdata(cb), b.blmG(), "normalised beam data"); cmp(conviqt_beam_Cdata(cb), b.blmC(), "normalised beam data"); } }
    }
    if (!ts) {
        vp_assert(conviqt_sky_lmax(cs) == s.get_lmax(), "sky order"); int rem = conv ? 2 : int(vp_choose("remove", 0, 3));
        if (rem & 1) { s.remove_monopole(); vp_assert(conviqt_sky_remove_monopole(cs) == 0, "remove_monopole"); } if (rem & 2) { s.remove_dipole(); vp_assert(conviqt_sky_remove_dipole(cs) == 0, "remove_dipole"); }
        cmp(conviqt_sky_Tdata(cs), s.slmT(), "sky data");
        if (spol) { cmp(conviqt_sky_Gdata(cs), s.slmG(), "sky data"); cmp(conviqt_sky_Cdata(cs), s.slmC(), "sky data"); } else vp_assert(!conviqt_sky_Gdata(cs) && !conviqt_sky_Cdata(cs), "no polarised data");
    }
    double eps = vp_real(Name("epsilon%ld", group), 0, 1), got = -1;
    d.set_epsilon(eps); vp_assert(conviqt_detector_get_epsilon(cd, &got) == 0 && got == 0, "epsilon is 0 by default"); vp_assert(conviqt_detector_set_epsilon(cd, eps) == 0 && conviqt_detector_get_epsilon(cd, &got) == 0 && got == eps, "epsilon");
    vp_assert(conviqt_detector_get_id(cd2, buf) == 0 && !strcmp(buf, id), "detector id"); vp_assert(conviqt_detector_set_id(cd, id) == 0 && conviqt_detector_get_id(cd, buf) == 0 && !strcmp(buf, id), "detector id");
    if (!tb && !ts && conv) {
        char pol = char(vp_bv8("pol")); vp_assume(!pol == !(bpol && spol)); long lmax = vp_choose("lmax", -1, 2), mmax = vp_choose("mmax", -1, 1), order = vp_choose("order", -1, 2); if (order == 2) order = 3;
        convolver *c = nullptr; bool tc = throws([&] { c = new convolver(&s, &b, &d, pol, lmax, mmax, order, 0, tg.comm); });
        void *cc = conviqt_convolver_new(cs, cb, cd, pol, lmax, mmax, order, 0, tg.comm);
        vp_assert((cc == nullptr) == tc, "convolver_new returns NULL exactly when the constructor throws");
        if (c && cc) {
            int n = 2 + rank; pointing p; p.alloc(5 * n); void *cp = conviqt_pointing_new(); vp_assert(cp && conviqt_pointing_alloc(cp, 5 * n) == 0, "pointing_alloc");
            double *q = conviqt_pointing_data(cp); vp_assert(q != nullptr, "pointing_data");
            // sky2, beam2: other inputs of at least the orders of the convolver
            make_alm_file("sky2.fits", "S", nc, sl + 1, sl + 1, nullptr, 1, group); make_alm_file("beam2.fits", "B", nc, bl + 1, bm + 1, nullptr, 1, group); sky s2; beam b2; s2.read(-1, spol, "sky2.fits", 0, tg.comm); b2.read(-1, -1, bpol, "beam2.fits", tg.comm);
            char sn2[] = "sky2.fits", bn2[] = "beam2.fits"; void *cs2 = conviqt_sky_new(), *cb2 = conviqt_beam_new(); vp_assert(conviqt_sky_read(cs2, -1, spol, sn2, 0, tg.comm) == 0 && conviqt_beam_read(cb2, -1, -1, bpol, bn2, tg.comm) == 0, "reading");
            double eps2 = vp_real("epsilon2", 0, 1); d2.set_epsilon(eps2); conviqt_detector_set_epsilon(cd2, eps2);
            for (int call = 0, calls = lmax < 0 && mmax < 0 ? 4 : 2; call < calls; ++call) {
                char cal = call > 1 ? char(call - 2) : char(vp_bv8(call ? "calibrate2" : "calibrate1")); vp_assume(!cal == (call == 1 || call == 2));
                for (int i = 0; i < n; ++i) { double v[5] = {0.3 + i + rank, 0.4 + 0.9 * i, 0.2 + i, 0, 0}; for (int k = 0; k < 5; ++k) p[5 * i + k] = q[5 * i + k] = v[k]; }
                int r1 = c->convolve(p, cal), r2 = conviqt_convolver_convolve(cc, cp, cal);
                vp_assert(r1 == 0 && r2 == 0, "convolve succeeds"); q = conviqt_pointing_data(cp);
                for (int i = 0; i < 5 * n; ++i) vp_assert_near(q[i], p[i], 1e-6, "same result through both interfaces");
                if (call == 0) { c->set_sky(&s2); vp_assert(conviqt_convolver_set_sky(cc, cs2) == 0, "set_sky"); }
                if (call == 1) { c->set_beam(&b2); vp_assert(conviqt_convolver_set_beam(cc, cb2) == 0, "set_beam"); }
                if (call == 2) { c->set_detector(&d2); vp_assert(conviqt_convolver_set_detector(cc, cd2) == 0, "set_detector"); c->set_sky(&s); vp_assert(conviqt_convolver_set_sky(cc, cs) == 0, "set_sky"); }
            }
            q[1] = -1; vp_assert(conviqt_convolver_convolve(cc, cp, 1) == -1, "an illegal co-latitude gives -1");
            vp_assert(conviqt_pointing_del(cp) == 0 && conviqt_sky_del(cs2) == 0 && conviqt_beam_del(cb2) == 0, "pointing_del, sky_del, beam_del");
        }
        if (cc) vp_assert(conviqt_convolver_del(cc) == 0, "convolver_del"); delete c;
    }
    vp_assert(conviqt_beam_del(cb) == 0 && conviqt_sky_del(cs) == 0 && conviqt_detector_del(cd) == 0 && conviqt_detector_del(cd2) == 0, "objects are deleted");
}
extern "C" void equiv_main(void) { unsigned long l = vp_heap_live(); equiv(); if (vp_ranks() == 1) vp_assert(vp_heap_live() == l, "all memory is released"); vp_assert(ff::nopen == 0, "every input file is closed"); vp_reach("done"); }

// C13: the k-th memory request fails (k symbolic), or any integer is passed as a size: error codes, no exception, no leak, no damage
static void calls(bool *failed) {
    char sn[] = "sky.fits", bn[] = "beam.fits", id[] = "a detector with a rather long name"; char buf[64]; int pol = int(vp_param("POL", 0));
    bool err = false, any = false;
    void *b = conviqt_beam_new(), *s = conviqt_sky_new(), *d = conviqt_detector_new_with_id(id), *p = conviqt_pointing_new(), *c = nullptr;
    if (!b || !s || !d || !p) any = true;
    if (b) { err |= conviqt_beam_read(b, -1, -1, pol, bn, MPI_COMM_WORLD) != 0; } if (s) { err |= conviqt_sky_read(s, -1, pol, sn, 0, MPI_COMM_WORLD) != 0; }
    if (d) { conviqt_detector_set_epsilon(d, 0.5); any |= conviqt_detector_get_id(d, buf) != 0; }
    if (p) err |= conviqt_pointing_alloc(p, 10) != 0;
    any |= err;
    if (!any) {
        double *q = conviqt_pointing_data(p); for (int i = 0; i < 2; ++i) { q[5 * i] = 0.3; q[5 * i + 1] = 0.4 + i; q[5 * i + 2] = 0.1; q[5 * i + 3] = q[5 * i + 4] = 0; }
        c = conviqt_convolver_new(s, b, d, pol, 1, 1, 1, 0, MPI_COMM_WORLD); if (!c) any = true;
        if (c && !vp_param("NOCONV", 0)) { if (conviqt_convolver_convolve(c, p, 1) != 0) any = true; }
    }
    *failed = any;
    if (c) vp_assert(conviqt_convolver_del(c) == 0, "deleting always works"); if (b) vp_assert(conviqt_beam_del(b) == 0, "deleting always works"); if (s) vp_assert(conviqt_sky_del(s) == 0, "deleting always works");
    if (d) vp_assert(conviqt_detector_del(d) == 0, "deleting always works"); if (p) vp_assert(conviqt_pointing_del(p) == 0, "deleting always works");
}
extern "C" void alloc_main(void) {
    make_alm_file("sky.fits", "s", vp_param("POL", 0) ? 3 : 1, 1, 1, nullptr, -1); make_alm_file("beam.fits", "b", vp_param("POL", 0) ? 3 : 1, 1, 1, nullptr, -1);
    unsigned long live = vp_heap_live(); bool f; long k = vp_choose("k", 0, vp_param("K", 400));
    vp_option("fail_alloc", k);
    bool thrown = throws([&] { calls(&f); });
    vp_option("fail_alloc", -1);
    vp_assert(!thrown, "no exception leaves the C interface");
    if (!vp_param("LEAK", 0)) vp_assert(vp_heap_live() == live, "memory is released after an error");
    vp_assert(ff::nopen == 0, "files are closed after an error");
    bool f2 = true; thrown = throws([&] { calls(&f2); }); vp_assert(!thrown && !f2, "the library works after an error");
    vp_reach("done");
}
// sizes and pointers out of the ordinary
extern "C" void args_main(void) {
    make_alm_file("sky.fits", "s", 1, 2, 2, nullptr, -1); make_alm_file("beam.fits", "b", 1, 2, 1, nullptr, -1);
    char sn[] = "sky.fits", bn[] = "beam.fits"; void *b = conviqt_beam_new(), *s = conviqt_sky_new(), *d = conviqt_detector_new(), *p = conviqt_pointing_new();
    conviqt_beam_read(b, -1, -1, 0, bn, MPI_COMM_WORLD); conviqt_sky_read(s, -1, 0, sn, 0, MPI_COMM_WORLD);
    int what = int(vp_choose("what", 0, 5)); bool thrown = throws([&] {
        switch (what) {
        case 0: { long l = long(vp_bv64("lmax")), m = long(vp_bv64("mmax")), o = long(vp_bv64("order")); vp_assume(o < 50); void *c = conviqt_convolver_new(s, b, d, 0, l, m, o, 0, MPI_COMM_WORLD); vp_assert((c != nullptr) == (o >= 0 && (l < 0 || (l >= 1 && l <= 2)) && (m <= 1) && (l < 0 || m <= l)), "convolver_new accepts exactly the supported orders"); if (c) conviqt_convolver_del(c); break; }
        case 1: { long l = long(vp_bv64("lmax")), m = long(vp_bv64("mmax")); int rc = conviqt_beam_read(b, l, m, 0, bn, MPI_COMM_WORLD); vp_assert(rc == (l > 2 || m > 1 ? -1 : 0), "beam_read accepts exactly the available orders"); break; }
        case 2: { long l = long(vp_bv64("lmax")); int rc = conviqt_sky_read(s, l, 0, sn, 0, MPI_COMM_WORLD); vp_assert(rc == (l > 2 ? -1 : 0), "sky_read accepts exactly the available orders"); break; }
        case 3: { long n = vp_choose("n", 0, 6); static const long tab[] = {0, 1, 5, -1, -5, 1l << 60, 1l << 62}; int rc = conviqt_pointing_alloc(p, tab[n]); vp_assert(rc == (n < 3 ? 0 : -1), "pointing_alloc reports sizes that cannot be had"); break; }
        case 4: vp_assert(conviqt_beam_del(nullptr) == 0 && conviqt_sky_del(nullptr) == 0 && conviqt_detector_del(nullptr) == 0 && conviqt_pointing_del(nullptr) == 0 && conviqt_convolver_del(nullptr) == 0, "deleting nothing is fine"); break;
        case 5: { // missing and malformed files, then a good one
            int bad = int(vp_choose("bad", 0, 4)), pol = bad == 4, beam = int(vp_choose("beam", 0, 1)); int f = ff::newfile("bad.fits"), h = bad == 1 ? 0 : ff::alm_table(f, 2, 2, TFLOAT, bad != 2); char bd[] = "bad.fits", no[] = "missing.fits", *nm = bad == 0 ? no : bd;
            if (h) for (int l = 0; l <= 2; ++l) for (int m = 0; m <= l; ++m) ff::alm_row(f, h, l == 2 && m == 1 && bad != 4 ? 2 : l * l + l + m + 1, 1, 0);
            if (h && bad == 3) ff::file[f].hdu[h].ncol = 2;
            int rc = beam ? conviqt_beam_read(b, -1, -1, pol, nm, MPI_COMM_WORLD) : conviqt_sky_read(s, -1, pol, nm, 0, MPI_COMM_WORLD); vp_assert(rc == -1, "a file that cannot be read gives -1");
            vp_assert((beam ? conviqt_beam_read(b, -1, -1, 0, bn, MPI_COMM_WORLD) : conviqt_sky_read(s, -1, 0, sn, 0, MPI_COMM_WORLD)) == 0 && ff::nopen == 0, "reading works again"); break; }
        } });
    vp_assert(!thrown, "no exception leaves the C interface");
    conviqt_beam_del(b); conviqt_sky_del(s); conviqt_detector_del(d); conviqt_pointing_del(p);
    vp_reach("done");
}
