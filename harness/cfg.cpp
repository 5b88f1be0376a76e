// Input validation: illegal pointing, convolver configuration, sky/beam sizes
#include "setup.h"
#include "group.h"
#include <stdexcept>
using namespace conviqt;
static const double PI = ref::PI;

// C08: an illegal co-latitude anywhere makes convolve throw on every task; the convolver stays usable
static void illegal(void) {
    Group tg(int(vp_param("COMM", 0))); int n = 1 + int(vp_param("N", 2)), rank = vp_rank(), badrank = int(vp_choose("badrank", 0, vp_ranks() - 1)), badrow = int(vp_choose("badrow", 0, n - 1));
    double bad = vp_double("bad"); vp_assume(!(bad >= 0 && bad <= PI));
    if (!tg.in()) return; // with groups of tasks, only the group of the illegal row refuses
    int member = rank == badrank, expect = member; if (tg.size > 1) MPI_Allreduce(&member, &expect, 1, MPI_INT, MPI_MAX, tg.comm);
    static ref::Input in; in.ncomp = 1;
    make_alm_file("sky.fits", "s", 1, 1, 1, in.s, -1); make_alm_file("beam.fits", "b", 1, 1, 1, in.b, -1);
    sky s; beam b; detector d("x"); s.read(-1, false, "sky.fits", 0, tg.comm); b.read(-1, -1, false, "beam.fits", tg.comm);
    convolver c(&s, &b, &d, false, 1, 1, 1, 0, tg.comm);
    int mine = vp_param("EMPTY", 0) && rank != badrank ? 0 : n;
    pointing p; if (mine) p.alloc(5 * mine);
    for (int i = 0; i < mine; ++i) { p[5 * i] = 0.3 * i + rank; p[5 * i + 1] = 0.4 + i; p[5 * i + 2] = 0.1; p[5 * i + 3] = p[5 * i + 4] = 0; if (rank == badrank && i == badrow) p[5 * i + 1] = bad; }
    bool thrown = false;
    vp_reach("called");
    try { c.convolve(p, true); } catch (...) { thrown = true; }
    vp_assert(thrown == (expect != 0), "an illegal co-latitude is rejected on every task");
    if (rank == badrank) p[5 * badrow + 1] = 1.25;
    if (thrown) for (int i = 0; i < mine; ++i) vp_assert(p[5 * i] == 0.3 * i + rank && p[5 * i + 1] == (rank == badrank && i == badrow ? 1.25 : 0.4 + i) && p[5 * i + 2] == 0.1, "the rejected pointing is left alone");
    try { c.convolve(p, false); } catch (...) { vp_assert(false, "a legal pointing is accepted after a rejected one"); }
    ref::Grid gr(1, 1, 1);
    for (int i = 0; i < mine; ++i) {
        double ck[2] = {1, std::cos(0.1)}, sk[2] = {0, std::sin(0.1)}, th = p[5 * i + 1];
        vp_assert(ref::polar(gr, th) || std::fabs(p[5 * i + 3] - ref::signal(in, gr, th, p[5 * i], ck, sk)) < 1e-5, "signal correct after a rejected call");
    }
}
extern "C" void illegal_main(void) { illegal(); vp_reach("done"); }

// C09: which configurations of a convolver are accepted, and what they mean
static double oneSignal(convolver &c, double th, double ph, double ps) { pointing p; p.alloc(5); p[0] = ph; p[1] = th; p[2] = ps; p[3] = p[4] = 0; c.convolve(p, false); return p[3]; }
static void config(void) {
    int sl = int(vp_choose("skylmax", 1, vp_param("SL", 3))), bl = int(vp_choose("beamlmax", 1, vp_param("BL", 3))), bm = int(vp_choose("beammmax", 0, bl));
    static ref::Input in; in.ncomp = 1;
    make_alm_file("sky.fits", "s", 1, sl, sl, in.s, -1); make_alm_file("beam.fits", "b", 1, bl, bm, in.b, -1);
    sky s; beam b; detector d("x"); s.read(-1, false, "sky.fits"); b.read(-1, -1, false, "beam.fits");
    int lmax = int(vp_choose("lmax", -2, 4)), mmax = int(vp_choose("mmax", -2, 4)), order = int(vp_choose("order", -1, 2)); if (order == 2) order = 3;
    int el = lmax < 0 ? (sl < bl ? sl : bl) : lmax, em = mmax < 0 ? (bm < el ? bm : el) : mmax;
    bool ok = order >= 0 && el >= 1 && el <= sl && el <= bl && em <= bm && em <= el;
    convolver *c = nullptr;
    try { c = new convolver(&s, &b, &d, false, lmax, mmax, order, 0, MPI_COMM_WORLD); } catch (...) {}
    vp_assert((c != nullptr) == ok, "a convolver is created exactly for the supported configurations");
    if (c) {
        ref::Grid gr(el, em, order); double ck[5], sk[5]; for (int k = 0; k <= em; ++k) { ck[k] = std::cos(k * 0.4); sk[k] = std::sin(k * 0.4); }
        double th = PI / 2 - 0.3 / el, got = oneSignal(*c, th, 2.1, 0.4), want = ref::signal(in, gr, th, 2.1, ck, sk), known = em ? ref::signal(in, gr, th, 2.1, ck, sk, true) : want;
        vp_assert_near_known(got, want, known, 1e-5, "the configured convolver uses the requested (or the largest common) lmax and mmax", "F-POLE");
        delete c;
    }
}
extern "C" void config_main(void) { unsigned long l = vp_heap_live(); config(); if (vp_ranks() == 1) vp_assert(vp_heap_live() == l, "all memory is released"); vp_reach("done"); }

// C09b: set_sky / set_beam accept exactly the inputs that reach the configured orders
static void setters(void) {
    int lmax = int(vp_choose("lmax", 1, 2)), mmax = int(vp_choose("mmax", 0, lmax));
    static ref::Input in, in2; in.ncomp = in2.ncomp = 1;
    make_alm_file("sky.fits", "s", 1, 2, 2, in.s, -1); make_alm_file("beam.fits", "b", 1, 2, 2, in.b, -1);
    int sl = int(vp_choose("skylmax", 1, 3)), bl = int(vp_choose("beamlmax", 1, 3)), bm = int(vp_choose("beammmax", 0, bl));
    make_alm_file("sky2.fits", "s", 1, sl, sl, in2.s, -1); make_alm_file("beam2.fits", "b", 1, bl, bm, in2.b, -1);
    for (int l = 0; l <= 3; ++l) for (int m = 0; m <= l; ++m) { in2.s[0].re[l][m] *= 1; }
    sky s, s2; beam b, b2; detector d("x"), d2("y"); d.set_epsilon(0.25); d2.set_epsilon(0.75);
    s.read(-1, false, "sky.fits"); b.read(-1, -1, false, "beam.fits"); s2.read(-1, false, "sky2.fits"); b2.read(-1, -1, false, "beam2.fits");
    for (int l = 0; l <= sl; ++l) for (int m = 0; m <= l; ++m) { s2.slmT()(l, m) *= 3.f; in2.s[0].re[l][m] *= 3; in2.s[0].im[l][m] *= 3; }
    for (int l = 0; l <= bl; ++l) for (int m = 0; m <= l && m <= bm; ++m) { b2.blmT()(l, m) *= -2.f; in2.b[0].re[l][m] *= -2; in2.b[0].im[l][m] *= -2; }
    convolver c(&s, &b, &d, false, lmax, mmax, 1, 0, MPI_COMM_WORLD);
    bool t1 = false, t2 = false;
    try { c.set_sky(&s2); } catch (...) { t1 = true; }
    try { c.set_beam(&b2); } catch (...) { t2 = true; }
    c.set_detector(&d2);
    vp_assert(t1 == (sl < lmax), "set_sky rejects exactly the skies below the convolver's lmax");
    vp_assert(t2 == (bl < lmax || bm < mmax), "set_beam rejects exactly the beams below the convolver's lmax or mmax");
    static ref::Input cur; cur.ncomp = 1; cur.s[0] = t1 ? in.s[0] : in2.s[0]; cur.b[0] = t2 ? in.b[0] : in2.b[0];
    ref::Grid gr(lmax, mmax, 1); double ck[3], sk[3]; for (int k = 0; k <= mmax; ++k) { ck[k] = std::cos(k * 0.4); sk[k] = std::sin(k * 0.4); }
    double th = PI / 2 - 0.3 / lmax; pointing p; p.alloc(5); p[0] = 2.1; p[1] = th; p[2] = 0.4; p[3] = p[4] = 0; c.convolve(p, true);
    double want = 2 / 1.75 * ref::signal(cur, gr, th, 2.1, ck, sk), known = mmax ? 2 / 1.75 * ref::signal(cur, gr, th, 2.1, ck, sk, true) : want;
    vp_assert_near_known(p[3], want, known, 1e-5, "the next call uses the accepted inputs and the new detector, and the former ones where the new were rejected", "F-POLE");
}
extern "C" void setters_main(void) { setters(); vp_reach("done"); }
// C09c: any machine integers as lmax, mmax, order
static void anycfg(void) {
    int sl = int(vp_choose("skylmax", 1, 3)), bl = int(vp_choose("beamlmax", 1, 3)), bm = int(vp_choose("beammmax", 0, bl));
    make_alm_file("sky.fits", "s", 1, sl, sl, nullptr, -1); make_alm_file("beam.fits", "b", 1, bl, bm, nullptr, -1);
    sky s; beam b; detector d("x"); s.read(-1, false, "sky.fits"); b.read(-1, -1, false, "beam.fits");
    long lmax = long(vp_bv64("lmax")), mmax = long(vp_bv64("mmax")), order = long(vp_bv64("order"));
    vp_assume(order <= 100);
    long el = lmax < 0 ? (sl < bl ? sl : bl) : lmax, em = mmax < 0 ? (bm < el ? bm : el) : mmax;
    bool ok = order >= 0 && el >= 1 && el <= sl && el <= bl && em <= bm && em <= el;
    bool made = false;
    try { convolver c(&s, &b, &d, false, lmax, mmax, order, 0, MPI_COMM_WORLD); made = true; } catch (...) {}
    vp_assert(made == ok, "a convolver is created exactly for the supported configurations");
}
extern "C" void anycfg_main(void) { anycfg(); vp_reach("done"); }
