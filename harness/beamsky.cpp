// beam normalisation and calibration (C14), monopole and dipole removal (C15)
#include "setup.h"
using namespace conviqt;
static const double PI = ref::PI;
static void same(Alm<xcomplex<float> > &a, const ref::Coef &c, double f, const char *msg) {
    for (int l = 0; l <= a.Lmax(); ++l) for (int m = 0; m <= l && m <= a.Mmax(); ++m) { vp_assert_near(a(l, m).re, c.re[l][m] * f, 1e-5, msg); vp_assert_near(a(l, m).im, c.im[l][m] * f, 1e-5, msg); }
}
static void known(double got, const ref::Input &in, const ref::Grid &gr, double th, double ph, double *ck, double *sk, double fac, const char *msg) {
    double want = ref::signal(in, gr, th, ph, ck, sk) * fac, k = ref::polar(gr, th) ? ref::signal(in, gr, th, ph, ck, sk, true) * fac : want; vp_assert_near_known(got, want, k, 1e-5, msg, "F-POLE");
}
static void norm(void) {
    int pol = int(vp_param("POL", 0)), nc = pol ? 3 : 1, lm = int(vp_param("LM", 2)), mm = int(vp_param("MM", 1)), sym = int(vp_param("SYM", 0)); static ref::Input in; in.ncomp = nc;
    make_alm_file("sky.fits", "s", nc, lm, lm, in.s, 1); int f = ff::newfile("beam.fits");
    double b00 = vp_realf("b00", 0.25, 2); if (vp_choose("sign", 0, 1)) b00 = -b00;
    for (int c = 0; c < nc; ++c) { int h = ff::alm_table(f, lm, mm, TFLOAT, true); for (int l = 0; l <= lm; ++l) for (int m = 0; m <= l && m <= mm; ++m) {
        double re = c + l + m == 0 ? b00 : sym ? vp_realf(Name("b%ld_re_%ld_%ld", c, l, m), -1, 1) : tab(l, m, c), im = m ? tab(l, m, c + 3) : 0; ff::alm_row(f, h, l * l + l + m + 1, re, im); in.b[c].re[l][m] = re; in.b[c].im[l][m] = im; } }
    sky s; beam b; detector d("x"); double eps = vp_real("epsilon", 0, 1); d.set_epsilon(eps); s.read(-1, pol, "sky.fits"); b.read(-1, -1, pol, "beam.fits");
    vp_assert(!b.normalized(), "a beam as read is not normalised");
    int twice = int(vp_choose("calls", 0, 2)); double fac = 1, want = 1 / (2 * std::sqrt(PI) * b00);
    for (int i = 0; i < twice; ++i) {
        double r = b.normalize(); vp_assert_near(r * (i ? 1 : 2 * std::sqrt(PI) * b00), 1, 1e-5, "normalize returns the applied factor, 1 for a normalised beam"); fac = want;
        vp_assert(b.normalized(), "the beam knows that it is normalised"); vp_assert_near(b.blmT()(0, 0).re, 1 / (2 * std::sqrt(PI)), 1e-5, "the intensity beam integrates to one");
        same(b.blmT(), in.b[0], fac, "every intensity coefficient is scaled once"); if (pol) { same(b.blmG(), in.b[1], fac, "every polarised coefficient is scaled once"); same(b.blmC(), in.b[2], fac, "every polarised coefficient is scaled once"); }
    }
    int cal = int(vp_choose("calibrate", 0, 1));
    convolver c(&s, &b, &d, pol, lm, mm, 1, 0, MPI_COMM_WORLD); ref::Grid gr(lm, mm, 1);
    double th[2] = {1.0, 2.3}, ph = 2.1, ck[4], sk[4]; for (int k = 0; k <= mm; ++k) { ck[k] = std::cos(k * 0.4); sk[k] = std::sin(k * 0.4); }
    pointing p; p.alloc(10); for (int i = 0; i < 2; ++i) { p[5 * i] = ph; p[5 * i + 1] = th[i]; p[5 * i + 2] = 0.4; p[5 * i + 3] = p[5 * i + 4] = 0; }
    vp_reach("called"); c.convolve(p, cal);
    bool factor = cal && !twice;   // a normalised beam carries its own calibration
    for (int i = 0; i < 2; ++i) { double got = p[5 * i + 3]; if (factor) got = got * (1 + eps) / 2; if (twice) got = got * (2 * std::sqrt(PI) * b00); known(got, in, gr, th[i], ph, ck, sk, 1, "calibration is applied exactly once, and not to a normalised beam"); }
    // a beam read again is a raw beam again
    b.read(-1, -1, pol, "beam.fits"); vp_assert(!b.normalized(), "a beam read again is not normalised"); same(b.blmT(), in.b[0], 1, "a beam read again holds the file's coefficients");
    c.convolve(p, cal); for (int i = 0; i < 2; ++i) { double got = p[5 * i + 3]; if (cal) got = got * (1 + eps) / 2; known(got, in, gr, th[i], ph, ck, sk, 1, "calibration follows the beam's state at the time of the call"); }
}
extern "C" void norm_main(void) { norm(); vp_reach("done"); }

static void remove_(void) {
    int pol = int(vp_param("POL", 0)), nc = pol ? 3 : 1, lm = int(vp_choose("lmax", 1, 3)), seq = int(vp_choose("seq", 0, 5)); static ref::Input in; in.ncomp = nc;
    make_alm_file("sky.fits", "s", nc, lm, lm, in.s, 1); make_alm_file("beam.fits", "b", nc, lm, 1, in.b, 1);
    sky s; beam b; detector d("x"); s.read(-1, pol, "sky.fits"); b.read(-1, -1, pol, "beam.fits");
    convolver c(&s, &b, &d, pol, lm, 1, 1, 0, MPI_COMM_WORLD);
    static const int ops[6][3] = {{1, 0, 0}, {2, 0, 0}, {1, 2, 0}, {2, 1, 0}, {1, 1, 2}, {2, 2, 1}};
    for (int i = 0; i < 3; ++i) {
        if (ops[seq][i] == 1) { s.remove_monopole(); in.s[0].re[0][0] = in.s[0].im[0][0] = 0; }
        if (ops[seq][i] == 2) { s.remove_dipole(); for (int m = 0; m < 2; ++m) in.s[0].re[1][m] = in.s[0].im[1][m] = 0; }
        same(s.slmT(), in.s[0], 1, "exactly the removed multipoles are zero"); vp_assert(s.slmT().Lmax() == lm && s.get_lmax() == lm, "the order is kept");
        if (pol) { same(s.slmG(), in.s[1], 1, "the polarised sky is left alone"); same(s.slmC(), in.s[2], 1, "the polarised sky is left alone"); }
    }
    ref::Grid gr(lm, 1, 1); double ck[2] = {1, std::cos(0.4)}, sk[2] = {0, std::sin(0.4)}, th[2] = {1.0, 2.3}, ph = 2.1;
    pointing p; p.alloc(10); for (int i = 0; i < 2; ++i) { p[5 * i] = ph; p[5 * i + 1] = th[i]; p[5 * i + 2] = 0.4; p[5 * i + 3] = p[5 * i + 4] = 0; }
    c.convolve(p, false); for (int i = 0; i < 2; ++i) known(p[5 * i + 3], in, gr, th[i], ph, ck, sk, 1, "the removed multipoles do not contribute to the signal");
    s.read(-1, pol, "sky.fits"); vp_assert_near(s.slmT()(1, 1).re, vp_realf("s0_re_1_1", -1, 1), 1e-5, "reading again restores the sky");
}
extern "C" void remove_main(void) { remove_(); vp_reach("done"); }
