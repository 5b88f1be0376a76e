// Random coefficients with given spectra (C35). The random numbers are replaced by unit vectors: draw k gives 1 in run k and 0 otherwise,
// so that the coefficients of run k are those of the k-th independent unit normal, and covariances are sums over the runs.
#include "common.h"
#include "fakefits.h"
#define planck_rng vp_rng
#define LEVELS_RNG_H
namespace levels { class vp_rng { public: long n, hit; vp_rng(long h) : n(0), hit(h) {} double rand_gauss() { return n++ == hit ? 1. : 0.; } }; }
#include "../levels/Healpix_cxx/alm_powspec_tools.cc"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
typedef std::vector<double> V;
static int nz; // number of draws
// all real and imaginary parts of a_lm, run by run
template<class T> static void put(const Alm<xcomplex<T> > &a, int k, std::vector<V> &v) { v[k].clear(); for (int l = 0; l <= a.Lmax(); ++l) for (int m = 0; m <= l && m <= a.Mmax(); ++m) { v[k].push_back(a(l, m).re); v[k].push_back(a(l, m).im); } }
// <x_i y_j>: zero unless i and j are the same part of the same (l, m)
static void cov(const std::vector<V> &x, const std::vector<V> &y, int lmax, int mmax, const double *c, const char *msg) {
    size_t n = x[0].size(), i = 0;
    for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) for (int p = 0; p < 2; ++p, ++i)
        for (size_t j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < nz; ++k) s += x[k][i] * y[k][j]; vp_assert_near(s, i != j || (m == 0 && p) ? 0 : m ? 0.5 * c[l] : c[l], 1e-3, msg); }
}
template<class T> static void tt(int lmax, int mmax) {
    PowSpec ps(1, lmax + int(vp_choose("more", 0, 1))); double c[8]; for (int l = 0; l <= ps.Lmax(); ++l) { c[l] = vp_real(Name("tt%ld", l), 0, 4); ps.tt(l) = c[l]; }
    nz = 1; std::vector<V> a;
    for (int k = 0; k < nz; ++k) { vp_rng r(k); Alm<xcomplex<T> > x(lmax, mmax); for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) x(l, m).Set(T(7), T(9)); create_alm(ps, x, r); if (!k) nz = int(r.n); a.resize(nz); vp_assert(x.Lmax() == lmax && x.Mmax() == mmax && r.n == nz, "orders are kept"); put(x, k, a); }
    cov(a, a, lmax, mmax, c, "covariance is TT"); for (int l = 0; l <= ps.Lmax(); ++l) vp_assert(ps.tt(l) == c[l], "the spectrum is kept");
}
template<class T> static void pol(int lmax, int mmax) {
    int ns = vp_choose("ns", 0, 1) ? 6 : 4; PowSpec ps(ns, lmax); double ct[8], cg[8], cc[8], cx[8], z[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    static const double corr[] = {0, 1, -1, 0.5, -0.75}; long zero = vp_choose("zero", 0, 3);   // TT, GG or CC vanish at one multipole
    for (int l = 0; l <= lmax; ++l) { double rt = vp_real(Name("rt%ld", l), 0.25, 2), rg = vp_real(Name("rg%ld", l), 0.25, 2), co = l || !vp_param("SYMC", 0) ? corr[(l + vp_param("CO", 0)) % 5] : vp_real("corr", -1, 1); cc[l] = vp_real(Name("cc%ld", l), 0, 4); if (l == lmax / 2) { if (zero == 1) rt = 0; if (zero == 2) rg = 0; if (zero == 3) cc[l] = 0; }
        ct[l] = rt * rt; cg[l] = rg * rg; cx[l] = co * rt * rg; ps.tt(l) = ct[l]; ps.gg(l) = cg[l]; ps.cc(l) = cc[l]; ps.tg(l) = cx[l]; if (ns == 6) ps.tc(l) = ps.gc(l) = 0; }
    nz = 1; std::vector<V> t, g, c;
    for (int k = 0; k < nz; ++k) { vp_rng r(k); Alm<xcomplex<T> > a(lmax, mmax), b(lmax, mmax), d(lmax, mmax); for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) { a(l, m).Set(T(7), T(9)); b(l, m).Set(T(5), T(3)); d(l, m).Set(T(2), T(4)); }
        create_alm_pol(ps, a, b, d, r); if (!k) nz = int(r.n); t.resize(nz); g.resize(nz); c.resize(nz); put(a, k, t); put(b, k, g); put(d, k, c); }
    cov(t, t, lmax, mmax, ct, "covariance of T is TT"); cov(g, g, lmax, mmax, cg, "covariance of G is GG"); cov(c, c, lmax, mmax, cc, "covariance of C is CC"); cov(t, g, lmax, mmax, cx, "covariance of T and G is TG"); cov(t, c, lmax, mmax, z, "T and C are independent"); cov(g, c, lmax, mmax, z, "G and C are independent");
}
extern "C" void cov_main(void) {
    unsigned long live = vp_heap_live(); int lmax = int(vp_choose("lmax", 0, vp_param("L", 2))), mmax = int(vp_choose("mmax", 0, lmax));
    if (vp_param("POL", 0)) { if (vp_choose("prec", 0, 1)) pol<float>(lmax, mmax); else pol<double>(lmax, mmax); } else { if (vp_choose("prec", 0, 1)) tt<float>(lmax, mmax); else tt<double>(lmax, mmax); }
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
extern "C" void incons_main(void) { // spectra that no coefficients can have
    PowSpec ps(4, 1); for (int l = 0; l <= 1; ++l) { ps.tt(l) = 1; ps.gg(l) = 1; ps.cc(l) = 1; ps.tg(l) = 0.5; } int l = int(vp_choose("l", 0, 1)); double tg = vp_real("tg", 1.01, 3), f = vp_real("f", 0.5, 2); if (vp_choose("neg", 0, 1)) tg = -tg; ps.tt(l) = f * f; ps.tg(l) = tg * f;
    Alm<xcomplex<double> > a(1, 1), b(1, 1), d(1, 1); vp_rng r(0); vp_assert(throws([&] { create_alm_pol(ps, a, b, d, r); }), "inconsistent spectra are refused"); vp_reach("done");
}
