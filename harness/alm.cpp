// Alm container (C16), Gaussian smoothing (C17), rotations (C23), power spectra (C24)
#include "common.h"
#include "fakefits.h"
#include "ref.h"
#include "ls_alm.h"
#include "ls_xcomplex.h"
#include "ls_powspec.h"
#include "ls_rotmatrix.h"
#include "ls_constants.h"
#include "ls_alm_powspec_tools.h"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
template<class T> static T rnum(const char *n);
template<> double rnum<double>(const char *n) { return vp_real(n, -1, 1); }
template<> float rnum<float>(const char *n) { return vp_realf(n, -1, 1); }
// ---- C16
template<class T> struct Mod { int L, M; ref::Coef c; Mod() : L(0), M(0) {} };
template<class T> static void fill(Alm<xcomplex<T> > &a, Mod<T> &m, const char *pre, bool im0 = true) {
    m.L = a.Lmax(); m.M = a.Mmax(); m.c = ref::Coef();
    for (int l = 0; l <= m.L; ++l) for (int k = 0; k <= l && k <= m.M; ++k) {
        T re = rnum<T>(Name((std::string(pre) + "r_%ld_%ld").c_str(), l, k)), im = k || im0 ? rnum<T>(Name((std::string(pre) + "i_%ld_%ld").c_str(), l, k)) : T(0);
        a(l, k).Set(re, im); m.c.re[l][k] = re; m.c.im[l][k] = im; }
}
template<class T> static void same(const Alm<xcomplex<T> > &a, const Mod<T> &m, const char *msg, double f = 1) {
    vp_assert(a.Lmax() == m.L && a.Mmax() == m.M, "orders"); vp_assert(a.Alms().size() == Alm_Base::Num_Alms(m.L, m.M), "number of coefficients");
    for (int l = 0; l <= m.L; ++l) for (int k = 0; k <= l && k <= m.M; ++k) { vp_assert_near(a(l, k).re, m.c.re[l][k] * f, 1e-6, msg); vp_assert_near(a(l, k).im, m.c.im[l][k] * f, 1e-6, msg); vp_assert(&a(l, k) == a.mstart(k) + l && &a(l, k) == &a.Alms()[0] + a.index(l, k), "mstart and index agree with the element access"); }
}
#define EACH(m) for (int l = 0; l <= m.L; ++l) for (int k = 0; k <= l && k <= m.M; ++k)
template<class T> static void container(int L, int M) {
    Alm<xcomplex<T> > a(L, M), b(L, M); static Mod<T> ma, mb; fill(a, ma, "a"); fill(b, mb, "b");
    same(a, ma, "elements have storage of their own"); vp_assert(a.conformable(b), "conformable");
    T f = rnum<T>("f"); int op = int(vp_choose("op", 0, 9)), L2 = int(vp_choose("L2", 0, 3)), M2 = int(vp_choose("M2", 0, L2));
    switch (op) {
    case 0: a.Scale(f); EACH(ma) { ma.c.re[l][k] *= f; ma.c.im[l][k] *= f; } break;
    case 1: { arr<double> g(L + 1 + L2); for (int l = 0; l < L + 1 + L2; ++l) g[l] = vp_real(Name("g%ld", l), -2, 2); a.ScaleL(g); EACH(ma) { ma.c.re[l][k] *= g[l]; ma.c.im[l][k] *= g[l]; } break; }
    case 2: { arr<double> g(M + 1 + M2); for (int l = 0; l < M + 1 + M2; ++l) g[l] = vp_real(Name("g%ld", l), -2, 2); a.ScaleM(g); EACH(ma) { ma.c.re[l][k] *= g[k]; ma.c.im[l][k] *= g[k]; } break; }
    case 3: a.Add(b); EACH(ma) { ma.c.re[l][k] += mb.c.re[l][k]; ma.c.im[l][k] += mb.c.im[l][k]; } break;
    case 4: { Alm<xcomplex<T> > c(L2, M2); static Mod<T> mc; fill(c, mc, "c"); vp_assert(throws([&] { c.Add(b); }) == (L != L2 || M != M2), "only conformable coefficients can be added"); if (L != L2 || M != M2) same(c, mc, "a refused addition changes nothing"); else EACH(mc) { mc.c.re[l][k] += mb.c.re[l][k]; mc.c.im[l][k] += mb.c.im[l][k]; } a.swap(c); same(c, ma, "swap"); same(a, mc, "swap"); vp_assert(a.conformable(b) == (L == L2 && M == M2), "conformable"); a.swap(c); break; }
    case 5: a.SetToZero(); ma.c = ref::Coef(); break;
    case 6: a.Add(f); ma.c.re[0][0] += f; break;
    case 7: { a.Set(L2, M2); fill(a, ma, "n"); vp_assert(ma.L == L2 && ma.M == M2, "Set changes the orders"); Alm<xcomplex<T> > e; vp_assert(e.Lmax() == 0 && e.Mmax() == 0 && e.Alms().size() == 1, "default orders"); break; }
    case 8: { tsize n = tsize(vp_choose("n", 0, 11)); arr<xcomplex<T> > d(n); for (tsize i = 0; i < n; ++i) d[i].Set(T(i + 1), -T(i)); const xcomplex<T> *p = n ? &d[0] : nullptr; tsize want = 0; for (int l = 0; l <= L2; ++l) for (int k = 0; k <= l && k <= M2; ++k) ++want;
        vp_assert(throws([&] { a.Set(d, L2, M2); }) == (n != want), "an array of the right size is taken over, any other refused"); if (n == want) { vp_assert(d.size() == 0 && &a.Alms()[0] == p, "the array is taken over"); ma.L = L2; ma.M = M2; int i = 0; for (int k = 0; k <= M2; ++k) for (int l = k; l <= L2; ++l, ++i) { ma.c.re[l][k] = i + 1; ma.c.im[l][k] = -i; } } else vp_assert(d.size() == n, "a refused array is kept"); break; }
    case 9: { arr<double> s(L), t(M); for (int l = 0; l < L; ++l) s[l] = 2; for (int l = 0; l < M; ++l) t[l] = 2; vp_assert(throws([&] { a.ScaleL(s); }) && throws([&] { a.ScaleM(t); }), "too short factor arrays are refused"); vp_assert(throws([&] { Alm_Base::Num_Alms(L, L + 1 + M2); }), "mmax > lmax is refused"); Alm<xcomplex<T> > c(a); c.Scale(f); Alm<xcomplex<T> > d(L2, M2); d = a; d.SetToZero(); break; }
    }
    same(a, ma, "exactly the documented elements change"); same(b, mb, "the other object is unchanged");
}
extern "C" void alm_main(void) {
    unsigned long live = vp_heap_live(); int L = int(vp_choose("L", 0, vp_param("L", 3))), M = int(vp_choose("M", 0, L)); if (vp_param("FLT", 0)) container<float>(L, M); else container<double>(L, M);
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
// storage layout for every lmax
extern "C" void layout_main(void) {
    int L = int(vp_int("L", 0, 46339)), m = int(vp_choose("m", 0, vp_param("MX", 30))), l = int(vp_int("l", 0, 46339)); vp_assume(m <= l && l <= L); Alm_Base a(L, m);
    vp_assert(a.index(0, 0) == 0 && a.index_l0(m) + l == a.index(l, m), "layout starts at 0");
    if (l < L) vp_assert(a.index(l + 1, m) == a.index(l, m) + 1, "coefficients of one m are contiguous"); 
    if (m) vp_assert(a.index(m, m) == a.index(L, m - 1) + 1, "blocks of successive m follow each other");
    vp_assert(long(Alm_Base::Num_Alms(L, m)) == a.index(L, m) + 1, "Num_Alms counts every coefficient once"); vp_reach("done");
}
// ---- C17
template<class T> static void smooth(int L, int M) {
    Alm<xcomplex<T> > a(L, M), b(L, M), c(L, M), d(L, M); static Mod<T> ma, mb, mc; fill(a, ma, "a"); fill(b, mb, "b"); fill(c, mc, "c"); EACH(ma) d(l, k) = a(l, k);
    double w = vp_real("fwhm", 0, 0.6); if (vp_choose("sign", 0, 1)) { w = -w; vp_assume(w < 0); }
    double s2 = w * w / (8 * std::log(2.0)), e = std::exp(-s2); // everything is a power of exp(-sigma^2)
    double g = w >= 0 ? e : std::exp(s2), pf = w >= 0 ? std::exp(2 * s2) : std::exp(-2 * s2); (void)g;
    smoothWithGauss(d, w); smoothWithGauss(a, b, c, w);
    EACH(ma) {
        int n = l * (l + 1) / 2; double x = w >= 0 ? std::exp(-n * s2) : std::exp(n * s2);
        vp_assert_near(d(l, k).re, ma.c.re[l][k] * x, 1e-5, "intensity smoothing"); vp_assert_near(d(l, k).im, ma.c.im[l][k] * x, 1e-5, "intensity smoothing");
        vp_assert_near(a(l, k).re, ma.c.re[l][k] * x, 1e-5, "T smoothing"); vp_assert_near(a(l, k).im, ma.c.im[l][k] * x, 1e-5, "T smoothing");
        vp_assert_near(b(l, k).re, mb.c.re[l][k] * x * pf, 1e-5, "G smoothing"); vp_assert_near(b(l, k).im, mb.c.im[l][k] * x * pf, 1e-5, "G smoothing");
        vp_assert_near(c(l, k).re, mc.c.re[l][k] * x * pf, 1e-5, "C smoothing"); vp_assert_near(c(l, k).im, mc.c.im[l][k] * x * pf, 1e-5, "C smoothing");
    }
    smoothWithGauss(a, b, c, -w); if (w != 0) { same(a, ma, "deconvolution undoes smoothing"); same(b, mb, "deconvolution undoes smoothing"); same(c, mc, "deconvolution undoes smoothing"); }
}
extern "C" void smooth_main(void) { int L = int(vp_choose("L", 0, vp_param("L", 3))), M = int(vp_choose("M", 0, L)); if (vp_choose("flt", 0, 1)) smooth<float>(L, M); else smooth<double>(L, M); vp_reach("done"); }
extern "C" void smoothps_main(void) {
    int L = int(vp_choose("L", 0, 5)), ns = vp_choose("four", 0, 2); ns = ns == 0 ? 1 : ns == 1 ? 4 : 6; PowSpec p(ns, L); double w = vp_real("fwhm", 0, 0.6), s2 = w * w / (8 * std::log(2.0)), e = std::exp(-s2); (void)e;
    double v[6][6]; for (int i = 0; i < ns; ++i) for (int l = 0; l <= L; ++l) v[i][l] = vp_real(Name("c%ld_%ld", i, l), 0, 1);
    for (int l = 0; l <= L; ++l) { p.tt(l) = v[0][l]; if (ns > 1) { p.gg(l) = v[1][l]; p.cc(l) = v[2][l]; p.tg(l) = v[3][l]; } if (ns > 4) { p.tc(l) = v[4][l]; p.gc(l) = v[5][l]; } }
    bool t = throws([&] { p.smoothWithGauss(w); }); vp_assert(t == (ns == 6), "six spectra are refused"); vp_assert(p.Num_specs() == ns && p.Lmax() == L, "size of the spectrum");
    if (!t) for (int l = 0; l <= L; ++l) { double x = std::exp(-double(l * (l + 1)) * s2), y = std::exp(2 * s2); vp_assert_near(p.tt(l), v[0][l] * x, 1e-6, "TT"); if (ns > 1) { vp_assert_near(p.gg(l), v[1][l] * x * y * y, 1e-6, "GG"); vp_assert_near(p.cc(l), v[2][l] * x * y * y, 1e-6, "CC"); vp_assert_near(p.tg(l), v[3][l] * x * y, 1e-6, "TG"); } }
    else for (int l = 0; l <= L; ++l) vp_assert(p.tt(l) == v[0][l] && p.gc(l) == v[5][l], "a refused call changes nothing");
    vp_reach("done");
}
// ---- C23: rotated coefficients a'_lm = sum_k D^l_mk(phi,theta,psi) a_lk
template<class T> static void rotref(const Mod<T> &m, double phi, double th, double psi, Mod<T> &o) {
    o.L = m.L; o.M = m.M; int L = m.L;
    for (int l = 0; l <= L; ++l) for (int k = 0; k <= l; ++k) {
        double re = 0, im = 0;
        for (int n = -l; n <= l; ++n) { double d = ref::wigd(l, k, n, th), ar = ref::cre(m.c, l, n), ai = ref::cim(m.c, l, n), c = std::cos(n * psi), s = -std::sin(n * psi); re += d * (ar * c - ai * s); im += d * (ar * s + ai * c); }
        double c = std::cos(k * phi), s = -std::sin(k * phi); o.c.re[l][k] = re * c - im * s; o.c.im[l][k] = re * s + im * c;
    }
}
template<class T> static void rotate(int L) {
    Alm<xcomplex<T> > a(L, L), b(L, L), c(L, L), d(L, L), e(L, L > 0 ? L - 1 : 0), f(L + 1, L + 1); static Mod<T> ma, mb, mc, wa, wb, wc; fill(a, ma, "a", false); fill(b, mb, "b", false); fill(c, mc, "c", false); EACH(ma) d(l, k) = a(l, k); e.SetToZero(); f.SetToZero();
    double psi = vp_angle("psi", -7, 7, 1), th = vp_angle("theta", -7, 7, 2), phi = vp_angle("phi", -7, 7, 1); int thr = vp_param("POL", 0);
    rotref(ma, phi, th, psi, wa);
    if (!thr) { rotate_alm(d, psi, th, phi); same(d, wa, "rotated coefficients"); }
    else { rotref(mb, phi, th, psi, wb); rotref(mc, phi, th, psi, wc); rotate_alm(a, b, c, psi, th, phi); same(a, wa, "rotated T"); same(b, wb, "rotated G"); same(c, wc, "rotated C"); }
    if (L > 0) vp_assert(throws([&] { rotate_alm(e, psi, th, phi); }), "lmax != mmax is refused"); vp_assert(throws([&] { rotate_alm(a, b, f, psi, th, phi); }) && throws([&] { rotate_alm(a, f, c, psi, th, phi); }), "coefficients of different sizes are refused");
}
extern "C" void rotate_main(void) { int L = int(vp_param("L", 2)); if (vp_param("FLT", 0)) rotate<float>(L); else rotate<double>(L); vp_reach("done"); }
// rotation by a matrix = rotation by its Euler angles; the matrix comes from other angles
template<class T> static void rotmat(int L) {
    static const double q[] = {0.4, -2.3, 3.0, 0, 1.2}, t[] = {0, 3.141592653589793, 0.7, 1e-7, 2.5, 1.5707963267948966};
    double psi = q[vp_choose("psi", 0, 4)], phi = q[vp_choose("phi", 0, 4)], th = t[vp_choose("theta", 0, 5)]; rotmatrix m; m.Make_CPAC_Euler_Matrix(phi, th, psi);
    Alm<xcomplex<T> > a(L, L), b(L, L), c(L, L), d(L, L); static Mod<T> ma, mb, mc, w; fill(a, ma, "a", false); fill(b, mb, "b", false); fill(c, mc, "c", false); EACH(ma) d(l, k) = a(l, k);
    rotate_alm(d, m); rotref(ma, phi, th, psi, w); same(d, w, "rotation by a matrix"); rotate_alm(a, b, c, m); same(a, w, "rotation by a matrix"); rotref(mb, phi, th, psi, w); same(b, w, "rotation by a matrix"); rotref(mc, phi, th, psi, w); same(c, w, "rotation by a matrix");
}
extern "C" void rotmat_main(void) { if (vp_param("FLT", 0)) rotmat<float>(int(vp_param("L", 2))); else rotmat<double>(int(vp_param("L", 2))); vp_reach("done"); }
// ---- C24
template<class T> static double cross(const Mod<T> &a, const Mod<T> &b, int l) { double s = 0; for (int m = -l; m <= l; ++m) { int k = m < 0 ? -m : m; if (k > a.M) continue; s += a.c.re[l][k] * b.c.re[l][k] + a.c.im[l][k] * b.c.im[l][k]; } return s / (2 * l + 1); }
template<class T> static void power(int L, int M) {
    Alm<xcomplex<T> > a(L, M), b(L, M), c(L, M); static Mod<T> ma, mb, mc; fill(a, ma, "a", false); fill(b, mb, "b", false); fill(c, mc, "c", false);
    PowSpec p(vp_choose("old", 0, 1) ? 6 : 1, 3);
    extract_powspec(a, p); vp_assert(p.Num_specs() == 1 && p.Lmax() == L && p.gg().size() == 0 && p.gc().size() == 0, "one spectrum"); p.assertArraySizes(); for (int l = 0; l <= L; ++l) vp_assert_near(p.tt(l), cross(ma, ma, l), 1e-6, "power spectrum");
    extract_crosspowspec(a, b, p); vp_assert(p.Num_specs() == 1 && p.Lmax() == L, "one spectrum"); for (int l = 0; l <= L; ++l) vp_assert_near(p.tt(l), cross(ma, mb, l), 1e-6, "cross power spectrum");
    extract_powspec(a, b, c, p); vp_assert(p.Num_specs() == 6 && p.Lmax() == L, "six spectra"); p.assertArraySizes();
    for (int l = 0; l <= L; ++l) { vp_assert_near(p.tt(l), cross(ma, ma, l), 1e-6, "TT"); vp_assert_near(p.gg(l), cross(mb, mb, l), 1e-6, "GG"); vp_assert_near(p.cc(l), cross(mc, mc, l), 1e-6, "CC"); vp_assert_near(p.tg(l), cross(ma, mb, l), 1e-6, "TG"); vp_assert_near(p.tc(l), cross(ma, mc, l), 1e-6, "TC"); vp_assert_near(p.gc(l), cross(mb, mc, l), 1e-6, "GC"); }
    Alm<xcomplex<T> > d(L + 1, M); d.SetToZero(); PowSpec q(4, 2); vp_assert(throws([&] { extract_crosspowspec(a, d, q); }) && throws([&] { extract_powspec(a, b, d, q); }) && throws([&] { extract_powspec(a, d, c, q); }), "coefficients of different sizes are refused");
    same(a, ma, "the coefficients are unchanged"); same(b, mb, "the coefficients are unchanged");
}
extern "C" void power_main(void) { unsigned long live = vp_heap_live(); int L = int(vp_choose("L", 0, vp_param("L", 3))), M = int(vp_choose("M", 0, L)); if (vp_choose("flt", 0, 1)) power<float>(L, M); else power<double>(L, M); vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done"); }
// PowSpec::Set and the consistency test
extern "C" void powspec_main(void) {
    int n = int(vp_choose("n", 0, 7)), L = int(vp_choose("L", 0, 3)); PowSpec p(1, 1); bool t = throws([&] { p.Set(n, L); }); vp_assert(t == !(n == 1 || n == 4 || n == 6), "1, 4 or 6 spectra");
    if (!t) { vp_assert(p.Num_specs() == n && p.Lmax() == L && p.gg().size() == (n > 1 ? L + 1u : 0u) && p.cc().size() == p.gg().size() && p.tg().size() == p.gg().size() && p.tc().size() == (n > 4 ? L + 1u : 0u) && p.gc().size() == p.tc().size(), "sizes"); p.assertArraySizes(); }
    { // an object with former contents of another kind; a refused Set keeps them
        static const int ns[] = {1, 4, 6}; int o = ns[vp_choose("old", 0, 2)]; PowSpec z, u(o, 2); vp_assert(z.Num_specs() == 0, "a default PowSpec holds no spectra"); for (int l = 0; l <= 2; ++l) u.tt(l) = 5 + l; if (vp_choose("dflt", 0, 1)) { u = z; o = 0; }
        if (throws([&] { u.Set(n, L); })) { vp_assert(u.Num_specs() == o && int(u.tt().size()) == (o ? 3 : 0) && (!o || u.tt(1) == 6), "a refused Set keeps the contents"); }
        else { vp_assert(u.Num_specs() == n && u.Lmax() == L && u.gg().size() == (n > 1 ? L + 1u : 0u) && u.cc().size() == u.gg().size() && u.tg().size() == u.gg().size() && u.tc().size() == (n > 4 ? L + 1u : 0u) && u.gc().size() == u.tc().size(), "no spectra of the former contents are left"); u.assertArraySizes(); }
    }
    arr<double> s[6]; int sz[6]; for (int i = 0; i < 6; ++i) { sz[i] = L + 1; } int odd = int(vp_choose("odd", 0, 6)); if (odd) sz[odd - 1] += 1; double v[6][5]; for (int i = 0; i < 6; ++i) { s[i].alloc(sz[i]); for (int l = 0; l < sz[i]; ++l) s[i][l] = v[i][l] = vp_real(Name("v%ld_%ld", i, l), 0.25, 1); }
    PowSpec q(6, 2); bool four = vp_choose("four", 0, 1); t = throws([&] { if (four) q.Set(s[0], s[1], s[2], s[3]); else q.Set(s[0], s[1], s[2], s[3], s[4], s[5]); }); vp_assert(t == (odd && (odd <= 4 || !four)), "arrays of different sizes are refused");
    if (!t) { vp_assert(q.Num_specs() == (four ? 4 : 6) && q.Lmax() == L && s[0].size() == 0 && s[3].size() == 0 && (four || s[5].size() == 0), "the arrays are taken over"); for (int l = 0; l <= L; ++l) { vp_assert(q.tt(l) == v[0][l] && q.gg(l) == v[1][l] && q.cc(l) == v[2][l] && q.tg(l) == v[3][l], "the values are taken over"); if (!four) vp_assert(q.tc(l) == v[4][l] && q.gc(l) == v[5][l], "the values are taken over"); } }
    vp_reach("done");
}
extern "C" void consist_main(void) {
    int n = int(vp_choose("four", 0, 2)); n = n == 0 ? 1 : n == 1 ? 4 : 6; int l = int(vp_choose("l", 0, 1)); PowSpec p(n, 1); for (int k = 0; k < 2; ++k) { p.tt(k) = 1; if (n > 1) { p.gg(k) = p.cc(k) = 1; p.tg(k) = 0; } if (n > 4) p.tc(k) = p.gc(k) = 0; }
    double t = vp_real("tt", -1, 2), g = vp_real("gg", -1, 2), c = vp_real("cc", -1, 2), tg = vp_real("tg", -2, 2), tc = vp_real("tc", -2, 2), gc = vp_real("gc", -2, 2); p.tt(l) = t; if (n > 1) { p.gg(l) = g; p.cc(l) = c; p.tg(l) = tg; } if (n > 4) { p.tc(l) = tc; p.gc(l) = gc; }
    bool r = p.consistentAutoPowspec(); double eps = 1e-6;
    bool no = t < -eps || (n > 1 && (g < -eps || c < -eps || (t >= 0 && g >= 0 && tg * tg > t * g + eps))) || (n > 4 && t >= 0 && g >= 0 && c >= 0 && (tc * tc > t * c + eps || gc * gc > g * c + eps));
    bool yes = t >= 0 && (n == 1 || (g >= 0 && c >= 0 && tg * tg <= t * g - eps)) && (n < 6 || (tc * tc <= t * c - eps && gc * gc <= g * c - eps));
    if (no) vp_assert(!r, "an impossible auto spectrum is recognised"); if (yes) vp_assert(r, "a possible auto spectrum is accepted"); vp_reach("done");
}
