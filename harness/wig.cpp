// Wigner matrices: l-recursion generators (C21) and Risbo recursions (C22) against Wigner's explicit sum
#include "common.h"
#include "fakefits.h"
#include "ref.h"
#include "ls_wigner.h"
using namespace levels;
static const double PI = ref::PI;
// ---- C22
template<class R> static void risbo(R &r, int L, double th, const char *msg) {
    for (int l = 0; l <= L; ++l) { const arr2<double> &d(r.recurse()); for (int i = 0; i <= l; ++i) for (int j = 0; j <= 2 * l; ++j) vp_assert_near(d[i][j], ref::wigd(l, l - i, l - j, th), 1e-7, msg); }
}
template<class R> static void halfpi(R &r, int L, const char *msg) {
    for (int l = 0; l <= L; ++l) { const arr2<double> &d(r.recurse()); for (int i = 0; i <= l; ++i) for (int j = 0; j <= l; ++j) vp_assert_near(d[i][j], ref::wigd(l, l - i, l - j, PI / 2), 1e-7, msg); }
}
extern "C" void risbo_main(void) {
    unsigned long live = vp_heap_live(); int L = int(vp_param("L", 3)), A = int(vp_choose("lmax", L, L + 2));
    { double th = vp_angle("theta", -7, 7, 2); wigner_d_risbo_scalar s(A, th); wigner_d_risbo_openmp o(A, th); risbo(s, L, th, "scalar Risbo recursion"); risbo(o, L, th, "parallel Risbo recursion"); }
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
extern "C" void halfpi_main(void) { int L = int(vp_choose("L", 0, vp_param("L", 14))); wigner_d_halfpi_risbo_scalar s(L); wigner_d_halfpi_risbo_openmp o(L); halfpi(s, L, "scalar Risbo recursion at pi/2"); halfpi(o, L, "parallel Risbo recursion at pi/2"); vp_reach("done"); }
// ---- C21
static void below(double v, double eps, const char *msg) { vp_assert(v <= eps + 1e-9 && v >= -eps - 1e-9, msg); }
static void gen(wignergen &g, int L, int m1, int m2, const double *th, int n, double eps) {
    g.prepare(m1, m2); int hi = std::max(std::abs(m1), std::abs(m2));
    for (int i = 0; i < n; ++i) { int f = -1; const arr<double> &r(g.calc(i, f)); vp_assert(f >= hi && f <= L + 1, "first l lies between max(|m1|,|m2|) and lmax+1"); for (int l = hi; l <= L; ++l) if (l < f) below(ref::wigd(l, m1, m2, th[i]), eps, "left out values are below the threshold"); else vp_assert_near(r[l], ref::wigd(l, m1, m2, th[i]), 1e-7, "Wigner matrix element"); }
#ifdef __SSE2__
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (n > 2 && j != (i + 1) % n && j != i) continue;
        int f = -1; const arr_align<V2df, 16> &r(g.calc(i, j, f)); vp_assert(f >= hi && f <= L + 1, "first l lies between max(|m1|,|m2|) and lmax+1");
        for (int l = hi; l <= L; ++l) if (l < f) { below(ref::wigd(l, m1, m2, th[i]), eps, "left out values are below the threshold"); below(ref::wigd(l, m1, m2, th[j]), eps, "left out values are below the threshold"); }
            else { double a, b; r[l].writeTo(a, b); vp_assert_near(a, ref::wigd(l, m1, m2, th[i]), eps + 1e-7, "Wigner matrix element, first of a pair"); vp_assert_near(b, ref::wigd(l, m1, m2, th[j]), eps + 1e-7, "Wigner matrix element, second of a pair"); }
    }
#endif
}
// symbolic angles; the threshold (EPS in 1e-6) decides which elements are left out
extern "C" void gen_main(void) {
    int L = int(vp_param("L", 3)), n = int(vp_param("N", 1)), M = int(vp_param("M", L)); double eps = vp_param("EPS", 0) ? 1e-6 * vp_param("EPS", 0) : 1e-30, lo = 1e-3 * vp_param("LO", 100), hi = 1e-3 * vp_param("HI", 3040);
    double th[4]; arr<double> t(n); for (int i = 0; i < n; ++i) { th[i] = vp_angle(Name("theta%ld", i), lo, hi, 2); t[i] = th[i]; }
    int a = int(vp_choose("m1", -M, M)), b = int(vp_choose("m2", -M, M)); wignergen g(L, t, eps); gen(g, L, a, b, th, n, eps);
    // the generator keeps parts of its tables between calls
    if (vp_param("SEQ", 0)) { int k = int(vp_choose("next", 0, 7)), c = k & 1 ? -a : a, d = k & 2 ? -b : b; if (k & 4) std::swap(c, d); gen(g, L, c, d, th, n, eps); if (L > 1) { gen(g, L, 1, b == 1 ? 0 : b, th, n, eps); gen(g, L, d, c, th, n, eps); } }
    vp_reach("done");
}
// concrete angles over the whole circle, large l: underflow, poles, both signs
extern "C" void far_main(void) {
    static const double tab[] = {0, PI, 1e-9, 1e-3, PI - 1e-3, 0.02, PI - 0.02, 0.3, PI / 2, 2.6, -0.5, -PI, -1e-3, 2 * PI, 4.0, 6.2, -5.9}; int n = 17; arr<double> t(n); for (int i = 0; i < n; ++i) t[i] = tab[i];
    int L = int(vp_param("L", 17)), a = int(vp_choose("m1", -L, L)), b = int(vp_choose("m2", -L, L)); double eps = 1e-30; wignergen g(L, t, eps); g.prepare(a, b); int hi = std::max(std::abs(a), std::abs(b));
    double sc = 0; (void)sc;
    for (int i = 0; i < n; ++i) { int f, f2; const arr<double> &r(g.calc(i, f)); int j = (i + 3) % n; const arr_align<V2df, 16> &q(g.calc(i, j, f2));
        for (int l = hi; l <= L; ++l) { double w = ref::wigd(l, a, b, t[i]), w2 = ref::wigd(l, a, b, t[j]), x, y; if (l < f) below(w, 1e-12, "left out values are negligible"); else vp_assert_near(r[l], w, 1e-6, "Wigner matrix element"); if (l < f2) { below(w, 1e-12, "left out values are negligible"); below(w2, 1e-12, "left out values are negligible"); } else { q[l].writeTo(x, y); vp_assert_near(x, w, 1e-6, "Wigner matrix element, first of a pair"); vp_assert_near(y, w2, 1e-6, "Wigner matrix element, second of a pair"); } } }
    vp_reach("done");
}
// large l: the recursion starts far below the range of double and grows into it (the oracle works in long double)
static long double lpow(long double x, int n) { long double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static void deepRef(int L, int m, int k, double th, long double *d) {
    int l0 = std::max(std::abs(m), std::abs(k)); long double c = cosl(0.5L * th), s = sinl(0.5L * th), cb = cosl((long double)th);
    for (int l = 0; l <= L && l < l0; ++l) d[l] = 0;
    int e = l0 == std::abs(m) ? (m > 0 ? k : -k) : (k > 0 ? m : -m); bool neg = l0 == std::abs(m) ? m > 0 && ((m - k) & 1) : k <= 0 && ((m - k) & 1);
    long double b = 1; for (int i = 1; i <= l0 - e; ++i) b *= (long double)(l0 + e + i) / i;
    if (l0 <= L) d[l0] = (neg ? -1 : 1) * sqrtl(b) * lpow(c, l0 + e) * lpow(s, l0 - e);
    for (int l = l0 + 1; l <= L; ++l) { long double j = l - 1;
        d[l] = j == 0 ? cb : ((2 * j + 1) * (j * (j + 1) * cb - m * k) * d[l - 1] - (l - 1 > l0 ? (j + 1) * sqrtl((j * j - m * m) * (j * j - k * k)) * d[l - 2] : 0)) / (j * sqrtl(((j + 1) * (j + 1) - m * m) * ((j + 1) * (j + 1) - k * k))); }
}
extern "C" void deep_main(void) {
    static const int q[][2] = {{40, -40}, {60, -59}, {-30, 30}, {70, 3}, {2, -65}, {-50, -20}, {64, -64}, {45, -44}, {0, 0}, {100, -99}, {1, 90}, {90, 89}, {92, -92}, {-90, 90}}; static const double tab[] = {0.05, 0.3, 3.0, 1.2, 0.32, PI - 0.05, -0.4, 2.2, 0.02, 5.8, 0.9}; int n = 11, x = int(vp_choose("case", 0, 13)), L = x > 11 ? int(vp_choose("L", 0, 1)) ? 703 : 660 : int(vp_choose("L", 0, 1)) ? 301 : 220; arr<double> t(n); for (int i = 0; i < n; ++i) t[i] = tab[i];
    int a = q[x][0], b = q[x][1], hi = std::max(std::abs(a), std::abs(b)); double eps = 1e-30; wignergen g(L, t, eps); wignergen_scalar s(L, t, eps); g.prepare(a, b); s.prepare(a, b);
    static long double d[11][704]; for (int i = 0; i < n; ++i) deepRef(L, a, b, t[i], d[i]);
    for (int i = 0; i < n; ++i) { int f, f2, f3, j = (i + 3) % n; const arr<double> &r(g.calc(i, f)); const arr<double> &r3(s.calc(i, f3)); const arr_align<V2df, 16> &p(g.calc(i, j, f2));
        for (int l = hi; l <= L; ++l) { double w = double(d[i][l]), w2 = double(d[j][l]), u, v;
            if (l < f) below(w, 1e-12, "left out values are negligible"); else vp_assert_near(r[l], w, 1e-7, "Wigner matrix element");
            if (l < f3) below(w, 1e-12, "left out values are negligible"); else vp_assert_near(r3[l], w, 1e-7, "Wigner matrix element, scalar generator");
            if (l < f2) { below(w, 1e-12, "left out values are negligible"); below(w2, 1e-12, "left out values are negligible"); } else { p[l].writeTo(u, v); vp_assert_near(u, w, 1e-7, "Wigner matrix element, first of a pair"); vp_assert_near(v, w2, 1e-7, "Wigner matrix element, second of a pair"); } } }
    vp_reach("done");
}
