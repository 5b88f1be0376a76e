// Independent reference for the beam convolution, written from the published definition
//   T(theta,phi,psi) = sum_{l,m,k} s_lm conj(b_lk) d^l_{mk}(theta) e^{i m phi} e^{i k (psi+pi)}
// (psi is the library's position angle; the half turn is its convention)
// sampled on the library's documented grid and interpolated by (order+1)-point Lagrange polynomials.
#pragma once
#include "common.h"
namespace ref {
static const double PI = 3.141592653589793238462643383279502884197;
static double fact(int n) { static double t[2 * 70]; if (t[0] == 0) { t[0] = 1; for (int i = 1; i < 140; ++i) t[i] = t[i - 1] * i; } return t[n]; }
static double powi(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
// Wigner d^l_{mk}(beta), Wigner's explicit sum
static double wigd(int l, int m, int k, double beta) {
    double c = std::cos(beta / 2), s = std::sin(beta / 2), sum = 0;
    double pre = std::sqrt(fact(l + m)) * std::sqrt(fact(l - m)) * std::sqrt(fact(l + k)) * std::sqrt(fact(l - k));
    for (int t = 0; t <= 2 * l; ++t) {
        if (l + k - t < 0 || m - k + t < 0 || l - m - t < 0) continue;
        double sg = ((m - k + t) & 1) ? -1 : 1;
        sum += sg * pre / (fact(l + k - t) * fact(t) * fact(m - k + t) * fact(l - m - t)) * powi(c, 2 * l + k - m - 2 * t) * powi(s, m - k + 2 * t);
    }
    return sum;
}
enum { LX = 66 };
struct Coef { double re[LX + 1][LX + 1], im[LX + 1][LX + 1]; Coef() { for (int l = 0; l <= LX; ++l) for (int m = 0; m <= LX; ++m) re[l][m] = im[l][m] = 0; } };
// a_{l,-m} = (-1)^m conj(a_lm)
static double cre(const Coef &a, int l, int m) { return m >= 0 ? a.re[l][m] : (m & 1) ? -a.re[l][-m] : a.re[l][-m]; }
static double cim(const Coef &a, int l, int m) { return m >= 0 ? a.im[l][m] : (m & 1) ? a.im[l][-m] : -a.im[l][-m]; }
struct Input { int ncomp; Coef s[3], b[3]; };
// d[l] = d^l_{mk}(beta) for l = 0..lmax: the explicit sum, above l = 12 the three-term recursion in l started from it
static void wigs(int lmax, int m, int k, double beta, double *d) {
    int l0 = m < 0 ? -m : m; if (k > l0) l0 = k; if (-k > l0) l0 = -k;
    double cb = std::cos(beta);
    for (int l = 0; l <= lmax; ++l) {
        if (l < l0) d[l] = 0;
        else if (l <= 12 || l <= l0 + 1) d[l] = wigd(l, m, k, beta);
        else { double j = l - 1; d[l] = ((2 * j + 1) * (j * (j + 1) * cb - m * k) * d[l - 1] - (j + 1) * std::sqrt((j * j - m * m) * (j * j - k * k)) * d[l - 2]) / (j * std::sqrt(((j + 1) * (j + 1) - m * m) * ((j + 1) * (j + 1) - k * k))); }
    }
}
// first multipole the generator reports for d^l_{k,m}(theta) with cut-off 1e-30 (used only to describe finding F-POLE)
static int firstl(int lmax, int k, int m, double theta) {
    double t = std::fabs(theta - 2 * PI * std::floor((theta + PI) / (2 * PI))), d[LX + 1]; if (t == 0) t = 1e-16; if (std::fabs(t - PI) < 1e-15) t = PI - 1e-15;
    int l = m < 0 ? -m : m; if (k > l) l = k;
    wigs(lmax, k, m, t, d);
    if (l <= lmax && std::fabs(d[l]) < 0x1p-450) return lmax + 1;   // below the generator's number range
    while (l < lmax - 1) { if (std::fabs(d[l]) > 1e-30) return l; if (std::fabs(d[l + 1]) > 1e-30) return l + 1; l += 2; }
    if (l <= lmax && std::fabs(d[l]) <= 1e-30) ++l;
    return l;
}
// Fourier coefficients in psi (k>=0) of T on one ring: C_k(theta,phi) = sum_m A[m] e^{im phi}; T = Re C_0 + 2 sum_k Re(C_k e^{ik psi})
struct Ring { double re[2 * LX + 1], im[2 * LX + 1]; };
static void ringCoef(const Input &in, int lmax, int k, double theta, Ring &A, double ring = 0, bool pole = false) {
    double d[LX + 1];
    for (int m = -lmax; m <= lmax; ++m) {
        double ar = 0, ai = 0; int l0 = m < 0 ? -m : m; if (k > l0) l0 = k;
        if (pole) { int a = firstl(lmax, k, m, ring), b = firstl(lmax, k, -m, ring); if (a > l0) l0 = a; if (b > l0) l0 = b; }
        wigs(lmax, m, k, theta, d);
        for (int l = l0; l <= lmax; ++l)
            for (int c = 0; c < in.ncomp; ++c) {
                double sr = cre(in.s[c], l, m), si = cim(in.s[c], l, m), br = cre(in.b[c], l, k), bi = cim(in.b[c], l, k);
                ar += d[l] * (sr * br + si * bi); ai += d[l] * (si * br - sr * bi);
            }
        A.re[m + lmax] = ar; A.im[m + lmax] = ai;
    }
}
static void lagrange(double x, int n, double *w) { for (int m = 0; m < n; ++m) { w[m] = 1; for (int j = 0; j < n; ++j) if (j != m) w[m] = w[m] * (x - j) / (m - j); } }
struct Grid { int lmax, mmax, order; int np, nphi, hm, nth; double dphi, dth, th0;
    Grid(int lmax, int mmax, int order) : lmax(lmax), mmax(mmax), order(order) { np = order + 1; nphi = 2 * lmax + 1; hm = np / 2 + 1; dphi = 2 * PI / nphi; dth = -PI / (lmax + 1); th0 = PI - hm * dth; nth = lmax + 1 + 2 * hm; } };
static double firstring(const Grid &g, double theta, int &it) {
    double tn = theta > PI / 2 ? PI - theta : theta, ft = (tn - g.th0) / g.dth; it = int(vp_fix(int(ft))) - g.order / 2;
    if (it > g.nth - g.np) it = g.nth - g.np; if (it < 0) it = 0; return ft - it;
}
// does the stencil of this sample contain a ring so near a pole that some matrix elements are below the generator's cut-off?
static bool polar(const Grid &g, double theta) {
    int it; firstring(g, theta, it);
    for (int a = 0; a < g.np; ++a) { double th = g.th0 + (it + a) * g.dth, x = std::fabs(std::sin(th / 2)), y = std::fabs(std::cos(th / 2)); if (x > y) x = y; if (x < 1e-9 || powi(x, g.lmax + g.mmax) < 1e-25) return true; }
    return false;
}
// convolved signal as the library must report it (before calibration); cos/sin of k*psi given by the caller
static double signal(const Input &in, const Grid &g, double theta, double phi, const double *ck, const double *sk, bool pole = false) {
    bool south = theta >= PI / 2; int it; double ft = firstring(g, theta, it);
    double wt[40], wp[40]; lagrange(ft, g.np, wt);
    double fp = (phi - PI / 2) / g.dphi; int ip = int(vp_fix(long(std::floor(fp)))) - g.order / 2;
    lagrange(fp - ip, g.np, wp);
    double tot = 0;
    for (int a = 0; a < g.np; ++a) {
        double th = g.th0 + (it + a) * g.dth, ring = th; if (south) th = PI - th;
        for (int k = 0; k <= g.mmax; ++k) {
            static Ring A; ringCoef(in, g.lmax, k, th, A, ring, pole);
            for (int c = 0; c < g.np; ++c) {
                double ph = PI / 2 + (ip + c) * g.dphi, R = 0, I = 0;
                for (int m = -g.lmax; m <= g.lmax; ++m) { double cp = std::cos(m * ph), sp = std::sin(m * ph); const double &x = A.re[m + g.lmax], &y = A.im[m + g.lmax]; R += x * cp - y * sp; I += x * sp + y * cp; }
                double v = k == 0 ? R : (k & 1 ? -2 : 2) * (ck[k] * R - sk[k] * I);
                tot += wt[a] * wp[c] * v;
            }
        }
    }
    return tot;
}
}
