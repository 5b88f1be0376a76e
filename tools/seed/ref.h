// Independent reference for the beam convolution, written from the published definition
//   T(theta,phi,psi) = sum_{l,m,k} s_lm conj(b_lk) d^l_{mk}(theta) e^{i m phi} e^{i k (psi+pi)}
// (psi is the library's position angle; the half turn is its convention)
// sampled on the library's documented grid and interpolated by (order+1)-point Lagrange polynomials.
#pragma once

namespace ref {
static const double PI = 3.141592653589793238462643383279502884197;
static double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static double powi(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
// Wigner d^l_{mk}(beta), Wigner's explicit sum
static double wigd(int l, int m, int k, double beta) {
    double c = std::cos(beta / 2), s = std::sin(beta / 2), sum = 0;
    double pre = std::sqrt(fact(l + m) * fact(l - m) * fact(l + k) * fact(l - k));
    for (int t = 0; t <= 2 * l; ++t) {
        if (l + k - t < 0 || m - k + t < 0 || l - m - t < 0) continue;
        double sg = ((m - k + t) & 1) ? -1 : 1;
        sum += sg * pre / (fact(l + k - t) * fact(t) * fact(m - k + t) * fact(l - m - t)) * powi(c, 2 * l + k - m - 2 * t) * powi(s, m - k + 2 * t);
    }
    return sum;
}
enum { LX = 17 };
struct Coef { double re[LX + 1][LX + 1], im[LX + 1][LX + 1]; Coef() { for (int l = 0; l <= LX; ++l) for (int m = 0; m <= LX; ++m) re[l][m] = im[l][m] = 0; } };
// a_{l,-m} = (-1)^m conj(a_lm)
static double cre(const Coef &a, int l, int m) { return m >= 0 ? a.re[l][m] : (m & 1) ? -a.re[l][-m] : a.re[l][-m]; }
static double cim(const Coef &a, int l, int m) { return m >= 0 ? a.im[l][m] : (m & 1) ? a.im[l][-m] : -a.im[l][-m]; }
struct Input { int ncomp; Coef s[3], b[3]; };
// first multipole the generator reports for d^l_{k,m}(theta) with cut-off 1e-30 (used only to describe finding F-POLE)
static int firstl(int lmax, int k, int m, double theta) {
    double t = std::fabs(theta - 2 * PI * std::floor((theta + PI) / (2 * PI))); if (t == 0) t = 1e-16; if (std::fabs(t - PI) < 1e-15) t = PI - 1e-15;
    int l = m < 0 ? -m : m; if (k > l) l = k;
    if (l <= lmax && std::fabs(wigd(l, k, m, t)) < 0x1p-450) return lmax + 1;   // below the generator's number range
    while (l < lmax - 1) { if (std::fabs(wigd(l, k, m, t)) > 1e-30) return l; if (std::fabs(wigd(l + 1, k, m, t)) > 1e-30) return l + 1; l += 2; }
    if (l <= lmax && std::fabs(wigd(l, k, m, t)) <= 1e-30) ++l;
    return l;
}
// Fourier coefficient in psi (k>=0) of T at (theta,phi); T = Re C_0 + 2 sum_k Re(C_k e^{ik psi})
static void psiCoef(const Input &in, int lmax, int k, double theta, double phi, double &Re, double &Im, double ring = 0, bool pole = false) {
    Re = Im = 0;
    for (int m = -lmax; m <= lmax; ++m) {
        double ar = 0, ai = 0; int l0 = 0;
        if (pole) { int a = firstl(lmax, k, m, ring), b = firstl(lmax, k, -m, ring); l0 = a > b ? a : b; }
        for (int l = l0; l <= lmax; ++l) {
            if (l < (m < 0 ? -m : m) || l < k) continue;
            double d = wigd(l, m, k, theta);
            for (int c = 0; c < in.ncomp; ++c) {
                double sr = cre(in.s[c], l, m), si = cim(in.s[c], l, m), br = cre(in.b[c], l, k), bi = cim(in.b[c], l, k);
                ar += d * (sr * br + si * bi); ai += d * (si * br - sr * bi);
            }
        }
        double cp = std::cos(m * phi), sp = std::sin(m * phi);
        Re += ar * cp - ai * sp; Im += ar * sp + ai * cp;
    }
}
static void lagrange(double x, int n, double *w) { for (int m = 0; m < n; ++m) { w[m] = 1; for (int j = 0; j < n; ++j) if (j != m) w[m] = w[m] * (x - j) / (m - j); } }
struct Grid { int lmax, mmax, order; int np, nphi, hm, nth; double dphi, dth, th0;
    Grid(int lmax, int mmax, int order) : lmax(lmax), mmax(mmax), order(order) { np = order + 1; nphi = 2 * lmax + 1; hm = np / 2 + 1; dphi = 2 * PI / nphi; dth = -PI / (lmax + 1); th0 = PI - hm * dth; nth = lmax + 1 + 2 * hm; } };
static double firstring(const Grid &g, double theta, int &it) {
    double tn = theta > PI / 2 ? PI - theta : theta, ft = (tn - g.th0) / g.dth; it = int(vp_fix(int(ft))) - g.order / 2;
    if (it > g.nth - g.np) it = g.nth - g.np; if (it < 0) it = 0; return ft - it;
}
// does the stencil of this sample contain a ring (numerically) at a pole?
static bool polar(const Grid &g, double theta) {
    int it; firstring(g, theta, it);
    for (int a = 0; a < g.np; ++a) { double th = g.th0 + (it + a) * g.dth; if (std::fabs(th) < 1e-9 || std::fabs(th - PI) < 1e-9) return true; }
    return false;
}
// convolved signal as the library must report it (before calibration); cos/sin of k*psi given by the caller
static double signal(const Input &in, const Grid &g, double theta, double phi, const double *ck, const double *sk, bool pole = false) {
    bool south = theta >= PI / 2; int it; double ft = firstring(g, theta, it);
    double wt[24], wp[24]; lagrange(ft, g.np, wt);
    double fp = (phi - PI / 2) / g.dphi; int ip = int(vp_fix(long(std::floor(fp)))) - g.order / 2;
    lagrange(fp - ip, g.np, wp);
    double tot = 0;
    for (int a = 0; a < g.np; ++a) {
        double th = g.th0 + (it + a) * g.dth, ring = th; if (south) th = PI - th;
        for (int c = 0; c < g.np; ++c) {
            double ph = PI / 2 + (ip + c) * g.dphi;
            for (int k = 0; k <= g.mmax; ++k) {
                double R, I; psiCoef(in, g.lmax, k, th, ph, R, I, ring, pole);
                double v = k == 0 ? R : (k & 1 ? -2 : 2) * (ck[k] * R - sk[k] * I);
                tot += wt[a] * wp[c] * v;
            }
        }
    }
    return tot;
}
}
