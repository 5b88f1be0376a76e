// FFTs: complex (C18), real in three storage schemes (C19), plans copied, assigned, resized and reused (C20)
#include "common.h"
#include "fakefits.h"
#include "ls_fft.h"
#include "ls_fftpack_support.h"
using namespace levels;
static const double PI = 3.141592653589793238462643383279502884;
struct Sig { int n; std::vector<double> re, im; };
static Sig fresh(const char *p, int n, bool real) {
    Sig s; s.n = n; s.re.resize(n); s.im.resize(n); int k = int(vp_param("K", 0));   // with K only some elements are symbolic, the others fixed
    for (int i = 0; i < n; ++i) { bool cst = k && (i * 13 + 5) % n >= k; s.re[i] = cst ? 0.5 * ((i * 7 + 3) % 11) - 2 : vp_real(Name((std::string(p) + "_re%ld").c_str(), i), -1, 1); s.im[i] = real ? 0 : cst ? 0.25 * ((i * 5 + 1) % 13) - 1 : vp_real(Name((std::string(p) + "_im%ld").c_str(), i), -1, 1); }
    return s;
}
static Sig dft(const Sig &s, int sign) {
    Sig r; r.n = s.n; r.re.resize(s.n); r.im.resize(s.n);
    std::vector<double> c(s.n), q(s.n); for (int i = 0; i < s.n; ++i) { c[i] = std::cos(2 * PI * i / s.n); q[i] = sign * std::sin(2 * PI * i / s.n); }
    for (int k = 0; k < s.n; ++k) { double a = 0, b = 0; for (int j = 0; j < s.n; ++j) { int t = int((long(j) * k) % s.n); a += s.re[j] * c[t] - s.im[j] * q[t]; b += s.re[j] * q[t] + s.im[j] * c[t]; } r.re[k] = a; r.im[k] = b; }
    return r;
}
static void put(double *d, const Sig &s) { for (int i = 0; i < s.n; ++i) { d[2 * i] = s.re[i]; d[2 * i + 1] = s.im[i]; } }
static void check(const double *d, const Sig &w, const char *msg) { double tol = 1e-8 * (w.n < 8 ? 8 : w.n); for (int i = 0; i < w.n; ++i) { vp_assert_near(d[2 * i], w.re[i], tol, msg); vp_assert_near(d[2 * i + 1], w.im[i], tol, msg); } }

extern "C" void complex_main(void) {
    int lo = int(vp_param("N0", 1)), hi = int(vp_param("N1", 8)), n = int(vp_choose("n", lo, hi)); unsigned long live = vp_heap_live();
    {
        Sig x = fresh("x", n, false), f = dft(x, -1), b = dft(x, 1); std::vector<double> d(2 * n + 4); for (int i = 0; i < 4; ++i) d[i < 2 ? i : 2 * n + i] = 77;
        complex_plan p = make_complex_plan(n);
        put(&d[2], x); complex_plan_forward(p, &d[2]); check(&d[2], f, "complex forward transform equals the DFT");
        put(&d[2], x); complex_plan_backward(p, &d[2]); check(&d[2], b, "complex backward transform equals the inverse DFT without normalisation");
        vp_assert(d[0] == 77 && d[1] == 77 && d[2 * n + 2] == 77 && d[2 * n + 3] == 77, "nothing outside the data is written");
        kill_complex_plan(p);
    }
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
extern "C" void real_main(void) {
    int lo = int(vp_param("N0", 1)), hi = int(vp_param("N1", 8)), n = int(vp_choose("n", lo, hi)), h = (n + 1) / 2; unsigned long live = vp_heap_live(); double tol = 1e-8 * (n < 8 ? 8 : n);
    {
        Sig x = fresh("x", n, true), f = dft(x, -1); std::vector<double> e(2 * n + 2, 77.), w(n); double *d = &e[1];
        real_plan p = make_real_plan(n);
        auto fp = [&](const double *v, const char *m) { vp_assert_near(v[0], f.re[0], tol, m); for (int k = 1; k < h; ++k) { vp_assert_near(v[2 * k - 1], f.re[k], tol, m); vp_assert_near(v[2 * k], f.im[k], tol, m); } if (n % 2 == 0) vp_assert_near(v[n - 1], f.re[n / 2], tol, m); };
        auto hc = [&](const double *v, const char *m) { vp_assert_near(v[0], f.re[0], tol, m); for (int k = 1; k < h; ++k) { vp_assert_near(v[k], f.re[k], tol, m); vp_assert_near(v[n - k], f.im[k], tol, m); } if (n % 2 == 0) vp_assert_near(v[n / 2], f.re[n / 2], tol, m); };
        auto edge = [&](int k) { vp_assert(e[0] == 77 && d[k] == 77, "nothing outside the data is written"); };
        for (int i = 0; i < n; ++i) d[i] = x.re[i];
        real_plan_forward_fftpack(p, d); fp(d, "real forward transform, FFTPACK storage"); edge(n);
        for (int i = 0; i < n; ++i) d[i] = x.re[i];
        real_plan_forward_fftw(p, d); hc(d, "real forward transform, half-complex storage"); edge(n);
        for (int i = 0; i < n; ++i) { d[2 * i] = x.re[i]; d[2 * i + 1] = 5 + i; }
        real_plan_forward_c(p, d); check(d, f, "real forward transform, full complex storage"); edge(2 * n);
        // backward: any half-complex spectrum y
        Sig y; y.n = n; y.re.assign(n, 0); y.im.assign(n, 0);
        y.re[0] = vp_real("y_re0", -1, 1); for (int k = 1; k < h; ++k) { bool cst = vp_param("K", 0) && (k * 13 + 5) % n >= vp_param("K", 0); y.re[k] = y.re[n - k] = cst ? 0.5 * ((k * 7 + 3) % 11) - 2 : vp_real(Name("y_re%ld", k), -1, 1); y.im[k] = cst ? 0.25 * ((k * 5 + 1) % 13) - 1 : vp_real(Name("y_im%ld", k), -1, 1); y.im[n - k] = -y.im[k]; } if (n % 2 == 0 && n > 1) y.re[n / 2] = vp_real("y_nyq", -1, 1);
        Sig g = dft(y, 1);
        for (int i = 0; i < 2 * n; ++i) d[i] = 77;
        d[0] = y.re[0]; for (int k = 1; k < h; ++k) { d[2 * k - 1] = y.re[k]; d[2 * k] = y.im[k]; } if (n % 2 == 0) d[n - 1] = y.re[n / 2];
        real_plan_backward_fftpack(p, d); for (int i = 0; i < n; ++i) vp_assert_near(d[i], g.re[i], tol, "real backward transform, FFTPACK storage"); edge(n);
        d[0] = y.re[0]; for (int k = 1; k < h; ++k) { d[k] = y.re[k]; d[n - k] = y.im[k]; } if (n % 2 == 0) d[n / 2] = y.re[n / 2];
        real_plan_backward_fftw(p, d); for (int i = 0; i < n; ++i) vp_assert_near(d[i], g.re[i], tol, "real backward transform, half-complex storage"); edge(n);
        for (int i = 0; i < n; ++i) { d[2 * i] = y.re[i]; d[2 * i + 1] = y.im[i]; }
        real_plan_backward_c(p, d); for (int i = 0; i < n; ++i) { vp_assert_near(d[2 * i], g.re[i], tol, "real backward transform, full complex storage"); vp_assert_near(d[2 * i + 1], 0, tol, "real backward transform, full complex storage"); } edge(2 * n);
        kill_real_plan(p);
    }
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
// C20
static void useC(cfft &c, int n, const char *nm, const char *msg) { vp_assert(int(c.size()) == n, "plan size"); Sig x = fresh(nm, n, false); std::vector<double> d(2 * n); put(&d[0], x); c.forward(&d[0]); check(&d[0], dft(x, -1), msg); put(&d[0], x); c.backward(&d[0]); check(&d[0], dft(x, 1), msg); }
static void useR(rfft &c, int n, const char *nm, const char *msg) {
    vp_assert(int(c.size()) == n, "plan size"); Sig x = fresh(nm, n, true); arr<xcomplex<double> > a(n); for (int i = 0; i < n; ++i) a[i].Set(x.re[i], 3 + i);
    c.forward_c(a); check(&a[0].re, dft(x, -1), msg); c.backward_c(a); for (int i = 0; i < n; ++i) { vp_assert_near(a[i].re, n * x.re[i], 1e-6, msg); vp_assert_near(a[i].im, 0, 1e-6, msg); }
    arr<double> b(n); for (int i = 0; i < n; ++i) b[i] = x.re[i]; c.forward_fftpack(b); vp_assert_near(b[0], dft(x, -1).re[0], 1e-6, msg); c.backward_fftpack(b); for (int i = 0; i < n; ++i) vp_assert_near(b[i], n * x.re[i], 1e-6, msg);
}
template<class F, class U> static void life(U use, int a, int b) {
    F *p = new F(a), c(*p), d, e(b), f(b);
    use(c, a, "x1", "copy-constructed plan"); d = *p; e = *p; f = f;
    delete p;                                             // the copies own their work space
    use(c, a, "x2", "copy after the original is gone"); use(d, a, "x3", "assigned plan"); use(e, a, "x4", "plan assigned over another size"); use(f, b, "x5", "self-assigned plan");
    c.Set(b); use(c, b, "x6", "plan set to another size"); c.Set(a); use(c, a, "x7", "plan set back"); c.Set(a); use(c, a, "x8", "plan set to the same size");
    d = f; use(d, b, "x9", "assigned again"); use(f, b, "x10", "source of an assignment"); F g, h(g); h = g; h.Set(a); use(h, a, "x11", "empty plan set"); g = h; h = F(); h = F(b); use(g, a, "x12", "assigned from a plan replaced since"); use(h, b, "x13", "assigned over an emptied plan");
}
extern "C" void life_main(void) {
    unsigned long live = vp_heap_live(); int a = int(vp_choose("a", 1, vp_param("A", 7))), b = int(vp_choose("b", 1, vp_param("A", 7))); if (vp_param("BIG", 0) && vp_choose("big", 0, 1)) b = int(vp_param("BIG", 0));
    life<cfft>(useC, a, b); life<rfft>(useR, a, b);
    { // C plans: interleaved use of an original and its copy
        complex_plan p = make_complex_plan(a), q = copy_complex_plan(p); Sig x = fresh("u", a, false), y = fresh("v", a, false); std::vector<double> d(2 * a), e(2 * a); put(&d[0], x); put(&e[0], y);
        complex_plan_forward(p, &d[0]); complex_plan_forward(q, &e[0]); complex_plan_backward(p, &d[0]); for (int i = 0; i < a; ++i) vp_assert_near(d[2 * i], a * x.re[i], 1e-6, "interleaved use of a plan and its copy"); check(&e[0], dft(y, -1), "interleaved use of a plan and its copy"); kill_complex_plan(p);
        put(&e[0], y); complex_plan_forward(q, &e[0]); check(&e[0], dft(y, -1), "copy after the original is gone"); kill_complex_plan(q); vp_assert(copy_complex_plan(0) == 0 && copy_real_plan(0) == 0, "copy of no plan is no plan");
    }
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
// plans made, copied and used by several threads at once
extern "C" void thread_main(void) {
    int T = vp_threads(), n = int(vp_param("N", 12)); Sig x[4], f[4], b[4]; std::vector<double> d[4], r[4], rf[4];
    for (int t = 0; t < T; ++t) { x[t] = fresh((const char *)Name("x%ld", t), n, false); f[t] = dft(x[t], -1); b[t] = dft(x[t], 1); d[t].resize(2 * n); put(&d[t][0], x[t]); r[t].resize(2 * n); for (int i = 0; i < n; ++i) r[t][2 * i] = x[t].re[i]; }
    #pragma omp parallel for schedule(static, 1)
    for (int t = 0; t < T; ++t) {
        cfft p(n); p.forward(&d[t][0]); cfft q(p); rf[t] = d[t]; put(&d[t][0], x[t]); q.backward(&d[t][0]);
        rfft u(n), v; v = u; arr<xcomplex<double> > a(n); for (int i = 0; i < n; ++i) a[i].Set(r[t][2 * i], 0); u.forward_c(a); v.backward_c(a); for (int i = 0; i < n; ++i) r[t][2 * i] = a[i].re / n;
    }
    for (int t = 0; t < T; ++t) { check(&rf[t][0], f[t], "transform in a parallel region"); check(&d[t][0], b[t], "transform by a copied plan in a parallel region"); for (int i = 0; i < n; ++i) vp_assert_near(r[t][2 * i], x[t].re[i], 1e-6, "real transforms in a parallel region"); }
    vp_reach("done");
}
