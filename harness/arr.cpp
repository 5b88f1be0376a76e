// Array containers (C28)
#include "common.h"
#include "fakefits.h"
#include "ls_arr.h"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static int nv = 0;
static double fresh() { return vp_real(Name("v%ld", nv++), -5, 5); }
// model of one array: values, unknown where the contents are undefined
struct Mod { int n; double v[8]; bool known[8]; void size(int m) { n = m; for (int i = 0; i < 8; ++i) known[i] = false; } };
template<class A> static void same(const A &a, const Mod &m, const char *msg) { vp_assert(int(a.size()) == m.n, "size of the array"); vp_assert(a.end() - a.begin() == m.n, "range of the array"); for (int i = 0; i < m.n; ++i) if (m.known[i]) vp_assert(a[i] == m.v[i], msg); }
template<class A> static void put(A &a, Mod &m) { for (int i = 0; i < m.n; ++i) { a[i] = m.v[i] = fresh(); m.known[i] = true; } } // every element can be written
enum { OPS = 14 };
template<class A> struct Do {
    A a[2]; Mod m[2]; double ext[2]; bool usedext;
    bool step(int s, bool fail) {
        long op = vp_choose(Name("op%ld", s), 0, OPS - 1); int k = int(vp_choose(Name("k%ld", s), 0, 1)), n = op <= 3 || op == 8 || op == 9 ? int(vp_choose(Name("n%ld", s), 0, 3)) : 0; A &x = a[k], &y = a[1 - k]; Mod &mx = m[k], &my = m[1 - k];
        if (fail) vp_option("fail_alloc", 0);
        double f = 0; if (op == 2 || op == 7) f = fresh(); Mod old = mx, want = mx; bool t = false;
        switch (op) {
        case 0: want.size(n); if (n == mx.n) want = mx; t = throws([&] { x.alloc(n); }); break;
        case 1: want = mx; want.n = n; for (int i = mx.n; i < 8; ++i) want.known[i] = false; t = throws([&] { x.resize(n); }); break;
        case 2: want.n = n; for (int i = 0; i < n; ++i) { want.v[i] = f; want.known[i] = true; } t = throws([&] { x.allocAndFill(n, f); }); break;
        case 3: { double p[3]; want.n = n; for (int i = 0; i < n; ++i) { p[i] = want.v[i] = fresh(); want.known[i] = true; } t = throws([&] { x.copyFromPtr(p, n); }); break; }
        case 4: x.dealloc(); want.size(0); break;
        case 5: want = my; t = throws([&] { x = y; }); break;
        case 6: x.transfer(y); want = my; my.size(0); break;
        case 7: x.fill(f); for (int i = 0; i < mx.n; ++i) { want.v[i] = f; want.known[i] = true; } break;
        case 8: { std::vector<float> v; vp_option("fail_alloc", -1); want.n = n; for (int i = 0; i < n; ++i) { v.push_back(1.5f * i + s); want.v[i] = 1.5f * i + s; want.known[i] = true; } if (fail) vp_option("fail_alloc", 0); t = throws([&] { x.copyFrom(v); }); vp_option("fail_alloc", -1); break; }
        case 9: t = throws([&] { A z(n); want.size(n); Mod mz; mz.size(n); put(z, mz); x.swap(z); same(z, mx, "swapped contents"); want = mz; }); if (t) want = mx; break;
        case 10: x = *&x; break;
        case 11: { x.swap(y); want = my; my = mx; break; }
        case 12: { vp_option("fail_alloc", -1); std::vector<double> v(2, 8.0); if (fail) vp_option("fail_alloc", 0); t = throws([&] { x.copyTo(v); }); vp_option("fail_alloc", -1); if (!t) { vp_assert(int(v.size()) == mx.n, "copied to a vector"); for (int i = 0; i < mx.n; ++i) if (mx.known[i]) vp_assert(v[i] == mx.v[i], "copied to a vector"); } break; }
        case 13: { t = throws([&] { A z(x); Mod mz = mx; same(z, mz, "copy of the array"); put(z, mz); same(x, mx, "a copy is independent"); }); break; }
        }
        vp_option("fail_alloc", -1);
        if (!t) mx = want; else if (op == 1 || op == 9 || op >= 12) mx = old; else mx.size(0); // a failed resize keeps the contents, a failed allocation leaves an empty array
        vp_assert(!t || fail, "no exception without a failing allocation"); same(x, mx, "contents of the array"); same(y, my, "the other array is unchanged"); return t;
    }
};
template<class A> static void hist() {
    int K = int(vp_param("K", 2)), fl = vp_param("FAIL", 0) ? int(vp_choose("failstep", 0, K - 1)) : -1; Do<A> d; for (int k = 0; k < 2; ++k) { d.m[k].size(0); same(d.a[k], d.m[k], "a new array is empty"); } d.a[0].alloc(2); d.m[0].size(2); put(d.a[0], d.m[0]);
    for (int s = 0; s < K; ++s) d.step(s, s == fl); put(d.a[0], d.m[0]); put(d.a[1], d.m[1]); same(d.a[0], d.m[0], "the arrays are independent"); same(d.a[1], d.m[1], "the arrays are independent");
}
extern "C" void hist_main(void) { unsigned long live = vp_heap_live(); if (vp_param("ALIGN", 0)) hist<arrT<double, alignAlloc__<double, 32> > >(); else hist<arr<double> >(); vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done"); }
extern "C" void view_main(void) { // queries, sorting, memory of others
    unsigned long live = vp_heap_live(); {
        int n = int(vp_choose("n", 0, vp_param("N", 4))); double b[5]; arr<double> a(n); for (int i = 0; i < n; ++i) a[i] = b[i] = vp_real(Name("b%ld", i), -3, 3); double q = vp_real("q", -3, 3), lo, hi;
        if (n) { a.minmax(lo, hi); bool l = false, h = false; for (int i = 0; i < n; ++i) { vp_assert(lo <= b[i] && hi >= b[i], "minmax bounds all elements"); l = l || lo == b[i]; h = h || hi == b[i]; } vp_assert(l && h, "minmax gives elements"); } else vp_assert(throws([&] { a.minmax(lo, hi); }), "an empty array has no minimum");
        long w = vp_choose("what", 0, 4);
        if (w == 0) { int at = -1; for (int i = n - 1; i >= 0; --i) if (b[i] == q) at = i; vp_assert(a.contains(q) == (at >= 0), "contains"); if (at >= 0) vp_assert(int(a.find(q)) == at, "find gives the first place"); else vp_assert(throws([&] { a.find(q); }), "find reports a missing value"); }
        if (w == 1) { arr<double> c(a); vp_assert(c.contentsEqual(a), "a copy is equal"); if (n) { int k = int(vp_choose("k", 0, n - 1)); c[k] = q; vp_assert(c.contentsEqual(a) == (q == b[k]), "contentsEqual looks at every element"); c.resize(n - 1); vp_assert(!c.contentsEqual(a) && !a.contentsEqual(c), "sizes differ"); } }
        if (w == 2 && n) { bool down = vp_choose("down", 0, 1); if (down) a.sort([](double x, double y) { return x > y; }); else a.sort(); for (int i = 0; i + 1 < n; ++i) vp_assert(down ? a[i] >= a[i + 1] : a[i] <= a[i + 1], "sorted"); double s = 0, t = 0; for (int i = 0; i < n; ++i) { s += a[i]; t += b[i]; bool in = false; for (int j = 0; j < n; ++j) in = in || a[i] == b[j]; vp_assert(in, "sorting keeps the elements"); } vp_assert_near(s, t, 1e-9, "sorting keeps the elements"); }
        if (w == 3) { double ext[5]; for (int i = 0; i < 5; ++i) ext[i] = b[i < n ? i : 0]; int op = int(vp_choose("op", 0, 5)); arr<double> e(ext, 4), z(1, 2.5); e[2] = q; vp_assert(ext[2] == q && e.begin() == ext && e.size() == 4, "memory of the caller is used"); if (op == 0) e.alloc(2); if (op == 1) e.resize(6); if (op == 2) z.transfer(e); if (op == 3) z.swap(e); if (op == 4) e = z; if (op == 5) e.dealloc(); if (op == 1) for (int i = 0; i < 4; ++i) vp_assert(e[i] == ext[i], "resized"); if (op == 2) vp_assert(z.begin() == ext && e.size() == 0 && e.begin() == 0, "moved"); if (op == 3) vp_assert(z.begin() == ext && e.size() == 1 && e[0] == 2.5, "swapped"); if (op == 4) vp_assert(e.size() == 1 && e[0] == 2.5 && e.begin() != z.begin(), "assigned"); if (op == 0 || op == 5) vp_assert(e.size() == (op ? 0u : 2u) && e.begin() != ext, "memory of its own"); if (op == 0) e[1] = 1; vp_assert(ext[2] == q, "memory of the caller is kept"); }
        if (w == 4) { arr_align<double, 64> g(n + 1), f(n + 1, 1.5); vp_assert((tsize(&g[0]) & 63) == 0 && (tsize(&f[0]) & 63) == 0 && int(g.size()) == n + 1 && f[n] == 1.5, "alignment"); g.alloc(n + 3); vp_assert((tsize(&g[0]) & 63) == 0, "alignment"); g.resize(n + 5); vp_assert((tsize(&g[0]) & 63) == 0, "alignment"); fix_arr<double, 3> x; vp_assert(x.size() == 3, "fixed size"); for (int i = 0; i < 3; ++i) x[i] = i; fix_arr<double, 3> y(x); y[1] = 7; vp_assert(x[1] == 1 && y[2] == 2 && &x[2] - &x[0] == 2, "fixed array"); arr<double> o(n, q); for (int i = 0; i < n; ++i) vp_assert(o[i] == q, "initial value"); }
    } vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
// arrays with two and three dimensions: same operations for every class
struct A2 { typedef arr2<double> T; static bool alloc(T &a, int x, int y, int) { return throws([&] { a.alloc(x, y); }); } static T *make(int x, int y, int) { return new T(x, y); } static double &at(T &a, int i, int j, int) { return a(i, j); } static bool dims(const T &a, int x, int y, int) { return int(a.size1()) == x && int(a.size2()) == y && int(a.size()) == x * y; } static bool three() { return false; } };
struct A2b { typedef arr2b<double> T; static bool alloc(T &a, int x, int y, int) { return throws([&] { a.alloc(x, y); }); } static T *make(int x, int y, int) { return new T(x, y); } static double &at(T &a, int i, int j, int) { return a[i][j]; } static bool dims(const T &a, int x, int y, int) { return int(a.size1()) == x && int(a.size2()) == y && int(a.size()) == x * y; } static bool three() { return false; } };
struct A2a { typedef arr2_align<double, 32> T; static bool alloc(T &a, int x, int y, int) { return throws([&] { a.alloc(x, y); }); } static T *make(int x, int y, int) { return new T(x, y); } static double &at(T &a, int i, int j, int) { return a[i][j]; } static bool dims(const T &a, int x, int y, int) { return int(a.size1()) == x && int(a.size2()) == y && int(a.size()) == x * y; } static bool three() { return false; } };
struct A3 { typedef arr3<double> T; static bool alloc(T &a, int x, int y, int z) { return throws([&] { a.alloc(x, y, z); }); } static T *make(int x, int y, int z) { return new T(x, y, z); } static double &at(T &a, int i, int j, int k) { return a(i, j, k); } static bool dims(const T &a, int x, int y, int z) { return int(a.size1()) == x && int(a.size2()) == y && int(a.size3()) == z && int(a.size()) == x * y * z; } static bool three() { return true; } };
struct Grid { int x, y, z; double v[3][3][3]; };
template<class D> static void set(typename D::T &a, Grid &g, bool con) { for (int i = 0; i < g.x; ++i) for (int j = 0; j < g.y; ++j) for (int k = 0; k < g.z; ++k) D::at(a, i, j, k) = g.v[i][j][k] = con ? 100 * i + 10 * j + k + nv++ : fresh(); }
template<class D> static void eq(typename D::T &a, const Grid &g, const char *msg) { vp_assert(D::dims(a, g.x, g.y, g.z), "dimensions"); double *p = 0; for (int i = 0; i < g.x; ++i) for (int j = 0; j < g.y; ++j) for (int k = 0; k < g.z; ++k) { double &e = D::at(a, i, j, k); vp_assert(e == g.v[i][j][k], msg); vp_assert(!p || &e == p + 1, "elements in C order"); p = &e; } }
static Grid dims(const char *n, bool three) { static const int d[][3] = {{1, 2, 2}, {2, 1, 2}, {0, 2, 1}, {2, 3, 1}, {3, 2, 2}, {1, 1, 1}, {2, 0, 2}}; long c = vp_choose(n, 0, 6); Grid g; g.x = d[c][0]; g.y = d[c][1]; g.z = three ? d[c][2] : 1; return g; }
template<class D> static void multi() {
    bool fail = vp_param("FAIL", 0); typedef typename D::T T; Grid g = dims("first", D::three()), h = dims("second", D::three()), e = {0, 0, 0}; T *p = D::make(g.x, g.y, g.z); set<D>(*p, g, false); eq<D>(*p, g, "elements are stored"); T n; vp_assert(D::dims(n, 0, 0, 0), "a new array is empty");
    int op = int(vp_choose("op", 0, 5)); bool t = false;
    if (fail) vp_option("fail_alloc", vp_choose("which", 0, 1));
    switch (op) {
    case 0: t = D::alloc(*p, h.x, h.y, h.z); vp_option("fail_alloc", -1); if (t) { if (!D::dims(*p, g.x, g.y, g.z)) eq<D>(*p, e, ""); else eq<D>(*p, g, "a failed allocation keeps the array or empties it"); } else { set<D>(*p, h, true); eq<D>(*p, h, "elements are stored"); } break;
    case 1: { T *q = 0; t = throws([&] { q = new T(*p); }); vp_option("fail_alloc", -1); if (!t) { eq<D>(*q, g, "copy of the array"); Grid k = g; set<D>(*q, k, true); eq<D>(*p, g, "a copy is independent"); delete q; } else eq<D>(*p, g, "the array is kept"); break; }
    case 2: { T *q = 0; vp_option("fail_alloc", -1); q = D::make(h.x, h.y, h.z); set<D>(*q, h, true); if (fail) vp_option("fail_alloc", vp_choose("which", 0, 1)); t = throws([&] { *p = *q; }); vp_option("fail_alloc", -1); eq<D>(*q, h, "the source is kept"); if (!t) { eq<D>(*p, h, "assigned array"); Grid k = h; set<D>(*q, k, true); eq<D>(*p, h, "the arrays are independent"); } else if (!D::dims(*p, g.x, g.y, g.z)) eq<D>(*p, e, ""); else eq<D>(*p, g, "a failed assignment keeps the array or empties it"); delete q; break; }
    case 3: vp_option("fail_alloc", -1); p->dealloc(); eq<D>(*p, e, ""); t = D::alloc(*p, h.x, h.y, h.z); set<D>(*p, h, true); eq<D>(*p, h, "allocated again"); break;
    case 4: { vp_option("fail_alloc", -1); double f = fresh(); p->fill(f); Grid k = g; for (auto &r : k.v) for (auto &c : r) for (double &x : c) x = f; eq<D>(*p, k, "filled"); *p = *&*p; eq<D>(*p, k, "assigned to itself"); break; }
    case 5: vp_option("fail_alloc", -1); n = *p; eq<D>(n, g, "assigned to an empty array"); *p = T(); eq<D>(*p, e, ""); break;
    }
    vp_option("fail_alloc", -1); vp_assert(!t || fail, "no exception without a failing allocation"); if (op == 0 && fail) { t = D::alloc(*p, 2, 2, D::three() ? 2 : 1); Grid k = {2, 2, D::three() ? 2 : 1}; set<D>(*p, k, true); eq<D>(*p, k, "usable after a failure"); } delete p;
}
extern "C" void multi_main(void) { unsigned long live = vp_heap_live(); switch (vp_choose("class", 0, 3)) { case 0: multi<A2>(); break; case 1: multi<A2b>(); break; case 2: multi<A2a>(); break; case 3: multi<A3>(); break; } vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done"); }
extern "C" void more_main(void) { // functions only some classes have
    unsigned long live = vp_heap_live(); {
        Grid g = dims("first", false), h = dims("second", false), G = dims("first", true), H = dims("second", true); arr2<double> a(g.x, g.y), b(h.x, h.y, 4.5); set<A2>(a, g, false); double f = fresh(); Grid k = h; for (auto &r : k.v) for (auto &c : r) for (double &x : c) x = 4.5; eq<A2>(b, k, "initial value"); set<A2>(b, h, true);
        vp_assert(a.conformable(b) == (g.x == h.x && g.y == h.y), "conformable"); arr3<double> c(G.x, G.y, G.z), d(H.x, H.y, H.z); set<A3>(c, G, false); set<A3>(d, H, true); vp_assert(c.conformable(d) == (G.x == H.x && G.y == H.y && G.z == H.z), "conformable");
        if (g.x * g.y) { double lo, hi; a.minmax(lo, hi); bool l = false, u = false; for (int i = 0; i < g.x; ++i) for (int j = 0; j < g.y; ++j) { vp_assert(lo <= g.v[i][j][0] && hi >= g.v[i][j][0], "minmax bounds all elements"); l = l || lo == g.v[i][j][0]; u = u || hi == g.v[i][j][0]; } vp_assert(l && u, "minmax gives elements"); } else { double lo, hi; vp_assert(throws([&] { a.minmax(lo, hi); }), "an empty array has no minimum"); }
        a.swap(b); eq<A2>(a, h, "swapped"); eq<A2>(b, g, "swapped"); c.swap(d); eq<A3>(c, H, "swapped"); eq<A3>(d, G, "swapped"); a.scale(f); for (int i = 0; i < h.x; ++i) for (int j = 0; j < h.y; ++j) vp_assert_near(a[i][j], f * h.v[i][j][0], 1e-9, "scaled");
        b.fast_alloc(h.x, h.y); set<A2>(b, h, true); eq<A2>(b, h, "fast_alloc"); b.fast_alloc(1, 1); Grid o = {1, 1, 1}; set<A2>(b, o, true); eq<A2>(b, o, "fast_alloc"); arr2<double> e(b); eq<A2>(e, o, "copy"); e = b; eq<A2>(e, o, "copy"); b.fast_alloc(3, 3); Grid w = {3, 3, 1}; set<A2>(b, w, true); eq<A2>(b, w, "fast_alloc"); b.allocAndFill(2, 2, f); w.x = w.y = 2; for (auto &r : w.v) for (auto &q : r) for (double &x : q) x = f; eq<A2>(b, w, "allocAndFill");
        arr2b<double> s(h.x, h.y); set<A2b>(s, h, true); for (int i = 0; i < h.x; ++i) vp_assert(s.p0()[i] == s[i], "pointer array");
    } vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
