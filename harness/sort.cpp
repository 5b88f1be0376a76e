// Sorting helpers (C27)
#include "common.h"
#include "fakefits.h"
#include "conviqt.hpp"
using namespace conviqt;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
// key i: symbolic for the first S of a spread of rows, otherwise one of a few concrete values
static double key(int i, int n, int S, int pat) {
    int step = S ? (n + S - 1) / S : 1; if (S && i % step == 0 && i / step < S) return vp_real(Name("k%ld", i), -1, n + 1);
    switch (pat) { case 1: return i; case 2: return n - i; case 3: return i % 3; case 4: return 7; case 5: return (i * 7919) % 31; case 6: return i < n / 2 ? i : n - i; case 7: return 1 + ((i * 11) % n) * 1e-13; default: return (i * 37) % n; }
}
static void column(int n, int col, int S, int pat, int extra) {
    levels::arr<double> a(5 * n + extra); std::vector<double> k(n);
    double id0 = vp_real("id0", -1e6, 1e6); int idcol = col == 0 ? 3 : 0;
    for (int i = 0; i < n; ++i) { k[i] = key(i, n, S, pat); for (int c = 0; c < 5; ++c) a[5 * i + c] = c == col ? k[i] : c == idcol ? i : c == 4 || (col == 4 && c == 2) ? id0 + i : 100 * c + i; }
    for (int e = 0; e < extra; ++e) a[5 * n + e] = -5 - e;
    switch (col) { case 1: hpsort_arrTheta(a); break; case 3: hpsort_arrTOD(a); break; default: hpsort_arrTime(a); }
    vp_assert(a.size() == tsize(5 * n + extra), "the size is kept"); std::vector<int> seen(n, 0);
    for (int i = 0; i < n; ++i) {
        if (i) vp_assert(a[5 * i + col] >= a[5 * (i - 1) + col], "rows are in ascending order of the sort column");
        int r = -1; for (int j = 0; j < n; ++j) if (a[5 * i + idcol] == j) r = j; vp_assert(r >= 0 && !seen[r < 0 ? 0 : r], "every row occurs exactly once"); if (r < 0) return; seen[r] = 1;
        for (int c = 0; c < 5; ++c) { double w = c == col ? k[r] : c == idcol ? r : c == 4 || (col == 4 && c == 2) ? id0 + r : 100 * c + r; vp_assert(a[5 * i + c] == w, "rows stay together"); }
    }
    for (int e = 0; e < extra; ++e) vp_assert(a[5 * n + e] == -5 - e, "an incomplete last row is left alone");
}
extern "C" void rows_main(void) {
    unsigned long live = vp_heap_live(); static const int cols[] = {1, 3, 4}; int col = cols[vp_choose("col", 0, 2)], n = int(vp_choose("n", vp_param("N0", 0), vp_param("N1", 4))), S = int(vp_param("S", n)); 
    column(n, col, S < n ? S : n, int(vp_choose("pat", 0, vp_param("PAT", 0))), n ? int(vp_param("EXTRA", 0)) : 0);
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
extern "C" void bad_main(void) { // arrays of different lengths
    levels::arr<double> b(3), d(4); levels::arr<long> e(5); for (int i = 0; i < 3; ++i) b[i] = -i; for (int i = 0; i < 4; ++i) d[i] = -i; for (int i = 0; i < 5; ++i) e[i] = -i;
    vp_assert(throws([&] { hpsort_DDcm(b, d); }) && throws([&] { hpsort_DDcm(d, b); }) && throws([&] { hpsort_DL(d, e); }), "arrays of different sizes are refused");
    for (int i = 0; i < 3; ++i) vp_assert(b[i] == -i, "a refused call changes nothing"); for (int i = 0; i < 4; ++i) vp_assert(d[i] == -i, "a refused call changes nothing"); for (int i = 0; i < 5; ++i) vp_assert(e[i] == -i, "a refused call changes nothing");
    vp_reach("done");
}
template<class B> static B wide(int i) { return B(long(i % 3 - 1) * (1L << 40) + 1000 + i); } // also beyond 32 bits
template<class B> static void pairs(int n, int S, int pat, void (*f)(levels::arr<double> &, levels::arr<B> &)) {
    levels::arr<double> a(n); levels::arr<B> b(n); std::vector<double> k(n); for (int i = 0; i < n; ++i) { a[i] = k[i] = key(i, n, S, pat); b[i] = wide<B>(i); }
    f(a, b); std::vector<int> seen(n, 0);
    for (int i = 0; i < n; ++i) {
        if (i) vp_assert(a[i] >= a[i - 1], "keys are in ascending order"); int r = -1; for (int j = 0; j < n; ++j) if (b[i] == wide<B>(j)) r = j; vp_assert(r >= 0 && !seen[r < 0 ? 0 : r], "every element occurs exactly once"); if (r < 0) return; seen[r] = 1;
        vp_assert(a[i] == k[r], "keys and values stay together"); }
}
extern "C" void pairs_main(void) {
    unsigned long live = vp_heap_live(); int n = int(vp_choose("n", vp_param("N0", 0), vp_param("N1", 4))), S = int(vp_param("S", n)), pat = int(vp_choose("pat", 0, vp_param("PAT", 0))); if (S > n) S = n;
    if (vp_choose("kind", 0, 1)) pairs<long>(n, S, pat, hpsort_DL); else pairs<double>(n, S, pat, hpsort_DDcm);
    vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
