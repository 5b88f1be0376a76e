// Work sharing (C25), numeric helpers (C26)
#include "common.h"
#include "fakefits.h"
#include "ls_share_utils.h"
#include "ls_openmp_support.h"
#include "ls_math_utils.h"
#include "ls_safe_cast.h"
#include "ls_error_handling.h"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
// ---- C25
extern "C" void share_main(void) {
    static const long ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 100, 1000}; long n = ns[vp_choose("n", 0, 11)], s = vp_choose("s", 0, 7); if (n > 8) s = s < 4 ? s * (n / 5) : n - 1 - (7 - s); if (s >= n) { vp_reach("skip"); return; }
    int64 glo = vp_int("glo", -(1L << 60), 1L << 60), ghi = vp_int("ghi", -(1L << 60), 1L << 60), lo = 77, hi = 77, lo2 = 77, hi2 = 77; vp_assume(glo <= ghi);
    calcShareGeneral(glo, ghi, n, s, lo, hi); vp_assert(lo >= glo && lo <= hi && hi <= ghi, "a share is a part of the range"); int64 w = ghi - glo, m = hi - lo;
    vp_assert(n * m > w - n && n * m < w + n, "shares differ by at most one item");
    if (s == 0) vp_assert(lo == glo, "the first share starts at the beginning"); if (s == n - 1) vp_assert(hi == ghi, "the last share ends at the end");
    else { calcShareGeneral(glo, ghi, n, s + 1, lo2, hi2); vp_assert(lo2 == hi, "shares follow each other without gap or overlap"); vp_assert(hi2 - lo2 <= m, "longer shares come first"); }
    vp_reach("done");
}
extern "C" void omp_main(void) {
    int64 glo = vp_int("glo", -1000000, 1000000), ghi = vp_int("ghi", -1000000, 1000000); vp_assume(glo <= ghi); int64 lo[8], hi[8]; int n = 0, thr[8];
#pragma omp parallel
    { int t = openmp_thread_num(); int64 a, b; openmp_calc_share(glo, ghi, a, b); lo[t] = a; hi[t] = b; thr[t] = openmp_num_threads(); }
    n = thr[0]; vp_assert(n == vp_threads() && openmp_max_threads() == n && openmp_enabled() && openmp_thread_num() == 0 && openmp_num_threads() == 1, "thread numbers");
    for (int i = 0; i < n; ++i) { vp_assert(lo[i] == (i ? hi[i - 1] : glo), "shares of the threads follow each other"); vp_assert(hi[i] >= lo[i], "shares are ordered"); vp_assert(hi[i] - lo[i] <= hi[0] - lo[0] && hi[i] - lo[i] >= hi[0] - lo[0] - 1, "shares of the threads have the same size"); } vp_assert(hi[n - 1] == ghi, "everything is shared");
    int64 a = 1, b = 2; openmp_calc_share(glo, ghi, a, b); vp_assert(a == glo && b == ghi, "outside of a parallel region the share is everything"); vp_reach("done");
}
extern "C" void chunk_main(void) {
    uint64 full = uint64(vp_int("full", 1, 1L << 60)), ch = uint64(vp_int("chunk", 1, 1L << 56)); long k = vp_choose("k", 1, vp_param("K", 9)); // k chunks
    vp_assume(long(full) <= k * long(ch) && long(full) > (k - 1) * long(ch)); chunkMaker c(full, ch), d(full, ch); 
    uint64 st = 7, sz = 9, pos = 0; for (long i = 0; i < k; ++i) { vp_assert(c.getNext(st, sz), "there is a next chunk"); vp_assert(st == pos, "chunks follow each other"); pos += sz; vp_assert(i == k - 1 ? pos == full && sz >= 1 && sz <= ch : sz == ch, "chunks have the requested size, the last one the rest"); }
    for (int i = 0; i < 2; ++i) vp_assert(!c.getNext(st, sz), "no chunk after the last one"); vp_assert(d.getNext(st, sz) && st == 0, "every object has its own position"); vp_reach("done");
}
extern "C" void nchunks_main(void) {
    static const uint64 cs[] = {1, 2, 3, 4, 5, 7, 8, 16, 100, 1000, 65536, 1000003, 1UL << 31, (1UL << 40) - 1}; uint64 ch = cs[vp_choose("chunk", 0, 13)], full = uint64(vp_int("full", 1, 1L << 60)); chunkMaker c(full, ch); uint64 n = c.nchunks();
    vp_assert(n * ch >= full && n >= 1 && (n - 1) * ch < full, "number of chunks"); vp_reach("done");
}
extern "C" void wide_main(void) { // chunk sizes and totals of up to 2^64-1
    static const uint64 cs[] = {1UL << 62, 1UL << 63, (1UL << 63) + 1, ~0UL - 1, ~0UL, 6148914691236517205UL}; uint64 ch = cs[vp_choose("chunk", 0, 5)], full = vp_bv64("full"); if (full == 0) return; chunkMaker c(full, ch);
    uint64 k = full <= ch ? 1 : full - ch <= ch ? 2 : full - 2 * ch <= ch ? 3 : 4; vp_assert(c.nchunks() == k, "number of chunks"); uint64 st = 7, sz = 9, left = full;
    for (uint64 i = 0; i < k; ++i) { vp_assert(c.getNext(st, sz), "there is a next chunk"); vp_assert(st == full - left, "chunks follow each other"); vp_assert(sz == (left < ch ? left : ch), "chunks have the requested size, the last one the rest"); left -= sz; }
    vp_assert(left == 0 && !c.getNext(st, sz), "no chunk after the last one"); vp_reach("done");
}
// ---- C26
extern "C" void square_main(void) { // next to squares, where the rounding of the square root decides
    vp_option("round", 1); static const int64 ns[] = {1, 2, 46340, 65535, (1L << 25) + 1, (1L << 26) + 1, 94906265, 94906266, 94906267, 100000000, (1L << 27) + 3, 268435455, 500000001, (1L << 30) + 5, 2000000011, (1L << 31) - 9}; int64 n = ns[vp_choose("n", 0, 15)], a = vp_int("a", n * n - (n > 1 ? 2 : 1), n * n + 2), w = n * n; int64 r = vp_choose("unsigned", 0, 1) ? int64(isqrt(uint64(a))) : int64(isqrt(a));
    vp_assert(r == (a < w ? n - 1 : n) || n == 1, "isqrt next to a square"); vp_assert(r * r <= a && a < (r + 1) * (r + 1), "isqrt is the largest number whose square does not exceed the argument"); vp_reach("done");
}
template<class I> static void isq(long lo, long hi) { I a = I(vp_int("a", lo, hi)); uint64 n = isqrt(a); int64 m = int64(n), x = int64(a); vp_assert(m * m <= x, "isqrt squared does not exceed the argument"); vp_assert(x < (m + 1) * (m + 1), "isqrt is the largest such number"); }
extern "C" void isqrt_main(void) {
    vp_option("round", 1);
    switch (vp_choose("type", vp_param("T0", 0), vp_param("T1", 6))) {
    case 0: isq<int>(0, 2147483647); break; case 1: isq<unsigned>(0, 2147483647); break; case 2: isq<int64>(0, (1L << 50) - 1); break; case 3: isq<int64>(1L << 50, (1L << 62) - (1L << 34)); break; case 4: isq<uint64>(1L << 50, (1L << 62) - (1L << 34)); break; case 5: isq<short>(0, 32767); break; case 6: isq<unsigned char>(0, 255); break; }
    vp_reach("done");
}
template<class I> static void lg(I a) { if (a <= 0) return; int n = ilog2(a); vp_assert(n >= 0 && n < int(8 * sizeof(I)), "range of ilog2"); vp_assert((uint64(1) << n) <= uint64(a) && (n == 63 || uint64(a) < (uint64(2) << n)), "2^n <= a < 2^(n+1)"); }
template<class I> static void md(long lo, long hi) { I b = I(vp_choose("b", 1, 12)); if (vp_choose("big", 0, 1)) b = I(b * 97 + 3); I a = I(vp_int("a", lo, hi)); if (b <= 0) return; I r = imodulo(a, b); vp_assert(r >= 0 && r < b, "imodulo is in [0, v2)"); int64 q = int64(a) / int64(b) * int64(b); vp_assert(int64(r) == int64(a) - q || int64(r) == int64(a) - q + b, "imodulo differs by a multiple of v2"); }
extern "C" void ints_main(void) {
    switch (vp_choose("what", 0, 11)) {
    case 0: lg<int>(int(vp_bv32("x"))); break; case 1: lg<unsigned>(vp_bv32("x")); break; case 2: lg<int64>(int64(vp_bv64("x"))); break; case 3: lg<uint64>(vp_bv64("x")); break; case 4: lg<unsigned char>(vp_bv8("x")); break;
    case 5: md<int>(-2147483648L, 2147483647); break; case 6: md<int64>(-(1L << 62), 1L << 62); break; case 7: md<short>(-32768, 32767); break;
    case 8: { int m = int(vp_int("m", -2147483648L, 2147483647)); double v = vp_real("v", -5, 5); double w = xpow(m, v); vp_assert(w == (m % 2 ? -v : v), "xpow"); break; }
    case 9: { double v = vp_real("v", -5, 5); vp_assert(sign(v) == (v < 0 ? -1.0 : 1.0), "sign"); int i = int(vp_int("i", -2147483648L, 2147483647)); vp_assert(sign(i) == (i < 0 ? -1 : 1), "sign"); break; }
    case 10: { int x[6]; bool e[6]; for (int i = 0; i < 6; ++i) { x[i] = int(vp_int(Name("x%ld", i), -3, 3)); e[i] = true; for (int j = 0; j < i; ++j) if (x[j] != x[i]) e[i] = false; } bool a3 = e[0] && e[1] && e[2], a4 = a3 && e[3], a5 = a4 && e[4], a6 = a5 && e[5]; vp_assert(multiequal(x[0], x[1], x[2]) == a3, "multiequal 3"); vp_assert(multiequal(x[0], x[1], x[2], x[3]) == a4, "multiequal 4"); vp_assert(multiequal(x[0], x[1], x[2], x[3], x[4]) == a5, "multiequal 5"); vp_assert(multiequal(x[0], x[1], x[2], x[3], x[4], x[5]) == a6, "multiequal 6"); break; }
    case 11: { int64 m = vp_int("m", -(1L << 62), 1L << 62); int v = int(vp_int("v", -1000, 1000)); vp_assert(xpow(m, v) == (m % 2 ? -v : v), "xpow"); break; }
    }
    vp_reach("done");
}
template<class T1, class T2> static bool rep(T2 x) { if (std::numeric_limits<T2>::is_signed && x < 0) return std::numeric_limits<T1>::is_signed && int64(x) >= int64(std::numeric_limits<T1>::min()); return uint64(x) <= uint64(std::numeric_limits<T1>::max()); }
template<class T1, class T2> static void cast1(uint64 b) {
    T2 x = T2(b); bool ok = rep<T1, T2>(x), t = false; T1 r = 0; try { r = safe_cast<T1>(x); } catch (...) { t = true; }
    vp_assert(t == !ok, "safe_cast throws exactly for values that do not fit"); if (!t) { vp_assert(uint64(int64(r)) == uint64(int64(x)), "safe_cast keeps the value"); vp_assert((r < 0) == (x < 0), "safe_cast keeps the value"); }
}
template<class T2> static void casts(uint64 b, long to) {
    switch (to) { case 0: cast1<signed char, T2>(b); break; case 1: cast1<unsigned char, T2>(b); break; case 2: cast1<short, T2>(b); break; case 3: cast1<unsigned short, T2>(b); break; case 4: cast1<int, T2>(b); break; case 5: cast1<unsigned, T2>(b); break; case 6: cast1<long, T2>(b); break; case 7: cast1<unsigned long, T2>(b); break; case 8: cast1<long long, T2>(b); break; case 9: cast1<unsigned long long, T2>(b); break; case 10: cast1<char, T2>(b); break; }
}
extern "C" void cast_main(void) {
    uint64 b = vp_bv64("b"); long to = vp_choose("to", 0, 10);
    switch (vp_choose("from", 0, 10)) { case 0: casts<signed char>(b, to); break; case 1: casts<unsigned char>(b, to); break; case 2: casts<short>(b, to); break; case 3: casts<unsigned short>(b, to); break; case 4: casts<int>(b, to); break; case 5: casts<unsigned>(b, to); break; case 6: casts<long>(b, to); break; case 7: casts<unsigned long>(b, to); break; case 8: casts<long long>(b, to); break; case 9: casts<unsigned long long>(b, to); break; case 10: casts<char>(b, to); break; }
    vp_reach("done");
}
extern "C" void reals_main(void) {
    switch (vp_choose("what", 0, 7)) {
    case 0: { double a = vp_real("a", -1000, 1000), b = vp_real("b", -1000, 1000), e = vp_real("e", 0, 1); double d = a < b ? b - a : a - b, ab = b < 0 ? -b : b; vp_assert(abs_approx(a, b, e) == (d <= e), "abs_approx"); vp_assert(approx(a, b, e) == (d <= e * ab), "approx"); vp_assert(abs_approx(a, b) == (d <= 1e-5) && approx(a, b) == (d <= 1e-5 * ab), "default tolerance"); break; }
    case 1: { double a = vp_real("a", -1e9, 1e9); long n = ifloor<long>(a), m = nearest<long>(a); vp_assert(double(n) <= a && a < double(n) + 1, "ifloor"); vp_assert(double(m) <= a + 0.5 && a + 0.5 < double(m) + 1, "nearest"); int k = ifloor<int>(a); vp_assert(k == n, "ifloor of any integer type"); break; }
    case 2: { double v2 = 0.125 * double(vp_choose("v2", 1, 20)), v1 = vp_real("v1", -40, 40), r = fmodulo(v1, v2), q = (v1 - r) / v2; vp_assert(r >= 0 && r < v2, "fmodulo is in [0, v2)"); double f = std::floor(q + 0.5); vp_assert_near(q, f, 1e-9, "fmodulo differs by a multiple of v2"); break; }
    case 3: { double y = vp_real("y", -9, 9), x = vp_real("x", -9, 9); double t = safe_atan2(y, x); if (x == 0 && y == 0) vp_assert(t == 0, "safe_atan2 of the origin"); else { double r = std::sqrt(x * x + y * y); vp_assert(t >= -3.1415926536 && t <= 3.1415926536, "range"); vp_assert_near(r * std::cos(t), x, 1e-6, "safe_atan2"); vp_assert_near(r * std::sin(t), y, 1e-6, "safe_atan2"); } break; }
    case 4: case 5: { int n = int(vp_choose("n", 2, vp_param("N", 6))); std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = vp_real(Name("v%ld", i), -100, 100); if (i) vp_assume(v[i] > v[i - 1] + 0.01); } double x = vp_real("x", -200, 200), fr = 5; tsize ix = 99; interpol_helper(v.begin(), v.end(), x, ix, fr); vp_assert(ix + 2 <= tsize(n), "index"); if (ix + 2 > tsize(n)) break; vp_assert(ix == 0 || v[ix] <= x, "interval"); vp_assert(ix + 2 == tsize(n) || v[ix + 1] >= x, "interval"); vp_assert_near(fr * (v[ix + 1] - v[ix]), x - v[ix], 1e-6, "fraction"); break; }
    case 6: { std::vector<double> v(1); v[0] = vp_real("v", -1, 1); double fr; tsize ix; vp_assert(throws([&] { interpol_helper(v.begin(), v.end(), v[0], ix, fr); }), "one value is too few"); v.clear(); vp_assert(throws([&] { interpol_helper(v.begin(), v.end(), 1.0, ix, fr); }), "no value is too few"); break; }
    case 7: { int n = int(vp_choose("n", 2, 5)); std::vector<double> v(n); for (int i = 0; i < n; ++i) { v[i] = vp_real(Name("v%ld", i), -100, 100); if (i) vp_assume(v[i] < v[i - 1] - 0.01); } double x = vp_real("x", -200, 200), fr = 5; tsize ix = 99; interpol_helper(v.begin(), v.end(), x, std::greater<double>(), ix, fr); vp_assert(ix + 2 <= tsize(n), "index"); if (ix + 2 > tsize(n)) break; vp_assert(ix == 0 || v[ix] >= x, "interval"); vp_assert(ix + 2 == tsize(n) || v[ix + 1] <= x, "interval"); vp_assert_near(fr * (v[ix + 1] - v[ix]), x - v[ix], 1e-6, "fraction"); break; }
    }
    vp_reach("done");
}
