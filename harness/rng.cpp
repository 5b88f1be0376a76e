// Random number generator (C32)
#include "common.h"
#include "fakefits.h"
#include "ls_rng.h"
using namespace levels;
// Marsaglia's xor128 with the documented treatment of the seeds
struct Ref {
    unsigned s[4];
    static unsigned mix(unsigned v) { for (int i = 0; i < 9; ++i) { v ^= v << 13; v ^= v >> 17; v ^= v << 5; } return v; }
    Ref(const unsigned *a) { static const unsigned d[] = {123456789u, 362436069u, 521288629u, 88675123u}; for (int i = 0; i < 4; ++i) s[i] = mix(a[i] ? a[i] : d[i]); for (int i = 0; i < 16; ++i) next(); }
    unsigned next() { unsigned t = s[0] ^ (s[0] << 11), w = s[3] ^ (s[3] >> 19) ^ t ^ (t >> 8); s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = w; }
};
static const unsigned dflt[] = {123456789u, 362436069u, 521288629u, 88675123u};
static unsigned seedval(int i, int n, const char *nm) { if (i >= n) return dflt[i]; return vp_bv32(Name(nm, i)); }
static planck_rng make(const unsigned *a, int n) { switch (n) { case 0: return planck_rng(); case 1: return planck_rng(a[0]); case 2: return planck_rng(a[0], a[1]); case 3: return planck_rng(a[0], a[1], a[2]); default: return planck_rng(a[0], a[1], a[2], a[3]); } }
extern "C" void seed_main(void) {
    int n = int(vp_choose("n", 0, 4)), K = int(vp_param("K", 8)); unsigned a[4], b[4]; long w1 = vp_choose("which", 0, 1); for (int i = 0; i < 4; ++i) { a[i] = seedval(i, n, "s%ld"); b[i] = seedval(i, n, "t%ld"); if (i < n) { if (w1) a[i] |= 1u; else b[i] |= 1u; } } // zero seeds in the constructor or in seed()
    planck_rng r = make(a, n); Ref w(a); for (int k = 0; k < K; ++k) vp_assert(r.int_rand_uni() == w.next(), "xor128 sequence");
    if (vp_param("GAUSS", 0)) r.rand_uni();
    switch (n) { case 0: r.seed(); break; case 1: r.seed(b[0]); break; case 2: r.seed(b[0], b[1]); break; case 3: r.seed(b[0], b[1], b[2]); break; default: r.seed(b[0], b[1], b[2], b[3]); }
    Ref v(b); for (int k = 0; k < K; ++k) vp_assert(r.int_rand_uni() == v.next(), "a seeded generator starts again"); vp_reach("done");
}
// reals: words of the generator are arbitrary numbers of their range; a twin generator shows which words are drawn
extern "C" void uni_main(void) {
    vp_option("bvreal", 1); unsigned a[4]; for (int i = 0; i < 4; ++i) a[i] = vp_bv32(Name("s%ld", i)) | 1u; planck_rng r = make(a, 4), q = make(a, 4);
    for (int k = 0; k < 3; ++k) { double u = r.rand_uni(), w = double(q.int_rand_uni()); vp_assert(u >= 0 && u < 1, "rand_uni is in [0, 1)"); vp_assert_near(u * 4294967296., w, 1e-6, "rand_uni is the integer divided by 2^32"); }
    for (int k = 0; k < 2; ++k) { double e = r.rand_exp(), u = q.rand_uni(); vp_assert(e >= 0, "rand_exp is not negative"); if (u == 0) vp_assert(e == 0, "rand_exp of zero is finite"); else { double l = std::log(u); vp_assert_near(e, -l, 1e-9, "rand_exp is -log of a uniform number"); } }
    vp_reach("done");
}
struct Pair { double a, b, s; };
static Pair draw(planck_rng &q) { Pair p; p.a = 2 * q.rand_uni() - 1; p.b = 2 * q.rand_uni() - 1; p.s = p.a * p.a + p.b * p.b; return p; }
static Pair accepted(planck_rng &q, int K) { if (!vp_symbolic()) K = 1000; for (int k = 0; k < K; ++k) { Pair p = draw(q); if (p.s < 1 && p.s != 0) return p; } vp_assume(false); return Pair(); }
static void polar(const Pair &p, double g, double h) { // {g, h} = (a, b) sqrt(-2 log s / s), in either order
    double f = std::sqrt(-2 * std::log(p.s) / p.s), d1 = g - p.b * f, d2 = h - p.a * f, e1 = g - p.a * f, e2 = h - p.b * f; auto z = [](double x) { return x > -1e-6 && x < 1e-6; };
    if (z(d1)) { vp_assert(z(d2), "both numbers of a pair are used"); return; } vp_assert(z(e1) && z(e2), "polar method: two normal numbers for each pair inside the unit circle");
}
extern "C" void gauss_main(void) {
    vp_option("bvreal", 1); int K = int(vp_param("K", 2)); long sd = vp_param("SEED", 0); unsigned a[4]; for (int i = 0; i < 4; ++i) a[i] = sd ? unsigned(sd * (i + 3)) : vp_bv32(Name("s%ld", i)) | 1u; planck_rng r = make(a, 4), q = make(a, 4);
    for (int k = 0; k < (sd ? 50 : 2); ++k) { Pair p = accepted(q, K); double g = r.rand_gauss(), h = r.rand_gauss(); polar(p, g, h); }
    vp_reach("done");
}
extern "C" void reseed_main(void) { // a number kept from before seed() is forgotten
    vp_option("bvreal", 1); unsigned a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = vp_bv32(Name("s%ld", i)) | 1u; b[i] = (vp_bv32(Name("t%ld", i)) | 1u) ^ (65536u * (i + 7)); } planck_rng r = make(a, 4), q = make(a, 4); accepted(q, 1); r.rand_gauss(); r.seed(b[0], b[1], b[2], b[3]); q.seed(b[0], b[1], b[2], b[3]);
    Pair p = accepted(q, 1); double g = r.rand_gauss(), h = r.rand_gauss(); polar(p, g, h); vp_reach("done");
}
