// Native implementation of the harness interface: replays one counterexample against the real code.
// VP_CEX names a file with lines "name value"; VP_PARAMS "A=1,B=2".
#include "vp.h"
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <unistd.h>
#include <omp.h>
static std::map<std::string, std::string> vals; static std::map<std::string, long> params;
static int rank_ = 0, ranks_ = 1; static long failAt = -1;
static void load() {
    static bool done = false; if (done) return; done = true;
    if (const char *f = getenv("VP_CEX")) if (FILE *fp = fopen(f, "r")) { static char l[4096]; while (fgets(l, sizeof l, fp)) { char *t = strrchr(l, ' '); if (!t) continue; *t++ = 0; t[strcspn(t, "\n")] = 0; vals[l] = t; } fclose(fp); }
    if (const char *p = getenv("VP_PARAMS")) { std::string s = p; size_t i = 0; while (i < s.size()) { size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); std::string kv = s.substr(i, e - i); size_t q = kv.find('='); if (q != std::string::npos) params[kv.substr(0, q)] = atol(kv.c_str() + q + 1); i = e + 1; } }
}
static const char *get(const char *n) { load(); auto it = vals.find(n); return it == vals.end() ? nullptr : it->second.c_str(); }
// random values for inputs not given, when the file sets "*seed"
static unsigned long rnd(const char *n) { unsigned long h = 1469598103934665603ul ^ strtoul(vals["*seed"].c_str(), 0, 10); for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ul; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ul; h ^= h >> 32; return h; }
static bool seeded() { load(); return vals.count("*seed"); }
static double clip(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static double num(const char *s) { if (!strncmp(s, "bits:", 5)) { unsigned long b = strtoul(s + 5, 0, 10); double d; memcpy(&d, &b, 8); return d; } return strtod(s, 0); }
extern "C" {
double vp_real(const char *n, double lo, double hi) { const char *s = get(n); if (!s && seeded()) return lo + (hi - lo) * double(rnd(n) >> 11) / 9007199254740992.0; return clip(s ? num(s) : 0, lo, hi); }
float vp_realf(const char *n, double lo, double hi) { return float(vp_real(n, lo, hi)); }
double vp_angle(const char *n, double lo, double hi, long) { return vp_real(n, lo, hi); }
double vp_double(const char *n) { const char *s = get(n); if (!s && seeded()) return (double(rnd(n) >> 11) / 9007199254740992.0 - .5) * 8; return s ? num(s) : 0; }
float vp_float(const char *n) { const char *s = get(n); if (!s) return 0; if (!strncmp(s, "bits:", 5)) { unsigned b = unsigned(strtoul(s + 5, 0, 10)); float f; memcpy(&f, &b, 4); return f; } return float(strtod(s, 0)); }
long vp_int(const char *n, long lo, long hi) { const char *s = get(n); if (!s && seeded()) return lo + long(rnd(n) % (unsigned long)(hi - lo + 1)); long v = s ? strtol(s, 0, 10) : 0; return v < lo ? lo : v > hi ? hi : v; }
long vp_choose(const char *n, long lo, long hi) { return vp_int(n, lo, hi); }
unsigned vp_bv32(const char *n) { const char *s = get(n); if (!s && seeded()) return unsigned(rnd(n)); return s ? unsigned(strtoul(s, 0, 10)) : 0; }
unsigned long vp_bv64(const char *n) { const char *s = get(n); if (!s && seeded()) return rnd(n); return s ? strtoul(s, 0, 10) : 0; }
unsigned char vp_bv8(const char *n) { return (unsigned char)vp_bv32(n); }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "VP_ASSUME false\n"); _exit(78); } }
void vp_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "VP_ASSERT %s\n", m); _exit(77); } }
void vp_assert_near(double a, double b, double tol, const char *m) { tol *= 0.5; if (!(std::fabs(a - b) <= tol)) { fprintf(stderr, "VP_ASSERT %s: %.17g vs %.17g (tolerance %g)\n", m, a, b, tol); _exit(77); } }
void vp_assert_near_known(double a, double b, double k, double tol, const char *m, const char *id) { if (!(std::fabs(a - b) <= tol * 0.5) && std::fabs(a - k) <= tol * 0.5) { fprintf(stderr, "VP_KNOWN %s\n", id); return; } vp_assert_near(a, b, tol, m); }
long vp_fix(long v) { return v; }
void vp_reach(const char *) {}
void vp_option(const char *o, long v) { if (!strcmp(o, "fail_alloc")) failAt = v; }
long vp_param(const char *n, long d) { load(); auto it = params.find(n); return it == params.end() ? d : it->second; }
int vp_symbolic(void) { return 0; }
int vp_rank(void) { return rank_; }
int vp_ranks(void) { return ranks_; }
int vp_threads(void) { return omp_get_max_threads(); }
unsigned long vp_heap_live(void);
unsigned long vp_alloc_count(void);
bool vp_is_init(const void *, unsigned long) { return true; }
void vp_barrier(void) { MPI_Barrier(MPI_COMM_WORLD); }
void vp_print(const char *l, double v) { fprintf(stderr, "[rank %d] %s = %.17g\n", rank_, l, v); }
// ---- allocation counting and failure injection (-Wl,--wrap=malloc ...; operator new goes through malloc here)
#include <malloc.h>
static unsigned long live = 0, count = 0; static bool counting = false;
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static bool fail() { ++count; return failAt >= 0 && --failAt < 0; }
void *__wrap_malloc(size_t n) { if (fail()) return 0; if (n > (1ul << 33)) return 0; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (fail()) return 0; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (fail()) return 0; return __real_realloc(p, n); }
unsigned long vp_heap_live(void) { return live; }
unsigned long vp_alloc_count(void) { return count; }
}
#include <new>
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live += malloc_usable_size(p); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { live -= malloc_usable_size(p); free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#ifndef VP_ENTRY
#define VP_ENTRY vp_main
#endif
extern "C" void VP_ENTRY(void);
int main(int argc, char **argv) {
    bool mpi = getenv("VP_MPI") != nullptr; load();
    if (mpi) { MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &ranks_); }
    failAt = -1;
    VP_ENTRY();
    failAt = -1;
    if (mpi) { int fin = 0; MPI_Finalized(&fin); if (!fin) { MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); } }
    fprintf(stderr, "VP_DONE\n");
    return 0;
}
