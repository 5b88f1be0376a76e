// Interface between a harness and the symbolic executor (or the native replay runtime, vp_native.cpp).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
double vp_real(const char *name, double lo, double hi);            // symbolic real in [lo,hi] (exact arithmetic)
float vp_realf(const char *name, double lo, double hi);
double vp_angle(const char *name, double lo, double hi, long div); // symbolic angle; sin/cos of multiples of angle/div stay polynomial
double vp_double(const char *name);                                // any IEEE double, bit-precise
float vp_float(const char *name);
long vp_int(const char *name, long lo, long hi);                   // symbolic mathematical integer
long vp_choose(const char *name, long lo, long hi);                // one path per value
unsigned int vp_bv32(const char *name);                            // symbolic machine words
unsigned long vp_bv64(const char *name);
unsigned char vp_bv8(const char *name);
void vp_assume(bool c);
void vp_assert(bool c, const char *msg);
void vp_assert_near(double a, double b, double tol, const char *msg);
// like vp_assert_near, but a value always near `known` is the recorded finding `id` and is reported as such
void vp_assert_near_known(double a, double b, double known, double tol, const char *msg, const char *id);
long vp_fix(long v);                                               // one path per value of v
void vp_reach(const char *label);
void vp_option(const char *name, long value);
long vp_param(const char *name, long dflt);                        // concrete parameter of the run
int vp_symbolic(void);
int vp_rank(void);
int vp_ranks(void);
int vp_threads(void);
unsigned long vp_heap_live(void);
unsigned long vp_alloc_count(void);
bool vp_is_init(const void *p, unsigned long n);
void vp_barrier(void);
void vp_print(const char *label, double v);
void vp_main(void);
#ifdef __cplusplus
}
#endif
