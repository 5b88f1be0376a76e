{
"t01-isqrt-threshold": dict(property="C26", edits=[("levels/cxxsupport/ls_math_utils.h", "if (arg<(int64(1)<<50)) return uint32(res);", "if (arg<(int64(1)<<56)) return uint32(res);")],
  needs="64-bit arguments just below the square of a number above 2^26", breaks="isqrt is one too large", demo=r"""
#include "ls_math_utils.h"
static void demo() { for (int64_t n : {3l, 1000l, 94906266l, 134217729l, 200000001l, 268435455l}) { int64_t a = n * n; CHECK(levels::isqrt(a) == n); CHECK(levels::isqrt(a - 1) == n - 1); CHECK(levels::isqrt(a + 1) == n); } }
"""),
"t02-chunk-count": dict(property="C25", edits=[("levels/cxxsupport/ls_share_utils.h", "{ return 1 + (s_full-1)/s_chunk; }", "{ return (s_full+s_chunk-1)/s_chunk; }")],
  needs="a chunk size near the largest 64-bit number ('everything in one chunk')", breaks="the number of chunks is 0 although one chunk is delivered", demo=r"""
#include "ls_share_utils.h"
static void demo() { for (unsigned long long c : {1ull, 7ull, 100ull, 1ull << 40, ~0ull}) { levels::chunkMaker m(100, c); levels::uint64 s, n, k = 0, tot = 0; while (m.getNext(s, n)) { CHECK(s == tot); tot += n; ++k; } CHECK(tot == 100); CHECK(k == m.nchunks()); } }
"""),
"t03-alm-swap": dict(property="C16", edits=[("levels/Healpix_cxx/alm.cc", "  std::swap(tval, other.tval);\n", "")],
  needs="swapping coefficient sets of different lmax and access to m > 0 afterwards", breaks="coefficients with m > 0 are looked up in the wrong place", demo=r"""
#include "ls_alm.h"
static void demo() { levels::Alm<double> a(3, 3), b(6, 2); for (int l = 0; l <= 3; ++l) for (int m = 0; m <= l; ++m) a(l, m) = 10 * l + m; for (int l = 0; l <= 6; ++l) for (int m = 0; m <= l && m <= 2; ++m) b(l, m) = 100 + 10 * l + m; a.swap(b); CHECK(a.Lmax() == 6 && b.Lmax() == 3);
  for (int l = 0; l <= 6; ++l) for (int m = 0; m <= l && m <= 2; ++m) CHECK(a(l, m) == 100 + 10 * l + m); for (int l = 0; l <= 3; ++l) for (int m = 0; m <= l; ++m) CHECK(b(l, m) == 10 * l + m); }
"""),
"t04-plan-copy-factors": dict(property="C20", edits=[("levels/libfftpack/ls_fft.c", "    plan->worksize=2*length+15;\n    plan->work=RALLOC(double,2*length+15);", "    plan->worksize=2*length;\n    plan->work=RALLOC(double,2*length+15);")],
  needs="a copied plan for a real transform", breaks="the copy lacks the factors of the length: it reads beyond its work space", demo=r"""
#include "ls_fft.h"
#include <sys/wait.h>
static void demo() { fflush(0); pid_t pid = fork(); if (!pid) { alarm(20); int bad = 0; for (int n : {6, 8, 30}) { std::vector<void *> junk; for (int i = 0; i < 50; ++i) { void *q = malloc(8 * (2 * n + i % 20)); memset(q, 0x5a, 8 * (2 * n + i % 20)); junk.push_back(q); } for (auto q : junk) free(q); real_plan p = make_real_plan(n), c = copy_real_plan(p); std::vector<double> a(n), b; for (auto &x : a) x = rnd(); b = a; real_plan_forward_fftpack(p, a.data()); real_plan_forward_fftpack(c, b.data()); if (a != b) ++bad; kill_real_plan(p); kill_real_plan(c); } _exit(bad); } int st; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
"""),
"t05-nyquist-imag": dict(property="C19", nth={"if ((n&1)==0) data[n+1] = 0.;": 3}, edits=[("levels/libfftpack/ls_fft.c", "    if ((n&1)==0) data[n+1] = 0.;\n    }\n  }\n\nvoid real_plan_backward_c", "    }\n  }\n\nvoid real_plan_backward_c")],
  needs="a real transform of even length on complex storage whose imaginary parts are not zero", breaks="the imaginary part at the Nyquist frequency is left over from the input", demo=r"""
#include "ls_fft.h"
static void demo() { for (int n : {6, 7, 8, 10}) { real_plan p = make_real_plan(n); std::vector<double> v(2 * n), x(n); for (int i = 0; i < n; ++i) { v[2 * i] = x[i] = rnd(); v[2 * i + 1] = rnd(); } real_plan_forward_c(p, v.data()); for (int j = 0; j < n; ++j) { double re = 0, im = 0; for (int i = 0; i < n; ++i) { re += x[i] * std::cos(2 * M_PI * i * j / n); im -= x[i] * std::sin(2 * M_PI * i * j / n); } NEAR(v[2 * j], re, 1e-12); NEAR(v[2 * j + 1], im, 1e-12); } kill_real_plan(p); } }
"""),
"t06-array-swap-ownership": dict(property="C28", edits=[("levels/cxxsupport/ls_arr.h", "      std::swap(own,other.own);\n", "")],
  needs="swapping an array that views foreign memory with one that owns its memory", breaks="the view is freed by its new holder and the owned block is leaked", demo=r"""
#include "ls_arr.h"
#include <sys/wait.h>
static void demo() { fflush(0); pid_t p = fork(); if (!p) { alignas(64) static double buf[64]; { levels::arr<double> a(buf + 8, 4), b(3, 2.); buf[8] = 5; a.swap(b); if (a.size() != 3 || b.size() != 4 || a[2] != 2 || b[0] != 5) _exit(3); b.resize(6); if (buf[8] != 5) _exit(4); } _exit(0); } int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
"""),
"t07-pairwise-replace": dict(property="C29", ranks="1 2 3", edits=[("levels/cxxsupport/mpi_support.cc", "if ((rank_==int(src)) && (rank_==int(dest))) return;", "if (src==dest) return;")],
  needs="two tasks that exchange data with each other in place", breaks="nothing is exchanged", demo=r"""
#include "ls_mpi_support.h"
static void demo() { levels::MPI_Manager m; int n = m.num_ranks(), r = m.rank(); levels::arr<double> a(3); for (int i = 0; i < 3; ++i) a[i] = 10 * r + i; int to = (r + 1) % n, from = (r + n - 1) % n; m.sendrecv_replaceRaw(&a[0], 3, to, from); for (int i = 0; i < 3; ++i) CHECK(a[i] == 10 * from + i); }
"""),
"t08-euler-at-pi": dict(property="C31", edits=[("levels/cxxsupport/rotmatrix.cc", "      gamma=atan2(entry[0][1],-entry[0][0]);", "      gamma=atan2(entry[1][0],entry[0][0]);")],
  needs="a rotation with beta = pi", breaks="the extracted Euler angles describe another rotation", demo=r"""
#include "ls_rotmatrix.h"
static void demo() { for (double be : {0.3, 0., M_PI}) for (double al : {0., 1.1}) for (double ga : {0., 0.7, -2.}) { levels::rotmatrix a, b; a.Make_CPAC_Euler_Matrix(al, be, ga); double x, y, z; a.Extract_CPAC_Euler_Angles(x, y, z); b.Make_CPAC_Euler_Matrix(x, y, z); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) NEAR(a.entry[i][j], b.entry[i][j], 1e-5); } }
"""),
"t09-seed-keeps-gauss": dict(pre='#include "ls_rng.h"\n', property="C32", edits=[("levels/cxxsupport/ls_rng.h", "      empty = true;\n      init_rng();", "      init_rng();")],
  needs="seeding again after an odd number of Gaussian numbers", breaks="the first Gaussian number after seed() belongs to the old sequence", demo=r"""
#include "ls_rng.h"
static void demo() { for (int k = 0; k < 4; ++k) { levels::planck_rng a(1, 2, 3, 4), b(9, 8, 7, 6); for (int i = 0; i < k; ++i) b.rand_gauss(); b.seed(1, 2, 3, 4); for (int i = 0; i < 5; ++i) CHECK(a.rand_gauss() == b.rand_gauss()); } }
"""),
"t10-sort-index-width": dict(property="C27", edits=[("src/conviqt_util.cpp", "    std::vector<long> temp(n);", "    std::vector<int> temp(n);"), ("src/conviqt_util.cpp", "    memcpy(&(brr[0]), &(temp[0]), sizeof(long) * n);", "    for (i = 0; i < n; ++i) {\n        brr[i] = temp[i];\n    }")],
  needs="indices beyond 2^31", breaks="large indices are truncated while they are sorted", demo=r"""
namespace conviqt { void hpsort_DL(levels::arr<double> &ra, levels::arr<long> &brr); }
static void demo() { levels::arr<double> a(4); levels::arr<long> b(4); long v[4] = {5, 1l << 31, -(1l << 40), 7}; for (int i = 0; i < 4; ++i) { a[i] = 4 - i; b[i] = v[i]; } conviqt::hpsort_DL(a, b); for (int i = 0; i < 4; ++i) { CHECK(a[i] == i + 1); CHECK(b[i] == v[3 - i]); } }
"""),
"t13-scratch-per-processor": dict(property="C04", threads=2, edits=[("src/conviqt_math.cpp", """    const long thetaoffset = thetaIndex + itheta0[ntod - 1];

#pragma omp parallel default(shared)
    {
        std::vector<double> cosang(npsi), sinang(npsi);
        std::vector<double> wgt1(npoints, 0.);
        std::vector<double> wgt2(npoints, 0.);
""", """    const long thetaoffset = thetaIndex + itheta0[ntod - 1];
    // Work space of the threads
    std::vector< std::vector<double> > wgt_thread(2 * omp_get_num_procs());

#pragma omp parallel default(shared)
    {
        const int ithread = omp_get_thread_num() % omp_get_num_procs();
        std::vector<double> cosang(npsi), sinang(npsi);
        std::vector<double> &wgt1 = wgt_thread[2 * ithread];
        std::vector<double> &wgt2 = wgt_thread[2 * ithread + 1];
        wgt1.resize(npoints, 0.);
        wgt2.resize(npoints, 0.);
""")],
  needs="more OpenMP threads than processors", breaks="threads share interpolation weights", demo=r"""
#include <omp.h>
#include <sched.h>
static void demo() { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); CPU_SET(1, &cs); sched_setaffinity(0, sizeof cs, &cs); Case k(4, 2, 3, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 4, 2, 3, 0, MPI_COMM_WORLD); std::vector<Row> rows; for (int i = 0; i < 20000; ++i) rows.push_back({1.3 + 0.0005 * (i % 977), 0.37 * i, 0.3 * i, 0}); omp_set_dynamic(0); omp_set_num_threads(4 * omp_get_num_procs()); for (int r = 0; r < 4; ++r) compare(c, k, rows); }
"""),
"t14-nan-colatitude": dict(property="C08", edits=[("src/conviqt_math.cpp", "        if (!(theta >= 0 && theta <= pi)) {", "        if (theta < 0 || theta > pi) {"), ],
  needs="a co-latitude that is not a number", breaks="the sample is accepted and indexes memory", demo=r"""
#include <sys/wait.h>
static void demo() { Case k(3, 1, 1, 1); int bad = 0; for (double t : {-1e-9, 3.2, double(NAN), double(INFINITY)}) { conviqt::convolver c(&k.s, &k.b, &k.d, false, 3, 1, 1, 0, MPI_COMM_WORLD); conviqt::pointing p; p.alloc(15); for (int i = 0; i < 3; ++i) { p[5 * i] = 1; p[5 * i + 1] = i == 1 ? t : 1.; p[5 * i + 2] = p[5 * i + 3] = p[5 * i + 4] = 0; } bool thrown = false; try { c.convolve(p, false); } catch (std::exception &) { thrown = true; } if (!thrown) ++bad; } CHECK(bad == 0); }
"""),
"t15-static-weights": dict(property="C34", edits=[("src/conviqt.hpp", "    std::vector<double> base_wgt;", "    static inline std::vector<double> base_wgt;")],
  needs="two convolvers of different interpolation order in the same program", breaks="the second one fails because the first one's weights are still there", demo=r"""
static void demo() { Case k(8, 1, 1, 1), q(8, 1, 4, 1); std::vector<Row> rows; for (int i = 0; i < 30; ++i) rows.push_back({1.2 + 0.02 * i, 0.2 * i, 0.3 * i, 0}); try { { conviqt::convolver c(&k.s, &k.b, &k.d, false, 8, 1, 1, 0, MPI_COMM_WORLD); compare(c, k, rows); } { conviqt::convolver c(&q.s, &q.b, &q.d, false, 8, 1, 4, 0, MPI_COMM_WORLD); compare(c, q, rows); } } catch (std::exception &e) { CHECK(!"exception"); } }
"""),
"t16-create-alm-tg": dict(pre='#include "ls_rng.h"\n', property="C35", edits=[("levels/Healpix_cxx/alm_powspec_tools.cc", "      rms_g2 -= (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);", "      rms_g2 -= (powspec.tg(l)/powspec.tt(l))*::abs(powspec.tg(l));")],
  needs="spectra with a negative temperature-gradient correlation", breaks="the gradient coefficients have too much power where the correlation is negative", demo=r"""
#include "ls_alm.h"
#include "ls_powspec.h"
#include "ls_alm_powspec_tools.h"
#include "ls_rng.h"
static void demo() { for (double s : {0.9, -0.9}) { int L = 400; levels::PowSpec p(4, L); levels::arr<double> tt(L + 1, 1.), gg(L + 1, 1.), cc(L + 1, 1.), tg(L + 1, s); p.Set(tt, gg, cc, tg); levels::Alm<levels::xcomplex<double> > T(L, L), G(L, L), C(L, L); levels::planck_rng r; levels::create_alm_pol(p, T, G, C, r); double a = 0, x = 0; long n = 0; for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) { a += (m ? 2 : 1) * G(l, m).norm(); x += (m ? 2 : 1) * (T(l, m).re * G(l, m).re + T(l, m).im * G(l, m).im); n += m ? 2 : 1; } NEAR(a / n, 1, 0.02); NEAR(x / n, s, 0.02); } }
"""),
}
