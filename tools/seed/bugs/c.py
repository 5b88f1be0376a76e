{
"u01-sky-comm-default": dict(property="C37", ranks="2 3", edits=[("src/cconviqt.cpp", "ref->read(skylmax, pol, infile_sky, fwhm_deconv_sky, comm);", "ref->read(skylmax, pol, infile_sky, fwhm_deconv_sky);")],
  needs="tasks that read different skies through the C interface, each in its own communicator", breaks="every task receives the sky of the first task", demo=r"""
static void demo() { int r = mpirank(); ref::Coef c; fill(c, 4, 4); for (int i = 0; i <= r; ++i) fill(c, 4, 4); std::string f = tmpfile("x") + std::to_string(r); write_alm(f.c_str(), &c, 1, 4, 4); MPI_Barrier(MPI_COMM_WORLD);
  void *s = conviqt_sky_new(); CHECK(conviqt_sky_read(s, -1, 0, (char *)f.c_str(), 0, MPI_COMM_SELF) == 0); auto &a = ((conviqt::sky *)s)->slmT(); for (int l = 0; l <= 4; ++l) for (int m = 0; m <= l; ++m) { NEAR(a(l, m).re, c.re[l][m], 1e-6); NEAR(a(l, m).im, c.im[l][m], 1e-6); } conviqt_sky_del(s); }
"""),
"u02-scan-world": dict(property="C37", ranks="2 3", edits=[("src/conviqt_math.cpp", "MPI_LONG, MPI_SUM, mpiMgr.comm());", "MPI_LONG, MPI_SUM, MPI_COMM_WORLD);")],
  needs="convolvers on sub-communicators", breaks="the sample index counts the samples of foreign tasks", demo=r"""
static void demo() { Case k(4, 1, 1, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 4, 1, 1, 0, MPI_COMM_SELF); conviqt::pointing p; p.alloc(15); for (int i = 0; i < 3; ++i) { p[5 * i] = .3 * i; p[5 * i + 1] = 1.3 + .1 * i; p[5 * i + 2] = .1; p[5 * i + 3] = p[5 * i + 4] = 0; } CHECK(c.convolve(p, false) == 0); for (int i = 0; i < 3; ++i) { CHECK(p[5 * i + 4] == i); NEAR(p[5 * i + 3], k.want(1.3 + .1 * i, .3 * i, .1), 1e-4); } }
"""),
"u03-set-detector-once": dict(property="C12", edits=[("src/cconviqt.cpp", "            cnvref->set_detector(detref);", "            if (detref == NULL) return -1;")],
  needs="replacing the detector of a convolver through the C interface", breaks="the calibration keeps using the old detector", demo=r"""
static void demo() { Case k(4, 1, 1, 1); void *c = conviqt_convolver_new(&k.s, &k.b, &k.d, 0, 4, 1, 1, 0, MPI_COMM_WORLD); void *d = conviqt_detector_new_with_id((char *)"other"); conviqt_detector_set_epsilon(d, 0.5); k.d.set_epsilon(0); CHECK(conviqt_convolver_set_detector(c, d) == 0); conviqt::pointing p; p.alloc(5); p[0] = .3; p[1] = 1.4; p[2] = .2; p[3] = p[4] = 0; CHECK(conviqt_convolver_convolve(c, &p, 1) == 0); NEAR(p[3], 2 / 1.5 * k.want(1.4, .3, .2), 1e-4); conviqt_convolver_del(c); conviqt_detector_del(d); }
"""),
"u06-deconv-pol-factor": dict(property="C17", edits=[("levels/Healpix_cxx/alm_powspec_tools.cc", "  double fact_pol = ::exp(2*fct*sigma*sigma);", "  double fact_pol = ::exp(2*sigma*sigma);")],
  needs="deconvolving polarised coefficients", breaks="the polarised window is multiplied instead of divided out", demo=r"""
#include "ls_alm.h"
#include "ls_alm_powspec_tools.h"
static void demo() { for (double w : {0.3, -0.3}) { levels::Alm<levels::xcomplex<double> > t(5, 5), g(5, 5), c(5, 5); for (int m = 0; m <= 5; ++m) for (int l = m; l <= 5; ++l) t(l, m) = g(l, m) = c(l, m) = levels::xcomplex<double>(rnd(), rnd()); auto o = t; levels::Alm<levels::xcomplex<double> > q(5, 5); for (int m = 0; m <= 5; ++m) for (int l = m; l <= 5; ++l) q(l, m) = t(l, m); levels::smoothWithGauss(t, g, c, w); levels::smoothWithGauss(t, g, c, -w); for (int m = 0; m <= 5; ++m) for (int l = m; l <= 5; ++l) { NEAR(t(l, m).re, q(l, m).re, 1e-12); NEAR(g(l, m).re, q(l, m).re, 1e-12); NEAR(c(l, m).im, q(l, m).im, 1e-12); } } }
"""),
"u07-chirp-padding": dict(property="C18", edits=[("levels/libfftpack/bluestein.c", "  for (m=2*n;m<=(2*n2-2*n+1);++m)", "  for (m=2*n;m<(2*n2-2*n+1);++m)")],
  needs="a length with a large prime factor and memory that was used before", breaks="one element of the padded chirp is left uninitialised", demo=r"""
#include "ls_fft.h"
static void demo() { int bad = 0; for (int n : {11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 149, 151, 211}) for (int rep = 0; rep < 20; ++rep) { std::vector<void *> junk; for (int s = 2 * n; s < 40 * n; s += 2) { double *q = (double *)malloc(8 * s); for (int i = 0; i < s; ++i) q[i] = NAN; junk.push_back(q); } for (auto q : junk) free(q);
   complex_plan p = make_complex_plan(n); std::vector<double> v(2 * n), x; for (auto &z : v) z = rnd(); x = v; complex_plan_forward(p, v.data()); for (int k = 0; k < n; ++k) { double re = 0, im = 0; for (int j = 0; j < n; ++j) { double a = -2 * M_PI * (long(j) * k % n) / n; re += x[2 * j] * cos(a) - x[2 * j + 1] * sin(a); im += x[2 * j] * sin(a) + x[2 * j + 1] * cos(a); } if (!(std::fabs(v[2 * k] - re) < 1e-9 && std::fabs(v[2 * k + 1] - im) < 1e-9)) ++bad; } kill_complex_plan(p); } CHECK(bad == 0); }
"""),
"u08-risbo-shared": dict(property="C22", threads=4, edits=[("levels/cxxsupport/wigner.cc", "      double xj = 1./j;\n      dd[0][0] = q*d[0][0];", "      double xj = 1./j, t1, t2, t3, t4;\n      dd[0][0] = q*d[0][0];"), ("levels/cxxsupport/wigner.cc", "        double t1 = xj*sqt[j-k]*q, t2 = xj*sqt[j-k]*p;\n        double t3 = xj*sqt[k  ]*p, t4 = xj*sqt[k  ]*q;\n        dd[k][0]", "        t1 = xj*sqt[j-k]*q; t2 = xj*sqt[j-k]*p;\n        t3 = xj*sqt[k  ]*p; t4 = xj*sqt[k  ]*q;\n        dd[k][0]")],
  needs="several threads", breaks="threads overwrite each other's coefficients", demo=r"""
#include "ls_wigner.h"
#include <sched.h>
#include <omp.h>
static void demo() { cpu_set_t cs; CPU_ZERO(&cs); for (int i = 0; i < 64; ++i) CPU_SET(i, &cs); sched_setaffinity(0, sizeof cs, &cs); omp_set_dynamic(0); omp_set_num_threads(4); int L = 250, bad = 0; for (int rep = 0; rep < 3; ++rep) { levels::wigner_d_risbo_openmp a(L, 1.1); levels::wigner_d_risbo_scalar b(L, 1.1); for (int l = 0; l <= L; ++l) { auto &x = a.recurse(); auto &y = b.recurse(); for (int i = 0; i <= l; ++i) for (int k = 0; k <= 2 * l; ++k) if (!(std::fabs(x[i][k] - y[i][k]) < 1e-8)) ++bad; } } CHECK(bad == 0); }
"""),
"u09-compressed-imaginary": dict(property="C33", edits=[("levels/Healpix_cxx/alm_fitsio.cc", "      while (alms(l,m).norm()==0)", "      while (alms(l,m).re==0)")],
  needs="coefficients whose real part alone is zero", breaks="purely imaginary coefficients are not written and the search runs beyond the coefficients", demo=r"""
#include "ls_alm_fitsio.h"
#include "ls_fitshandle.h"
#include "ls_alm.h"
#include <sys/wait.h>
static void demo() { fflush(0); pid_t pid = fork(); if (!pid) { alarm(20); int bad = 0; levels::Alm<levels::xcomplex<double> > a(4, 3), b; for (int m = 0; m <= 3; ++m) for (int l = m; l <= 4; ++l) a(l, m) = levels::xcomplex<double>(l == 2 ? 0 : rnd(), l == 3 || !m ? 0 : rnd()); std::string f = tmpfile("c.fits"); remove(f.c_str()); try { { levels::fitshandle o; o.create(f); levels::write_compressed_Alm_to_fits(o, a, 4, 3, levels::planckType<double>()); } levels::read_Alm_from_fits(f, b, 4, 3); for (int m = 0; m <= 3; ++m) for (int l = m; l <= 4; ++l) if (b(l, m).re != a(l, m).re || b(l, m).im != a(l, m).im) ++bad; } catch (...) { bad = 1; } _exit(bad != 0); } int st; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
"""),
"u10-negative-m-rows": dict(property="C11", edits=[("levels/Healpix_cxx/alm_fitsio.cc", "      levels_assert(m>=0,\"negative m encountered\");\n", "")],
  needs="a file with a row of negative m", breaks="the row overwrites the coefficient of another multipole (or foreign memory) instead of being reported", demo=r"""
static void demo() { for (int idx : {2, 5, 6, 10, 3}) { fitsfile *f; int st = 0; std::string nm = tmpfile("n.fits"); remove(nm.c_str()); fits_create_file(&f, nm.c_str(), &st); char *tt[] = {(char *)"index", (char *)"real", (char *)"imag"}, *tf[] = {(char *)"1J", (char *)"1E", (char *)"1E"}, *tu[] = {(char *)"", (char *)"", (char *)""}; fits_create_tbl(f, BINARY_TBL, 0, 3, tt, tf, tu, "alm", &st); int v = 4; fits_write_key(f, TINT, "MAX-LPOL", &v, "", &st); fits_write_key(f, TINT, "MAX-MPOL", &v, "", &st); int ix[2] = {7, idx}; float re[2] = {1, 2}, im[2] = {0, 0}; fits_write_col(f, TINT, 1, 1, 1, 2, ix, &st); fits_write_col(f, TFLOAT, 2, 1, 1, 2, re, &st); fits_write_col(f, TFLOAT, 3, 1, 1, 2, im, &st); fits_close_file(f, &st); CHECK(st == 0);
   conviqt::sky s; bool thrown = false; try { s.read(-1, false, nm, 0, MPI_COMM_WORLD); } catch (...) { thrown = true; } CHECK(thrown == (idx != 3)); } }
"""),
"u11-lmax-max": dict(property="C09", edits=[("src/conviqt_math.cpp", "    } else if (lmax > lmax_sky || lmax > lmax_beam) {", "    } else if (lmax > std::max(lmax_sky, lmax_beam)) {")],
  needs="an lmax between those of sky and beam", breaks="a convolver is created that reads beyond the shorter expansion", demo=r"""
static void demo() { Case k(4, 1, 1, 1, 4, 7), q(4, 1, 1, 1, 7, 4); for (Case *c : {&k, &q}) { bool thrown = false; try { conviqt::convolver v(&c->s, &c->b, &c->d, false, 6, 1, 1, 0, MPI_COMM_WORLD); } catch (std::exception &) { thrown = true; } CHECK(thrown); } }
"""),
"u12-static-curl": dict(property="C34", edits=[("src/conviqt_math.cpp", "    Alm< xcomplex<float> > &slmC = s->slmC();", "    static Alm< xcomplex<float> > &slmC = s->slmC();")],
  needs="two polarised skies in one program", breaks="the second sky is convolved with the curl of the first one", demo=r"""
static void demo() { Case *k = new Case(5, 2, 1, 3), *q = new Case(5, 2, 1, 3); std::vector<Row> rows; for (int i = 0; i < 20; ++i) rows.push_back({1.2 + 0.02 * i, 0.2 * i, 0.3 * i, 0}); for (Case *c : {k, q}) { conviqt::convolver v(&c->s, &c->b, &c->d, true, 5, 2, 1, 0, MPI_COMM_WORLD); compare(v, *c, rows); } }
"""),
"u13-ring-clamp": dict(property="C06", edits=[("src/conviqt_math.cpp", "    if (itheta > (ntheta - npoints)) {\n        itheta = ntheta - npoints;\n    }", "    if (itheta > ntheta) {\n        itheta = ntheta - npoints;\n    }")],
  needs="samples near a pole and an interpolation of even order", breaks="the stencil leaves the grid", demo=r"""
#include <sys/wait.h>
static void demo() { fflush(0); int bad = 0; for (int order : {0, 1, 2, 3, 4, 5}) { Case k(6, 0, order, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 6, 0, order, 0, MPI_COMM_WORLD); std::vector<Row> rows; for (double t : {0., 1e-3, 0.01, 0.05, 0.1, 3.0, 3.1, 3.14159, M_PI}) rows.push_back({t, 0.4, 0.2, 0}); compare(c, k, rows, false, 1, 1e-3); } (void)bad; }
"""),
}
