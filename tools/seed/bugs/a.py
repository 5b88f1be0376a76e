{
"s01-boundary-owner": dict(property="C03", ranks="1 2 3", edits=[("src/conviqt_math.cpp", """        int corenum = 0;
        for (long ii = 0; ii < totsize; ++ii) {
            double theta = pntarr[5 * ii + 1];
            if (theta < 0""", """        for (long ii = 0; ii < totsize; ++ii) {
            int corenum = 0;
            double theta = pntarr[5 * ii + 1];
            if (theta < 0""")],
  needs="at least two tasks and a sample whose co-latitude lies exactly on a border between two tasks, visited after a sample of a later task",
  breaks="the counts and the packing of the redistribution disagree on the owner of border samples: rows overwrite each other, signals are lost or land in other rows",
  demo=r"""
static void demo() { Case k(3, 0, 3, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 3, 0, 3, 0, MPI_COMM_WORLD); double w = 0.5 * ref::PI / 100000;
  for (int b = 40000; b < 60000; b += 1999) { std::vector<Row> rows; for (int i = 0; i < 9; ++i) rows.push_back({b * w + (i == 4 ? 0 : (i - 4) * 0.05), 0.3 * i, 0.2 * i, i % mpisize()}); for (int i = 0; i < 3; ++i) rows.push_back({b * w, 1 + 0.1 * i, 0.3, 0}); for (int j = 0; j < 3; ++j) rows.push_back({b * w + 0.2, 0.4, 1.1, j % mpisize()}), rows.push_back({b * w, 2 + 0.1 * j, 0.3, j % mpisize()}); compare(c, k, rows); } }
"""),
"s02-negative-longitude": dict(property="C07", edits=[("src/conviqt_math.cpp", "frac = levels::fmodulo(frac, double(nphi));", "frac = frac < 0 ? frac + nphi : fmod(frac, double(nphi));")],
  needs="longitudes more than a full turn below phi = pi/2",
  breaks="such longitudes are extrapolated instead of wrapped",
  demo=r"""
static void demo() { Case k(4, 1, 1, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 4, 1, 1, 0, MPI_COMM_WORLD); std::vector<Row> rows; for (int i = 0; i < 40; ++i) rows.push_back({0.7 + 0.03 * i, -6.9 + 0.347 * i, 0.3 * i, 0}); compare(c, k, rows); }
"""),
"s03-rows-without-latitudes": dict(property="C05", ranks="1 2 3 4", edits=[("src/conviqt_math.cpp", """    // Now restore the original, time-based order in pntarr

    if (totsize != 0) {""", """    // Now restore the original, time-based order in pntarr

    if (totsize != 0 && ntod != 0) {""")],
  needs="a task that has samples but receives no latitudes of its own, while its samples belong to several other tasks",
  breaks="the rows of that task come back in the order of their owners instead of the original order",
  demo=r"""
static void demo() { Case k(3, 0, 1, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 3, 0, 1, 0, MPI_COMM_WORLD); int n = mpisize();
  for (int v = 0; v < 4; ++v) { std::vector<Row> rows; for (int i = 0; i < 40; ++i) rows.push_back({i % 2 ? 1.2 : 0.7, 0.1 * i, 0.2 * i, v == 0 ? n - 1 : v == 1 ? i % n : v == 2 ? 0 : (i * i) % n}); compare(c, k, rows); } }
"""),
"s04-beam-normalize-c": dict(property="C14", edits=[("src/conviqt_math.cpp", """            blmG_.Scale(scale);
            blmC_.Scale(scale);
        }
    }
    normalized_""", """            blmG_.Scale(scale);
            if (blmC_.conformable(blmG_) && blmC_(0, 0).norm() > 0) blmC_.Scale(scale);
        }
    }
    normalized_""")],
  needs="a polarised beam with C coefficients but none at l = m = 0 (the usual case for spin-2 components)",
  breaks="the C component keeps its old normalisation",
  demo=r"""
static void demo() { Case k(3, 2, 2, 3); for (int c = 1; c < 3; ++c) k.in.b[c].re[0][0] = k.in.b[c].re[1][0] = 0; k.in.b[0].re[0][0] = 0.75; if (!mpirank()) write_alm(tmpfile("b.fits").c_str(), k.in.b, 3, 3, 2); k.b.read(-1, -1, true, tmpfile("b.fits"), MPI_COMM_WORLD);
  double f = k.b.normalize(), w = 1 / (2 * std::sqrt(ref::PI) * 0.75); NEAR(f, w, 1e-6);
  for (int l = 0; l <= 3; ++l) for (int m = 0; m <= l && m <= 2; ++m) { NEAR(k.b.blmT()(l, m).re, w * k.in.b[0].re[l][m], 1e-5); NEAR(k.b.blmG()(l, m).re, w * k.in.b[1].re[l][m], 1e-5); NEAR(k.b.blmC()(l, m).re, w * k.in.b[2].re[l][m], 1e-5); NEAR(k.b.blmC()(l, m).im, w * k.in.b[2].im[l][m], 1e-5); } }
"""),
"s05-dipole-lmax1": dict(property="C15", edits=[("src/conviqt_math.cpp", "    if (slmT_.Mmax() >= 1) {", "    if (slmT_.Mmax() > 1) {")],
  needs="a sky of lmax = 1", breaks="the m = 1 part of the dipole survives remove_dipole",
  demo=r"""
static void demo() { for (int L = 1; L < 4; ++L) { Case k(L, 1, 1, 1); k.s.remove_dipole(); auto &a = k.s.slmT(); CHECK(a(1, 0).re == 0 && a(1, 1).re == 0 && a(1, 1).im == 0); NEAR(a(0, 0).re, k.in.s[0].re[0][0], 1e-6); if (L > 1) NEAR(a(2, 1).im, k.in.s[0].im[2][1], 1e-6); } }
"""),
"s06-rotate-threads": dict(property="C23", threads=3, edits=[("levels/Healpix_cxx/alm_powspec_tools.cc", """      xcomplex<double> t1C = xcomplex<double>(almC(l,mm))*exppsi[mm];
      bool flip2 = ((mm+lo)&1) ? true : false;""", """      xcomplex<double> t1C = xcomplex<double>(almC(l,mm))*exppsi[mm];
      bool flip2 = !flip;""")],
  needs="rotation of polarised coefficients with more than one OpenMP thread, when the share of a thread starts at an odd m", breaks="the rotated coefficients depend on the number of threads",
  demo=r"""
#include "ls_alm.h"
#include "ls_alm_powspec_tools.h"
#include <omp.h>
static void demo() { using namespace levels; for (int L = 1; L < 7; ++L) { Alm<xcomplex<double> > a[3], b[3]; for (int c = 0; c < 3; ++c) { a[c].Set(L, L); for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) a[c](l, m).Set(rnd(), m ? rnd() : 0); b[c] = a[c]; }
  omp_set_num_threads(1); rotate_alm(a[0], a[1], a[2], 0.3, 0.7, 1.1); for (int t = 2; t < 5; ++t) { Alm<xcomplex<double> > d[3] = {b[0], b[1], b[2]}; omp_set_num_threads(t); rotate_alm(d[0], d[1], d[2], 0.3, 0.7, 1.1); for (int c = 0; c < 3; ++c) for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) { NEAR(d[c](l, m).re, a[c](l, m).re, 1e-10); NEAR(d[c](l, m).im, a[c](l, m).im, 1e-10); } } } }
"""),
"s07-alm-bcast-c": dict(property="C10", ranks="1 2 3", edits=[("src/conviqt_io.cpp", "    long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);", "    long blmsize = (mmax + 1) * (mmax + 2) + 2 * mmax * (lmax - mmax);")],
  needs="more than one task and a beam with mmax < lmax", breaks="the last coefficients of the beam are not sent to the other tasks",
  demo=r"""
static void demo() { for (int M = 0; M < 4; ++M) { Case k(5, M, 1, 3); for (int l = 0; l <= 5; ++l) for (int m = 0; m <= l && m <= M; ++m) { NEAR(k.b.blmT()(l, m).re, k.in.b[0].re[l][m], 1e-6); NEAR(k.b.blmC()(l, m).im, k.in.b[2].im[l][m], 1e-6); } } }
"""),
"s08-wigner-sign-cache": dict(property="C21", edits=[("levels/cxxsupport/wigner.cc", "  bool flip_m_sign = ((m1*m2)!=(m1_*m2_));", "  bool flip_m_sign = ((m1+m2)!=(m1_+m2_));")],
  needs="prepare() called with indices of the same magnitudes as before: a flip of both signs, or the sign of one when the sum stays the same",
  breaks="the recursion coefficients kept from the previous call get the wrong sign",
  demo=r"""
#include "ls_wigner.h"
static void demo() { levels::arr<double> th(3); th[0] = 0.4; th[1] = 1.3; th[2] = 2.5; levels::wignergen g(5, th, 1e-30); int seq[][2] = {{2, 1}, {-2, -1}, {2, -1}, {-2, 1}, {1, -2}, {1, 2}, {2, 1}, {0, 3}, {3, 0}, {0, -3}, {2, 2}, {-2, -2}, {-2, 2}, {2, -2}};
  for (auto &q : seq) { g.prepare(q[0], q[1]); for (int i = 0; i < 3; ++i) { int f; auto &d = g.calc(i, f); for (int l = std::max(f, std::max(abs(q[0]), abs(q[1]))); l <= 5; ++l) NEAR(d[l], ref::wigd(l, q[0], q[1], th[i]), 1e-8); } } }
"""),
"s09-skip-zero": dict(property="C01", edits=[("src/conviqt_math.cpp", """                    for (long ii = firstl; ii <= lmax; ++ii) {
                        dlb = -dlb;
                        // Note that msky in dlm is located to the left of
                        // mb and they have""", """                    for (long ii = firstl; ii <= lmax; ++ii) {
                        if (mbeam > 0 && blmT(ii, mbeam).norm() == 0) continue;  // nothing to add
                        dlb = -dlb;
                        // Note that msky in dlm is located to the left of
                        // mb and they have""")],
  needs="a beam with a vanishing coefficient at some l for m > 0, followed by non-vanishing ones; samples in the southern hemisphere",
  breaks="the sign of the southern half of the data cube goes wrong behind the vanishing coefficient",
  demo=r"""
static void demo() { Case k(4, 2, 1, 1); k.in.b[0].re[2][1] = k.in.b[0].im[2][1] = 0; if (!mpirank()) write_alm(tmpfile("b.fits").c_str(), k.in.b, 1, 4, 2); k.b.read(-1, -1, false, tmpfile("b.fits"), MPI_COMM_WORLD); conviqt::convolver c(&k.s, &k.b, &k.d, false, 4, 2, 1, 0, MPI_COMM_WORLD); std::vector<Row> rows; for (int i = 0; i < 12; ++i) rows.push_back({1.0 + 0.1 * i, 0.7 * i, 0.3 * i, 0}); compare(c, k, rows); }
"""),
"s10-c-calibrate-flag": dict(property="C12", edits=[("src/cconviqt.cpp", "            cnvref->convolve(*pntref, calibrate);", "            cnvref->convolve(*pntref, calibrate == 1);")],
  needs="a calibrate flag other than 0 and 1 (any non-zero char is true)", breaks="conviqt_convolver_convolve does not calibrate for true values other than 1",
  demo=r"""
static void demo() { Case k(3, 2, 1, 1); k.d.set_epsilon(.25); for (char cal : {char(0), char(1), char(2), char(-1), char(127)}) { void *c = conviqt_convolver_new(&k.s, &k.b, &k.d, 0, 3, 2, 1, 0, MPI_COMM_WORLD), *p = conviqt_pointing_new(); CHECK(c && p); CHECK(!conviqt_pointing_alloc(p, 5)); double *d = conviqt_pointing_data(p); d[0] = 1; d[1] = 1.2; d[2] = .7; d[3] = d[4] = 0; CHECK(!conviqt_convolver_convolve(c, p, cal)); NEAR(conviqt_pointing_data(p)[3], (cal ? 2 / 1.25 : 1) * k.want(1.2, 1, .7), 1e-4); conviqt_pointing_del(p); conviqt_convolver_del(c); } }
"""),
"s11-cross-mmax": dict(property="C24", edits=[("levels/Healpix_cxx/alm_powspec_tools.cc", """    int limit = std::min(l,almT1.Mmax());
    for (int m=1; m<=limit; ++m)
      {
      tt[l] +=""", """    int limit = std::min(almT1.Mmax(),lmax/2+l%2 > l ? l : lmax);
    if (limit>l) limit = l;
    for (int m=1; m<=limit; ++m)
      {
      if (m>almT1.Mmax()-(almT1.Mmax()<lmax ? 1 : 0)) continue;
      tt[l] +=""")],
  needs="polarised coefficients with mmax < lmax", breaks="the highest m is left out of the polarised spectra when mmax < lmax",
  demo=r"""
#include "ls_alm.h"
#include "ls_powspec.h"
#include "ls_alm_powspec_tools.h"
static void demo() { using namespace levels; for (int M = 0; M <= 4; ++M) { int L = 4; Alm<xcomplex<double> > a[3]; for (auto &x : a) { x.Set(L, M); for (int l = 0; l <= L; ++l) for (int m = 0; m <= l && m <= M; ++m) x(l, m).Set(rnd(), m ? rnd() : 0); } PowSpec p; extract_powspec(a[0], a[1], a[2], p);
  for (int l = 0; l <= L; ++l) { double tt = 0, gc = 0; for (int m = 0; m <= l && m <= M; ++m) { double f = (m ? 2. : 1.) / (2 * l + 1); tt += f * (a[0](l, m).re * a[0](l, m).re + a[0](l, m).im * a[0](l, m).im); gc += f * (a[1](l, m).re * a[2](l, m).re + a[1](l, m).im * a[2](l, m).im); } NEAR(p.tt(l), tt, 1e-12); NEAR(p.gc(l), gc, 1e-12); } } }
"""),
"s12-verbose-collective": dict(property="C38", ranks="1 2", edits=[("src/conviqt_math.cpp", """        for (int core = 0; core < cores; ++core) {
            if (core == corenum) {
                std::cerr << corenum << " :"
                          << " NThetaIndex1 = \"""".rstrip('"') + '"', """        for (int core = 0; core < cores && (ntod1 || ntod2); ++core) {
            if (core == corenum) {
                std::cerr << corenum << " :"
                          << " NThetaIndex1 = \"""".rstrip('"') + '"')],
  needs="verbosity above 5, several tasks, one of which has no samples of its own latitudes", breaks="tasks without samples leave out the barriers of the diagnostic output: the others wait for ever or meet another collective",
  demo=r"""
static void demo() { Case k(2, 1, 1, 1); conviqt::convolver c(&k.s, &k.b, &k.d, false, 2, 1, 1, 6, MPI_COMM_WORLD); freopen("/dev/null", "w", stderr); alarm(40); std::vector<Row> rows; rows.push_back({1.1, 0.4, 0.2, 0}); compare(c, k, rows); }
"""),
}
