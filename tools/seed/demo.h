// helpers of the demonstrations
#pragma once
#include <mpi.h>
#include <fitsio.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include "conviqt.hpp"
#include "cconviqt.h"
extern "C" { static inline long vp_fix(long v) { return v; } }
#define VP_DEMO
#include "ref.h"
static int nfail = 0;
#define CHECK(c) do { if (!(c)) { ++nfail; fprintf(stderr, "FAILED %s:%d %s\n", __FILE__, __LINE__, #c); } } while (0)
#define NEAR(a, b, tol) do { double a_ = (a), b_ = (b); if (!(std::fabs(a_ - b_) <= (tol))) { ++nfail; fprintf(stderr, "FAILED %s:%d %s = %.10g, expected %.10g\n", __FILE__, __LINE__, #a, a_, b_); } } while (0)
static unsigned long rs = 88172645463325252ul;
static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return double(rs >> 11) / 9007199254740992. * 2 - 1; }
static void fill(ref::Coef &c, int lmax, int mmax) { for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) { c.re[l][m] = float(rnd()); c.im[l][m] = m ? float(rnd()) : 0; } }
// FITS file with one table of coefficients per component; order[] permutes the rows
static void write_alm(const char *name, const ref::Coef *c, int ncomp, int lmax, int mmax, bool reverse = false, bool keys = true) {
    fitsfile *f; int st = 0; remove(name); fits_create_file(&f, name, &st);
    for (int k = 0; k < ncomp; ++k) {
        char *tt[] = {(char *)"index", (char *)"real", (char *)"imag"}, *tf[] = {(char *)"1J", (char *)"1E", (char *)"1E"}, *tu[] = {(char *)"", (char *)"", (char *)""};
        fits_create_tbl(f, BINARY_TBL, 0, 3, tt, tf, tu, "alm", &st);
        int v = lmax; if (keys) { fits_write_key(f, TINT, "MAX-LPOL", &v, "", &st); v = mmax; fits_write_key(f, TINT, "MAX-MPOL", &v, "", &st); }
        std::vector<int> idx; std::vector<float> re, im;
        for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) { idx.push_back(l * l + l + m + 1); re.push_back(c[k].re[l][m]); im.push_back(c[k].im[l][m]); }
        long n = idx.size(); if (reverse) for (long i = 0; i < n / 2; ++i) { std::swap(idx[i], idx[n - 1 - i]); std::swap(re[i], re[n - 1 - i]); std::swap(im[i], im[n - 1 - i]); }
        fits_write_col(f, TINT, 1, 1, 1, n, idx.data(), &st); fits_write_col(f, TFLOAT, 2, 1, 1, n, re.data(), &st); fits_write_col(f, TFLOAT, 3, 1, 1, n, im.data(), &st);
    }
    fits_close_file(f, &st); if (st) { fits_report_error(stderr, st); exit(9); }
}
static int mpirank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static int mpisize() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
static std::string tmpfile(const char *n) { return std::string(getenv("DEMO_TMP")) + "/" + n; }
struct Case { ref::Input in; int lmax, mmax, order; conviqt::sky s; conviqt::beam b; conviqt::detector d;
    Case(int lmax, int mmax, int order, int ncomp, int slmax = 0, int blmax = 0) : lmax(lmax), mmax(mmax), order(order), d("det") {
        if (!slmax) slmax = lmax; if (!blmax) blmax = lmax; in.ncomp = ncomp; for (int c = 0; c < ncomp; ++c) { fill(in.s[c], slmax, slmax); fill(in.b[c], blmax, mmax); }
        if (mpirank() == 0) { write_alm(tmpfile("s.fits").c_str(), in.s, ncomp, slmax, slmax); write_alm(tmpfile("b.fits").c_str(), in.b, ncomp, blmax, mmax); }
        MPI_Barrier(MPI_COMM_WORLD); s.read(-1, ncomp == 3, tmpfile("s.fits"), 0, MPI_COMM_WORLD); b.read(-1, -1, ncomp == 3, tmpfile("b.fits"), MPI_COMM_WORLD); MPI_Barrier(MPI_COMM_WORLD); }
    double want(double th, double ph, double ps) { double c[20], q[20]; for (int k = 0; k <= mmax; ++k) { c[k] = cos(k * ps); q[k] = sin(k * ps); } ref::Grid g(lmax, mmax, order); return ref::signal(in, g, th, ph, c, q); }
};
// runs the samples rows[] (th, ph, ps), this task taking those with owner[i] == rank, and compares with the reference
struct Row { double th, ph, ps; int owner; };
static void compare(conviqt::convolver &c, Case &k, const std::vector<Row> &rows, bool cal = false, double scale = 1, double tol = 1e-4) {
    conviqt::pointing p; std::vector<int> mine; long base = 0; for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].owner == mpirank()) mine.push_back(i); if (rows[i].owner < mpirank()) ++base; }
    if (!mine.empty()) p.alloc(5 * mine.size());
    for (size_t j = 0; j < mine.size(); ++j) { const Row &r = rows[mine[j]]; p[5 * j] = r.ph; p[5 * j + 1] = r.th; p[5 * j + 2] = r.ps; p[5 * j + 3] = 77; p[5 * j + 4] = 78; }
    CHECK(c.convolve(p, cal) == 0); CHECK(p.size() == 5 * mine.size());
    for (size_t j = 0; j < mine.size(); ++j) { const Row &r = rows[mine[j]]; CHECK(p[5 * j] == r.ph && p[5 * j + 1] == r.th && p[5 * j + 2] == r.ps); CHECK(p[5 * j + 4] == base + long(j)); NEAR(p[5 * j + 3], scale * k.want(r.th, r.ph, r.ps), tol); }
}
static void demo();
int main(int argc, char **argv) { MPI_Init(&argc, &argv); demo(); int tot = 0; MPI_Allreduce(&nfail, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Finalize(); if (!tot && !argc) puts("ok"); return tot ? 1 : 0; }
