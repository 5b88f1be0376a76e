// sky, beam and detector with symbolic coefficients, loaded through the public interface from in-memory FITS files
#pragma once
#include "common.h"
#include "fakefits.h"
#include "ref.h"
#include "conviqt.hpp"
// fixed coefficients for the runs in which only the pointing is symbolic
static double tab(int l, int m, int c) { static const double t[] = {1, -0.5, 0.75, 0.25, -1.25, 0.5, -0.875, 1.5, 0.625, -0.375, 1.125}; return t[(3 * l + 5 * m + 7 * c) % 11]; }
// SPARSE=n: every n-th coefficient is symbolic, the others are fixed
static bool fixedCoef(double amp, int l, int m, int c) { long n = vp_param("SPARSE", 0); return amp < 0 || (n && (7 * l + 11 * m + 3 * c) % n); }
// fills file `fname` with ncomp tables of coefficients up to (lmax,mmax); values go to dst[c]
static void make_alm_file(const char *fname, const char *pre, int ncomp, int lmax, int mmax, ref::Coef *dst, double amp = 1, int group = 0) {
    int f = ff::newfile(fname); char nm[32]; // names of the variables: s0_re_l_m, b0_re_l_m, S0_..., B0_... (second inputs); + 10 per group of tasks
    auto name = [&](const char *part, long c, long l, long m) { snprintf(nm, sizeof nm, "%c%ld_%s_%ld_%ld", pre[0], c + 10 * group, part, l, m); return nm; };
    for (int c = 0; c < ncomp; ++c) {
        int h = ff::alm_table(f, lmax, mmax, TFLOAT, true);
        for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= l && m <= mmax; ++m) {
            bool fix = fixedCoef(amp, l, m, c + (pre[0] == 'b' || pre[0] == 'B'));
            double re = fix ? tab(l, m, c + group) : vp_realf(name("re", c, l, m), -amp, amp);
            if ((pre[0] == 'b' || pre[0] == 'B') && l == 0 && amp >= 0 && vp_param("B00", 0)) re = 0.001 * vp_param("B00", 0);
            double im = m ? fix ? tab(l, m, c + 3 + group) : vp_realf(name("im", c, l, m), -amp, amp) : 0;
            ff::alm_row(f, h, l * l + l + m + 1, re, im);
            if (dst) { dst[c].re[l][m] = re; dst[c].im[l][m] = im; }
        }
    }
}
