// Whole-library convolution: fake FITS input -> sky/beam::read -> convolver -> convolve, against ref.h
#include "setup.h"
#include "group.h"
using namespace conviqt;
static const double PI = ref::PI;
// pointing used when not symbolic; mixes poles, equator, grid nodes, both hemispheres, wrapped longitudes
// TSET: 0 mixed, 1 north, 2 south, 3 one direction, 4 around the equator, 5 grid nodes, 6 dense sequence, 7 poles only, 8/9 two or four directions in turn
static double thetaTab(int i) {
    static const double t[] = {0.3, 2.7, PI / 2 - 0.2, 1.9, 0.0, PI, 1.1, 2.2, 0.01, 3.1, 0.8, 1.3}; double v = t[i % 12], n = vp_param("LMAX", 2) + 1;
    switch (vp_param("TSET", 0)) {
    case 1: return v > PI / 2 ? PI - v : v;
    case 2: return v < PI / 2 ? PI - v : v;
    case 3: return 1.0;
    case 4: { static const double q[] = {PI / 2, PI / 2 + 1e-3, PI / 2 - 1e-3, PI / 2 - 0.3, PI / 2 + 0.3}; return q[i % 5]; }
    case 5: return PI / n * ((i * 5 + 1) % int(n + 1)) + (i % 2 ? 1e-7 : -1e-7) * (((i * 5 + 1) % int(n + 1)) ? 1 : 0) * (((i * 5 + 1) % int(n + 1)) == int(n) ? 0 : 1);
    case 6: return std::fmod(0.37 + 0.6180339887 * 2.9 * i, PI);
    case 8: return i % 2 ? 0.7 : 1.2;               // few directions: some tasks own no latitude
    case 9: { static const double q[] = {1.2, 0.7, 2.0, 0.7, 1.2, 0.95, 2.0}; return q[i % 7]; }
    case 7: return i % 3 == 1 ? PI : i % 3 ? 1e-4 : 0;
    }
    return v;
}
static double phiTab(int i) { static const double t[] = {0.1, 3.3, 6.2, 1.7, 4.4, 5.1, 2.5, 0.9}; return t[i % 8]; }
static double psiTab(int i) { static const double t[] = {0.2, -1.3, 2.9, 1.1, -2.2, 0.0, 3.0}; return t[i % 7]; }
static int share(int rank) { return rank == 0 ? vp_param("NT0", 2) : rank == 1 ? vp_param("NT1", 2) : rank == 2 ? vp_param("NT2", 2) : vp_param("NT3", 1); }

static void run(void) {
    // COMM as in group.h; 5: inputs read by all tasks and convolved by each, 6: as 5, in turn with all tasks. The groups have different inputs.
    int cm = int(vp_param("COMM", 0)); Group tg(cm); if (!tg.in()) return;
    int rank = tg.rank, ntask = tg.size, group = tg.id; MPI_Comm comm = tg.comm, readcomm = comm;
    if (cm >= 5) { comm = MPI_COMM_SELF; rank = 0; ntask = 1; }
    int lmax = vp_param("LMAX", 2), mmax = vp_param("MMAX", 1), order = vp_param("ORDER", 1), pol = vp_param("POL", 0);
    int slm = vp_param("SLMAX", lmax), blm = vp_param("BLMAX", lmax), bmm = vp_param("BMMAX", mmax), verb = vp_param("VERB", 0);
    int sympsi = vp_param("SYMPSI", 0), symphi = vp_param("SYMPHI", 0), symth = vp_param("SYMTH", 0), calls = vp_param("CALLS", 1);
    int cal = vp_param("CAL", 1), swap = vp_param("SWAP", 0), norm = vp_param("NORM", 0); double amp = vp_param("FIXALM", 0) ? -1 : 1;
    static ref::Input in, in2; in.ncomp = in2.ncomp = pol ? 3 : 1;
    make_alm_file("sky.fits", "s", in.ncomp, slm, slm, in.s, amp, group);
    make_alm_file("beam.fits", "b", in.ncomp, blm, bmm, in.b, amp, group);
    if (swap) { make_alm_file("sky2.fits", "S", in.ncomp, slm, slm, in2.s, amp, group); make_alm_file("beam2.fits", "B", in.ncomp, blm, bmm, in2.b, amp, group); }
    double eps = vp_real(Name("epsilon%ld", group), 0, 1);
    sky s, s2; beam b, b2; detector d("det"); d.set_epsilon(eps);
    if (cm) { s.read(-1, pol, "sky.fits", 0, readcomm); b.read(-1, -1, pol, "beam.fits", readcomm); } else { s.read(-1, pol, "sky.fits"); b.read(-1, -1, pol, "beam.fits"); }
    if (swap) { s2.read(-1, pol, "sky2.fits", 0, readcomm); b2.read(-1, -1, pol, "beam2.fits", readcomm); }
    if (norm) { // an already normalised beam: no calibration factor, and the beam is scaled by 1/(2 sqrt(pi) b00)
        double f = b.normalize(); double sc = 1 / (2 * std::sqrt(PI) * in.b[0].re[0][0]);
        vp_assert_near(f, sc, 1e-5, "normalize reports its factor");
        for (int c = 0; c < in.ncomp; ++c) for (int l = 0; l <= blm; ++l) for (int m = 0; m <= l && m <= bmm; ++m) { in.b[c].re[l][m] *= sc; in.b[c].im[l][m] *= sc; }
    }
    bool dflt = vp_param("DEFAULTS", 0); // default arguments: order 5, messages on standard error, MPI_COMM_WORLD, calibration
    convolver c0(&s, &b, &d, pol, lmax, mmax), c1(&s, &b, &d, pol, lmax, mmax, order, verb, comm), c2(&s, &b, &d, pol, lmax, mmax, order, verb, MPI_COMM_WORLD);
    ref::Grid gr(lmax, mmax, order);
    for (int call = 0; call < calls; ++call) {
        convolver &c = dflt ? c0 : cm == 6 && call % 2 ? c2 : c1; if (cm == 6) { rank = call % 2 ? vp_rank() : 0; ntask = call % 2 ? vp_ranks() : 1; }
        // every call has another number of samples and another pointing
        int shift = vp_param("SHIFT", 0) + 3 * call, base = 0, nt = 0;
        for (int r = 0; r <= rank; ++r) { int n = share(call ? (r + call) % ntask : r); if (call && n) --n; if (r < rank) base += n; else nt = n; }
        if (swap && call == 1) { c.set_sky(&s2); if (cm == 6) c1.set_sky(&s2); }
        if (swap && call == 2) { c.set_beam(&b2); if (cm == 6) c2.set_beam(&b2); }
        const ref::Coef *S = swap && call >= 1 ? in2.s : in.s, *B = swap && call >= 2 ? in2.b : in.b;
        static ref::Input cur; cur.ncomp = in.ncomp; for (int k = 0; k < cur.ncomp; ++k) { cur.s[k] = S[k]; cur.b[k] = B[k]; }
        pointing p; if (nt) p.alloc(5 * nt);
        enum { NX = 400 }; static double th[NX], ph[NX], ps[NX], ck[NX][ref::LX + 1], sk[NX][ref::LX + 1];
        for (int i = 0; i < nt; ++i) {
            int g = base + i;
            th[i] = symth ? vp_real(Name("theta%ld_%ld", g, call), 1e-6 * vp_param("TH0", 0), vp_param("TH1", 0) ? 1e-6 * vp_param("TH1", 0) : PI) : thetaTab(g + shift);
            ph[i] = symphi ? vp_real(Name("phi%ld_%ld", g, call), -7, 7) : phiTab(g + shift);
            if (order == 0 && (symth || symphi)) { // nearest-node interpolation jumps at the nodes: stay clear of rounding there
                double x = th[i] * (lmax + 1) / PI, y = (ph[i] - PI / 2) * (2 * lmax + 1) / (2 * PI);
                if (symth) vp_assume(std::fabs(x - std::floor(x)) > 1e-9 && std::fabs(std::floor(x) + 1 - x) > 1e-9);
                if (symphi) vp_assume(std::fabs(y - std::floor(y)) > 1e-9 && std::fabs(std::floor(y) + 1 - y) > 1e-9);
            }
            ps[i] = sympsi ? vp_angle(Name("psi%ld_%ld", g, call), -4, 4, 1) : psiTab(g + shift);
            if (vp_param("TSET", 0) == 6) { ph[i] = std::fmod(1.7 + 2.2 * g, 9.0) - 3; ps[i] = std::fmod(0.4 + 1.9 * g, 7.0) - 3.5; }
            p[5 * i] = ph[i]; p[5 * i + 1] = th[i]; p[5 * i + 2] = ps[i]; p[5 * i + 3] = vp_real(Name("oldsig%ld_%ld", g, call), -100, 100); p[5 * i + 4] = vp_real(Name("oldidx%ld_%ld", g, call), -100, 100);
            for (int k = 0; k <= mmax; ++k) { ck[i][k] = std::cos(k * ps[i]); sk[i][k] = std::sin(k * ps[i]); }
        }
        vp_reach("called");
        int err = dflt ? c.convolve(p) : c.convolve(p, cal);
        vp_assert(err == 0, "convolve reports success");
        vp_assert(long(p.size()) == 5 * nt, "number of samples kept");
        for (int i = 0; i < nt; ++i) {
            double want = ref::signal(cur, gr, th[i], ph[i], ck[i], sk[i]);
            double got = p[5 * i + 3];
            bool pole = mmax > 0 && ref::polar(gr, th[i]);
            double known = pole ? ref::signal(cur, gr, th[i], ph[i], ck[i], sk[i], true) : want;
            bool factor = cal && (!norm || (swap && call >= 2));
            if (factor) { known = known * 2; got = got * (1 + eps); want = want * 2; }
            if (vp_param("PRINT", 0)) { vp_print("got", got); vp_print("want", want); }
            vp_assert_near_known(got, want, known, 1e-5, "convolved signal equals the spherical convolution at this sample", "F-POLE");
            vp_assert(p[5 * i] == ph[i] && p[5 * i + 1] == th[i] && p[5 * i + 2] == ps[i], "pointing columns unchanged and rows in order");
            vp_assert(p[5 * i + 4] == base + i, "fifth column holds the global sample index");
        }
    }
    // the inputs are still what was read
    vp_assert(d.get_epsilon() == eps, "detector unmodified");
    vp_assert(s.slmT().Lmax() == slm && b.blmT().Lmax() == blm && b.blmT().Mmax() == bmm, "input sizes unmodified");
    if (!norm) for (int l = 0; l <= slm; ++l) for (int m = 0; m <= l; ++m) {
        vp_assert_near(s.slmT()(l, m).re, in.s[0].re[l][m], 1e-6, "sky unmodified"); vp_assert_near(s.slmT()(l, m).im, in.s[0].im[l][m], 1e-6, "sky unmodified");
        if (pol) { vp_assert_near(s.slmG()(l, m).re, in.s[1].re[l][m], 1e-6, "sky unmodified"); vp_assert_near(s.slmC()(l, m).im, in.s[2].im[l][m], 1e-6, "sky unmodified"); }
        if (l <= blm && m <= bmm) { vp_assert_near(b.blmT()(l, m).re, in.b[0].re[l][m], 1e-6, "beam unmodified"); vp_assert_near(b.blmT()(l, m).im, in.b[0].im[l][m], 1e-6, "beam unmodified"); }
    }
}
extern "C" void e2e_main(void) {
    unsigned long live = vp_heap_live();
    run();
    if (vp_ranks() == 1) vp_assert(vp_heap_live() == live, "all memory is released");
    vp_assert(ff::nopen == 0, "every input file is closed");
    vp_reach("done");
}
