// FITS tables, a_lm tables, keywords and images written through fitshandle (C33)
#include "common.h"
#include "fakefits.h"
#include "ls_alm.h"
#include "ls_xcomplex.h"
#include "ls_alm_fitsio.h"
#include "ls_fitshandle.h"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
enum { ML = 7 };
template<class T> struct Mod { int L, M; double re[ML][ML], im[ML][ML]; };
// values: symbolic, or zero at the places of the pattern
template<class T> static void fill(Alm<xcomplex<T> > &a, Mod<T> &m, const char *nm, long pat, bool f32) {
    m.L = a.Lmax(); m.M = a.Mmax(); int i = 0;
    for (int l = 0; l <= m.L; ++l) for (int k = 0; k <= l && k <= m.M; ++k, ++i) {
        double x = 0, y = 0; char nr[16], ni[16]; snprintf(nr, 16, "%sr%d_%d", nm, l, k); snprintf(ni, 16, "%si%d_%d", nm, l, k);
        bool z = pat == 1 ? i % 3 == 0 : pat == 2 ? l == m.L : pat == 3 ? k == m.M : pat == 4 ? true : pat == 5 ? i % 5 != 2 : false;
        if (!z) { x = vp_realf(nr, 0.25, 2); y = k && i % 2 ? double(vp_realf(ni, -2, -0.25)) : 0; if (i % 4 == 2 && k) { x = 0; y = vp_realf(ni, 0.25, 2); } }
        a(l, k).Set(T(x), T(y)); m.re[l][k] = x; m.im[l][k] = y;
    }
}
template<class T> static void check(const Alm<xcomplex<T> > &a, int L, int M, const Mod<T> &m, int wl, int wm, const char *msg) {
    vp_assert(a.Lmax() == L && a.Mmax() == M, "the requested orders are set");
    for (int l = 0; l <= L; ++l) for (int k = 0; k <= l && k <= M; ++k) { bool in = l <= m.L && k <= m.M && l <= wl && k <= wm; vp_assert_near(a(l, k).re, in ? m.re[l][k] : 0, 1e-6, msg); vp_assert_near(a(l, k).im, in ? m.im[l][k] : 0, 1e-6, msg); }
}
template<class T> static void alm(int L, int M, long pat) {
    static Mod<T> w[3]; Alm<xcomplex<T> > a[3] = {Alm<xcomplex<T> >(L, M), Alm<xcomplex<T> >(L, M), Alm<xcomplex<T> >(L, M)}; ff::chunk = vp_choose("chunk", 1, vp_param("CH", 5));
    long comp = vp_choose("compressed", 0, 1), three = vp_choose("three", 0, 1); PDT dt = vp_choose("float64", 0, 1) ? LEVELS_FLOAT64 : LEVELS_FLOAT32;
    int wl = L, wm = M; long sz = vp_choose("wsize", 0, comp ? 2 : 4); if (sz == 1 && L > 0) { wl = L - 1; wm = M < wl ? M : wl; } if (sz == 2 && M > 0) wm = M - 1; if (sz == 3) wl = L + 1; if (sz == 4) { wl = L + 2; wm = M + 1; }
    for (int i = 0; i < (three ? 3 : 1); ++i) fill(a[i], w[i], i == 0 ? "a" : i == 1 ? "b" : "c", i == 1 ? 2 : i == 2 ? 3 : pat, dt == LEVELS_FLOAT32);
    if (comp) { fitshandle out; out.create("!a.fits"); for (int i = 0; i < (three ? 3 : 1); ++i) write_compressed_Alm_to_fits(out, a[i], wl, wm, dt); } else if (three) write_Alm_to_fits("!a.fits", a[0], a[1], a[2], wl, wm, dt); else write_Alm_to_fits("!a.fits", a[0], wl, wm, dt);
    for (int i = 0; i < (three ? 3 : 1); ++i) for (int l = 0; l <= L; ++l) for (int k = 0; k <= l && k <= M; ++k) { vp_assert_near(a[i](l, k).re, w[i].re[l][k], 1e-9, "the coefficients written are kept"); vp_assert_near(a[i](l, k).im, w[i].im[l][k], 1e-9, "the coefficients written are kept"); }
    vp_assert(ff::nopen == 0, "files are closed"); int pl = 0, pm = 0;
    for (int i = 0; i < (three ? 3 : 1); ++i) {
        int rl = -2, rm = -2, el = wl, em = wm, cnt = 0; if (comp) { el = em = 0; } for (int l = 0; l <= wl; ++l) for (int k = 0; k <= l && k <= wm; ++k) { bool nz = !comp || (l <= L && k <= M && !(w[i].re[l][k] == 0 && w[i].im[l][k] == 0)); cnt += nz; if (comp && nz) { if (l > el) el = l; if (k > em) em = k; } }
        get_almsize("a.fits", rl, rm, 2 + i); vp_assert(rl == el && rm == em, "get_almsize gives the largest orders in the table"); if (el > pl) pl = el; if (em > pm) pm = em;
        vp_assert(ff::file[0].hdu[1 + i].rows == cnt, comp ? "only coefficients other than zero are written" : "every coefficient has one row");
        for (int s = 0; s < 4; ++s) { int L2 = s == 0 ? wl : s == 1 ? wl + 2 : s == 2 ? wl / 2 : wl, M2 = s == 3 ? 0 : s == 1 ? wm + 1 : s == 2 ? (wm < wl / 2 ? wm : wl / 2) : wm; Alm<xcomplex<T> > r(1, 1); r(0, 0).Set(7, 7); read_Alm_from_fits("a.fits", r, L2, M2, 2 + i); check(r, L2, M2, w[i], wl, wm, "coefficients read back"); }
        { Alm<xcomplex<float> > r; static Mod<float> v; v.L = w[i].L; v.M = w[i].M; memcpy(v.re, w[i].re, sizeof v.re); memcpy(v.im, w[i].im, sizeof v.im); read_Alm_from_fits("a.fits", r, wl, wm, 2 + i); check(r, wl, wm, v, wl, wm, "coefficients read back in single precision"); }
    }
    if (three) { int rl = -2, rm = -2; get_almsize_pol("a.fits", rl, rm); vp_assert(rl == pl && rm == pm, "get_almsize_pol gives the largest orders in the tables"); Alm<xcomplex<T> > x, y, z; read_Alm_from_fits("a.fits", x, y, z, wl, wm); check(x, wl, wm, w[0], wl, wm, "T read back"); check(y, wl, wm, w[1], wl, wm, "G read back"); check(z, wl, wm, w[2], wl, wm, "C read back"); }
}
extern "C" void alm_main(void) {
    ff::reset(); unsigned long live = vp_heap_live(); int L = int(vp_choose("L", 0, vp_param("L", 3))), M = int(vp_choose("M", 0, L)); long pat = vp_choose("pattern", 0, 5);
    if (vp_param("FLT", 0)) alm<float>(L, M, pat); else alm<double>(L, M, pat); vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
// tables of other programs: no size keywords, any order of rows
extern "C" void order_main(void) {
    ff::reset(); ff::chunk = vp_choose("chunk", 1, 4); bool keys = vp_choose("keys", 0, 1); static const int ls[] = {2, 0, 3, 1, 2, 3}, ms[] = {1, 0, 3, 1, 2, 0}; int n = int(vp_choose("n", 0, 5)), first = int(vp_choose("first", 0, 5)); double re[6], im[6]; int L = -1, M = -1;
    int f = ff::newfile("t.fits"), h = ff::alm_table(f, 9, 5, TDOUBLE, keys); for (int i = 0; i < n; ++i) { int j = (first + i) % 6, l = ls[j], m = ms[j]; re[j] = vp_real(Name("r%ld", j), -2, 2); im[j] = vp_real(Name("i%ld", j), -2, 2); ff::alm_row(f, h, l * l + l + m + 1, re[j], im[j]); if (l > L) L = l; if (m > M) M = m; }
    int l1, m1; get_almsize("t.fits", l1, m1); vp_assert(keys ? l1 == 9 && m1 == 5 : l1 == L && m1 == M, "get_almsize looks at the keywords or at all rows"); int rl = int(vp_choose("rl", 0, 4)), rm = int(vp_choose("rm", 0, rl)); Alm<xcomplex<double> > a; read_Alm_from_fits("t.fits", a, rl, rm);
    double wr[5][5] = {}, wi[5][5] = {}; for (int i = 0; i < n; ++i) { int j = (first + i) % 6; wr[ls[j]][ms[j]] = re[j]; wi[ls[j]][ms[j]] = im[j]; } for (int l = 0; l <= rl; ++l) for (int m = 0; m <= l && m <= rm; ++m) { vp_assert_near(a(l, m).re, wr[l][m], 1e-9, "row order does not matter"); vp_assert_near(a(l, m).im, wi[l][m], 1e-9, "row order does not matter"); }
    vp_reach("done");
}
// columns: pieces written at any offset
template<class T> static T mk(int i, int w);
template<> double mk<double>(int i, int w) { return vp_real(Name("v%ld_%ld", i, w), -9, 9); }
template<> float mk<float>(int i, int w) { return vp_realf(Name("v%ld_%ld", i, w), -9, 9); }
template<> int mk<int>(int i, int w) { return i == 1 ? -2147483647 - w : int(vp_int(Name("v%ld_%ld", i, w), -900000, 900000)); }
template<> int64 mk<int64>(int i, int w) { return i == 1 ? 9000000000000000001L + w : vp_int(Name("v%ld_%ld", i, w), -9000000000L, 9000000000L); }
template<> int16 mk<int16>(int i, int w) { return int16(i * 1001 - 30000 + 7 * w); }
template<> uint8 mk<uint8>(int i, int w) { return uint8(i * 37 + 3 + w); }
template<> int8 mk<int8>(int i, int w) { return int8(i * 37 - 128 + w); }
template<> bool mk<bool>(int i, int w) { return (i * 7 + w) % 3 != 0; }
template<class T> static void column(PDT pdt, const char *code) {
    int rep = int(vp_choose("rep", 1, 3)); fitshandle out; out.create("!c.fits"); std::vector<fitscolumn> cols; cols.push_back(fitscolumn("first", "m/s", 1, LEVELS_INT32)); cols.push_back(fitscolumn("second", "K", rep, pdt)); out.insert_bintab(cols); vp_assert(out.ncols() == 2 && out.nrows() == 0, "a new table is empty"); ff::chunk = 3;
    static T want[40]; static bool set[40]; int n = 0; for (int i = 0; i < 40; ++i) set[i] = false; int o1 = int(vp_choose("off1", 0, 4)), n1 = int(vp_choose("n1", 1, 3)), o2 = int(vp_choose("off2", 0, 5)), n2 = int(vp_choose("n2", 1, 4));
    for (int w = 0; w < 2; ++w) {
        int o = w ? o2 : o1, k = w ? n2 : n1; arr<T> d(k); for (int i = 0; i < k; ++i) { d[i] = mk<T>(i, w); want[o + i] = d[i]; set[o + i] = true; }
        if (k == 1) out.write_column(2, d[0], o); else out.write_column(2, d, o); if (o + k > n) n = o + k; int rows = (n + rep - 1) / rep;
        vp_assert(out.nrows() == rows && out.nelems(2) == rows * rep && out.nelems(1) == rows && out.repcount(2) == rep, "rows of the table"); vp_assert(ff::file[0].hdu[1].rows == rows, "rows in the file"); vp_assert(out.efficientChunkSize(2) == 3 * rep && out.efficientChunkSize(1) == 3, "chunks are whole rows");
    }
    vp_assert(throws([&] { arr<T> d(2, T(1)); out.write_column(3, d); }) && throws([&] { arr<T> d(2, T(1)); out.write_column(0, d); }), "there is no such column"); out.close();
    fitshandle in; in.open("c.fits"); vp_assert(in.num_hdus() == 2, "number of HDUs"); in.goto_hdu(2); int rows = (n + rep - 1) / rep; vp_assert(in.ncols() == 2 && in.nrows() == rows && in.nelems(2) == rows * rep && in.coltype(2) == (pdt == LEVELS_UINT8 ? LEVELS_INT8 : pdt) && in.coltype(1) == LEVELS_INT32 && in.repcount(2) == rep, "the table is described as written");
    vp_assert(in.colname(1) == "first" && in.colname(2) == "second" && in.colunit(1) == "m/s" && in.colunit(2) == "K", "names and units"); vp_assert(throws([&] { in.colname(0); }) && throws([&] { in.colname(3); }) && throws([&] { in.nelems(3); }) && throws([&] { in.coltype(-1); }) && throws([&] { in.axes(); }), "there is no such column");
    arr<T> all; in.read_entire_column(2, all); vp_assert(int(all.size()) == rows * rep, "the whole column is read"); for (int i = 0; i < n; ++i) if (set[i]) vp_assert(all[i] == want[i], "column values come back");
    for (int o = 0; o < n; ++o) { arr<T> p((n - o + 1) / 2); in.read_column(2, p, o); for (tsize i = 0; i < p.size(); ++i) if (set[o + i]) vp_assert(p[i] == want[o + i], "part of a column"); T x; in.read_column(2, x, o); if (set[o]) vp_assert(x == want[o], "one element of a column"); }
    { arr<T> p(2, T(0)); vp_assert(throws([&] { in.read_column(2, p, rows * rep - 1); }), "reading past the end is refused"); vp_assert(throws([&] { in.read_column(3, p); }) && throws([&] { in.read_column(0, p); }), "there is no such column"); }
    vp_assert(throws([&] { in.goto_hdu(3); }), "there is no such HDU");
}
extern "C" void column_main(void) {
    ff::reset(); unsigned long live = vp_heap_live(); switch (vp_choose("type", 0, 7)) { case 0: column<double>(LEVELS_FLOAT64, "D"); break; case 1: column<float>(LEVELS_FLOAT32, "E"); break; case 2: column<int>(LEVELS_INT32, "J"); break; case 3: column<int64>(LEVELS_INT64, "K"); break; case 4: column<int16>(LEVELS_INT16, "I"); break; case 5: column<uint8>(LEVELS_UINT8, "B"); break; case 6: column<int8>(LEVELS_INT8, "B"); break; case 7: column<bool>(LEVELS_BOOL, "L"); break; }
    vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done");
}
extern "C" void string_main(void) { // string columns
    ff::reset(); unsigned long live = vp_heap_live(); { int w = int(vp_choose("width", 1, 8)), o = int(vp_choose("off", 0, 3)), n = int(vp_choose("n", 1, 3)); static const char *txt[] = {"abcdefghij", "", "x", "two_w", "12345678"}; std::vector<fitscolumn> cols; cols.push_back(fitscolumn("name", "", w, LEVELS_STRING)); cols.push_back(fitscolumn("v", "", 2, LEVELS_FLOAT64)); 
        { fitshandle out; out.create("!s.fits"); out.insert_bintab(cols); arr<std::string> s(n); for (int i = 0; i < n; ++i) s[i] = txt[(i + o) % 5]; out.write_column_raw_void(1, &s[0], LEVELS_STRING, n, o); vp_assert(out.nrows() == o + n && out.nelems(1) == o + n && out.nelems(2) == 2 * (o + n), "rows"); }
        fitshandle in; in.open("s.fits"); in.goto_hdu(2); vp_assert(in.coltype(1) == LEVELS_STRING && in.repcount(1) == w && in.nrows() == o + n, "string column"); arr<std::string> r(n); in.read_column_raw_void(1, &r[0], LEVELS_STRING, n, o); for (int i = 0; i < n; ++i) { std::string t = std::string(txt[(i + o) % 5]).substr(0, w); vp_assert(r[i] == t, "strings come back"); } arr<std::string> q(n + 1); vp_assert(throws([&] { in.read_column_raw_void(1, &q[0], LEVELS_STRING, n + 1, o); }), "reading past the end is refused"); }
    vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done");
}
// keywords
template<class T> static void key(const T &a, const T &b) {
    const char *nm = vp_choose("lower", 0, 1) ? "mixedCase" : "UPPER"; fitshandle out; out.create("!k.fits"); vp_assert(!out.key_present(nm), "no keyword yet"); T x = a; vp_assert(throws([&] { out.get_key(nm, x); }) && x == a, "a missing keyword is reported"); out.set_key("OTHER", 5, "c"); out.set_key(nm, a, "comment"); out.set_key("LAST", 77L); vp_assert(out.key_present(nm) && out.template get_key<T>(nm) == a, "keyword read back");
    out.set_key(nm, b); out.get_key(nm, x); vp_assert(x == b, "keyword updated"); out.add_comment("text"); out.write_checksum(); vp_assert(out.fileName() == "k.fits", "file name"); std::vector<std::string> k; out.get_all_keys(k); vp_assert(k.size() == 3 && k[0] == "OTHER" && k[2] == "LAST" && k[1].size() == strlen(nm), "all keywords"); out.close(); vp_assert(throws([&] { out.set_key(nm, a); }) && throws([&] { out.get_key(nm, x); }) && throws([&] { out.key_present(nm); }) && throws([&] { out.delete_key(nm); }) && throws([&] { out.fileName(); }) && throws([&] { out.get_all_keys(k); }), "a closed handle is refused");
    { fitshandle in; in.open("k.fits"); x = a; in.get_key(nm, x); vp_assert(x == b && in.template get_key<int>("OTHER") == 5 && in.template get_key<int64>("LAST") == 77, "keywords in the file"); in.delete_key(nm); vp_assert(!in.key_present(nm) && in.key_present("OTHER") && throws([&] { in.get_key(nm, x); }), "keyword deleted"); in.open("k.fits"); vp_assert(in.key_present("LAST"), "opened again"); }
}
extern "C" void key_main(void) {
    ff::reset(); unsigned long live = vp_heap_live(); switch (vp_choose("type", 0, 8)) { case 0: key<double>(vp_real("a", -9, 9), vp_real("b", -9, 9)); break; case 1: key<float>(vp_realf("a", -9, 9), vp_realf("b", -9, 9)); break; case 2: key<int>(int(vp_int("a", -2147483648L, 2147483647)), int(vp_int("b", -2147483648L, 2147483647))); break; case 3: key<int64>(vp_int("a", -9000000000000000000L, 9000000000000000000L), 5000000000L); break; case 4: key<int16>(-32768, int16(vp_int("b", -32768, 32767))); break; case 5: key<uint8>(200, 0); break; case 6: key<int8>(-100, 100); break; case 7: { bool a = vp_choose("a", 0, 1), b = vp_choose("b", 0, 1); key<bool>(a, b); break; } case 8: key<std::string>("some text", "a longer text value"); break; }
    vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done");
}
// images
template<class T> static void image() {
    int n1 = int(vp_choose("n1", 1, 3)), n2 = int(vp_choose("n2", 1, 3)); PDT dt = sizeof(T) == 8 ? LEVELS_FLOAT64 : LEVELS_FLOAT32; static T v[40]; for (int i = 0; i < 36; ++i) v[i] = sizeof(T) == 8 ? T(vp_real(Name("p%ld", i), -9, 9)) : T(vp_realf(Name("p%ld", i), -9, 9)); long how = vp_choose("how", 0, 3);
    { fitshandle out; out.create("!i.fits"); arr2<T> d(n1, n2); for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) d[i][j] = v[i * n2 + j]; std::vector<int64> ax; ax.push_back(n1); ax.push_back(n2); if (how == 3) ax.push_back(2);
        if (how == 0) out.insert_image(dt, d); else { out.insert_image(dt, ax); if (how == 1) out.write_image(d); else { int tot = n1 * n2 * (how == 3 ? 2 : 1), c = int(vp_choose("cut", 0, 2)); if (c > tot) c = tot; arr<T> p(tot - c), q(c); for (int i = 0; i < tot; ++i) if (i < c) q[i] = v[i]; else p[i - c] = v[i]; if (tot - c) out.write_subimage(p, c); if (c) out.write_subimage(q); } }
        vp_assert(out.axes() == ax && out.num_hdus() == 2, "size of the image"); if (how == 1) { arr2<T> e(n1, n2 + 1); e.fill(0); vp_assert(throws([&] { out.write_image(e); }), "an image of another size is refused"); arr2<T> g(n1 + 1, n2); g.fill(0); vp_assert(throws([&] { out.write_image(g); }), "an image of another size is refused"); } vp_assert(throws([&] { out.ncols(); }) && throws([&] { out.nrows(); }), "an image is not a table"); }
    fitshandle in; in.open("i.fits"); in.goto_hdu(2); vp_assert(in.axes().size() == (how == 3 ? 3u : 2u) && in.axes()[0] == n1 && in.axes()[1] == n2, "size of the image"); arr2<T> r; arr3<T> r3; arr<T> s(2); int tot = n1 * n2 * (how == 3 ? 2 : 1);
    if (how == 3) { in.read_image(r3); vp_assert(int(r3.size1()) == n1 && int(r3.size2()) == n2 && r3.size3() == 2, "size of the image"); for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) for (int k = 0; k < 2; ++k) vp_assert(r3(i, j, k) == v[(i * n2 + j) * 2 + k], "cube read back"); vp_assert(throws([&] { in.read_image(r); }), "another number of dimensions is refused"); }
    else { in.read_image(r); vp_assert(int(r.size1()) == n1 && int(r.size2()) == n2, "size of the image"); for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) vp_assert(r[i][j] == v[i * n2 + j], "image read back"); vp_assert(throws([&] { in.read_image(r3); }), "another number of dimensions is refused");
        int x = n1 > 1 ? int(vp_choose("x", 0, n1 - 1)) : 0, y = n2 > 1 ? int(vp_choose("y", 0, n2 - 1)) : 0; arr2<T> p(n1 - x, n2 - y); in.read_subimage(p, x, y); for (int i = 0; i < n1 - x; ++i) for (int j = 0; j < n2 - y; ++j) vp_assert(p[i][j] == v[(x + i) * n2 + y + j], "part of an image"); }
    for (int o = 0; o + 2 <= tot; ++o) { in.read_subimage(s, o); vp_assert(s[0] == v[o] && s[1] == v[o + 1], "pixels of an image"); } arr<T> big(tot + 1); vp_assert(throws([&] { in.read_subimage(big); }), "reading past the end is refused");
}
extern "C" void image_main(void) { ff::reset(); unsigned long live = vp_heap_live(); if (vp_choose("double", 0, 1)) image<double>(); else image<float>(); vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done"); }
extern "C" void hdu_main(void) { // several HDUs; files
    ff::reset(); { fitshandle f; vp_assert(throws([&] { f.axes(); }) && throws([&] { f.ncols(); }), "an unconnected handle is refused"); f.create("!h.fits"); vp_assert(f.num_hdus() == 1 && f.axes().empty(), "a new file has an empty primary HDU"); std::vector<fitscolumn> c1(1, fitscolumn("a", "", 1, LEVELS_INT32)), c2(2, fitscolumn("b", "", 2, LEVELS_FLOAT64)); f.insert_bintab(c1); arr<int> d(3, 4); f.write_column(1, d); f.insert_bintab(c2); vp_assert(f.ncols() == 2 && f.nrows() == 0 && f.num_hdus() == 3, "the new HDU is the current one");
        f.goto_hdu(2); vp_assert(f.ncols() == 1 && f.nrows() == 3 && f.coltype(1) == LEVELS_INT32, "second HDU"); f.goto_hdu(2); vp_assert(f.ncols() == 1 && f.nrows() == 3, "the same HDU again"); f.goto_hdu(1); vp_assert(f.axes().empty() && throws([&] { f.nrows(); }), "primary HDU"); f.goto_hdu(3); vp_assert(f.ncols() == 2 && f.nrows() == 0 && f.repcount(2) == 2, "third HDU"); fitshandle g; vp_assert(throws([&] { g.create("h.fits"); }), "an existing file is not overwritten"); vp_assert(throws([&] { g.open("none.fits"); }), "a missing file is reported"); f.goto_hdu(2); std::vector<int64> a1, a2; a1.push_back(2); a1.push_back(3); a2.push_back(4); f.insert_image(LEVELS_FLOAT32, a1); vp_assert(f.axes() == a1 && f.num_hdus() == 4, "image after the table"); f.insert_image(LEVELS_FLOAT64, a2); vp_assert(f.axes() == a2 && f.num_hdus() == 5, "second image"); f.goto_hdu(3); vp_assert(f.axes() == a1, "first image again"); f.goto_hdu(5); vp_assert(f.ncols() == 2 && throws([&] { f.axes(); }), "table behind the images"); f.goto_hdu(4); vp_assert(f.axes() == a2 && throws([&] { f.ncols(); }), "second image again");
        f.open("h.fits"); vp_assert(f.axes().empty() && ff::nopen == 1, "opening closes the former file"); }
    vp_assert(ff::nopen == 0, "files are closed"); fitshandle::delete_file("h.fits"); fitshandle g; vp_assert(throws([&] { g.open("h.fits"); }), "the file is deleted"); vp_reach("done");
}

// ASCII tables with numeric columns
extern "C" void ascii_main(void) {
    ff::reset(); unsigned long live = vp_heap_live(); {
        static const PDT in[] = {LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_UINT8, LEVELS_INT8, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64}, out[] = {LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_INT16, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64, LEVELS_INT64};
        int a = int(vp_choose("type", 0, 6)), n = int(vp_choose("n", 1, 4)), off = int(vp_choose("off", 0, 2)), before = int(vp_choose("table before", 0, 2)); double want[8]; arr<double> d(n); for (int i = 0; i < n; ++i) d[i] = want[off + i] = a < 2 ? a ? vp_real(Name("v%ld", i), -9, 9) : double(vp_realf(Name("v%ld", i), -9, 9)) : 17 * i + 3;
        { fitshandle f; f.create("!t.fits"); if (before) { std::vector<fitscolumn> b(1, fitscolumn("b", "", before, LEVELS_INT32)); f.insert_bintab(b); arr<int> x(4, 5); f.write_column(1, x); }
          std::vector<fitscolumn> c; c.push_back(fitscolumn("count", "adu", 1, LEVELS_INT32)); c.push_back(fitscolumn("value", "K_CMB", 1, in[a])); f.insert_asctab(c); vp_assert(f.ncols() == 2 && f.nrows() == 0 && f.num_hdus() == (before ? 3 : 2), "the new ASCII table is the current HDU"); f.write_column(2, d, off); vp_assert(f.nrows() == off + n && f.nelems(2) == off + n, "rows of the table"); f.set_key("KEY", 5);
          c.push_back(fitscolumn("wide", "", 2, LEVELS_INT32)); vp_assert(throws([&] { f.insert_asctab(c); }), "columns of ASCII tables have one element"); c[2] = fitscolumn("odd", "", 1, LEVELS_BOOL); vp_assert(throws([&] { f.insert_asctab(c); }), "no ASCII form of this type"); }
        fitshandle f; f.open("t.fits"); vp_assert(f.num_hdus() == (before ? 3 : 2), "number of HDUs"); if (before) { f.goto_hdu(2); vp_assert(f.ncols() == 1, "table before"); } f.goto_hdu(before ? 3 : 2);
        vp_assert(f.ncols() == 2 && f.nrows() == off + n && f.colname(1) == "count" && f.colname(2) == "value" && f.colunit(1) == "adu" && f.colunit(2) == "K_CMB" && f.repcount(1) == 1 && f.repcount(2) == 1 && f.coltype(1) == LEVELS_INT64 && f.coltype(2) == out[a], "names, units and types of the columns");
        arr<double> r(n); f.read_column(2, r, off); for (int i = 0; i < n; ++i) vp_assert(r[i] == want[off + i], "values of an ASCII table come back"); vp_assert(f.get_key<int>("KEY") == 5, "keyword"); vp_assert(throws([&] { f.read_column(3, r, 0); }) && throws([&] { f.read_column(2, r, off + 1); }), "reading outside the table is refused");
    }
    vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done");
}
// the k-th call of the FITS library fails: the operation it belongs to raises an exception, no other one does
extern "C" void wfault_main(void) {
    ff::reset(); unsigned long live = vp_heap_live(); int k = int(vp_choose("call", 0, vp_param("NCALL", 130))), hit = 0; long base = 0; static const int codes[] = {106, 107, 108};
    { fitshandle f; ff::fail_at = k; ff::fail_code = codes[k % 3];
      std::vector<fitscolumn> c; c.push_back(fitscolumn("a", "", 1, LEVELS_INT32)); c.push_back(fitscolumn("b", "K", 2, LEVELS_FLOAT64)); c.push_back(fitscolumn("s", "", 4, LEVELS_STRING)); std::vector<fitscolumn> c1(1, c[0]); std::vector<int64> ax(2, 2); Alm<xcomplex<double> > al(1, 1); al.SetToZero(); al(1, 0) = xcomplex<double>(2, 0); arr<double> d(3, 2.5); arr<int> x(2, 7); arr<std::string> t(2); t[0] = "one"; t[1] = "two"; arr2<double> im(2, 2); im.fill(3);
      auto op = [&](auto g, const char *what) { base = ff::calls; bool th = throws(g); bool in = base <= k && k < ff::calls; if (in) ++hit; vp_assert(!in || th, what); vp_assert(hit || !th, "operations work when the FITS library does"); return !th; };
      bool ok = op([&] { f.create("!w.fits"); }, "create reports the failure"); ok = ok && op([&] { f.insert_bintab(c); }, "insert_bintab reports the failure");
      ok = ok && op([&] { f.write_column(1, x); }, "write_column reports the failure"); ok = ok && op([&] { f.write_column(2, d, 1); }, "write_column reports the failure"); ok = ok && op([&] { f.write_column_raw_void(3, &t[0], LEVELS_STRING, 2, 0); }, "write_column reports the failure"); ok = ok && op([&] { f.read_column(2, d, 0); }, "read_column reports the failure"); ok = ok && op([&] { f.read_column_raw_void(3, &t[0], LEVELS_STRING, 2, 0); }, "read_column reports the failure"); ok = ok && op([&] { f.efficientChunkSize(2); }, "efficientChunkSize reports the failure");
      ok = ok && op([&] { f.set_key("KEY", 5); }, "set_key reports the failure"); ok = ok && op([&] { f.set_key("FLAG", true); }, "set_key reports the failure"); ok = ok && op([&] { f.set_key("TEXT", std::string("abc")); }, "set_key reports the failure"); ok = ok && op([&] { f.get_key<int>("KEY"); }, "get_key reports the failure"); ok = ok && op([&] { f.get_key<bool>("FLAG"); }, "get_key reports the failure"); ok = ok && op([&] { f.get_key<std::string>("TEXT"); }, "get_key reports the failure"); ok = ok && op([&] { f.key_present("KEY"); }, "key_present reports the failure");
      ok = ok && op([&] { std::vector<std::string> n; f.get_all_keys(n); }, "get_all_keys reports the failure"); ok = ok && op([&] { f.delete_key("KEY"); }, "delete_key reports the failure"); ok = ok && op([&] { f.add_comment("x"); }, "add_comment reports the failure"); ok = ok && op([&] { f.write_checksum(); }, "write_checksum reports the failure"); ok = ok && op([&] { f.fileName(); }, "fileName reports the failure"); ok = ok && op([&] { f.num_hdus(); }, "num_hdus reports the failure");
      ok = ok && op([&] { f.insert_image(LEVELS_FLOAT64, ax); }, "insert_image reports the failure"); ok = ok && op([&] { f.write_image(im); }, "write_image reports the failure"); ok = ok && op([&] { f.write_subimage(d, 1); }, "write_subimage reports the failure"); ok = ok && op([&] { f.read_image(im); }, "read_image reports the failure"); ok = ok && op([&] { f.read_subimage(im, 0, 0); }, "read_subimage reports the failure"); ok = ok && op([&] { f.read_subimage(d, 0); }, "read_subimage reports the failure"); ok = ok && op([&] { f.insert_image(LEVELS_FLOAT32, im); }, "insert_image reports the failure");
      ok = ok && op([&] { f.goto_hdu(2); }, "goto_hdu reports the failure"); ok = ok && op([&] { f.insert_asctab(c1); }, "insert_asctab reports the failure"); ok = ok && op([&] { write_Alm_to_fits(f, al, 1, 1, LEVELS_FLOAT64); }, "write_Alm_to_fits reports the failure"); ok = ok && op([&] { write_compressed_Alm_to_fits(f, al, 1, 1, LEVELS_FLOAT64); }, "write_compressed_Alm_to_fits reports the failure"); ok = ok && op([&] { f.close(); }, "close reports the failure"); ok = ok && op([&] { f.open("w.fits"); }, "open reports the failure");
    }
    ff::fail_at = -1; { fitshandle g; g.create("!v.fits"); std::vector<fitscolumn> c(1, fitscolumn("a", "", 1, LEVELS_INT32)); g.insert_bintab(c); arr<int> x(2, 7), y(2, 0); g.write_column(1, x); g.read_column(1, y); vp_assert(y[0] == 7 && y[1] == 7, "the library works after a failure"); }
    vp_assert(vp_heap_live() == live && ff::nopen == 0, "memory and files are released"); vp_reach("done");
}
