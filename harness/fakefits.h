// In-memory stand-in for the part of CFITSIO the library uses, for symbolic execution and native replay.
// It follows the documented CFITSIO contract: 1-based rows/elements, status is sticky (a non-zero status makes
// every call except close/errmsg a no-op), missing keys give KEY_NO_EXIST, short tables give BAD_ROW_NUM.
#pragma once
#include <fitsio.h>
#include <cstring>
#include <cstdlib>
#include "vp.h"
#ifndef VP_NR
#define VP_NR 192
#endif
namespace ff {
enum { NF = 4, NH = 6, NC = 4, NR = VP_NR, NK = 6, OPENMAX = 8, NS = 8, SL = 12 };
struct Col { int type; long repeat; double d[NR]; long l[NR]; char s[NS][SL]; char name[16], unit[16]; };
struct Hdu { int kind; long rows; int ncol; Col col[NC]; int nkey; char key[NK][24]; long kval[NK]; double kdbl[NK]; char kstr[NK][24]; char ktype[NK]; int bitpix, naxis; long nax[4]; double img[NR]; };
struct File { bool used; char name[64]; int nhdu; Hdu hdu[NH]; };
static File file[NF];
struct Handle { bool open; int f; int cur; int next; fitsfile h; };
static Handle handle[OPENMAX];
static long chunk = 2, calls = 0, fail_at = -1, nopen = 0; static int fail_code = 107;
static bool badhandle = false;

static inline int newfile(const char *name) {
    for (int i = 0; i < NF; ++i) if (!file[i].used) {
        File &f = file[i]; f.used = true; strcpy(f.name, name); f.nhdu = 1;
        f.hdu[0].kind = IMAGE_HDU; f.hdu[0].bitpix = 8; f.hdu[0].naxis = 0; f.hdu[0].ncol = 0; f.hdu[0].nkey = 0; return i; }
    return -1;
}
static inline int newtable(int f, long rows) { int h = file[f].nhdu++; Hdu &H = file[f].hdu[h]; H.kind = BINARY_TBL; H.rows = rows; H.ncol = 0; H.nkey = 0; return h; }
static inline int inserthdu(int f, int after) { for (int h = file[f].nhdu; h > after; --h) file[f].hdu[h] = file[f].hdu[h - 1]; ++file[f].nhdu; Hdu &H = file[f].hdu[after]; H.kind = BINARY_TBL; H.rows = 0; H.ncol = 0; H.nkey = 0; return after; }
static inline int newcol(int f, int h, int type, long repeat) { Hdu &H = file[f].hdu[h]; int c = H.ncol++; H.col[c].type = type; H.col[c].repeat = repeat; H.col[c].name[0] = 0; H.col[c].unit[0] = 0; return c; }
static inline void setkey(int f, int h, const char *k, long v) { Hdu &H = file[f].hdu[h]; for (int i = 0; i < H.nkey; ++i) if (!strcmp(H.key[i], k)) { H.kval[i] = v; H.ktype[i] = 'l'; return; } strcpy(H.key[H.nkey], k); H.ktype[H.nkey] = 'l'; H.kval[H.nkey++] = v; }
// an a_lm table as written by HEALPix tools: index = l*l+l+m+1, real, imag
static inline int alm_table(int f, long lmax, long mmax, int ftype, bool keys) {
    int h = newtable(f, 0); newcol(f, h, TLONG, 1); newcol(f, h, ftype, 1); newcol(f, h, ftype, 1);
    if (keys) { setkey(f, h, "MAX-LPOL", lmax); setkey(f, h, "MAX-MPOL", mmax); }
    return h;
}
static inline void alm_row(int f, int h, long idx, double re, double im) {
    Hdu &H = file[f].hdu[h]; long r = H.rows++; H.col[0].l[r] = idx; H.col[1].d[r] = re; H.col[2].d[r] = im;
}
static inline Handle *get(fitsfile *p) { for (int i = 0; i < OPENMAX; ++i) if (&handle[i].h == p) { if (!handle[i].open) badhandle = true; return handle[i].open ? &handle[i] : nullptr; } badhandle = true; return nullptr; }
static inline bool enter(int *st) { if (*st > 0) return false; if (calls++ == fail_at) { *st = fail_code; return false; } return true; }
static inline Hdu *hdu(fitsfile *p, int *st) { if (!enter(st)) return nullptr; Handle *h = get(p); if (!h) { *st = 114; return nullptr; } return &file[h->f].hdu[h->cur - 1]; }
static inline void reset() { for (int i = 0; i < NF; ++i) file[i].used = false; for (int i = 0; i < OPENMAX; ++i) handle[i].open = false; calls = 0; fail_at = -1; nopen = 0; badhandle = false; chunk = 2; fail_code = 107; }
static inline int opened(fitsfile **fp, int f) { for (int i = 0; i < OPENMAX; ++i) if (!handle[i].open) { handle[i].open = true; handle[i].f = f; handle[i].cur = 1; *fp = &handle[i].h; ++nopen; return 0; } return 103; }
}
extern "C" {
float ffvers(float *v) { *v = 4.0301f; return *v; }
void ffcmsg(void) {}
void ffgerr(int, char *t) { t[0] = 'f'; t[1] = 'f'; t[2] = 0; }
int ffgmsg(char *m) { m[0] = 0; return 0; }
int ffopentest(int, fitsfile **fp, const char *name, int, int *st) {
    *fp = 0; if (!ff::enter(st)) return *st;
    for (int i = 0; i < ff::NF; ++i) if (ff::file[i].used && !strcmp(ff::file[i].name, name)) return *st = ff::opened(fp, i);
    return *st = 104;
}
int ffinit(fitsfile **fp, const char *name, int *st) {
    *fp = 0; if (!ff::enter(st)) return *st;
    const char *n = name[0] == '!' ? name + 1 : name;
    for (int i = 0; i < ff::NF; ++i) if (ff::file[i].used && !strcmp(ff::file[i].name, n)) { if (n == name) return *st = 105; ff::file[i].used = false; }
    int f = ff::newfile(n); ff::file[f].nhdu = 0; return *st = ff::opened(fp, f);
}
int ffclos(fitsfile *p, int *st) {
    ff::Handle *h = ff::get(p); if (!h) { if (*st <= 0) *st = 114; return *st; }
    h->open = false; --ff::nopen; if (*st <= 0 && ff::calls++ == ff::fail_at) *st = ff::fail_code; return *st;
}
int ffghdn(fitsfile *p, int *n) { ff::Handle *h = ff::get(p); *n = h ? h->cur : 1; return *n; }
int ffmahd(fitsfile *p, int n, int *type, int *st) {
    if (!ff::hdu(p, st)) return *st; ff::Handle *h = ff::get(p);
    if (n < 1) return *st = 301; if (n > ff::file[h->f].nhdu) return *st = 107;
    h->cur = n; if (type) *type = ff::file[h->f].hdu[n - 1].kind; return 0;
}
int ffthdu(fitsfile *p, int *n, int *st) { if (!ff::hdu(p, st)) return *st; *n = ff::file[ff::get(p)->f].nhdu; return 0; }
int ffghdt(fitsfile *p, int *t, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) *t = H->kind; return *st; }
int ffgidt(fitsfile *p, int *t, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) *t = H->bitpix; return *st; }
int ffgidm(fitsfile *p, int *t, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) *t = H->naxis; return *st; }
int ffgiszll(fitsfile *p, int n, LONGLONG *a, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) for (int i = 0; i < n && i < H->naxis; ++i) a[i] = H->nax[i]; return *st; }
int ffgncl(fitsfile *p, int *n, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) { if (H->kind == IMAGE_HDU) return *st = 235; *n = H->ncol; } return *st; }
int ffgnrwll(fitsfile *p, LONGLONG *n, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) { if (H->kind == IMAGE_HDU) return *st = 235; *n = H->rows; } return *st; }
int ffgbclll(fitsfile *p, int c, char *tt, char *tu, char *tf, LONGLONG *rep, double *, double *, LONGLONG *, char *, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (c < 1 || c > H->ncol) return *st = 302;
    ff::Col &C = H->col[c - 1]; if (tt) { if (C.name[0]) strcpy(tt, C.name); else { tt[0] = 'c'; tt[1] = char('0' + c); tt[2] = 0; } } if (tu) strcpy(tu, C.unit);
    if (tf) { tf[0] = C.type == TLONG ? 'J' : C.type == TFLOAT ? 'E' : C.type == TDOUBLE ? 'D' : C.type == TLONGLONG ? 'K' : C.type == TSHORT ? 'I' : C.type == TBYTE ? 'B' : C.type == TSTRING ? 'A' : 'L'; tf[1] = 0; }
    if (rep) *rep = C.repeat; return 0;
}
int ffbnfm(char *tf, int *code, long *, long *, int *st) { if (!ff::enter(st)) return *st; *code = tf[0] == 'J' ? TLONG : tf[0] == 'E' ? TFLOAT : tf[0] == 'D' ? TDOUBLE : tf[0] == 'K' ? TLONGLONG : tf[0] == 'I' ? TSHORT : tf[0] == 'B' ? TBYTE : tf[0] == 'A' ? TSTRING : TLOGICAL; return 0; }
int ffgrsz(fitsfile *p, long *n, int *st) { ff::Hdu *H = ff::hdu(p, st); if (H) *n = ff::chunk; return *st; }
static bool ff_samekey(const char *a, const char *b) { if (!strncmp(b, "HIERARCH ", 9)) b += 9; for (;; ++a, ++b) { char x = *a >= 'a' && *a <= 'z' ? char(*a - 32) : *a, y = *b >= 'a' && *b <= 'z' ? char(*b - 32) : *b; if (x != y) return false; if (!x) return true; } }
static int ff_findkey(ff::Hdu *H, const char *k) { for (int i = 0; i < H->nkey; ++i) if (ff_samekey(H->key[i], k)) return i; return -1; }
static int ff_addkey(ff::Hdu *H, const char *k) { int i = ff_findkey(H, k); if (i < 0) { i = H->nkey++; strcpy(H->key[i], strncmp(k, "HIERARCH ", 9) ? k : k + 9); } return i; }
int ffgcrd(fitsfile *p, const char *k, char *card, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (ff_findkey(H, k) < 0) return *st = KEY_NO_EXIST; card[0] = 0; return 0; }
int ffgky(fitsfile *p, int type, const char *k, void *v, char *, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; int i = ff_findkey(H, k); if (i < 0) return *st = KEY_NO_EXIST;
    if (H->ktype[i] == 's' || (type == TLOGICAL) != (H->ktype[i] == 'b')) return *st = type == TLOGICAL ? 404 : 403;
    bool isint = H->ktype[i] != 'd'; long x = isint ? H->kval[i] : 0; double d = isint ? 0 : H->kdbl[i]; if (!isint && type != TDOUBLE && type != TFLOAT) x = long(d);
    switch (type) { case TINT: case TLOGICAL: *(int *)v = int(x); break; case TLONG: case TLONGLONG: *(long *)v = x; break; case TDOUBLE: *(double *)v = isint ? double(x) : d; break; case TFLOAT: *(float *)v = isint ? float(x) : float(d); break; case TSHORT: *(short *)v = short(x); break; case TBYTE: *(unsigned char *)v = (unsigned char)x; break; default: return *st = 410; }
    return 0;
}
int ffuky(fitsfile *p, int type, const char *k, void *v, const char *, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; long x = 0; double d = 0; char t = 'l';
    switch (type) { case TINT: x = *(int *)v; break; case TLOGICAL: x = *(int *)v != 0; t = 'b'; break; case TLONG: case TLONGLONG: x = *(long *)v; break; case TSHORT: x = *(short *)v; break; case TBYTE: x = *(unsigned char *)v; break; case TDOUBLE: d = *(double *)v; t = 'd'; break; case TFLOAT: d = *(float *)v; t = 'd'; break; default: return *st = 410; }
    int i = ff_addkey(H, k); H->kval[i] = x; H->kdbl[i] = d; H->ktype[i] = t; return 0;
}
int ffukls(fitsfile *p, const char *k, const char *v, const char *, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; int i = ff_addkey(H, k); H->ktype[i] = 's'; strncpy(H->kstr[i], v, 23); H->kstr[i][23] = 0; return 0; }
int ffgkls(fitsfile *p, const char *k, char **v, char *, int *st) { *v = 0; ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; int i = ff_findkey(H, k); if (i < 0) return *st = KEY_NO_EXIST; if (H->ktype[i] != 's') return *st = 402; *v = (char *)malloc(strlen(H->kstr[i]) + 1); strcpy(*v, H->kstr[i]); return 0; }
int ffdkey(fitsfile *p, const char *k, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; int i = ff_findkey(H, k); if (i < 0) return *st = KEY_NO_EXIST; for (; i + 1 < H->nkey; ++i) { strcpy(H->key[i], H->key[i + 1]); strcpy(H->kstr[i], H->kstr[i + 1]); H->kval[i] = H->kval[i + 1]; H->kdbl[i] = H->kdbl[i + 1]; H->ktype[i] = H->ktype[i + 1]; } --H->nkey; return 0; }
int ffpcom(fitsfile *p, const char *, int *st) { ff::hdu(p, st); return *st; }
int ffpcks(fitsfile *p, int *st) { ff::hdu(p, st); return *st; }
int ffflnm(fitsfile *p, char *n, int *st) { if (ff::hdu(p, st)) strcpy(n, ff::file[ff::get(p)->f].name); return *st; }
int ffgrec(fitsfile *p, int, char *c, int *st) { if (ff::hdu(p, st)) { ff::get(p)->next = 0; c[0] = 0; } return *st; }
int ffgnxk(fitsfile *p, char **, int, char **, int, char *c, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; ff::Handle *h = ff::get(p); if (h->next >= H->nkey) return *st = KEY_NO_EXIST; strcpy(c, H->key[h->next++]); return 0; }
int ffgkcl(char *c) { return !strncmp(c, "MAX-", 4) ? TYP_USER_KEY : TYP_USER_KEY; }
int ffgknm(char *c, char *n, int *l, int *st) { if (*st > 0) return *st; strcpy(n, c); *l = int(strlen(n)); return 0; }
int ffdelt(fitsfile *p, int *st) { ff::Handle *h = ff::get(p); if (!h) { if (*st <= 0) *st = 114; return *st; } ff::file[h->f].used = false; h->open = false; --ff::nopen; return *st; }
static double ff_load(int type, const void *a, long i, long *l) { double d = 0; *l = 0;
    switch (type) { case TINT: *l = ((const int *)a)[i]; break; case TLONGLONG: case TLONG: *l = ((const long *)a)[i]; break; case TSHORT: *l = ((const short *)a)[i]; break; case TBYTE: *l = ((const unsigned char *)a)[i]; break; case TLOGICAL: *l = ((const char *)a)[i] != 0; break;
    case TFLOAT: return ((const float *)a)[i]; case TDOUBLE: return ((const double *)a)[i]; } return d; }
static bool ff_isint(int t) { return t == TLONG || t == TLONGLONG || t == TSHORT || t == TBYTE || t == TLOGICAL; }
static void ff_store(int type, void *a, long i, bool isint, long l, double d) {
    switch (type) { case TINT: ((int *)a)[i] = isint ? int(l) : int(d); break; case TLONGLONG: case TLONG: ((long *)a)[i] = isint ? l : long(d); break; case TSHORT: ((short *)a)[i] = isint ? short(l) : short(d); break; case TBYTE: ((unsigned char *)a)[i] = isint ? (unsigned char)l : (unsigned char)d; break; case TLOGICAL: ((char *)a)[i] = l != 0; break;
    case TFLOAT: ((float *)a)[i] = isint ? float(l) : float(d); break; case TDOUBLE: ((double *)a)[i] = isint ? double(l) : d; break; } }
int ffiimgll(fitsfile *p, int bitpix, int naxis, LONGLONG *ax, int *st) { if (!ff::hdu(p, st)) return *st; ff::Handle *h = ff::get(p); int x = ff::inserthdu(h->f, h->cur); h->cur = x + 1; ff::Hdu &H = ff::file[h->f].hdu[x]; H.kind = IMAGE_HDU; H.bitpix = bitpix; H.naxis = naxis; for (int i = 0; i < naxis; ++i) H.nax[i] = ax[i]; for (int i = 0; i < ff::NR; ++i) H.img[i] = 0; return 0; }
static long ff_npix(ff::Hdu *H) { long n = H->naxis ? 1 : 0; for (int i = 0; i < H->naxis; ++i) n *= H->nax[i]; return n; }
int ffppr(fitsfile *p, int type, LONGLONG first, LONGLONG n, void *a, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (H->kind != IMAGE_HDU) return *st = 233; if (first < 1 || first - 1 + n > ff_npix(H)) return *st = 302; for (long i = 0; i < n; ++i) { long l; double d = ff_load(type, a, i, &l); if (ff_isint(type) || type == TINT) d = double(l); H->img[first - 1 + i] = H->bitpix == FLOAT_IMG ? double(float(d)) : d; } return 0; }
int ffgpv(fitsfile *p, int type, LONGLONG first, LONGLONG n, void *, void *a, int *, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (H->kind != IMAGE_HDU) return *st = 233; if (first < 1 || first - 1 + n > ff_npix(H)) return *st = 302; for (long i = 0; i < n; ++i) ff_store(type, a, i, false, 0, H->img[first - 1 + i]); return 0; }
int ffgcdw(fitsfile *p, int c, int *w, int *st) { ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (c < 1 || c > H->ncol) return *st = 302; *w = int(H->col[c - 1].repeat); return 0; }
int ffgcv(fitsfile *p, int type, int c, LONGLONG fr, LONGLONG fe, LONGLONG n, void *, void *arr, int *, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (c < 1 || c > H->ncol) return *st = 302;
    ff::Col &C = H->col[c - 1]; if (fr < 1) return *st = 307; if (fe < 1) return *st = 308;
    if ((C.type == TSTRING) != (type == TSTRING)) return *st = 410;
    if (type == TSTRING) { if (fr - 1 + n > H->rows) return *st = 307; for (long i = 0; i < n; ++i) { char *q = ((char **)arr)[i]; memcpy(q, C.s[fr - 1 + i], C.repeat); q[C.repeat] = 0; for (long e = long(strlen(q)); e > 0 && q[e - 1] == ' '; --e) q[e - 1] = 0; } return 0; }
    long o = (fr - 1) * C.repeat + fe - 1; if (n > 0 && o + n > H->rows * C.repeat) return *st = 307;
    for (long i = 0; i < n; ++i) ff_store(type, arr, i, ff_isint(C.type), C.l[o + i], C.d[o + i]);
    return 0;
}
int ffpcl(fitsfile *p, int type, int c, LONGLONG fr, LONGLONG fe, LONGLONG n, void *arr, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (c < 1 || c > H->ncol) return *st = 302;
    ff::Col &C = H->col[c - 1]; if (fr < 1) return *st = 307; if (fe < 1) return *st = 308; if ((C.type == TSTRING) != (type == TSTRING)) return *st = 410;
    if (type == TSTRING) { if (fr - 1 + n > ff::NS) return *st = 307; for (long i = 0; i < n; ++i) { strncpy(C.s[fr - 1 + i], ((char **)arr)[i], C.repeat); } if (n && fr - 1 + n > H->rows) H->rows = fr - 1 + n; return 0; }
    long o = (fr - 1) * C.repeat + fe - 1; bool isint = ff_isint(C.type);
    for (long i = 0; i < n; ++i) {
        if (o + i >= ff::NR) return *st = 307;
        long l; double d = ff_load(type, arr, i, &l); bool from = ff_isint(type) || type == TINT; if (from && !isint) d = double(l); if (!from && isint) l = long(d);
        if (isint) C.l[o + i] = l; else C.d[o + i] = C.type == TFLOAT ? double(float(d)) : d;
    }
    long need = n > 0 ? (o + n + C.repeat - 1) / C.repeat : 0; if (need > H->rows) H->rows = need; return 0;
}
int ffphps(fitsfile *p, int bitpix, int naxis, long *, int *st) {
    if (!ff::enter(st)) return *st; ff::Handle *h = ff::get(p); ff::File &f = ff::file[h->f]; f.nhdu = 1; f.hdu[0].kind = IMAGE_HDU; f.hdu[0].bitpix = bitpix; f.hdu[0].naxis = naxis; f.hdu[0].ncol = f.hdu[0].nkey = 0; return 0;
}
int ffpdat(fitsfile *p, int *st) { ff::hdu(p, st); return *st; }
int ffibin(fitsfile *p, LONGLONG rows, int nf, char **name, char **form, char **unit, const char *, LONGLONG, int *st) {
    if (!ff::hdu(p, st)) return *st; ff::Handle *h = ff::get(p); int x = ff::inserthdu(h->f, h->cur); ff::file[h->f].hdu[x].rows = rows; h->cur = x + 1; if (nf > ff::NC) return *st = 304;
    for (int i = 0; i < nf; ++i) { long rep = 0; const char *t = form[i]; bool digit = false; while (*t >= '0' && *t <= '9') { rep = rep * 10 + (*t++ - '0'); digit = true; } int c = ff::newcol(h->f, x, *t == 'J' ? TLONG : *t == 'K' ? TLONGLONG : *t == 'E' ? TFLOAT : *t == 'D' ? TDOUBLE : *t == 'I' ? TSHORT : *t == 'B' ? TBYTE : *t == 'L' ? TLOGICAL : *t == 'A' ? TSTRING : 0, digit ? rep : 1);
        ff::Col &C = ff::file[h->f].hdu[x].col[c]; if (!C.type || t[1]) return *st = 261; strncpy(C.name, name[i], 15); C.name[15] = 0; if (unit) strncpy(C.unit, unit[i], 15); C.unit[15] = 0; for (int k = 0; k < ff::NS; ++k) for (int e = 0; e < ff::SL; ++e) C.s[k][e] = 0; for (int k = 0; k < ff::NR; ++k) { C.l[k] = 0; C.d[k] = 0; } }
    return 0;
}
// ASCII tables (the text form of numbers is not modelled: values are kept exactly)
static int ff_asciitype(const char *t) { int w = 0; for (const char *q = t + 1; *q >= '0' && *q <= '9'; ++q) w = 10 * w + (*q - '0'); return w <= 0 ? 0 : *t == 'I' ? w <= 4 ? TSHORT : w <= 9 ? TLONG : TLONGLONG : *t == 'E' || *t == 'F' ? TFLOAT : *t == 'D' ? TDOUBLE : *t == 'A' ? TSTRING : 0; }
int ffitab(fitsfile *p, LONGLONG len, LONGLONG rows, int nf, char **name, long *, char **form, char **unit, const char *, int *st) {
    if (!ff::hdu(p, st)) return *st; ff::Handle *h = ff::get(p); if (nf > ff::NC || len < 0) return *st = 304; for (int i = 0; i < nf; ++i) if (!ff_asciitype(form[i]) || ff_asciitype(form[i]) == TSTRING) return *st = 261;
    int x = ff::inserthdu(h->f, h->cur); ff::file[h->f].hdu[x].kind = ASCII_TBL; ff::file[h->f].hdu[x].rows = rows; h->cur = x + 1;
    for (int i = 0; i < nf; ++i) { int c = ff::newcol(h->f, x, ff_asciitype(form[i]), 1); ff::Col &C = ff::file[h->f].hdu[x].col[c]; strncpy(C.name, name[i], 15); C.name[15] = 0; if (unit) strncpy(C.unit, unit[i], 15); C.unit[15] = 0; }
    return 0;
}
int ffgacl(fitsfile *p, int c, char *tt, long *, char *tu, char *tf, double *, double *, char *, char *, int *st) {
    ff::Hdu *H = ff::hdu(p, st); if (!H) return *st; if (H->kind != ASCII_TBL) return *st = 226; if (c < 1 || c > H->ncol) return *st = 302;
    ff::Col &C = H->col[c - 1]; if (tt) strcpy(tt, C.name); if (tu) strcpy(tu, C.unit); if (tf) strcpy(tf, C.type == TSHORT ? "I4" : C.type == TLONG ? "I9" : C.type == TLONGLONG ? "I22" : C.type == TFLOAT ? "E14.7" : "D23.15"); return 0;
}
int ffasfm(char *tf, int *code, long *w, int *, int *st) { if (!ff::enter(st)) return *st; int t = ff_asciitype(tf); if (!t) return *st = 261; *code = t; if (w) *w = 1; return 0; }
}
