// C30: texts and command lines taken apart (string_utils.cc)
#define _GLIBCXX_EXTERN_TEMPLATE 0 // the string functions of the C++ library are encoded here, for symbolic characters
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "vp.h"
#include "fakefits.h"
#include "common.h"
#include "ls_string_utils.h"
#include "ls_error_handling.h"
using namespace levels;

// models of C functions for symbolic characters ("C" locale)
extern "C" {
unsigned long vp_model_strlen(const char *s) { unsigned long n = 0; while (s[n]) ++n; return n; }
int vp_model_strcmp(const char *a, const char *b) { for (;; ++a, ++b) { if (*a != *b) return int((unsigned char)*a) - int((unsigned char)*b); if (!*a) return 0; } }
int vp_model_strncmp(const char *a, const char *b, unsigned long n) { for (; n; ++a, ++b, --n) { if (*a != *b) return int((unsigned char)*a) - int((unsigned char)*b); if (!*a) return 0; } return 0; }
int vp_model_strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; x = (unsigned char)(x + 32 * ((x >= 'A') & (x <= 'Z'))); y = (unsigned char)(y + 32 * ((y >= 'A') & (y <= 'Z'))); if (x != y) return int(x) - int(y); if (!x) return 0; } }
int vp_model_toupper(int c) { return c - 32 * ((c >= 'a') & (c <= 'z')); }
int vp_model_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int vp_model_isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int vp_model_memcmp(const void *a, const void *b, unsigned long n) { const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (unsigned long i = 0; i < n; ++i) if (p[i] != q[i]) return int(p[i]) - int(q[i]); return 0; }
const void *vp_model_memchr(const void *a, int c, unsigned long n) { const unsigned char *p = (const unsigned char *)a; for (unsigned long i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return p + i; return 0; }
int vp_model_tolower(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
int vp_model_isdigit(int c) { return (c >= '0') & (c <= '9'); }
}
template class std::basic_string<char>;

struct Sn { char b[40]; Sn(const char *p, int i) { int k = 0; while (p[k]) { b[k] = p[k]; ++k; } b[k++] = char('0' + i / 10); b[k++] = char('0' + i % 10); b[k] = 0; } operator const char *() const { return b; } };
// text of n characters; every byte (set 0), or out of an alphabet
static std::string text(const char *nm, int n, const char *alphabet, char *raw) {
    std::string s; for (int i = 0; i < n; ++i) { unsigned char c = vp_bv8(Sn(nm, i)); if (alphabet) { bool ok = false; for (const char *p = alphabet; *p; ++p) ok |= c == (unsigned char)*p; vp_assume(ok); } raw[i] = char(c); s.push_back(char(c)); } raw[n] = 0; return s;
}
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool same(const std::string &a, const char *r, int i, int j) { if (int(a.size()) != j - i) return false; for (int k = i; k < j; ++k) if (a[k - i] != r[k]) return false; return true; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }

extern "C" void trim_main(void) {
    int n = int(vp_choose("n", 0, vp_param("N", 4))); char r[40]; unsigned long live = vp_heap_live();
    { std::string s = text("c", n, 0, r), t = trim(s); int i = 0, j = n; while (i < j && blank(r[i])) ++i; while (j > i && blank(r[j - 1])) --j; vp_assert(same(t, r, i, j), "blanks are removed from both ends only"); vp_assert(same(s, r, 0, n), "the argument is unchanged"); std::string u = "old"; stringToData(s, u); vp_assert(same(u, r, i, j), "text of a text"); vp_assert(same(stringToData<std::string>(s), r, i, j) && same(dataToString(s), r, i, j), "text of a text"); }
    vp_assert(vp_heap_live() == live, "memory is released"); vp_reach("done");
}
extern "C" void case_main(void) {
    int n = int(vp_choose("n", 0, vp_param("N", 3))), m = int(vp_choose("m", 0, vp_param("N", 3))); char a[40], b[40]; 
    std::string s = text("a", n, 0, a), t = text("b", m, 0, b); bool eq = n == m; for (int i = 0; i < n && i < m; ++i) eq &= lo(a[i]) == lo(b[i]); vp_assert(equal_nocase(s, t) == eq, "equal apart from the case"); std::string l = levels::tolower(s); vp_assert(int(l.size()) == n, "length"); for (int i = 0; i < n; ++i) vp_assert(l[i] == lo(a[i]), "lower case"); vp_assert(same(s, a, 0, n), "the argument is unchanged"); vp_reach("done");
}
extern "C" void bool_main(void) {
    int n = int(vp_choose("n", vp_param("N0", 0), vp_param("N", 7))); char r[40]; std::string s = text("c", n, "FfnNTtyY.aAlLsSeErRuUx0", r); static const char *f[] = {"F", "f", "n", "N", "false", ".false.", "FALSE", ".FALSE."}, *t[] = {"T", "t", "y", "Y", "true", ".true.", "TRUE", ".TRUE."}; bool F = false, T = false; for (int k = 0; k < 8; ++k) { if (int(strlen(f[k])) == n) { bool e = true; for (int i = 0; i < n; ++i) e &= r[i] == f[k][i]; F |= e; } if (int(strlen(t[k])) == n) { bool e = true; for (int i = 0; i < n; ++i) e &= r[i] == t[k][i]; T |= e; } }
    bool v = vp_choose("old", 0, 1), old = v, th = throws([&] { stringToData(s, v); }); vp_assert(th == !(F || T), "exactly the documented texts are truth values"); vp_assert(th ? v == old : v == T, "truth value"); vp_assert(dataToString(true) == "T" && dataToString(false) == "F", "text of a truth value"); vp_reach("done");
}
typedef std::map<std::string, std::string> Map;
// a second dictionary of at most 4 entries
struct Dict { int n; std::string k[8], v[8]; Dict() : n(0) {} void set(const std::string &a, const std::string &b) { for (int i = 0; i < n; ++i) if (k[i] == a) { v[i] = b; return; } k[n] = a; v[n++] = b; } };
static void equal(const Map &m, const Dict &d) { vp_assert(int(m.size()) == d.n, "number of parameters"); for (int i = 0; i < d.n; ++i) { Map::const_iterator it = m.find(d.k[i]); vp_assert(it != m.end(), "parameter is known"); if (it != m.end()) vp_assert(it->second == d.v[i], "value of a parameter"); } }
static std::string part(const char *r, int i, int j) { while (i < j && blank(r[i])) ++i; while (j > i && blank(r[j - 1])) --j; return std::string(r + i, j - i); }
extern "C" void equalsign_main(void) {
    int na = int(vp_choose("args", 0, vp_param("ARGS", 1))), nl = int(vp_choose("leading", 0, 1)); char r[4][40]; const char *av[6]; av[0] = "prog"; unsigned long live = vp_heap_live();
    { std::vector<std::string> lead; if (nl) lead.push_back("first"); Map m; m["old"] = "x"; Dict d; int pos = 1; if (nl) { av[pos++] = "value 1"; d.set("first", "value 1"); }
    for (int a = 0; a < na; ++a) { int n = int(vp_choose(Sn("n", a), 0, vp_param("N", 3))); text(Sn("c", a), n, "a=\tf", r[a]); av[pos++] = r[a]; int e = -1; for (int i = n; i-- > 0;) if (r[a][i] == '=') e = i; if (e >= 0) { std::string k = part(r[a], 0, e); if (k.size()) d.set(k, part(r[a], e + 1, n)); } }
    bool th = nl ? throws([&] { parse_cmdline_equalsign(pos, av, lead, m); }) : throws([&] { parse_cmdline_equalsign(pos, av, m); }); vp_assert(!th, "accepted"); equal(m, d); }
    vp_assert(vp_heap_live() == live, "memory is released"); { std::vector<std::string> lead(3, "x"); Map m; int k = int(vp_choose("few", 1, 3)); av[1] = av[2] = "a"; vp_assert(throws([&] { parse_cmdline_equalsign(k, av, lead, m); }) && throws([&] { parse_cmdline_classic(k, av, lead, m); }), "too few leading arguments are refused"); } vp_reach("done");
}
static bool isparam(const char *r, int n) { return n >= 2 && r[0] == '-' && !((r[1] >= '0' && r[1] <= '9') || r[1] == '.'); }
extern "C" void classic_main(void) {
    int na = int(vp_choose("args", 0, vp_param("ARGS", 3))), nl = int(vp_choose("leading", 0, 1)), len[4]; char r[4][40]; const char *av[6]; av[0] = "prog"; unsigned long live = vp_heap_live();
    bool th = false; { std::vector<std::string> lead; if (nl) lead.push_back("first"); Map m; m["old"] = "x"; Dict d; int pos = 1; if (nl) { av[pos++] = "-value"; d.set("first", "-value"); }
    for (int a = 0; a < na; ++a) { len[a] = int(vp_choose(Sn("n", a), 0, vp_param("N", 2))); text(Sn("c", a), len[a], "-a1.", r[a]); av[pos++] = r[a]; }
    bool bad = false; for (int a = 0; a < na && !bad;) { if (!isparam(r[a], len[a])) { bad = true; break; } if (a == na - 1 || isparam(r[a + 1], len[a + 1])) { d.set(std::string(r[a] + 1), "true"); ++a; } else { d.set(std::string(r[a] + 1), std::string(r[a + 1])); a += 2; } }
    th = nl ? throws([&] { parse_cmdline_classic(pos, av, lead, m); }) : throws([&] { parse_cmdline_classic(pos, av, m); }); vp_assert(th == bad, "a value without a parameter is refused, everything else accepted"); if (!th && !bad) equal(m, d); }
    vp_assert(th || vp_heap_live() == live, "memory is released"); vp_reach("done");
}
