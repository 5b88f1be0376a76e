#include "real.h"

z3::context *Z = nullptr;
std::vector<Var> vars;
std::vector<z3::expr> varExpr;
std::vector<MonoInfo> monos;

struct VecHash {
    size_t operator()(const std::vector<uint32_t> &v) const {
        size_t h = 1469598103934665603ull;
        for (auto x : v) { h ^= x; h *= 1099511628211ull; }
        return h;
    }
};
static std::unordered_map<std::vector<uint32_t>, Mono, VecHash> monoTab;

int newVar(const std::string &name, double lo, double hi, bool isInt, int kind) {
    Var v; v.name = name; v.lo = lo; v.hi = hi; v.isInt = isInt; v.kind = kind;
    vars.push_back(v);
    std::string n = "v" + std::to_string(vars.size() - 1) + "_" + name;
    varExpr.push_back(isInt ? Z->int_const(n.c_str()) : Z->real_const(n.c_str()));
    return int(vars.size()) - 1;
}

static void imul(double al, double ah, double bl, double bh, double &lo, double &hi) {
    double c[4] = {al * bl, al * bh, ah * bl, ah * bh};
    lo = INFINITY; hi = -INFINITY;
    for (double x : c) {
        if (std::isnan(x)) x = 0; // 0*inf
        lo = std::min(lo, x); hi = std::max(hi, x);
    }
    if (std::isinf(al) || std::isinf(ah) || std::isinf(bl) || std::isinf(bh)) {
        // be safe with 0*inf combinations
        if ((al < 0 || ah > 0 || true) && (lo > hi)) { lo = -INFINITY; hi = INFINITY; }
    }
    lo = dn(lo); hi = up(hi);
}

Mono internMono(const std::vector<uint32_t> &v) {
    auto it = monoTab.find(v);
    if (it != monoTab.end()) return it->second;
    MonoInfo mi; mi.v = v; mi.lo = 1; mi.hi = 1;
    size_t i = 0;
    while (i < v.size()) {
        size_t j = i; while (j < v.size() && v[j] == v[i]) ++j;
        double l = vars[v[i]].lo, h = vars[v[i]].hi, pl = 1, ph = 1;
        size_t n = j - i;
        bool even = n % 2 == 0;
        double a = std::fabs(l), b = std::fabs(h);
        if (even) {
            double mx = std::max(a, b), mn = (l <= 0 && h >= 0) ? 0 : std::min(a, b);
            pl = dn(std::pow(mn, double(n))); if (pl < 0) pl = 0; ph = up(std::pow(mx, double(n)));
        } else { pl = dn(std::pow(l, double(n))); ph = up(std::pow(h, double(n)));
            if (n == 1) { pl = l; ph = h; } }
        if (i == 0) { mi.lo = pl; mi.hi = ph; }
        else { double rl, rh; imul(mi.lo, mi.hi, pl, ph, rl, rh); mi.lo = rl; mi.hi = rh; }
        i = j;
    }
    Mono id = monos.size();
    monos.push_back(mi); monoTab.emplace(v, id);
    return id;
}
struct MonoInit { MonoInit() { internMono({}); } } monoInit;

Mono monoVar(int v) { return internMono({uint32_t(v)}); }
Poly polyVar(int v) { Poly p; p.t.emplace_back(monoVar(v), 1); return p; }

Poly polyAdd(const Poly &a, const Poly &b) {
    Poly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
        else {
            mpq_class c = a.t[i].second + b.t[j].second;
            if (c != 0) r.t.emplace_back(a.t[i].first, std::move(c));
            ++i; ++j;
        }
    }
    return r;
}
Poly polySub(const Poly &a, const Poly &b) {
    Poly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.emplace_back(b.t[j].first, -b.t[j].second); ++j; }
        else {
            mpq_class c = a.t[i].second - b.t[j].second;
            if (c != 0) r.t.emplace_back(a.t[i].first, std::move(c));
            ++i; ++j;
        }
    }
    return r;
}
Poly polyScale(const Poly &a, const mpq_class &c) {
    Poly r; if (c == 0) return r;
    if (c == 1) return a;
    r.t.reserve(a.t.size());
    for (auto &x : a.t) r.t.emplace_back(x.first, x.second * c);
    return r;
}
static std::unordered_map<uint64_t, int64_t> mulTab; // -> mono or -1-(index of expansion)
static std::vector<Poly> mulExp;

static std::map<std::pair<uint32_t, uint32_t>, Poly> rules;
void addRule(uint32_t a, uint32_t b, const Poly &r) { if (a > b) std::swap(a, b); rules[{a, b}] = r; vars[a].hasRule = vars[b].hasRule = true; mulTab.clear(); }
static bool findRule(const std::vector<uint32_t> &v, size_t &ii, size_t &jj) {
    for (size_t i = 0; i < v.size(); ++i) if (vars[v[i]].hasRule)
        for (size_t j = i + 1; j < v.size(); ++j) if (vars[v[j]].hasRule && rules.count({v[i], v[j]})) { ii = i; jj = j; return true; }
    return false;
}
static bool findInvSin(const std::vector<uint32_t> &v, size_t &ii, size_t &jj) {
    for (size_t i = 0; i < v.size(); ++i) if (vars[v[i]].invSin >= 0) { uint32_t c = vars[vars[v[i]].invSin].trigMate;
        for (size_t j = 0; j + 1 < v.size(); ++j) if (v[j] == c && v[j + 1] == c) { ii = i; jj = j; return true; } }
    return false;
}
static Poly reduceTrig(const std::vector<uint32_t> &v) {
    // v sorted; replace sin^2 by 1-cos^2
    for (size_t i = 0; i + 1 < v.size(); ++i)
        if (v[i] == v[i + 1] && vars[v[i]].kind == 3 && vars[v[i]].trigMate >= 0) {
            std::vector<uint32_t> w(v.begin(), v.begin() + i);
            w.insert(w.end(), v.begin() + i + 2, v.end());
            std::vector<uint32_t> w2 = w;
            uint32_t c = vars[v[i]].trigMate;
            w2.push_back(c); w2.push_back(c);
            std::sort(w2.begin(), w2.end());
            return polySub(reduceTrig(w), reduceTrig(w2));
        }
    size_t i, j;
    if (findInvSin(v, i, j)) { // cos^2 / sin = 1/sin - sin
        std::vector<uint32_t> w; for (size_t k = 0; k < v.size(); ++k) if (k != j && k != j + 1) w.push_back(v[k]); // keeps 1/sin
        std::vector<uint32_t> w2; for (size_t k = 0; k < v.size(); ++k) if (k != i && k != j && k != j + 1) w2.push_back(v[k]);
        w2.push_back(uint32_t(vars[v[i]].invSin)); std::sort(w2.begin(), w2.end());
        return polySub(reduceTrig(w), reduceTrig(w2));
    }
    if (findRule(v, i, j)) {
        Poly r = rules[{v[i], v[j]}]; std::vector<uint32_t> w;
        for (size_t k = 0; k < v.size(); ++k) if (k != i && k != j) w.push_back(v[k]);
        Poly p; p.t.emplace_back(internMono(w), 1); if (w.empty()) p = Poly(mpq_class(1));
        return polyMul(p, r);
    }
    Poly p; p.t.emplace_back(internMono(v), 1); return p;
}
static int64_t mulMono(Mono a, Mono b) {
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    uint64_t key = (uint64_t(a) << 32) | b;
    auto it = mulTab.find(key);
    if (it != mulTab.end()) return it->second;
    std::vector<uint32_t> v;
    v.reserve(monos[a].v.size() + monos[b].v.size());
    std::merge(monos[a].v.begin(), monos[a].v.end(), monos[b].v.begin(), monos[b].v.end(), std::back_inserter(v));
    bool trig = false;
    for (size_t i = 0; i + 1 < v.size(); ++i)
        if (v[i] == v[i + 1] && vars[v[i]].kind == 3 && vars[v[i]].trigMate >= 0) trig = true;
    size_t ri, rj; if (!trig && (findRule(v, ri, rj) || findInvSin(v, ri, rj))) trig = true;
    int64_t r;
    if (!trig) r = internMono(v);
    else { Poly ex = reduceTrig(v); mulExp.push_back(ex); r = -int64_t(mulExp.size()); }
    mulTab.emplace(key, r);
    return r;
}
Poly polyMul(const Poly &a, const Poly &b) {
    if (a.t.empty() || b.t.empty()) return Poly();
    if (a.isConst()) return polyScale(b, a.constant());
    if (b.isConst()) return polyScale(a, b.constant());
    std::map<Mono, mpq_class> acc;
    for (auto &x : a.t) for (auto &y : b.t) {
        int64_t m = mulMono(x.first, y.first);
        mpq_class c = x.second * y.second;
        if (m >= 0) acc[Mono(m)] += c;
        else { const Poly e = mulExp[-m - 1]; for (auto &z : e.t) acc[z.first] += z.second * c; }
    }
    Poly r; r.t.reserve(acc.size());
    for (auto &x : acc) if (x.second != 0) r.t.emplace_back(x.first, x.second);
    return r;
}
bool polyEq(const Poly &a, const Poly &b) {
    if (a.t.size() != b.t.size()) return false;
    for (size_t i = 0; i < a.t.size(); ++i)
        if (a.t[i].first != b.t[i].first || a.t[i].second != b.t[i].second) return false;
    return true;
}
std::string q2z3(const mpq_class &q) { return q.get_str(); }

z3::expr polyExpr(const Poly &p) {
    z3::expr_vector sum(*Z);
    for (auto &x : p.t) {
        z3::expr c = Z->real_val(x.second.get_str().c_str());
        const auto &mv = monos[x.first].v;
        if (mv.empty()) { sum.push_back(c); continue; }
        z3::expr_vector f(*Z);
        if (x.second != 1) f.push_back(c);
        for (auto v : mv) f.push_back(vars[v].isInt ? z3::to_real(varExpr[v]) : varExpr[v]);
        if (f.size() == 1) sum.push_back(f[0]);
        else {
            std::vector<Z3_ast> a; for (unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]);
            sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, a.size(), a.data())));
        }
    }
    if (sum.size() == 0) return Z->real_val(0);
    if (sum.size() == 1) return sum[0];
    return z3::sum(sum);
}
std::string polyStr(const Poly &p, size_t maxTerms) {
    if (p.t.empty()) return "0";
    std::string s;
    size_t n = 0;
    for (auto &x : p.t) {
        if (n++ >= maxTerms) { s += " + ...(" + std::to_string(p.t.size()) + " terms)"; break; }
        if (n > 1) s += " + ";
        char b[64]; snprintf(b, sizeof b, "%.17g", x.second.get_d()); s += b;
        for (auto v : monos[x.first].v) s += "*" + vars[v].name;
    }
    return s;
}
std::string polyKey(const Poly &p) {
    std::string s;
    for (auto &x : p.t) s += std::to_string(x.first) + ":" + x.second.get_str(62) + ";";
    return s;
}
void polyInterval(const Poly &p, double &lo, double &hi) {
    lo = hi = 0;
    for (auto &x : p.t) {
        double c = x.second.get_d(), cl = dn(c), ch = up(c), rl, rh;
        const MonoInfo &m = monos[x.first];
        imul(cl, ch, m.lo, m.hi, rl, rh);
        if (std::isinf(m.lo) || std::isinf(m.hi)) {
            rl = (c > 0 ? (std::isinf(m.lo) ? -INFINITY : rl) : (std::isinf(m.hi) ? -INFINITY : rl));
            rh = (c > 0 ? (std::isinf(m.hi) ? INFINITY : rh) : (std::isinf(m.lo) ? INFINITY : rh));
        }
        lo = dn(lo + rl); hi = up(hi + rh);
    }
    if (std::isnan(lo)) lo = -INFINITY;
    if (std::isnan(hi)) hi = INFINITY;
}
mpq_class polyEval(const Poly &p, const std::vector<mpq_class> &val) {
    mpq_class r = 0;
    for (auto &x : p.t) {
        mpq_class m = x.second;
        for (auto v : monos[x.first].v) m *= val[v];
        r += m;
    }
    return r;
}
mpq_class ld2q(long double d) {
    double h = double(d);
    long double r = d - (long double)h;
    double l = double(r);
    mpq_class a = d2q(h), b = d2q(l), c = d2q(double(r - (long double)l));
    return a + b + c;
}
