// Exact multivariate polynomials over named real/integer variables.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <cstdint>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cstring>
#include <cfloat>

struct Var {
    std::string name;
    double lo, hi;       // bounds (always asserted when the variable reaches the solver)
    bool isInt;
    int kind;            // 0 input, 1 rounding error, 2 auxiliary, 3 sin, 4 cos, 5 log
    int trigMate = -1;   // for sin/cos: the other one
    int sinOf = -1;      // angle variable (for sin/cos)

    int invSin = -1;     // reciprocal of this sine variable
    bool asserted = false;
    bool hasRule = false; // takes part in a rewrite rule (inverse or square root)
};

extern z3::context *Z;
extern std::vector<Var> vars;
extern std::vector<z3::expr> varExpr;

int newVar(const std::string &name, double lo, double hi, bool isInt, int kind);

typedef uint32_t Mono;   // interned monomial, 0 == 1
struct MonoInfo { std::vector<uint32_t> v; double lo, hi; };
extern std::vector<MonoInfo> monos;

Mono internMono(const std::vector<uint32_t> &v);
Mono monoVar(int v);

struct Poly {
    std::vector<std::pair<Mono, mpq_class>> t; // sorted by mono, no zero coefficients
    Poly() {}
    explicit Poly(const mpq_class &c) { if (c != 0) t.emplace_back(0, c); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    mpq_class constant() const { return (!t.empty() && t[0].first == 0) ? t[0].second : mpq_class(0); }
    bool linear() const { for (auto &x : t) if (monos[x.first].v.size() > 1) return false; return true; }
};

Poly polyVar(int v);
Poly polyAdd(const Poly &a, const Poly &b);
Poly polySub(const Poly &a, const Poly &b);
Poly polyScale(const Poly &a, const mpq_class &c);
Poly polyMul(const Poly &a, const Poly &b);
void addRule(uint32_t a, uint32_t b, const Poly &r); // a*b -> r
bool polyEq(const Poly &a, const Poly &b);
z3::expr polyExpr(const Poly &p);                 // exact (nonlinear) term, sort Real
std::string polyStr(const Poly &p, size_t maxTerms = 12);
std::string polyKey(const Poly &p);
void polyInterval(const Poly &p, double &lo, double &hi);
mpq_class polyEval(const Poly &p, const std::vector<mpq_class> &val);
std::string q2z3(const mpq_class &q);

inline mpq_class d2q(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
mpq_class ld2q(long double d);

// outward rounded interval helpers
inline double up(double x) { return std::isfinite(x) ? std::nextafter(x, INFINITY) : x; }
inline double dn(double x) { return std::isfinite(x) ? std::nextafter(x, -INFINITY) : x; }
