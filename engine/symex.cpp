// Symbolic executor for LLVM IR: concrete/symbolic interpretation with solver-checked branching,
// MPI ranks and OpenMP threads as cooperating contexts.
#include <bitset>
#include "symex.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <cxxabi.h>
#include <typeinfo>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <stdexcept>

using namespace llvm;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------ options / shared state
static int optRanks = 1, optThreads = 1, optJobs = 1;
static double optDeadline = 0;        // absolute time
static uint64_t optMaxPaths = 1000000, optConcLimit = 4096, optBig = 65536;
static unsigned optRlimit = 20000000, optZ3Timeout = 20000;
static std::string optLog, optEntry = "vp_main";
static bool optTrace = false;
static uint64_t optAllocLimit = 1ull << 33;
static uint64_t optMaxSteps = 0;
static long optMaxViol = 8;
static bool optRevThreads = false;
static std::map<std::string, long> optParams;

struct Shared {
    std::atomic<long> running, paths, completed, infeasible, cut, enumEnds;
    std::atomic<long> q, qsat, qunsat, qunk, quns_assert, obligations, discharged, inconclusive, trivial;
    std::atomic<long> usSolver, violations, steps, crashed, forks, uninitLoads, races, concForks, branches, collectives, samples;
    std::atomic<long> intervalDec;
    std::atomic<uint8_t> fn[20000];
};
static Shared *sh;
static int logfd = -1;
static bool tainted = false;
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

static std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void logLine(const std::string &s) { std::string t = s + "\n"; if (write(logfd, t.data(), t.size()) < 0) {} }

static std::vector<pid_t> kids;
[[noreturn]] static void finishProcess() {
    sh->running--;
    for (pid_t k : kids) {
        int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->crashed++; }
    }
    _exit(0);
}
static long localSteps = 0;
[[noreturn]] static void endPath(const char *why, const std::string &detail = "") {
    sh->steps += localSteps;
    if (!strcmp(why, "completed")) { sh->completed++; sh->paths++; }
    else if (!strcmp(why, "infeasible")) sh->infeasible++;
    else if (!strcmp(why, "enum")) sh->enumEnds++;
    else { sh->cut++; sh->paths++; logLine("C " + std::string(why) + " " + detail); }
    finishProcess();
}
static bool childMark = false;
// returns true in the child
static bool forkPath() {
    sh->forks++;
    if (sh->paths.load() + 0 > long(optMaxPaths)) endPath("maxpaths");
    if (optDeadline > 0 && now() > optDeadline) endPath("deadline");
    fflush(stdout); fflush(stderr);
    long r = sh->running.fetch_add(1);
    if (r < optJobs) {
        pid_t p = fork();
        if (p < 0) { sh->running--; sh->crashed++; return false; }
        if (p == 0) { kids.clear(); localSteps = 0; return true; }
        kids.push_back(p);
        return false;
    }
    sh->running--;
    pid_t p = fork();
    if (p < 0) { sh->crashed++; return false; }
    if (p == 0) { kids.clear(); sh->running++; localSteps = 0; return true; } // child inherits the parent's slot (compensated below)
    sh->running--;
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    sh->running++;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->crashed++;
    return false;
}

// ------------------------------------------------------------------ solver
static std::vector<z3::expr> pathc;
static bool fNonlin = false, fReal = false, fBV = false, fFP = false;
static z3::solver *inc = nullptr;
static size_t incN = 0;
static std::set<int> usedVars; // variables whose bounds have been added

static void noteVars(const z3::expr &) {}
static z3::expr boundsOf(int v) {
    z3::expr_vector a(*Z);
    if (vars[v].isInt) { // bounds of sort Int, so that integer constraints stay purely integer
        z3::expr x = varExpr[v];
        if (std::isfinite(vars[v].lo)) a.push_back(x >= Z->int_val(d2q(std::ceil(vars[v].lo)).get_str().c_str()));
        if (std::isfinite(vars[v].hi)) a.push_back(x <= Z->int_val(d2q(std::floor(vars[v].hi)).get_str().c_str()));
        return a.size() ? z3::mk_and(a) : Z->bool_val(true);
    }
    z3::expr x = varExpr[v];
    if (std::isfinite(vars[v].lo)) a.push_back(x >= Z->real_val(d2q(vars[v].lo).get_str().c_str()));
    if (std::isfinite(vars[v].hi)) a.push_back(x <= Z->real_val(d2q(vars[v].hi).get_str().c_str()));
    if (vars[v].kind == 3) { // sin: pair identity
        z3::expr s = varExpr[v], c = varExpr[vars[v].trigMate];
        a.push_back(s * s + c * c == 1);
    }
    if (a.size() == 0) return Z->bool_val(true);
    return z3::mk_and(a);
}
static void addPC(const z3::expr &e) { pathc.push_back(e); }
static void useVar(int v) {
    if (usedVars.insert(v).second) {
        fReal = true;
        if (vars[v].kind == 3 || vars[v].kind == 4) {
            if (vars[v].trigMate >= 0) usedVars.insert(vars[v].trigMate);
            int s = vars[v].kind == 3 ? v : vars[v].trigMate;
            addPC(boundsOf(s)); addPC(boundsOf(vars[s].trigMate)); fNonlin = true;
        } else addPC(boundsOf(v));
    }
}
static void usePoly(const Poly &p) {
    fReal = true;
    for (auto &t : p.t) { const auto mv = monos[t.first].v; if (mv.size() > 1) fNonlin = true; for (auto v : mv) useVar(v); }
}
static z3::expr pe(const Poly &p) { usePoly(p); return polyExpr(p); }

static z3::model *lastModel = nullptr;
// free constants of an expression, and the kinds of their sorts (1 number, 2 bit-vector, 4 anything else)
struct Syms { std::vector<unsigned> c; int kinds = 0; };
static Syms symsOf(const z3::expr &e) {
    Syms r; std::set<unsigned> seen, out; std::vector<z3::expr> st{e};
    while (!st.empty()) {
        z3::expr x = st.back(); st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*Z, x)).second || !x.is_app()) { if (!x.is_app()) r.kinds |= 4; continue; }
        unsigned n = x.num_args();
        if (n == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) { out.insert(Z3_get_ast_id(*Z, x)); r.kinds |= x.is_arith() ? 1 : x.is_bv() ? 2 : 4; }
        else if (n && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) r.kinds |= 4;
        for (unsigned i = 0; i < n; ++i) st.push_back(x.arg(i));
    }
    r.c.assign(out.begin(), out.end()); return r;
}
static std::vector<Syms> pathSyms;
static z3::solver *incR = nullptr; // the purely arithmetic part of the path condition
static size_t incRN = 0;
static std::map<std::vector<unsigned>, std::pair<z3::check_result, std::vector<z3::expr>>> bvCache;
// On paths with both numbers and machine words: a question about only one of them is decided with that part of the
// (satisfiable) path condition that shares variables with it. Returns false when the question cannot be separated.
static bool slicedQuery(const std::vector<z3::expr> &extra, z3::check_result &r) {
    while (pathSyms.size() < pathc.size()) pathSyms.push_back(symsOf(pathc[pathSyms.size()]));
    std::set<unsigned> vs; int kinds = 0;
    for (auto &e : extra) { Syms q = symsOf(e); kinds |= q.kinds; vs.insert(q.c.begin(), q.c.end()); }
    std::vector<char> in(pathc.size(), 0);
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < pathc.size(); ++i) if (!in[i]) {
            bool hit = false; for (unsigned c : pathSyms[i].c) if (vs.count(c)) { hit = true; break; }
            if (hit) { in[i] = 1; more = true; kinds |= pathSyms[i].kinds; vs.insert(pathSyms[i].c.begin(), pathSyms[i].c.end()); }
        }
        if (kinds != 1 && kinds != 2) return false;
    }
    if (kinds == 2) {
        std::vector<z3::expr> all; std::vector<unsigned> key;
        for (size_t i = 0; i < pathc.size(); ++i) if (in[i]) all.push_back(pathc[i]);
        for (auto &e : extra) all.push_back(e);
        for (auto &e : all) key.push_back(Z3_get_ast_id(*Z, e));
        std::sort(key.begin(), key.end());
        auto it = bvCache.find(key); if (it != bvCache.end()) { r = it->second.first; return true; }
        z3::solver s = z3::tactic(*Z, "qfbv").mk_solver(); z3::params p(*Z); p.set("rlimit", optRlimit); p.set("timeout", optZ3Timeout); s.set(p);
        for (auto &e : all) s.add(e);
        r = s.check(); if (bvCache.size() > 20000) bvCache.clear(); bvCache.emplace(key, std::make_pair(r, all)); return true;
    }
    if (fNonlin) {
        bool anyInt = false; for (int v : usedVars) if (vars[v].isInt) anyInt = true;
        z3::solver s = anyInt ? z3::solver(*Z) : z3::solver(*Z, "QF_NRA"); z3::params p(*Z); p.set("rlimit", optRlimit); p.set("timeout", optZ3Timeout); s.set(p);
        for (size_t i = 0; i < pathc.size(); ++i) if (in[i]) s.add(pathc[i]);
        for (auto &e : extra) s.add(e);
        r = s.check(); return true;
    }
    if (!incR) { incR = new z3::solver(*Z); z3::params p(*Z); p.set("rlimit", optRlimit); p.set("timeout", optZ3Timeout); incR->set(p); incRN = 0; }
    while (incRN < pathc.size()) { if (pathSyms[incRN].kinds == 1) incR->add(pathc[incRN]); ++incRN; }
    incR->push(); for (auto &e : extra) incR->add(e); r = incR->check(); incR->pop(); return true;
}
static z3::check_result query(const std::vector<z3::expr> &extra, bool wantModel = false) {
    sh->q++;
    double t0 = now();
    z3::check_result r = z3::unknown;
    if (lastModel) { delete lastModel; lastModel = nullptr; }
    try {
        bool done = fBV && fReal && !fFP && slicedQuery(extra, r);
        if (done && !(wantModel && r == z3::sat)) ;
        else if (fNonlin || fFP || (fBV && !fReal)) {
            z3::solver s = fNonlin && !fBV && !fFP ? z3::solver(*Z, "QF_NRA") :
                           fFP ? z3::tactic(*Z, "qffp").mk_solver() :
                           (fBV && !fReal) ? z3::tactic(*Z, "qfbv").mk_solver() : z3::solver(*Z);
            bool anyInt = false;
            for (int v : usedVars) if (vars[v].isInt) anyInt = true;
            if (fNonlin && !fBV && !fFP && anyInt) s = z3::solver(*Z);
            z3::params p(*Z); p.set("rlimit", optRlimit); p.set("timeout", optZ3Timeout); s.set(p);
            for (auto &e : pathc) s.add(e);
            for (auto &e : extra) s.add(e);
            r = s.check();
            if (r == z3::sat && wantModel) lastModel = new z3::model(s.get_model());
        } else {
            if (!inc) { inc = new z3::solver(*Z); z3::params p(*Z); p.set("rlimit", optRlimit); p.set("timeout", optZ3Timeout); inc->set(p); incN = 0; }
            while (incN < pathc.size()) inc->add(pathc[incN++]);
            inc->push();
            for (auto &e : extra) inc->add(e);
            r = inc->check();
            if (r == z3::sat && wantModel) lastModel = new z3::model(inc->get_model());
            inc->pop();
        }
    } catch (z3::exception &ex) {
        logLine(std::string("E z3: ") + ex.msg());
        r = z3::unknown;
    }
    sh->usSolver += long(1e6 * (now() - t0));
    if (getenv("SYMEX_SLOW") && now() - t0 > atof(getenv("SYMEX_SLOW"))) { z3::solver d(*Z); for (auto &e : pathc) d.add(e); for (auto &e : extra) d.add(e); static int nd = 0; FILE *f = fopen(("/tmp/slow_" + std::to_string(getpid()) + "_" + std::to_string(nd++) + ".smt2").c_str(), "w"); if (f) { fputs(d.to_smt2().c_str(), f); fclose(f); } }
    if (r == z3::sat) sh->qsat++; else if (r == z3::unsat) sh->qunsat++; else sh->qunk++;
    return r;
}

// ------------------------------------------------------------------ inputs and reporting
struct Input { std::string name; char t; int var; z3::expr e; std::string conc; int bits; }; // t: r real, f float, i int, b bv, d ieee double, g ieee float, c chosen
static std::vector<Input> inputs;
static std::unordered_map<std::string, int> inputIdx;
static std::vector<std::string> reachLabels;
static Ctx *cur = nullptr;
static const Inst *curInst = nullptr;

static std::string locOf(const Inst *in) {
    if (!in || !in->I) return "?";
    const DebugLoc &dl = in->I->getDebugLoc();
    std::string fn = in->I->getFunction()->getName().str();
    int st; char *d = abi::__cxa_demangle(fn.c_str(), 0, 0, &st);
    std::string dn = d ? d : fn; free(d);
    if (dn.size() > 120) dn = dn.substr(0, 117) + "...";
    if (!dl) return dn;
    auto *sc = dl->getScope();
    std::string file = sc ? cast<DIScope>(sc)->getFilename().str() : "";
    size_t k = file.rfind('/'); if (k != std::string::npos) file = file.substr(k + 1);
    return file + ":" + std::to_string(dl.getLine()) + " (" + dn + ")";
}
static std::string stackOf(Ctx *c) {
    std::string s;
    if (!c) return s;
    int n = 0;
    for (size_t i = c->fr.size(); i-- > 0 && n < 8; ++n) {
        Frame &f = c->fr[i];
        if (f.blk < int(f.f->blocks.size()) && f.pc < f.f->blocks[f.blk].ins.size())
            s += (n ? " <- " : "") + locOf(&f.f->blocks[f.blk].ins[f.pc]);
    }
    return s;
}
static bool modelQ(z3::model &m, const z3::expr &e, mpq_class &q) {
    z3::expr v = m.eval(e, true);
    if (v.is_numeral()) { q = mpq_class(v.get_decimal_string(0).empty() ? "0" : Z3_get_numeral_string(*Z, v)); q.canonicalize(); return true; }
    // algebraic number: take a rational approximation
    if (v.is_algebraic()) {
        z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, v, 60));
        q = mpq_class(Z3_get_numeral_string(*Z, lo)); q.canonicalize(); return true;
    }
    return false;
}
static std::vector<mpq_class> *forcedVals = nullptr; // exact values for all variables (candidate counterexample)
static std::string inputsJson() {
    std::string s = "{";
    bool first = true;
    for (auto &in : inputs) {
        if (!first) s += ","; first = false;
        s += jesc(in.name) + ":";
        if (in.t == 'c') { s += jesc(in.conc); continue; }
        if (in.t == 'r' || in.t == 'f' || in.t == 'i') {
            mpq_class q = 0; int v = in.var;
            auto valOf = [&](int w, double dflt) -> mpq_class {
                if (forcedVals) return (*forcedVals)[w];
                mpq_class q = d2q(dflt);
                if (usedVars.count(w) && lastModel) modelQ(*lastModel, varExpr[w], q);
                return q;
            };
            double d0 = 0; if (d0 < vars[v].lo) d0 = vars[v].lo; if (d0 > vars[v].hi) d0 = vars[v].hi;
            q = valOf(v, d0);
            double d = q.get_d();
            // angle with a sin/cos pair: take the angle from the pair
            for (size_t w = 0; w < vars.size(); ++w)
                if (vars[w].kind == 3 && vars[w].sinOf == v && (forcedVals || usedVars.count(w))) {
                    double sn = valOf(w, 0).get_d(), cs = valOf(vars[w].trigMate, 1).get_d();
                    double a = atan2(sn, cs);
                    while (a < vars[v].lo - 1e-9) a += 2 * M_PI;
                    while (a > vars[v].hi + 1e-9) a -= 2 * M_PI;
                    d = std::min(std::max(a, vars[v].lo), vars[v].hi);
                }
            char b[64];
            if (in.t == 'i') { s += jesc(q.get_num().get_str()); continue; }
            if (in.bits > 1) d *= in.bits;
            snprintf(b, sizeof b, "%.17g", d);
            s += jesc(b);
        } else {
            std::string val = "0";
            if (lastModel) {
                z3::expr v = lastModel->eval(in.e, true);
                if (in.t == 'b') val = v.is_numeral() ? Z3_get_numeral_string(*Z, v) : "0";
                else { // ieee: bits
                    z3::expr bv(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v));
                    z3::expr w = bv.simplify();
                    val = w.is_numeral() ? std::string("bits:") + Z3_get_numeral_string(*Z, w) : "bits:9221120237041090560";
                }
            }
            s += jesc(val);
        }
    }
    return s + "}";
}
static void report(const std::string &kind, const std::string &msg, const Inst *in, bool haveModel = false) {
    if (!haveModel) {
        z3::check_result r = query({}, true);
        if (r == z3::unsat) endPath("infeasible");
        if (r == z3::unknown) { sh->inconclusive++; logLine("U " + kind + ": " + msg); return; }
    }
    long n = sh->violations.fetch_add(1);
    if (n < optMaxViol * 8)
        logLine("V {\"kind\":" + jesc(kind) + ",\"msg\":" + jesc(msg) + ",\"loc\":" + jesc(locOf(in)) +
                ",\"rank\":" + std::to_string(cur ? cur->rank : -1) +
                ",\"stack\":" + jesc(stackOf(cur)) + ",\"inputs\":" + inputsJson() + "}");
}
[[noreturn]] static void violationEnd(const std::string &kind, const std::string &msg) {
    report(kind, msg, curInst);
    endPath("violation", kind);
}
[[noreturn]] static void unsupported(const std::string &what) {
    endPath("unsupported", what + " at " + locOf(curInst) + " in " + stackOf(cur));
}

// ------------------------------------------------------------------ constraints helpers
static void setVarBounds(int v, double lo, double hi) {
    if (lo > vars[v].lo) vars[v].lo = lo;
    if (hi < vars[v].hi) vars[v].hi = hi;
    if (vars[v].isInt) { vars[v].lo = std::ceil(vars[v].lo); vars[v].hi = std::floor(vars[v].hi); }
    for (size_t m = 0; m < monos.size(); ++m) {
        bool has = false;
        for (auto x : monos[m].v) if (int(x) == v) has = true;
        if (!has) continue;
        std::vector<uint32_t> vv = monos[m].v;
        // recompute by brute force (same rule as internMono)
        double L = 1, H = 1; size_t i = 0;
        while (i < vv.size()) {
            size_t j = i; while (j < vv.size() && vv[j] == vv[i]) ++j;
            double l = vars[vv[i]].lo, h = vars[vv[i]].hi, pl, ph; size_t n = j - i;
            if (n == 1) { pl = l; ph = h; }
            else if (n % 2 == 0) {
                double a = fabs(l), b = fabs(h), mx = std::max(a, b), mn = (l <= 0 && h >= 0) ? 0 : std::min(a, b);
                pl = std::max(0., dn(pow(mn, double(n)))); ph = up(pow(mx, double(n)));
            } else { pl = dn(pow(l, double(n))); ph = up(pow(h, double(n))); }
            if (i == 0) { L = pl; H = ph; }
            else { double c[4] = {L * pl, L * ph, H * pl, H * ph}; double nl = INFINITY, nh = -INFINITY;
                for (double x : c) { if (std::isnan(x)) x = 0; nl = std::min(nl, x); nh = std::max(nh, x); }
                L = dn(nl); H = up(nh); }
            i = j;
        }
        monos[m].lo = L; monos[m].hi = H;
    }
}
// learn bounds from  p REL 0  (rel: 0 ==, 1 <=, 2 <, 3 >=, 4 >)
static void learn(const Poly &p, int rel) {
    if (p.t.size() > 2 || p.t.empty()) return;
    Mono m; mpq_class a, c = 0;
    if (p.t.size() == 1) { m = p.t[0].first; a = p.t[0].second; if (m == 0) return; }
    else { if (p.t[0].first != 0) return; c = p.t[0].second; m = p.t[1].first; a = p.t[1].second; }
    if (monos[m].v.size() != 1) return;
    int v = monos[m].v[0];
    mpq_class b = -c / a; // a*x + c REL 0
    bool flip = a < 0;
    double bl = dn(b.get_d()), bh = up(b.get_d());
    if (b.get_den() == 1 && abs(b) < mpq_class(1L << 53)) bl = bh = b.get_d();
    bool isI = vars[v].isInt;
    if (rel == 0) setVarBounds(v, bl, bh);
    else {
        bool le = (rel == 1 || rel == 2); bool strict = rel == 2 || rel == 4;
        if (flip) le = !le;
        if (le) setVarBounds(v, -INFINITY, (isI && strict && bl == bh) ? bh - 1 : bh);
        else setVarBounds(v, (isI && strict && bl == bh) ? bl + 1 : bl, INFINITY);
    }
}
// linear relations of the path condition, used to tighten intervals
static std::vector<std::pair<Poly, int>> linRels;
static void noteRel(const Poly &d, int rel) { if (d.t.size() >= 2 && d.t.size() <= 6 && d.linear() && linRels.size() < 400) linRels.push_back({d, rel}); }
static void tightenRels() {
    for (int round = 0; round < 4; ++round) {
        bool ch = false;
        for (auto &lr : linRels) {
            double s = 0; (void)s;
            for (auto &t : lr.first.t) {
                if (t.first == 0) continue;
                int v = monos[t.first].v[0]; if (vars[v].lo == vars[v].hi) continue;
                double rlo = 0, rhi = 0; // interval of the rest
                for (auto &u : lr.first.t) if (&u != &t) {
                    double c = u.second.get_d(), l = monos[u.first].lo, h = monos[u.first].hi, a = dn(std::min(c * l, c * h)), b = up(std::max(c * l, c * h));
                    if (u.first == 0) { a = dn(c); b = up(c); }
                    rlo = dn(rlo + a); rhi = up(rhi + b);
                }
                if (std::isnan(rlo) || std::isnan(rhi)) continue;
                double c = t.second.get_d(); int rel = lr.second;
                // c*x + rest REL 0
                double lo = -INFINITY, hi = INFINITY;
                if (rel == 0 || rel == 1 || rel == 2) { double q = -rlo / c; if (c > 0) hi = up(up(q)); else lo = dn(dn(q)); }
                if (rel == 0 || rel == 3 || rel == 4) { double q = -rhi / c; if (c > 0) lo = dn(dn(q)); else hi = up(up(q)); }
                if (vars[v].isInt) { if (std::isfinite(lo)) lo = std::ceil(lo - 1e-6); if (std::isfinite(hi)) hi = std::floor(hi + 1e-6); }
                double w = vars[v].hi - vars[v].lo, tol = vars[v].isInt ? 0.5 : w * 1e-3;
                if ((lo > vars[v].lo + tol || hi < vars[v].hi - tol) && std::max(lo, vars[v].lo) <= std::min(hi, vars[v].hi)) { setVarBounds(v, lo, hi); ch = true; }
            }
        }
        if (!ch) break;
    }
}
// a polynomial of integer variables only, scaled to integer coefficients, as a term of sort Int
static bool intTerm(const Poly &d, z3::expr &out) {
    if (d.isConst()) return false;
    mpz_class l = 1;
    for (auto &t : d.t) { for (auto v : monos[t.first].v) if (!vars[v].isInt) return false; mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den().get_mpz_t()); }
    z3::expr_vector sum(*Z);
    for (auto &t : d.t) {
        mpz_class c = t.second.get_num() * (l / t.second.get_den()); const auto &mv = monos[t.first].v; z3::expr k = Z->int_val(c.get_str().c_str());
        if (mv.empty()) { sum.push_back(k); continue; }
        std::vector<Z3_ast> a; z3::expr_vector f(*Z); if (c != 1) f.push_back(k); for (auto v : mv) f.push_back(varExpr[v]);
        if (f.size() == 1) { sum.push_back(f[0]); continue; }
        for (unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]);
        sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, a.size(), a.data())));
    }
    out = sum.size() == 1 ? sum[0] : z3::sum(sum); return true;
}
static z3::expr relExpr(const Poly &d, int rel) {
    z3::expr w(*Z);
    if (intTerm(d, w)) { usePoly(d); z3::expr z = Z->int_val(0); switch (rel) { case 0: return w == z; case 1: return w <= z; case 2: return w < z; case 3: return w >= z; default: return w > z; } }
    z3::expr e = pe(d), z = Z->real_val(0);
    switch (rel) { case 0: return e == z; case 1: return e <= z; case 2: return e < z; case 3: return e >= z; default: return e > z; }
}
static int negRel(int rel) { switch (rel) { case 1: return 4; case 2: return 3; case 3: return 2; case 4: return 1; } return -1; }
// -1 unknown, 0 false, 1 true by intervals
static int intervalRel(const Poly &d, int rel) {
    if (d.isConst()) {
        int s = sgn(d.constant());
        switch (rel) { case 0: return s == 0; case 1: return s <= 0; case 2: return s < 0; case 3: return s >= 0; default: return s > 0; }
    }
    double lo, hi; polyInterval(d, lo, hi);
    switch (rel) {
    case 0: if (lo > 0 || hi < 0) return 0; return -1;
    case 1: if (hi <= 0) return 1; if (lo > 0) return 0; return -1;
    case 2: if (hi < 0) return 1; if (lo >= 0) return 0; return -1;
    case 3: if (lo >= 0) return 1; if (hi < 0) return 0; return -1;
    default: if (lo > 0) return 1; if (hi <= 0) return 0; return -1;
    }
}
struct PendRel { Poly d; int rel; };
static std::unordered_map<unsigned, PendRel> boolRel; // z3 ast id -> relation (for learning)
static std::vector<z3::expr> boolKeep;

// branch on a boolean expression: returns the truth value of the taken side (forking if both are feasible)
static bool decide(const z3::expr &e, const Poly *d = nullptr, int rel = 0) {
    sh->branches++;
    z3::expr s = e.simplify();
    if (s.is_true()) return true;
    if (s.is_false()) return false;
    z3::check_result rt = query({e});
    bool ct = rt != z3::unsat, cf = true;
    if (ct) { z3::check_result rf = query({!e}); cf = rf != z3::unsat; }
    bool side;
    if (ct && cf && getenv("SYMEX_FORK")) fprintf(stderr, "FORK %s\n", s.to_string().substr(0, 200).c_str());
    if (ct && cf) side = forkPath();
    else side = ct;
    if (ct && cf) addPC(side ? e : !e); // implied otherwise
    if (d) { int r2 = side ? rel : negRel(rel); if (r2 >= 0) { learn(*d, r2); noteRel(*d, r2); } }
    return side;
}
static bool decideRel(const Poly &d, int rel) {
    int iv = intervalRel(d, rel);
    if (iv >= 0) { sh->intervalDec++; return iv; }
    return decide(relExpr(d, rel), &d, rel);
}

// ------------------------------------------------------------------ value construction
static SymP mkSym(SK k) { return SymP(new Sym(k)); }
static Val mkReal(Poly p, double lo, double hi, int bits) {
    Val v;
    if (p.isConst()) {
        mpq_class c = p.constant(); double d = c.get_d();
        if (bits == 32) { float f = float(d); uint32_t u; memcpy(&u, &f, 4); v.c = u; return v; }
        if (bits == 64) {
            // keep exactness when the constant is not a double
            if (d2q(d) == c) { memcpy(&v.c, &d, 8); return v; }
            memcpy(&v.c, &d, 8); return v; // nearest (as the hardware does)
        }
        long double l = d; mpq_class r = c - d2q(d); l += (long double)r.get_d(); memcpy(&v.c, &l, 8); memcpy(&v.h, (char *)&l + 8, 2); return v;
    }
    v.s = mkSym(S_REAL); v.s->p = std::move(p); v.s->lo = lo; v.s->hi = hi; v.s->width = bits;
    return v;
}
static Val mkRealP(Poly p, int bits) { double lo, hi; polyInterval(p, lo, hi); return mkReal(std::move(p), lo, hi, bits); }
static uint64_t maskb(int bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
static int64_t sx(uint64_t c, int bits) { if (bits >= 64) return int64_t(c); int sft = 64 - bits; return int64_t(c << sft) >> sft; }
static Val mkInt(Poly p, int bits) {
    Val v;
    if (p.isConst()) { mpz_class z = p.constant().get_num(); v.c = uint64_t(mpz_get_si(z.get_mpz_t())) & maskb(bits);
        if (!z.fits_slong_p()) { mpz_class m = z; mpz_class two64 = mpz_class(1) << 64; m = ((m % two64) + two64) % two64; v.c = mpz_class(m & mpz_class("18446744073709551615")).get_ui() & maskb(bits); }
        return v; }
    double lo, hi; polyInterval(p, lo, hi); lo = std::ceil(lo); hi = std::floor(hi);
    if (lo == hi && fabs(lo) < 9e15) { v.c = uint64_t(int64_t(lo)) & maskb(bits); return v; }
    v.s = mkSym(S_INT); v.s->p = std::move(p); v.s->lo = lo; v.s->hi = hi; v.s->width = bits;
    return v;
}
static Val mkBV(const z3::expr &e) {
    Val v; z3::expr s = e.simplify();
    unsigned w = s.get_sort().bv_size();
    if (s.is_numeral() && w <= 64) { v.c = strtoull(Z3_get_numeral_string(*Z, s), 0, 10); return v; }
    v.s = mkSym(S_BV); v.s->e = s; v.s->width = w; fBV = true; return v;
}
static Val mkBool(const z3::expr &e) {
    Val v; z3::expr s = e.simplify();
    if (s.is_true()) { v.c = 1; return v; }
    if (s.is_false()) { v.c = 0; return v; }
    v.s = mkSym(S_BOOL); v.s->e = s; v.s->width = 1; return v;
}
static Val mkBoolRel(const Poly &d, int rel) {
    int iv = intervalRel(d, rel);
    if (iv >= 0) { sh->intervalDec++; return Val(uint64_t(iv)); }
    Val v; v.s = mkSym(S_BOOL); v.s->e = relExpr(d, rel); v.s->width = 1;
    v.s->p = d; v.s->lo = rel; v.s->hi = 12345; // remember the relation
    return v;
}
static Val mkFPX(const z3::expr &e, int bits) { Val v; v.s = mkSym(S_FPX); v.s->e = e; v.s->width = bits; fFP = true; return v; }

static double asD(const Val &v) { double d; memcpy(&d, &v.c, 8); return d; }
static float asF(const Val &v) { float f; uint32_t u = uint32_t(v.c); memcpy(&f, &u, 4); return f; }
static long double asL(const Val &v) { long double l = 0; memcpy(&l, &v.c, 8); memcpy((char *)&l + 8, &v.h, 2); return l; }
static Val fromD(double d) { Val v; memcpy(&v.c, &d, 8); return v; }
static Val fromF(float f) { uint32_t u; memcpy(&u, &f, 4); Val v; v.c = u; return v; }
static Val fromL(long double l) { Val v; memcpy(&v.c, &l, 8); uint16_t h; memcpy(&h, (char *)&l + 8, 2); v.h = h; return v; }
static Val fromFP(long double l, char kind) { return kind == 'd' ? fromD(double(l)) : kind == 'f' ? fromF(float(l)) : fromL(l); }
static long double concFP(const Val &v, char kind) { return kind == 'd' ? (long double)asD(v) : kind == 'f' ? (long double)asF(v) : asL(v); }
static int fpbits(char kind) { return kind == 'd' ? 64 : kind == 'f' ? 32 : 80; }

static Poly realPoly(const Val &v, char kind, double &lo, double &hi) {
    if (!v.s) {
        long double x = concFP(v, kind);
        if (!std::isfinite(double(x))) unsupported("non-finite constant in real arithmetic");
        lo = hi = double(x);
        if (kind == 'x') { lo = dn(lo); hi = up(hi); }
        return Poly(kind == 'x' ? ld2q(x) : d2q(double(x)));
    }
    if (v.s->k != S_REAL) unsupported("mixed floating-point domains");
    lo = v.s->lo; hi = v.s->hi;
    return v.s->p;
}
static Poly intPoly(const Val &v, int bits) {
    if (!v.s) return Poly(mpq_class(mpz_class((long)sx(v.c, bits))));
    return v.s->p;
}

// ------------------------------------------------------------------ memory
static const uint64_t ABASE = 0x100000000000ull, ASIZE = 1ull << 37, SBASE = 0x300000000000ull;
static uint64_t bump = ABASE + 4096;
static std::unordered_map<uint64_t, std::pair<Val, uint32_t>> symMem;
static std::unordered_map<uint64_t, uint64_t> heap; // live heap blocks
static std::unordered_map<uint64_t, uint64_t> freedBlocks;
static uint64_t heapLive = 0;
static inline bool inArena(uint64_t a) { return a >= ABASE && a < ABASE + ASIZE; }
static inline uint8_t *shd(uint64_t a) { return (uint8_t *)(a - ABASE + SBASE); }

struct RaceCell { uint8_t w[4] = {0, 0, 0, 0}, r[4] = {0, 0, 0, 0}; uint8_t cw = 0, cr = 0; };
static std::unordered_map<uint64_t, RaceCell> raceLog;
static bool raceOn = false;
static void logAccess(uint64_t a, uint64_t n, bool wr) {
    if (!raceOn || !cur || !cur->team || !inArena(a)) return;
    int t = cur->tid & 3;
    if (a >= cur->stackBase && a < cur->stackEnd) {
        // own stack: still log (it may have been shared), cheap enough to skip reads
        // private stacks cannot be named by other threads unless leaked; skip
        return;
    }
    while (n > 0) {
        uint64_t g = a >> 3; unsigned off = a & 7; unsigned k = std::min<uint64_t>(8 - off, n);
        uint8_t m = uint8_t(((1u << k) - 1) << off);
        RaceCell &c = raceLog[g];
        for (int o = 0; o < 4; ++o) if (o != t) {
            uint8_t conf = (c.w[o] & m) | (wr ? (c.r[o] & m) : 0);
            if (conf) {
                if (cur->critical && (c.cw | c.cr) && ((c.cw >> o & 1) || (c.cr >> o & 1))) continue;
                sh->races++;
                violationEnd("race", "data race: two threads access the same memory without synchronisation (" +
                             std::string(wr ? "write" : "read") + " by thread " + std::to_string(t) + ", earlier access by thread " + std::to_string(o) + ")");
            }
        }
        if (wr) c.w[t] |= m; else c.r[t] |= m;
        if (cur->critical) { if (wr) c.cw |= 1 << t; else c.cr |= 1 << t; }
        a += k; n -= k;
    }
}
static uint64_t arenaAlloc(uint64_t size, uint8_t state, uint64_t align = 16) {
    uint64_t a = bump + 32;
    a = (a + align - 1) & ~(align - 1);
    uint64_t e = a + size;
    if (e + 64 > ABASE + ASIZE) return 0;
    bump = (e + 15) & ~15ull; bump += 32;
    memset(shd(a), state, size);
    return a;
}
static void dropSym(uint64_t a, uint64_t n) {
    uint8_t *s = shd(a);
    // any symbolic byte?
    bool any = false;
    for (uint64_t i = 0; i < n; ++i) if (s[i] >= 3 && s[i] <= 4) { any = true; break; }
    if (!any) return;
    // entry straddling the start
    if (s[0] == 4) {
        uint64_t b = a; while (*shd(b) == 4) --b;
        auto it = symMem.find(b);
        if (it != symMem.end()) { for (uint64_t i = 0; i < it->second.second; ++i) *shd(b + i) = 1; symMem.erase(it); }
    }
    for (uint64_t i = 0; i < n; ++i) if (s[i] == 3) {
        auto it = symMem.find(a + i);
        if (it != symMem.end()) { uint32_t sz = it->second.second; for (uint32_t k = 0; k < sz; ++k) s[i + k] = 1; symMem.erase(it); }
    }
}
static void memViolation(uint64_t a, uint64_t n, bool wr, const char *extra = "") {
    uint64_t bad = a;
    for (uint64_t i = 0; i < n; ++i) if (!inArena(a + i) || *shd(a + i) == 0 || *shd(a + i) == 5) { bad = a + i; break; }
    const char *k = inArena(bad) && *shd(bad) == 5 ? "use-after-free" : "out-of-bounds";
    char b[200]; snprintf(b, sizeof b, "%s %s of %lu bytes%s", k, wr ? "write" : "read", (unsigned long)n, extra);
    violationEnd(k, b);
}
static inline bool rangeOk(uint64_t a, uint64_t n) {
    uint8_t *s = shd(a);
    for (uint64_t i = 0; i < n; ++i) if (s[i] == 0 || s[i] == 5) return false;
    return true;
}
static std::unordered_map<uint64_t, bool> nativeOk;
static void checkRange(uint64_t a, uint64_t n, bool wr) {
    if (n == 0) return;
    if (inArena(a)) {
        if (!inArena(a + n - 1) || !rangeOk(a, n)) memViolation(a, n, wr);
        logAccess(a, n, wr);
    } else if (a < 65536 || (a >= SBASE && a < SBASE + ASIZE)) memViolation(a, n, wr, a < 65536 ? " through a null pointer" : "");
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) { // ranges already checked; handles overlap
    if (n == 0 || d == s) return;
    bool da = inArena(d), sa = inArena(s);
    std::vector<std::pair<uint64_t, std::pair<Val, uint32_t>>> mv;
    std::vector<uint8_t> st;
    if (sa) {
        st.assign(shd(s), shd(s) + n);
        for (uint64_t i = 0; i < n; ++i) if (st[i] == 3) {
            auto it = symMem.find(s + i);
            if (it != symMem.end() && i + it->second.second <= n) mv.push_back({i, it->second});
            else if (it != symMem.end()) { for (uint64_t k = i; k < n && k < i + it->second.second; ++k) st[k] = 1; }
        }
        for (uint64_t i = 0; i < n && st[i] == 4; ++i) st[i] = 1;
    }
    if (da) dropSym(d, n);
    memmove((void *)d, (void *)s, n);
    if (da) {
        if (sa) memcpy(shd(d), st.data(), n); else memset(shd(d), 2, n);
        for (auto &x : mv) {
            symMem[d + x.first] = x.second;
            *shd(d + x.first) = 3; for (uint32_t k = 1; k < x.second.second; ++k) *shd(d + x.first + k) = 4;
        }
    } else if (!mv.empty()) unsupported("symbolic data copied to native memory");
}
static void storeLane(uint64_t a, const Val &v, const LaneTy &t) {
    unsigned n = t.sz;
    if (inArena(a)) {
        uint8_t *s = shd(a);
        for (unsigned i = 0; i < n; ++i) {
            if (s[i] == 0 || s[i] == 5) memViolation(a, n, true);
        }
        if (raceOn) logAccess(a, n, true);
        bool any = false;
        for (unsigned i = 0; i < n; ++i) if (s[i] == 3 || s[i] == 4) any = true;
        if (any) dropSym(a, n);
        if (v.s) {
            unsigned m = n; if (t.kind == 'x') m = 10;
            if (v.s->k == S_BYTES) {
                uint64_t o = 0;
                for (auto &p : v.s->pieces) {
                    if (p.v.s) { symMem[a + o] = {p.v, p.size}; s[o] = 3; for (unsigned k = 1; k < p.size; ++k) s[o + k] = 4; }
                    else { memcpy((void *)(a + o), &p.v.c, p.size); memset(s + o, 2, p.size); }
                    o += p.size;
                }
                return;
            }
            symMem[a] = {v, m};
            s[0] = 3; for (unsigned i = 1; i < m; ++i) s[i] = 4;
            for (unsigned i = m; i < n; ++i) s[i] = 2;
            return;
        }
        memset(s, 2, n);
    } else {
        if (a < 65536 || (a >= SBASE && a < SBASE + ASIZE)) memViolation(a, n, true, a < 65536 ? " through a null pointer" : "");
        if (v.s) unsupported("symbolic store to native memory");
    }
    if (t.kind == 'x') { memcpy((void *)a, &v.c, 8); memcpy((void *)(a + 8), &v.h, 2); }
    else if (t.bits < 8 && t.kind == 'i') { uint8_t b = uint8_t(v.c & maskb(t.bits)); memcpy((void *)a, &b, 1); }
    else memcpy((void *)a, &v.c, n);
}
static Val freshUninit(const LaneTy &t) {
    sh->uninitLoads++;
    std::string nm = "uninit@" + locOf(curInst);
    if (t.kind == 'f' || t.kind == 'd' || t.kind == 'x') return mkRealP(polyVar(newVar(nm, -1e30, 1e30, false, 2)), fpbits(t.kind));
    if (t.kind == 'p') return Val(0xdeadbeef00ull);
    if (t.bits == 1) { Val v; v.s = mkSym(S_BOOL); v.s->e = Z->bool_const(("ub" + std::to_string(sh->uninitLoads.load())).c_str()); v.s->width = 1; return v; }
    int b = t.bits; double lo = -std::ldexp(1., b - 1), hi = std::ldexp(1., b - 1) - 1;
    if (b == 8) { lo = 0; hi = 255; }
    return mkInt(polyVar(newVar(nm, lo, hi, true, 2)), b);
}
static uint64_t concretize(const Val &v, int bits);
static bool uninitOnly(const Val &v) { // the remembered value of a wider load of uninitialised bytes
    if (!v.s || v.s->k != S_INT || v.s->p.t.empty()) return false;
    for (auto &t : v.s->p.t) { if (monos[t.first].v.empty()) return false; for (uint32_t x : monos[t.first].v) if (vars[x].name.compare(0, 7, "uninit@")) return false; }
    return true;
}
static Val loadLane(uint64_t a, const LaneTy &t) {
    unsigned n = t.sz; Val v;
    if (inArena(a)) {
        uint8_t *s = shd(a);
        bool sym = false, un = false;
        unsigned m = t.kind == 'x' ? 10 : n;
        for (unsigned i = 0; i < n; ++i) {
            if (s[i] == 0 || s[i] == 5) memViolation(a, n, false);
            if (i < m) { if (s[i] == 1) un = true; else if (s[i] >= 3) sym = true; }
        }
        if (raceOn) logAccess(a, n, false);
        if (un && !sym) {
            Val u = freshUninit(t);
            if (u.s) { // remember, so that a second read sees the same value
                dropSym(a, n); symMem[a] = {u, m}; s[0] = 3; for (unsigned i = 1; i < m; ++i) s[i] = 4;
            }
            return u;
        }
        if (sym) {
            auto it = symMem.find(a);
            if (it != symMem.end() && it->second.second == m && !un) {
                const Val &w = it->second.first;
                SK k = w.s->k;
                bool fpT = t.kind == 'f' || t.kind == 'd' || t.kind == 'x';
                if (fpT && (k == S_REAL || k == S_FPX)) return w;
                if (!fpT && (k == S_INT)) { // may have become constant
                    return mkInt(w.s->p, w.s->width == t.bits ? t.bits : t.bits);
                }
                if (!fpT && (k == S_BV || k == S_BOOL) && (w.s->width == t.bits || (k == S_BOOL && t.bits == 8))) return w;
                if (!fpT && k == S_BOOL && t.bits == 1) return w;
                if (!fpT && k == S_BV && w.s->width > t.bits) return mkBV(w.s->e.extract(t.bits - 1, 0));
                if (fpT && k == S_BV) { // bits of a float
                    z3::sort so = t.kind == 'd' ? Z->fpa_sort(11, 53) : Z->fpa_sort(8, 24);
                    return mkFPX(z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, w.s->e, so)), t.bits);
                }
                if (fpT && k == S_INT) { uint64_t c = concretize(w, w.s->width); return Val(c); }
                if (!fpT && k == S_FPX) { z3::expr bv(*Z, Z3_mk_fpa_to_ieee_bv(*Z, w.s->e)); return mkBV(bv); }
                if (!fpT && k == S_REAL) { v.s = mkSym(S_BYTES); v.s->width = t.bits; v.s->pieces.push_back({w, n}); return v; }
                unsupported("load with a different type than the symbolic store");
            }
            // assemble from pieces
            v.s = mkSym(S_BYTES); v.s->width = t.bits;
            unsigned i = 0; bool allBV = true;
            while (i < m) {
                if (s[i] == 3) {
                    auto jt = symMem.find(a + i);
                    if (jt == symMem.end() || i + jt->second.second > m) {
                        // wider symbolic value than the load: slice bit-vectors
                        if (jt != symMem.end() && i == 0 && jt->second.first.s->k == S_BV) return mkBV(jt->second.first.s->e.extract(t.bits - 1, 0));
                        if (jt != symMem.end() && jt->second.first.s->k == S_INT) {
                            if (uninitOnly(jt->second.first)) { uint64_t base = a + i; uint32_t sz = jt->second.second; dropSym(base, sz); memset(shd(base), 1, sz); return loadLane(a, t); }
                            Val w = jt->second.first; uint64_t cc = concretize(w, w.s->width); uint32_t sz = jt->second.second; uint64_t base = a + i;
                            dropSym(base, sz); memcpy((void *)base, &cc, sz); memset(shd(base), 2, sz);
                            return loadLane(a, t);
                        }
                        unsupported("partial load of a symbolic value");
                    }
                    v.s->pieces.push_back({jt->second.first, jt->second.second}); 
                    if (jt->second.first.s->k != S_BV) allBV = false;
                    i += jt->second.second;
                } else if (s[i] == 4) {
                    uint64_t b = a + i; while (*shd(b) == 4) --b;
                    auto jt = symMem.find(b);
                    if (jt != symMem.end() && jt->second.first.s->k == S_BV && b + jt->second.second >= a + m && i == 0) {
                        unsigned o = unsigned(a - b) * 8; return mkBV(jt->second.first.s->e.extract(o + t.bits - 1, o));
                    }
                    unsupported("load from the middle of a symbolic value");
                } else {
                    Val c; if (s[i] == 1 && t.kind == 'i') { c = mkBV(Z->bv_const(("ubyte" + std::to_string(sh->uninitLoads++)).c_str(), 8)); symMem[a + i] = {c, 1}; s[i] = 3; }
                    else if (s[i] == 1) { LaneTy bt{'i', 8, 0, 1}; c = freshUninit(bt); symMem[a + i] = {c, 1}; s[i] = 3; allBV = false; }
                    else memcpy(&c.c, (void *)(a + i), 1);
                    v.s->pieces.push_back({c, 1}); ++i;
                }
            }
            if (allBV && t.kind == 'i') {
                z3::expr acc(*Z); bool f = true;
                for (auto &p : v.s->pieces) {
                    z3::expr e = p.v.s ? p.v.s->e : Z->bv_val(uint64_t(p.v.c), p.size * 8);
                    acc = f ? e : z3::concat(e, acc); f = false;
                }
                return mkBV(acc);
            }
            return v;
        }
    } else if (a < 65536 || (a >= SBASE && a < SBASE + ASIZE)) memViolation(a, n, false, a < 65536 ? " through a null pointer" : "");
    if (t.kind == 'x') { memcpy(&v.c, (void *)a, 8); memcpy(&v.h, (void *)(a + 8), 2); }
    else memcpy(&v.c, (void *)a, n);
    if (t.kind == 'i' && t.bits < 64) v.c &= maskb(t.bits);
    return v;
}
static bool anySymbolic(uint64_t a, uint64_t n) {
    if (!inArena(a)) return false;
    uint8_t *s = shd(a);
    for (uint64_t i = 0; i < n; ++i) if (s[i] == 3 || s[i] == 4) return true;
    return false;
}
static void extent(uint64_t a, uint64_t &lo, uint64_t &hi) {
    lo = a; hi = a;
    while (lo > ABASE && *shd(lo - 1) != 0 && *shd(lo - 1) != 5) --lo;
    while (*shd(hi) != 0 && *shd(hi) != 5) ++hi;
}
static std::string cstr(uint64_t a) {
    std::string r;
    for (;; ++a) {
        if (inArena(a)) { uint8_t st = *shd(a); if (st == 0 || st == 5) memViolation(a, 1, false, " (string)"); if (st >= 3) unsupported("symbolic string"); }
        char c = *(char *)a; if (!c) break; r += c;
    }
    return r;
}
#include "ops.inc"
#include "interp.inc"
#include "lib.inc"
#include "main.inc"
