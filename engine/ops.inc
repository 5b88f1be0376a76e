// ------------------------------------------------------------------ operations
static bool bvReal = false;
struct BvReal { z3::expr e; bool sg; int v; };
static std::vector<BvReal> bvRealTab;
static bool roundMode = false;      // add rounding-error symbols to real operations
static bool checkOvf = false;       // report signed overflow (nsw)
static int roundCount = 0;

static z3::expr bvOf(const Val &v, int bits) {
    if (!v.s) return Z->bv_val(uint64_t(v.c & maskb(bits)), bits);
    if (v.s->k == S_BV) {
        if (v.s->width == bits) return v.s->e;
        if (v.s->width > bits) return v.s->e.extract(bits - 1, 0);
        return z3::zext(v.s->e, bits - v.s->width);
    }
    if (v.s->k == S_BOOL) { fBV = true; return z3::ite(v.s->e, Z->bv_val(1, bits), Z->bv_val(0, bits)); }
    if (v.s->k == S_INT) return Z->bv_val(concretize(v, bits), bits);
    if (v.s->k == S_BYTES) {
        z3::expr acc(*Z); bool f = true;
        for (auto &p : v.s->pieces) {
            z3::expr e(*Z);
            if (!p.v.s) e = Z->bv_val(uint64_t(p.v.c), p.size * 8);
            else if (p.v.s->k == S_BV) e = p.v.s->e;
            else if (p.v.s->k == S_INT) e = Z->bv_val(concretize(p.v, p.size * 8), p.size * 8);
            else if (p.v.s->k == S_FPX) e = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, p.v.s->e));
            else unsupported("integer operation on the bytes of a symbolic real");
            acc = f ? e : z3::concat(e, acc); f = false;
        }
        return acc;
    }
    if (v.s->k == S_FPX) return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v.s->e));
    unsupported("bit-vector view of a symbolic real");
}
static bool concretizeBool(const Val &v) {
    if (!v.s) return v.c & 1;
    if (v.s->k == S_BOOL) { if (v.s->hi == 12345) return decide(v.s->e, &v.s->p, int(v.s->lo)); return decide(v.s->e); }
    if (v.s->k == S_BV) return decide(bvOf(v, v.s->width).extract(0, 0) == Z->bv_val(1, 1));
    return concretize(v, 1) & 1;
}
static uint64_t concretize(const Val &v, int bits) {
    if (!v.s) return v.c;
    if (v.s->k == S_BOOL) return concretizeBool(v);
    if (v.s->k == S_REAL || v.s->k == S_FPX) unsupported("concretisation of a floating-point value");
    if (v.s->k == S_BYTES) {
        bool allc = true; uint64_t r = 0; int o = 0;
        for (auto &p : v.s->pieces) { if (p.v.s && (p.v.s->k == S_REAL || p.v.s->k == S_FPX)) allc = false; }
        if (!allc) unsupported("concretisation of the bytes of a symbolic float");
        for (auto &p : v.s->pieces) { r |= (concretize(p.v, p.size * 8) & maskb(p.size * 8)) << o; o += p.size * 8; }
        return r;
    }
    bool isInt = v.s->k == S_INT;
    if (isInt) { double lo, hi; polyInterval(v.s->p, lo, hi); lo = ceil(lo); hi = floor(hi); if (lo == hi && fabs(lo) < 9e15) return uint64_t(int64_t(lo)) & maskb(bits); }
    z3::expr x = isInt ? pe(v.s->p) : v.s->e;
    for (uint64_t n = 0;; ++n) {
        z3::check_result r = query({}, true);
        if (r == z3::unsat) endPath(n == 0 ? "infeasible" : "enum");
        if (r == z3::unknown) { endPath("unknown-enum", locOf(curInst)); }
        uint64_t val; z3::expr eq(*Z); Poly d; 
        if (isInt) {
            mpq_class q; if (!modelQ(*lastModel, x, q)) unsupported("model value");
            if (q.get_den() != 1) { // poly over ints always integral; guard
                unsupported("non-integral integer value"); }
            val = uint64_t(mpz_get_si(q.get_num().get_mpz_t())) & maskb(bits);
            d = polySub(v.s->p, Poly(q));
            eq = x == Z->real_val(q.get_str().c_str());
        } else {
            z3::expr m = lastModel->eval(x, true);
            val = strtoull(Z3_get_numeral_string(*Z, m), 0, 10);
            eq = x == Z->bv_val(uint64_t(val), x.get_sort().bv_size());
        }
        z3::check_result o = query({!eq});
        if (o == z3::unsat) { if (isInt) { learn(d, 0); noteRel(d, 0); tightenRels(); } return val; }
        if (n >= optConcLimit) endPath("concretise-limit", locOf(curInst));
        if (getenv("SYMEX_FORK")) fprintf(stderr, "CONC %s at %s\n", eq.to_string().substr(0, 200).c_str(), locOf(curInst).c_str());
        sh->concForks++;
        if (forkPath()) { addPC(eq); if (isInt) { learn(d, 0); noteRel(d, 0); tightenRels(); } return val; }
        addPC(!eq);
    }
}
uint64_t CallArgs::u(int i) { return concretize(arg(i), ty[first[i]].kind == 'p' ? 64 : ty[first[i]].bits); }

static uint64_t resolveAddr(const Val &a, uint64_t size, bool wr) {
    if (!a.s) return a.c;
    z3::check_result r = query({}, true);
    if (r == z3::unsat) endPath("infeasible");
    if (r == z3::unknown) endPath("unknown-address", locOf(curInst));
    uint64_t m0; bool isInt = a.s->k == S_INT;
    z3::expr x(*Z);
    if (isInt) {
        x = pe(a.s->p);
        r = query({}, true);
        mpq_class q; modelQ(*lastModel, x, q); m0 = uint64_t(mpz_get_si(q.get_num().get_mpz_t()));
    }
    else { x = bvOf(a, 64); z3::expr m = lastModel->eval(x, true); m0 = strtoull(Z3_get_numeral_string(*Z, m), 0, 10); }
    uint64_t lo, hi;
    if (!inArena(m0) || *shd(m0) == 0 || *shd(m0) == 5) {
        // maybe another value lies inside an object: report either way, the address can be invalid
        report(inArena(m0) && *shd(m0) == 5 ? "use-after-free" : "out-of-bounds", std::string("symbolic index reaches outside every object (") + (wr ? "write" : "read") + ")", curInst, true);
        endPath("violation", "oob");
    }
    extent(m0, lo, hi);
    z3::expr bad = isInt ? (x < Z->real_val(std::to_string(lo).c_str()) || x > Z->real_val(std::to_string(int64_t(hi) - int64_t(size)).c_str()))
                         : (z3::ult(x, Z->bv_val(lo, 64)) || z3::ugt(x, Z->bv_val(uint64_t(hi - size), 64)));
    r = query({bad}, true);
    sh->obligations++;
    if (r == z3::sat) {
        report("out-of-bounds", std::string("symbolic index reaches outside its object of ") + std::to_string(hi - lo) + " bytes (" + (wr ? "write" : "read") + ")", curInst, true);
        addPC(!bad);
        r = query({});
        if (r == z3::unsat) endPath("violation", "oob");
    } else if (r == z3::unknown) { sh->inconclusive++; logLine("U address " + locOf(curInst)); addPC(!bad); }
    else sh->discharged++;
    if (isInt && hi - lo > optBig) return 1; // caller must havoc: signalled below
    return concretize(a, 64);
}
// store through a symbolic index into a big object: the whole object becomes unknown
static bool bigObject(const Val &a) { return false; }

static Val rnd(Poly p, double lo, double hi, int bits) {
    if (!roundMode || p.isConst()) return mkReal(std::move(p), lo, hi, bits);
    double B = std::max(fabs(lo), fabs(hi));
    if (!std::isfinite(B)) return mkReal(std::move(p), lo, hi, bits);
    double u = bits == 32 ? std::ldexp(1., -24) : bits == 64 ? std::ldexp(1., -53) : std::ldexp(1., -64);
    double eb = up(B * u * (1 + 1e-9)) + 1e-300;
    int v = newVar("rnd" + std::to_string(roundCount++), -eb, eb, false, 1);
    return mkReal(polyAdd(p, polyVar(v)), dn(lo - eb), up(hi + eb), bits);
}
static void imulD(double al, double ah, double bl, double bh, double &lo, double &hi) {
    double c[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = INFINITY; hi = -INFINITY;
    for (double x : c) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); }
    lo = dn(lo); hi = up(hi);
}
static z3::expr fpxOf(const Val &v, char kind) {
    if (v.s) {
        if (v.s->k == S_FPX) return v.s->e;
        unsupported("mixed floating-point domains (ieee)");
    }
    if (kind == 'd') return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val(uint64_t(v.c), 64), Z->fpa_sort(11, 53))).simplify();
    if (kind == 'f') return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val(uint64_t(v.c & 0xffffffff), 32), Z->fpa_sort(8, 24))).simplify();
    unsupported("ieee long double");
}
static z3::expr RNE() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static Val fpxRes(const z3::expr &e0, int bits) {
    z3::expr e = e0.simplify();
    return mkFPX(e, bits);
}
static bool isPow2(const mpq_class &q) {
    mpz_class n = abs(q.get_num()), d = q.get_den();
    return mpz_popcount(n.get_mpz_t()) == 1 && mpz_popcount(d.get_mpz_t()) == 1;
}
static std::unordered_map<std::string, int> ufTab; // uninterpreted functions: name|poly -> var
static Val freshReal(const char *nm, double lo, double hi, int bits, int kind = 2) { int v = newVar(nm, lo, hi, false, kind); return mkReal(polyVar(v), lo, hi, bits); }

static Val fpBin(unsigned op, char kind, const Val &a, const Val &b) {
    int bits = fpbits(kind);
    if (!a.s && !b.s) {
        if (kind == 'd') { double x = asD(a), y = asD(b); switch (op) { case Instruction::FAdd: return fromD(x + y); case Instruction::FSub: return fromD(x - y); case Instruction::FMul: return fromD(x * y); case Instruction::FDiv: return fromD(x / y); case Instruction::FRem: return fromD(fmod(x, y)); } }
        if (kind == 'f') { float x = asF(a), y = asF(b); switch (op) { case Instruction::FAdd: return fromF(x + y); case Instruction::FSub: return fromF(x - y); case Instruction::FMul: return fromF(x * y); case Instruction::FDiv: return fromF(x / y); case Instruction::FRem: return fromF(fmodf(x, y)); } }
        long double x = asL(a), y = asL(b); switch (op) { case Instruction::FAdd: return fromL(x + y); case Instruction::FSub: return fromL(x - y); case Instruction::FMul: return fromL(x * y); case Instruction::FDiv: return fromL(x / y); case Instruction::FRem: return fromL(fmodl(x, y)); }
    }
    if ((a.s && a.s->k == S_FPX) || (b.s && b.s->k == S_FPX)) {
        z3::expr x = fpxOf(a, kind), y = fpxOf(b, kind);
        switch (op) {
        case Instruction::FAdd: return fpxRes(z3::expr(*Z, Z3_mk_fpa_add(*Z, RNE(), x, y)), bits);
        case Instruction::FSub: return fpxRes(z3::expr(*Z, Z3_mk_fpa_sub(*Z, RNE(), x, y)), bits);
        case Instruction::FMul: return fpxRes(z3::expr(*Z, Z3_mk_fpa_mul(*Z, RNE(), x, y)), bits);
        case Instruction::FDiv: return fpxRes(z3::expr(*Z, Z3_mk_fpa_div(*Z, RNE(), x, y)), bits);
        default: unsupported("ieee fmod");
        }
    }
    // non-finite concrete operand
    auto nf = [&](const Val &v) { return !v.s && !std::isfinite(double(concFP(v, kind))); };
    if (nf(a) || nf(b)) {
        double x = nf(a) ? double(concFP(a, kind)) : 0, y = nf(b) ? double(concFP(b, kind)) : 0;
        if (op == Instruction::FAdd && (!nf(a) || !nf(b))) return fromFP(nf(a) ? x : y, kind);
        if (op == Instruction::FSub && (!nf(a) || !nf(b))) return fromFP(nf(a) ? x : -y, kind);
        if (std::isnan(x) || std::isnan(y)) return fromFP(NAN, kind);
        if (op == Instruction::FDiv && nf(b)) return fromFP(0, kind);
        unsupported("non-finite operand");
    }
    double al, ah, bl, bh, lo, hi;
    Poly pa = realPoly(a, kind, al, ah), pb = realPoly(b, kind, bl, bh);
    switch (op) {
    case Instruction::FAdd: {
        if (!a.s && pa.t.empty()) return b; if (!b.s && pb.t.empty()) return a;
        lo = dn(al + bl); hi = up(ah + bh); return rnd(polyAdd(pa, pb), lo, hi, bits); }
    case Instruction::FSub: {
        if (!b.s && pb.t.empty()) return a;
        lo = dn(al - bh); hi = up(ah - bl); return rnd(polySub(pa, pb), lo, hi, bits); }
    case Instruction::FMul: {
        if (!a.s && pa.t.empty()) return fromFP(0, kind);
        if (!b.s && pb.t.empty()) return fromFP(0, kind);
        imulD(al, ah, bl, bh, lo, hi);
        if (a.s && b.s && polyEq(pa, pb) && lo < 0) lo = 0;
        Poly p = polyMul(pa, pb);
        if ((!a.s && isPow2(pa.constant())) || (!b.s && isPow2(pb.constant()))) return mkReal(std::move(p), lo, hi, bits);
        return rnd(std::move(p), lo, hi, bits); }
    case Instruction::FDiv: {
        if (!b.s) {
            if (pb.t.empty()) unsupported("symbolic value divided by zero");
            mpq_class c = 1 / pb.constant(); double cl = dn(c.get_d()), ch = up(c.get_d());
            imulD(al, ah, cl, ch, lo, hi);
            Poly p = polyScale(pa, c);
            if (isPow2(c)) return mkReal(std::move(p), lo, hi, bits);
            return rnd(std::move(p), lo, hi, bits);
        }
        if (decideRel(pb, 0)) { // divisor is zero
            if (!a.s && pa.t.empty()) return fromFP(NAN, kind);
            return fromFP(INFINITY, kind); // sign unknown, magnitude infinite
        }
        double qlo = -INFINITY, qhi = INFINITY;
        if (bl > 0 || bh < 0) { imulD(al, ah, 1 / bh, 1 / bl, qlo, qhi); if (bl > 0 && al >= 0) qlo = std::max(0., qlo); }
        // N/D = N * inv(D'), D' the divisor scaled so that its leading variable has coefficient 1
        mpq_class c1 = 1; uint32_t lead = ~0u;
        for (auto &t : pb.t) if (monos[t.first].v.size() == 1) {
            uint32_t x = monos[t.first].v[0]; int n = 0; for (auto &u : pb.t) for (auto y : monos[u.first].v) n += y == x;
            if (n == 1 && ((vars[x].kind != 3 && vars[x].kind != 4) || pb.t.size() == 1)) { lead = x; c1 = t.second; break; } }
        Poly pd = polyScale(pb, 1 / c1);
        std::string key = "inv#" + polyKey(pd); int q; auto it = ufTab.find(key);
        double c1d = c1.get_d(), dl = c1 > 0 ? bl / c1d : bh / c1d, dh = c1 > 0 ? bh / c1d : bl / c1d; dl = dn(dl); dh = up(dh);
        double ilo = -INFINITY, ihi = INFINITY;
        if (bl > 0 || bh < 0) { if (bl > 0 && c1 > 0 && dl <= 0) dl = DBL_MIN; ilo = dn(1 / dh); ihi = up(1 / dl); if (ilo > ihi) { ilo = -INFINITY; ihi = INFINITY; } }
        if (it != ufTab.end()) q = it->second;
        else {
            q = newVar("inv" + std::to_string(roundCount++), ilo, ihi, false, 2); ufTab[key] = q;
            addPC(pe(polySub(polyMul(polyVar(q), pd), Poly(mpq_class(1)))) == Z->real_val(0));
            if (lead != ~0u && vars[lead].kind == 3 && vars[lead].trigMate >= 0) vars[q].invSin = int(lead);
            if (lead != ~0u) { Poly rest = polySub(pd, polyVar(lead)); addRule(uint32_t(q), lead, polySub(Poly(mpq_class(1)), polyMul(polyVar(q), rest))); }
        }
        Poly pq = polyScale(polyMul(pa, polyVar(q)), 1 / c1);
        if (pq.isConst()) return mkReal(pq, qlo, qhi, bits);
        return rnd(pq, qlo, qhi, bits); }
    case Instruction::FRem: {
        if (b.s) unsupported("fmod by a symbolic value");
        mpq_class c = abs(pb.constant()); if (c == 0) return fromFP(NAN, kind);
        double cd = c.get_d();
        bool nonneg = decideRel(pa, 3);
        double klo = nonneg ? std::max(0., floor(al / cd)) : ceil(al / cd), khi = nonneg ? floor(ah / cd) : std::min(0., ceil(ah / cd));
        if (khi - klo <= 4) { // fix the quotient on this path
            mpq_class kk = d2q(klo);
            for (; kk < d2q(khi); kk += 1) if (nonneg ? decideRel(polySub(pa, Poly(c * (kk + 1))), 2) : decideRel(polySub(pa, Poly(c * kk)), 1)) break;
            Poly r = polySub(pa, Poly(c * kk)); if (r.isConst()) return fromFP(r.constant().get_d(), kind);
            double lo, hi; polyInterval(r, lo, hi); lo = std::max(lo, nonneg ? 0 : -cd); hi = std::min(hi, nonneg ? cd : 0); return mkReal(r, lo, hi, bits);
        }
        int k = newVar("fmodq" + std::to_string(roundCount++), klo, khi, true, 2);
        Poly r = polySub(pa, polyScale(polyVar(k), c));
        if (nonneg) { addPC(relExpr(r, 3)); addPC(relExpr(polySub(r, Poly(c)), 2)); noteRel(r, 3); noteRel(polySub(r, Poly(c)), 2); return mkReal(r, 0, cd, bits); }
        addPC(relExpr(r, 1)); addPC(relExpr(polyAdd(r, Poly(c)), 4)); noteRel(r, 1); noteRel(polyAdd(r, Poly(c)), 4); return mkReal(r, -cd, 0, bits); }
    }
    unsupported("fp op");
}
static Val fpNeg(char kind, const Val &a) {
    if (!a.s) { if (kind == 'd') return fromD(-asD(a)); if (kind == 'f') return fromF(-asF(a)); return fromL(-asL(a)); }
    if (a.s->k == S_FPX) return fpxRes(z3::expr(*Z, Z3_mk_fpa_neg(*Z, a.s->e)), a.s->width);
    return mkReal(polyScale(a.s->p, -1), -a.s->hi, -a.s->lo, fpbits(kind));
}
static Val fpAbs(char kind, const Val &a) {
    if (!a.s) { if (kind == 'd') return fromD(fabs(asD(a))); if (kind == 'f') return fromF(fabsf(asF(a))); return fromL(fabsl(asL(a))); }
    if (a.s->k == S_FPX) return fpxRes(z3::expr(*Z, Z3_mk_fpa_abs(*Z, a.s->e)), a.s->width);
    if (decideRel(a.s->p, 3)) return a;
    return fpNeg(kind, a);
}
static Val fcmpOp(unsigned pred, char kind, const Val &a, const Val &b) {
    if (!a.s && !b.s) {
        long double x = concFP(a, kind), y = concFP(b, kind);
        bool un = std::isnan(x) || std::isnan(y); bool r = false;
        switch (pred) {
        case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        }
        return Val(uint64_t(r));
    }
    if ((a.s && a.s->k == S_FPX) || (b.s && b.s->k == S_FPX)) {
        z3::expr x = fpxOf(a, kind), y = fpxOf(b, kind);
        z3::expr un = z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, y));
        auto mk = [&](Z3_ast t) { return z3::expr(*Z, t); };
        z3::expr r(*Z);
        switch (pred) {
        case CmpInst::FCMP_OEQ: r = mk(Z3_mk_fpa_eq(*Z, x, y)); break;
        case CmpInst::FCMP_UEQ: r = un || mk(Z3_mk_fpa_eq(*Z, x, y)); break;
        case CmpInst::FCMP_ONE: r = !un && !mk(Z3_mk_fpa_eq(*Z, x, y)); break;
        case CmpInst::FCMP_UNE: r = !mk(Z3_mk_fpa_eq(*Z, x, y)); break;
        case CmpInst::FCMP_OLT: r = mk(Z3_mk_fpa_lt(*Z, x, y)); break;
        case CmpInst::FCMP_ULT: r = !mk(Z3_mk_fpa_geq(*Z, x, y)); break;
        case CmpInst::FCMP_OLE: r = mk(Z3_mk_fpa_leq(*Z, x, y)); break;
        case CmpInst::FCMP_ULE: r = !mk(Z3_mk_fpa_gt(*Z, x, y)); break;
        case CmpInst::FCMP_OGT: r = mk(Z3_mk_fpa_gt(*Z, x, y)); break;
        case CmpInst::FCMP_UGT: r = !mk(Z3_mk_fpa_leq(*Z, x, y)); break;
        case CmpInst::FCMP_OGE: r = mk(Z3_mk_fpa_geq(*Z, x, y)); break;
        case CmpInst::FCMP_UGE: r = !mk(Z3_mk_fpa_lt(*Z, x, y)); break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        default: return Val(uint64_t(pred == CmpInst::FCMP_TRUE));
        }
        return mkBool(r);
    }
    if (pred == CmpInst::FCMP_FALSE) return Val(0); if (pred == CmpInst::FCMP_TRUE) return Val(1);
    bool unord = pred >= CmpInst::FCMP_UNO;
    auto nf = [&](const Val &v) { return !v.s && !std::isfinite(double(concFP(v, kind))); };
    if (nf(a) || nf(b)) {
        double x = nf(a) ? double(concFP(a, kind)) : 0, y = nf(b) ? double(concFP(b, kind)) : 0;
        return fcmpOp(pred, 'd', fromD(x), fromD(y));
    }
    if (pred == CmpInst::FCMP_ORD) return Val(1);
    if (pred == CmpInst::FCMP_UNO) return Val(0);
    (void)unord;
    double l1, h1, l2, h2;
    Poly d = polySub(realPoly(a, kind, l1, h1), realPoly(b, kind, l2, h2));
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkBoolRel(d, 0);
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: { Val v = mkBoolRel(d, 0); if (!v.s) { v.c ^= 1; return v; } return mkBool(!v.s->e); }
    // use the operands' own intervals as well
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: if (h1 < l2) return Val(1); if (l1 >= h2) return Val(0); return mkBoolRel(d, 2);
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: if (h1 <= l2) return Val(1); if (l1 > h2) return Val(0); return mkBoolRel(d, 1);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: if (l1 > h2) return Val(1); if (h1 <= l2) return Val(0); return mkBoolRel(d, 4);
    default: if (l1 >= h2) return Val(1); if (h1 < l2) return Val(0); return mkBoolRel(d, 3);
    }
}
static Val icmpOp(unsigned pred, int bits, Val a, Val b) {
    if (!a.s && !b.s) {
        uint64_t x = a.c & maskb(bits), y = b.c & maskb(bits); int64_t sxx = sx(x, bits), syy = sx(y, bits); bool r = false;
        switch (pred) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sxx > syy; break; case CmpInst::ICMP_SGE: r = sxx >= syy; break; case CmpInst::ICMP_SLT: r = sxx < syy; break; case CmpInst::ICMP_SLE: r = sxx <= syy; break;
        }
        return Val(uint64_t(r));
    }
    auto isK = [](const Val &v, SK k) { return v.s && v.s->k == k; };
    if (isK(a, S_BYTES) && a.s->pieces.size() == 1 && a.s->pieces[0].v.s && a.s->pieces[0].v.s->k == S_INT) a = a.s->pieces[0].v;
    if (bits == 1 || ((isK(a, S_BOOL) || isK(b, S_BOOL)) && !isK(a, S_BV) && !isK(b, S_BV))) {
        auto bo = [&](const Val &v) { return v.s ? (v.s->k == S_BOOL ? v.s->e : bvOf(v, bits) != Z->bv_val(0, bits)) : Z->bool_val((v.c & maskb(bits)) != 0); };
        if (bits > 1 && ((!a.s && a.c > 1) || (!b.s && b.c > 1))) { a.c = concretize(a, bits); b.c = concretize(b, bits); a.s = SymP(); b.s = SymP(); return icmpOp(pred, bits, a, b); }
        if (isK(a, S_INT) || isK(b, S_INT)) { Val x(concretize(a, bits)), y(concretize(b, bits)); return icmpOp(pred, bits, x, y); }
        if (pred == CmpInst::ICMP_EQ) return mkBool(bo(a) == bo(b));
        if (pred == CmpInst::ICMP_NE) return mkBool(bo(a) != bo(b));
        Val x(concretize(a, bits)), y(concretize(b, bits)); return icmpOp(pred, bits, x, y);
    }
    if (isK(a, S_BV) || isK(b, S_BV) || isK(a, S_BYTES) || isK(b, S_BYTES) || isK(a, S_FPX) || isK(b, S_FPX)) {
        z3::expr x = bvOf(a, bits), y = bvOf(b, bits);
        switch (pred) {
        case CmpInst::ICMP_EQ: return mkBool(x == y); case CmpInst::ICMP_NE: return mkBool(x != y);
        case CmpInst::ICMP_UGT: return mkBool(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return mkBool(z3::uge(x, y));
        case CmpInst::ICMP_ULT: return mkBool(z3::ult(x, y)); case CmpInst::ICMP_ULE: return mkBool(z3::ule(x, y));
        case CmpInst::ICMP_SGT: return mkBool(x > y); case CmpInst::ICMP_SGE: return mkBool(x >= y);
        case CmpInst::ICMP_SLT: return mkBool(x < y); case CmpInst::ICMP_SLE: return mkBool(x <= y);
        }
    }
    // mathematical integers
    if (isK(a, S_REAL) || isK(b, S_REAL)) unsupported("integer comparison of a symbolic real");
    Poly pa = intPoly(a, bits), pb = intPoly(b, bits);
    if (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE) {
        double l1, h1, l2, h2; polyInterval(pa, l1, h1); polyInterval(pb, l2, h2);
        bool bothNonneg = ceil(l1) >= 0 && ceil(l2) >= 0;
        if (!bothNonneg) {
            // split on signs
            bool an = ceil(l1) >= 0 ? false : decideRel(pa, 2);
            bool bn = ceil(l2) >= 0 ? false : decideRel(pb, 2);
            if (an != bn) { bool agt = an; // negative == huge unsigned
                return Val(uint64_t((pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE) ? agt : !agt)); }
        }
        pred = pred == CmpInst::ICMP_UGT ? CmpInst::ICMP_SGT : pred == CmpInst::ICMP_UGE ? CmpInst::ICMP_SGE : pred == CmpInst::ICMP_ULT ? CmpInst::ICMP_SLT : CmpInst::ICMP_SLE;
    }
    Poly d = polySub(pa, pb);
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkBoolRel(d, 0);
    case CmpInst::ICMP_NE: { Val v = mkBoolRel(d, 0); if (!v.s) { v.c ^= 1; return v; } return mkBool(!v.s->e); }
    case CmpInst::ICMP_SGT: return mkBoolRel(d, 4); case CmpInst::ICMP_SGE: return mkBoolRel(d, 3);
    case CmpInst::ICMP_SLT: return mkBoolRel(d, 2); default: return mkBoolRel(d, 1);
    }
}
static Val intRange(Poly p, int bits) { // bring a mathematical integer into the range of the type
    Val v = mkInt(p, bits);
    if (!v.s) return v;
    double L = -std::ldexp(1., bits - 1), H = std::ldexp(1., bits - 1) - 1;
    if (v.s->lo < L || v.s->hi > H) {
        // ask the solver whether it can leave the range
        z3::expr x = pe(v.s->p);
        z3::expr bad = x < Z->real_val(d2q(L).get_str().c_str()) || x > Z->real_val(mpz_class((mpz_class(1) << (bits - 1)) - 1).get_str().c_str()) ;
        z3::check_result r = query({bad}, true);
        if (r != z3::unsat) {
            if (checkOvf && r == z3::sat) { report("overflow", "signed integer overflow", curInst, true); addPC(!bad); if (query({}) == z3::unsat) endPath("violation", "overflow"); return v; }
            // an arbitrary (uninitialised or forgotten) value stays arbitrary
            for (auto &t : v.s->p.t) for (auto w : monos[t.first].v) if (vars[w].name.compare(0, 7, "uninit@") == 0) return mkInt(polyVar(newVar("uninit@wrap", L, H, true, 2)), bits);
            if (query({}, true) == z3::unsat) endPath("infeasible");
            endPath("int-range", locOf(curInst));
        }
    }
    return v;
}
static Val intBin(unsigned op, int bits, const Val &a, const Val &b, bool nsw = false) {
    uint64_t M = maskb(bits);
    if (!a.s && !b.s) {
        uint64_t x = a.c & M, y = b.c & M; int64_t sa = sx(x, bits), sb = sx(y, bits); uint64_t r = 0;
        switch (op) {
        case Instruction::Add: r = x + y; if (nsw && checkOvf) { __int128 t = (__int128)sa + sb; if (t != sx(uint64_t(t) & M, bits)) violationEnd("overflow", "signed integer overflow in addition"); } break;
        case Instruction::Sub: r = x - y; if (nsw && checkOvf) { __int128 t = (__int128)sa - sb; if (t != sx(uint64_t(t) & M, bits)) violationEnd("overflow", "signed integer overflow in subtraction"); } break;
        case Instruction::Mul: r = x * y; if (nsw && checkOvf) { __int128 t = (__int128)sa * sb; if (t != sx(uint64_t(t) & M, bits)) violationEnd("overflow", "signed integer overflow in multiplication"); } break;
        case Instruction::UDiv: if (!y) violationEnd("division", "integer division by zero"); r = x / y; break;
        case Instruction::URem: if (!y) violationEnd("division", "integer division by zero"); r = x % y; break;
        case Instruction::SDiv: if (!sb) violationEnd("division", "integer division by zero"); if (sb == -1) r = 0 - uint64_t(sa); else r = uint64_t(sa / sb); break;
        case Instruction::SRem: if (!sb) violationEnd("division", "integer division by zero"); r = sb == -1 ? 0 : uint64_t(sa % sb); break;
        case Instruction::Shl: r = y >= unsigned(bits) ? 0 : x << y; break;
        case Instruction::LShr: r = y >= unsigned(bits) ? 0 : x >> y; break;
        case Instruction::AShr: r = y >= unsigned(bits) ? uint64_t(sa < 0 ? -1 : 0) : uint64_t(sa >> y); break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
        }
        return Val(r & M);
    }
    auto isK = [](const Val &v, SK k) { return v.s && v.s->k == k; };
    if (bits == 1) {
        auto bo = [&](const Val &v) { return v.s ? (v.s->k == S_BOOL ? v.s->e : bvOf(v, 1) == Z->bv_val(1, 1)) : Z->bool_val((v.c & 1) != 0); };
        switch (op) {
        case Instruction::And: if ((!a.s && !(a.c & 1)) || (!b.s && !(b.c & 1))) return Val(0); if (!a.s) return b; if (!b.s) return a; return mkBool(bo(a) && bo(b));
        case Instruction::Or: if ((!a.s && (a.c & 1)) || (!b.s && (b.c & 1))) return Val(1); if (!a.s) return b; if (!b.s) return a; return mkBool(bo(a) || bo(b));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
            if (!b.s && (b.c & 1)) {
                if (a.s->k == S_BOOL && a.s->hi == 12345 && negRel(int(a.s->lo)) >= 0) { Val v = a; v.s = mkSym(S_BOOL); v.s->e = !a.s->e; v.s->p = a.s->p; v.s->lo = negRel(int(a.s->lo)); v.s->hi = 12345; v.s->width = 1; return v; }
                return mkBool(!bo(a)); }
            if (!b.s) return a;
            return mkBool(bo(a) != bo(b));
        default: break;
        }
        Val x(concretize(a, 1)), y(concretize(b, 1)); return intBin(op, bits, x, y);
    }
    if ((isK(a, S_BOOL) && !b.s) || (isK(b, S_BOOL) && !a.s) || (isK(a, S_BOOL) && isK(b, S_BOOL))) if (fReal || !fBV) {
        Val x(isK(a, S_BOOL) ? uint64_t(concretizeBool(a)) : a.c), y(isK(b, S_BOOL) ? uint64_t(concretizeBool(b)) : b.c); return intBin(op, bits, x, y, nsw); }
    // extraction from byte bags
    if ((bits == 64 || bits == 32) && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) { // sign manipulation of a floating-point value through its bits
        auto fpOf = [&](const Val &v) -> const Val * { if (!isK(v, S_BYTES) || v.s->pieces.size() != 1) return nullptr; const Val &w = v.s->pieces[0].v; return w.s && w.s->k == S_REAL && int(v.s->pieces[0].size) * 8 == bits ? &w : nullptr; };
        const Val *f = fpOf(a), *g = fpOf(b); const Val &o = f ? b : a; const Val &me = f ? a : b;
        if ((f || g) && !o.s) {
            const Val *r = f ? f : g; uint64_t c = o.c & M, sg = 1ull << (bits - 1); char kd = bits == 64 ? 'd' : 'f';
            auto wrap = [&](const Val &x) { if (!x.s) return x; Val v; v.s = mkSym(S_BYTES); v.s->width = uint16_t(bits); v.s->pieces.push_back({x, uint32_t(bits / 8)}); return v; };
            if (op == Instruction::And) { if (c == 0) return Val(0); if (c == M) return me; if (c == (M ^ sg)) return wrap(fpAbs(kd, *r)); if (c == sg) return Val(decideRel(r->s->p, 2) ? sg : 0); }
            if (op == Instruction::Or) { if (c == 0) return me; if (c == M) return Val(M); if (c == sg) return wrap(fpNeg(kd, fpAbs(kd, *r))); }
            if (op == Instruction::Xor) { if (c == 0) return me; if (c == sg) return wrap(fpNeg(kd, *r)); }
        }
    }
    if (isK(a, S_BYTES) && !b.s) {
        if (op == Instruction::LShr && b.c % 8 == 0) {
            uint64_t drop = b.c / 8, o = 0; Val v; v.s = mkSym(S_BYTES); v.s->width = bits; bool ok = true; uint64_t tot = 0;
            for (auto &p : a.s->pieces) { if (o >= drop) { v.s->pieces.push_back(p); tot += p.size; } else if (o + p.size > drop) ok = false; o += p.size; }
            if (ok) { for (uint64_t k = tot; k < unsigned(bits) / 8; ++k) v.s->pieces.push_back({Val(0), 1}); return v; }
        }
        if (op == Instruction::And && (b.c & M) == 0xffffffffull && bits == 64) {
            uint64_t o = 0; Val v; v.s = mkSym(S_BYTES); v.s->width = bits; bool ok = true;
            for (auto &p : a.s->pieces) { if (o + p.size <= 4) v.s->pieces.push_back(p); else if (o < 4) ok = false; o += p.size; }
            if (ok) { for (int k = 0; k < 4; ++k) v.s->pieces.push_back({Val(0), 1}); return v; }
        }
    }
    if ((op == Instruction::Or || op == Instruction::Shl) && (isK(a, S_BYTES) || isK(b, S_BYTES))) {
        // (zext hi << 32) | zext lo  -- rebuild
        if (op == Instruction::Shl && !b.s && b.c % 8 == 0) {
            Val v; v.s = mkSym(S_BYTES); v.s->width = bits; uint64_t tot = 0;
            for (uint64_t k = 0; k < b.c / 8; ++k) { v.s->pieces.push_back({Val(0), 1}); ++tot; }
            for (auto &p : a.s->pieces) { if (tot + p.size <= unsigned(bits) / 8) { v.s->pieces.push_back(p); tot += p.size; } }
            return v;
        }
        auto expand = [&](const Val &x, std::vector<std::pair<int, Piece>> &out) {
            int o = 0;
            if (!x.s) { for (int k = 0; k < bits / 8; ++k) out.push_back({k, {Val((x.c >> (8 * k)) & 255), 1}}); return true; }
            if (x.s->k != S_BYTES) return false;
            for (auto &p : x.s->pieces) { out.push_back({o, p}); o += p.size; } return true;
        };
        std::vector<std::pair<int, Piece>> A, B;
        if (op == Instruction::Or && expand(a, A) && expand(b, B)) {
            Val v; v.s = mkSym(S_BYTES); v.s->width = bits; int o = 0; bool ok = true;
            auto at = [&](std::vector<std::pair<int, Piece>> &L, int off) -> Piece * { for (auto &x : L) if (x.first == off) return &x.second; return nullptr; };
            while (o < bits / 8 && ok) {
                Piece *x = at(A, o), *y = at(B, o);
                if (x && x->v.s) { v.s->pieces.push_back(*x); o += x->size; }
                else if (y && y->v.s) { v.s->pieces.push_back(*y); o += y->size; }
                else if (x && y && x->size == 1 && y->size == 1) { v.s->pieces.push_back({Val(x->v.c | y->v.c), 1}); ++o; }
                else ok = false;
            }
            if (ok) return v;
        }
    }
    if (isK(a, S_INT) || isK(b, S_INT)) {
        if (isK(a, S_BV) || isK(b, S_BV) || isK(a, S_BOOL) || isK(b, S_BOOL) || isK(a, S_BYTES) || isK(b, S_BYTES)) {
            if (isK(a, S_BOOL)) return intBin(op, bits, Val(uint64_t(concretizeBool(a))), b, nsw);
            if (isK(b, S_BOOL)) return intBin(op, bits, a, Val(uint64_t(concretizeBool(b))), nsw);
            Val x = isK(a, S_INT) || isK(a, S_BOOL) ? Val(concretize(a, bits)) : a, y = isK(b, S_INT) || isK(b, S_BOOL) ? Val(concretize(b, bits)) : b;
            return intBin(op, bits, x, y, nsw);
        }
        Poly pa = intPoly(a, bits), pb = intPoly(b, bits);
        switch (op) {
        case Instruction::Add: return intRange(polyAdd(pa, pb), bits);
        case Instruction::Sub: return intRange(polySub(pa, pb), bits);
        case Instruction::Mul: return intRange(polyMul(pa, pb), bits);
        case Instruction::Shl: if (!b.s) return intRange(polyScale(pa, mpq_class(mpz_class(1) << (b.c & 63))), bits); break;
        case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem: case Instruction::AShr: case Instruction::LShr: case Instruction::And: {
            if (b.s) {
                double l1, h1, l2, h2; polyInterval(pa, l1, h1); polyInterval(pb, l2, h2);
                if (op == Instruction::And || op == Instruction::AShr || op == Instruction::LShr || ceil(l1) < 0 || ceil(l2) < 1) break;
                std::string key = "idiv|" + polyKey(pa) + "|" + polyKey(pb); auto it = ufTab.find(key); int q;
                if (it != ufTab.end()) q = it->second; else {
                    q = newVar("idiv" + std::to_string(roundCount++), 0, h1, true, 2); ufTab[key] = q;
                    Poly r = polySub(pa, polyMul(polyVar(q), pb)); addPC(relExpr(r, 3)); addPC(relExpr(polySub(r, pb), 2)); }
                if (op == Instruction::URem || op == Instruction::SRem) { Val v = mkInt(polySub(pa, polyMul(polyVar(q), pb)), bits); if (v.s) { v.s->lo = 0; v.s->hi = std::min(h1, h2 - 1); } return v; }
                return mkInt(polyVar(q), bits);
            }
            mpq_class c; bool rem = op == Instruction::SRem || op == Instruction::URem, floorDiv = op == Instruction::AShr;
            if (op == Instruction::And) { uint64_t m = b.c & M; if ((m & (m + 1)) != 0 || m == M) break; c = mpq_class(mpz_class((unsigned long)m)) + 1; rem = true; floorDiv = true; }
            else if (op == Instruction::AShr || op == Instruction::LShr) c = mpq_class(mpz_class(1) << (b.c & 63));
            else c = mpq_class(mpz_class((long)sx(b.c, bits)));
            if (c <= 0) break;
            bool neg = false;
            double lo, hi; polyInterval(pa, lo, hi);
            if (op != Instruction::And || true) if (ceil(lo) < 0 && !floorDiv) neg = decideRel(pa, 2);
            if (neg && (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::LShr)) break;
            double cd = c.get_d();
            std::string key = (neg ? "idivn|" : "idiv|") + polyKey(pa) + "|" + c.get_str(); auto it = ufTab.find(key); bool old = it != ufTab.end();
            int q = old ? it->second : newVar("idiv" + std::to_string(roundCount++), floor(lo / cd) - 1, ceil(hi / cd) + 1, true, 2);
            if (!old) ufTab[key] = q;
            Poly r = polySub(pa, polyScale(polyVar(q), c));
            if (old) {} else if (!neg) { addPC(relExpr(r, 3)); addPC(relExpr(polySub(r, Poly(c)), 2)); }
            else { addPC(relExpr(r, 1)); addPC(relExpr(polyAdd(r, Poly(c)), 4)); }
            if (rem) { Val v = mkInt(r, bits); if (v.s) { v.s->lo = neg ? 1 - cd : 0; v.s->hi = neg ? 0 : cd - 1; } return v; }
            return mkInt(polyVar(q), bits); }
        default: break;
        }
        Val x(concretize(a, bits)), y(concretize(b, bits)); return intBin(op, bits, x, y, nsw);
    }
    if (isK(a, S_REAL) || isK(b, S_REAL)) unsupported("integer operation on a symbolic real");
    z3::expr x = bvOf(a, bits), y = bvOf(b, bits);
    z3::expr zero = Z->bv_val(0, bits);
    if (nsw && checkOvf) {
        z3::expr ok(*Z);
        if (op == Instruction::Add) ok = z3::expr(*Z, Z3_mk_bvadd_no_overflow(*Z, x, y, true)) && z3::expr(*Z, Z3_mk_bvadd_no_underflow(*Z, x, y));
        else if (op == Instruction::Sub) ok = z3::expr(*Z, Z3_mk_bvsub_no_overflow(*Z, x, y)) && z3::expr(*Z, Z3_mk_bvsub_no_underflow(*Z, x, y, true));
        else if (op == Instruction::Mul) ok = z3::expr(*Z, Z3_mk_bvmul_no_overflow(*Z, x, y, true)) && z3::expr(*Z, Z3_mk_bvmul_no_underflow(*Z, x, y));
        else ok = Z->bool_val(true);
        ok = ok.simplify();
        if (!ok.is_true()) {
            sh->obligations++;
            z3::check_result r = query({!ok}, true);
            if (r == z3::sat) { report("overflow", "signed integer overflow", curInst, true); addPC(ok); if (query({}) == z3::unsat) endPath("violation", "overflow"); }
            else if (r == z3::unknown) { sh->inconclusive++; logLine("U overflow " + locOf(curInst)); addPC(ok); }
            else sh->discharged++;
        }
    }
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        z3::expr dz = (y == zero).simplify();
        if (!dz.is_false()) {
            z3::check_result r = query({dz}, true);
            if (r == z3::sat) { report("division", "integer division by zero", curInst, true); addPC(!dz); if (query({}) == z3::unsat) endPath("violation", "division"); }
            else if (r == z3::unknown) { sh->inconclusive++; addPC(!dz); }
        }
    }
    switch (op) {
    case Instruction::Add: return mkBV(x + y); case Instruction::Sub: return mkBV(x - y); case Instruction::Mul: return mkBV(x * y);
    case Instruction::UDiv: return mkBV(z3::udiv(x, y)); case Instruction::SDiv: return mkBV(x / y);
    case Instruction::URem: return mkBV(z3::urem(x, y)); case Instruction::SRem: return mkBV(z3::srem(x, y));
    case Instruction::Shl: return mkBV(z3::shl(x, y)); case Instruction::LShr: return mkBV(z3::lshr(x, y)); case Instruction::AShr: return mkBV(z3::ashr(x, y));
    case Instruction::And: return mkBV(x & y); case Instruction::Or: return mkBV(x | y); case Instruction::Xor: return mkBV(x ^ y);
    }
    unsupported("integer op");
}
static Val floorTo(const Val &a, int bits, int mode) { // REAL -> REAL integer-valued; mode 0 floor 1 ceil 2 trunc
    const Poly &p = a.s->p; double lo = a.s->lo, hi = a.s->hi;
    { double l2, h2; polyInterval(p, l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2); }
    { bool integral = true; for (auto &t : p.t) { if (t.second.get_den() != 1) integral = false; for (auto v : monos[t.first].v) if (!vars[v].isInt) integral = false; }
      if (integral) { Val v; v.s = mkSym(S_INT); v.s->p = p; v.s->lo = ceil(lo); v.s->hi = floor(hi); v.s->width = 64; return v; } }
    if (mode == 2) { if (lo >= 0) mode = 0; else if (hi <= 0) mode = 1; else mode = decideRel(p, 3) ? 0 : 1; 
        if (mode == 0) lo = std::max(lo, 0.); else hi = std::min(hi, 0.); }
    if (!std::isfinite(lo) || !std::isfinite(hi)) { if (!std::isfinite(lo)) lo = -1e18; if (!std::isfinite(hi)) hi = 1e18; }
    double kl = mode == 0 ? floor(lo) : ceil(lo), kh = mode == 0 ? floor(hi) : ceil(hi);
    if (kl == kh) { Val v; v.s = mkSym(S_INT); v.s->p = Poly(d2q(kl)); v.s->lo = v.s->hi = kl; v.s->width = 64; return v; }
    int k = newVar("int" + std::to_string(roundCount++), kl, kh, true, 2);
    Poly d = polySub(p, polyVar(k)); // 0 <= x-k < 1  or  -1 < x-k <= 0
    if (mode == 0) { addPC(relExpr(d, 3)); addPC(relExpr(polySub(d, Poly(1)), 2)); noteRel(d, 3); noteRel(polySub(d, Poly(1)), 2); }
    else { addPC(relExpr(d, 1)); addPC(relExpr(polyAdd(d, Poly(1)), 4)); noteRel(d, 1); noteRel(polyAdd(d, Poly(1)), 4); }
    Val v; v.s = mkSym(S_INT); v.s->p = polyVar(k); v.s->lo = kl; v.s->hi = kh; v.s->width = 64; return v;
}
static bool checkFpToInt = false;
static Val castOp(unsigned op, const LaneTy &from, const LaneTy &to, const Val &a) {
    switch (op) {
    case Instruction::Trunc:
        if (!a.s) return Val(a.c & maskb(to.bits));
        if (a.s->k == S_BV) { if (to.bits == 1) return mkBool(a.s->e.extract(0, 0) == Z->bv_val(1, 1)); return mkBV(a.s->e.extract(to.bits - 1, 0)); }
        if (a.s->k == S_BOOL) return a;
        if (a.s->k == S_BYTES) {
            uint64_t o = 0; Val v; v.s = mkSym(S_BYTES); v.s->width = to.bits; bool ok = true;
            for (auto &p : a.s->pieces) { if (o + p.size <= to.bits / 8u) v.s->pieces.push_back(p); else if (o < to.bits / 8u) ok = false; o += p.size; }
            if (!ok) unsupported("truncation of a symbolic byte bag");
            if (v.s->pieces.size() == 1 && v.s->pieces[0].v.s && v.s->pieces[0].v.s->k != S_REAL && v.s->pieces[0].v.s->k != S_FPX) return v.s->pieces[0].v;
            return v;
        }
        if (a.s->k == S_INT) {
            double L = -std::ldexp(1., to.bits - 1), H = std::ldexp(1., to.bits - 1) - 1, lo, hi; polyInterval(a.s->p, lo, hi);
            if (to.bits > 1 && ((ceil(lo) >= L && floor(hi) <= H) || (a.s->lo >= L && a.s->hi <= H))) { Val v = mkInt(a.s->p, to.bits); if (v.s) { v.s->lo = std::max(v.s->lo, a.s->lo); v.s->hi = std::min(v.s->hi, a.s->hi); } return v; }
            if (to.bits > 1) { z3::expr bad = relExpr(polySub(a.s->p, Poly(d2q(L))), 2) || relExpr(polySub(a.s->p, Poly(d2q(H))), 4); auto qr = query({bad}); if (qr == z3::unsat) return mkInt(a.s->p, to.bits); if (getenv("SYMEX_NEAR")) fprintf(stderr, "trunc %d at %s\n", int(qr), locOf(curInst).c_str()); }
            return Val(concretize(a, from.bits) & maskb(to.bits));
        }
        break;
    case Instruction::ZExt:
        if (!a.s) return Val(a.c & maskb(from.bits));
        if (a.s->k == S_BOOL) return a;
        if (a.s->k == S_BV) return mkBV(z3::zext(a.s->e, to.bits - from.bits));
        if (a.s->k == S_INT) { double lo, hi; polyInterval(a.s->p, lo, hi); if (ceil(lo) >= 0) return mkInt(a.s->p, to.bits);
            if (decideRel(a.s->p, 3)) return mkInt(a.s->p, to.bits);
            return mkInt(polyAdd(a.s->p, Poly(mpq_class(mpz_class(1) << from.bits))), to.bits); }
        if (a.s->k == S_BYTES) { Val v; v.s = mkSym(S_BYTES); v.s->pieces = a.s->pieces; v.s->width = to.bits; uint64_t o = 0; for (auto &p : a.s->pieces) o += p.size; for (; o < to.bits / 8u; ++o) v.s->pieces.push_back({Val(0), 1}); return v; }
        break;
    case Instruction::SExt:
        if (!a.s) return Val(uint64_t(sx(a.c, from.bits)) & maskb(to.bits));
        if (a.s->k == S_BOOL) return Val(concretizeBool(a) ? maskb(to.bits) : 0);
        if (a.s->k == S_BV) return mkBV(z3::sext(a.s->e, to.bits - from.bits));
        if (a.s->k == S_INT) return mkInt(a.s->p, to.bits);
        break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a;
    case Instruction::BitCast:
        if (!a.s) return a;
        if (from.kind == to.kind) return a;
        if (a.s->k == S_BYTES && a.s->pieces.size() == 1) return a.s->pieces[0].v;
        if (a.s->k == S_REAL) { Val v; v.s = mkSym(S_BYTES); v.s->width = to.bits; v.s->pieces.push_back({a, from.sz}); return v; }
        if (a.s->k == S_FPX) return mkBV(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, a.s->e)));
        if (a.s->k == S_BV) return mkFPX(z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, a.s->e, to.kind == 'd' ? Z->fpa_sort(11, 53) : Z->fpa_sort(8, 24))), to.bits);
        break;
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (!a.s) return fromFP(concFP(a, from.kind), to.kind);
        if (a.s->k == S_FPX) { z3::sort so = to.kind == 'd' ? Z->fpa_sort(11, 53) : Z->fpa_sort(8, 24); if (to.kind == 'x') unsupported("ieee long double"); return fpxRes(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, RNE(), a.s->e, so)), to.bits); }
        if (a.s->k == S_REAL) { if (op == Instruction::FPExt) return mkReal(a.s->p, a.s->lo, a.s->hi, fpbits(to.kind)); return rnd(a.s->p, a.s->lo, a.s->hi, fpbits(to.kind)); }
        break;
    case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = op == Instruction::SIToFP;
        if (!a.s) { if (sg) { int64_t x = sx(a.c, from.bits); return to.kind == 'd' ? fromD(double(x)) : to.kind == 'f' ? fromF(float(x)) : fromL((long double)x); }
            uint64_t x = a.c & maskb(from.bits); return to.kind == 'd' ? fromD(double(x)) : to.kind == 'f' ? fromF(float(x)) : fromL((long double)x); }
        if (a.s->k == S_BOOL) return castOp(op, from, to, Val(concretizeBool(a)));
        if (a.s->k == S_INT) { if (!sg) { double lo, hi; polyInterval(a.s->p, lo, hi); if (ceil(lo) < 0 && decideRel(a.s->p, 2)) return castOp(op, from, to, Val(concretize(a, from.bits))); }
            double lo, hi; polyInterval(a.s->p, lo, hi);
            double lim = to.kind == 'f' ? 16777216. : 9007199254740992.;
            if (roundMode && (lo < -lim || hi > lim)) return rnd(a.s->p, lo, hi, fpbits(to.kind));
            return mkReal(a.s->p, lo, hi, fpbits(to.kind)); }
        if (a.s->k == S_BV && bvReal) { // option "bvreal": a machine word becomes an unconstrained real number of its range (equal words, equal numbers)
            z3::expr x = bvOf(a, from.bits).simplify(); int v = -1;
            for (auto &w : bvRealTab) if (w.sg == sg && z3::eq(w.e, x)) v = w.v;
            if (v < 0) { v = newVar("word" + std::to_string(bvRealTab.size()), sg ? -std::ldexp(1., from.bits - 1) : 0., std::ldexp(1., from.bits - (sg ? 1 : 0)) - 1, false, 2); bvRealTab.push_back({x, sg, v}); }
            return mkReal(polyVar(v), vars[v].lo, vars[v].hi, fpbits(to.kind)); }
        if (a.s->k == S_BV) { z3::sort so = to.kind == 'd' ? Z->fpa_sort(11, 53) : Z->fpa_sort(8, 24); if (to.kind == 'x') unsupported("ieee long double");
            z3::expr x = bvOf(a, from.bits);
            return fpxRes(z3::expr(*Z, sg ? Z3_mk_fpa_to_fp_signed(*Z, RNE(), x, so) : Z3_mk_fpa_to_fp_unsigned(*Z, RNE(), x, so)), to.bits); }
        break; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = op == Instruction::FPToSI;
        if (!a.s) {
            long double x = concFP(a, from.kind); long double L = sg ? -ldexpl(1, to.bits - 1) : 0, H = sg ? ldexpl(1, to.bits - 1) : ldexpl(1, to.bits);
            long double tx = truncl(x);
            if (std::isnan(x) || tx < L || tx >= H) {
                if (checkFpToInt) violationEnd("fp-to-int", "floating-point value out of the range of the integer type");
                return Val(sg ? (1ull << (to.bits - 1)) : 0); // x86 'integer indefinite'
            }
            return Val((sg ? uint64_t(int64_t(x)) : uint64_t(x)) & maskb(to.bits));
        }
        if (a.s->k == S_REAL) {
            Val v = floorTo(a, 64, 2);
            Poly p = v.s->p;
            double L = sg ? -std::ldexp(1., to.bits - 1) : 0, H = sg ? std::ldexp(1., to.bits - 1) : std::ldexp(1., to.bits);
            double lo, hi; polyInterval(p, lo, hi);
            if (lo < L || hi >= H) {
                z3::expr x = pe(p); z3::expr bad = x < Z->real_val(d2q(L).get_str().c_str()) || x >= Z->real_val(d2q(H).get_str().c_str());
                z3::check_result r = query({bad}, true);
                if (r == z3::sat && checkFpToInt) report("fp-to-int", "floating-point value out of the range of the integer type", curInst, true);
                if (r != z3::unsat) { if (forkPath()) { addPC(bad); if (checkFpToInt) endPath("violation", "fp-to-int"); return Val(sg ? (1ull << (to.bits - 1)) : 0); } addPC(!bad); if (query({}) == z3::unsat) endPath("infeasible"); }
            }
            return mkInt(p, to.bits);
        }
        if (a.s->k == S_FPX) {
            z3::expr x = a.s->e;
            z3::expr rtz(*Z, Z3_mk_fpa_rtz(*Z));
            // range check
            z3::sort so = x.get_sort();
            double H = std::ldexp(1., sg ? to.bits - 1 : to.bits), L = sg ? -H : 0;
            auto num = [&](double d) { return z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, d, so)); };
            z3::expr t(*Z, Z3_mk_fpa_round_to_integral(*Z, rtz, x));
            z3::expr bad = !(z3::expr(*Z, Z3_mk_fpa_geq(*Z, t, num(L))) && z3::expr(*Z, Z3_mk_fpa_lt(*Z, t, num(H))));
            z3::check_result r = query({bad}, true);
            if (r == z3::sat && checkFpToInt) report("fp-to-int", "floating-point value out of the range of the integer type", curInst, true);
            if (r != z3::unsat) { if (forkPath()) { addPC(bad); if (checkFpToInt) endPath("violation", "fp-to-int"); return Val(sg ? (1ull << (to.bits - 1)) : 0); } addPC(!bad); if (query({}) == z3::unsat) endPath("infeasible"); }
            return mkBV(z3::expr(*Z, sg ? Z3_mk_fpa_to_sbv(*Z, rtz, x, to.bits) : Z3_mk_fpa_to_ubv(*Z, rtz, x, to.bits)));
        }
        break; }
    }
    unsupported(std::string("cast ") + Instruction::getOpcodeName(op));
}
// ------------------------------------------------------------------ elementary functions
struct TrigPair { int s, c; };
static std::unordered_map<std::string, TrigPair> trigTab;
static std::unordered_map<int, bool> angleVar; // declared angle variables
static std::unordered_map<std::string, std::pair<Poly, Poly>> trigPoly; // sine and cosine known as polynomials (results of atan2)
static TrigPair pairOf(const Poly &Q) {
    std::string k = polyKey(Q);
    auto it = trigTab.find(k); if (it != trigTab.end()) return it->second;
    TrigPair t;
    double lo, hi; polyInterval(Q, lo, hi);
    double slo = -1, shi = 1, clo = -1, chi = 1;
    auto range = [&](double shift, double &l, double &h) { // bounds of sin(x + shift)
        if (!(hi - lo < 6.2) || fabs(lo) > 100) return;
        double x = lo + shift, y = hi + shift; double a = sin(x), b = sin(y); l = std::min(a, b) - 1e-15; h = std::max(a, b) + 1e-15;
        auto has = [&](double at) { return floor((y - at) / (2 * M_PI) + 1e-13) >= ceil((x - at) / (2 * M_PI) - 1e-13); };
        if (has(M_PI_2)) h = 1; if (has(-M_PI_2)) l = -1;
        l = std::max(l, -1.); h = std::min(h, 1.);
    };
    range(0, slo, shi); range(M_PI_2, clo, chi);
    if (lo >= 0 && hi <= M_PI) slo = std::max(slo, 0.); if (hi <= 0 && lo >= -M_PI) shi = std::min(shi, 0.); if (lo >= -M_PI_2 && hi <= M_PI_2) clo = std::max(clo, 0.);
    std::string nm = polyStr(Q);
    t.s = newVar("sin(" + nm + ")", slo, shi, false, 3); t.c = newVar("cos(" + nm + ")", clo, chi, false, 4);
    vars[t.s].trigMate = t.c; vars[t.c].trigMate = t.s;
    if (Q.t.size() == 1 && monos[Q.t[0].first].v.size() == 1 && Q.t[0].second == 1) { vars[t.s].sinOf = vars[t.c].sinOf = monos[Q.t[0].first].v[0]; }
    trigTab[k] = t; return t;
}
static void trig(const Poly &P, Poly &S, Poly &C) {
    mpq_class c0 = P.constant(); Poly Q = P; if (!Q.t.empty() && Q.t[0].first == 0) Q.t.erase(Q.t.begin());
    // normalise: integer multiple of an angle variable?
    int mult = 1; bool neg = false; Poly B = Q;
    if (Q.t.size() == 1 && monos[Q.t[0].first].v.size() == 1) {
        mpq_class a = Q.t[0].second;
        if (a.get_den() == 1 && abs(a) <= 64) { mult = int(a.get_num().get_si()); neg = mult < 0; mult = abs(mult); B = polyScale(Q, 1 / a); }
        else if (a < 0) { neg = true; B = polyScale(Q, -1); }
    } else if (!Q.t.empty() && Q.t[0].second < 0) { neg = true; B = polyScale(Q, -1); }
    Poly s1, c1; auto tp = trigPoly.find(polyKey(B));
    if (tp != trigPoly.end()) { s1 = tp->second.first; c1 = tp->second.second; }
    else { TrigPair t = pairOf(B); s1 = polyVar(t.s); c1 = polyVar(t.c); }
    Poly s = s1, c = c1;
    for (int i = 1; i < mult; ++i) { Poly ns = polyAdd(polyMul(s, c1), polyMul(c, s1)), nc = polySub(polyMul(c, c1), polyMul(s, s1)); s = ns; c = nc; }
    if (neg) s = polyScale(s, -1);
    if (c0 != 0) {
        double d = c0.get_d(); double rest = mpq_class(c0 - d2q(d)).get_d();
        long double a = (long double)d + rest; // exact enough: c0 is normally a double
        mpq_class sc = ld2q(sinl(a)), cc = ld2q(cosl(a)); if (fabsl(sinl(a)) < 1e-14L) { sc = 0; cc = cosl(a) > 0 ? 1 : -1; } else if (fabsl(cosl(a)) < 1e-14L) { cc = 0; sc = sinl(a) > 0 ? 1 : -1; }
        Poly ns = polyAdd(polyScale(s, cc), polyScale(c, sc)), nc = polySub(polyScale(c, cc), polyScale(s, sc)); s = ns; c = nc;
    }
    S = s; C = c;
}
static Val ufun(const std::string &nm, const Poly &p, double lo, double hi, int bits) {
    std::string k = nm + "|" + polyKey(p);
    auto it = ufTab.find(k);
    int v;
    if (it != ufTab.end()) v = it->second; else { v = newVar(nm + "(" + polyStr(p) + ")", lo, hi, false, 2); ufTab[k] = v; }
    return mkReal(polyVar(v), lo, hi, bits);
}
static bool concMath1(const std::string &n, long double x, char k, Val &r) {
#define M1(nm, fd, ff, fl) if (n == nm) { r = k == 'd' ? fromD(fd(double(x))) : k == 'f' ? fromF(ff(float(x))) : fromL(fl(x)); return true; }
    M1("sin", ::sin, ::sinf, ::sinl) M1("cos", ::cos, ::cosf, ::cosl) M1("tan", ::tan, ::tanf, ::tanl) M1("exp", ::exp, ::expf, ::expl) M1("log", ::log, ::logf, ::logl)
    M1("sqrt", ::sqrt, ::sqrtf, ::sqrtl) M1("fabs", ::fabs, ::fabsf, ::fabsl) M1("floor", ::floor, ::floorf, ::floorl) M1("ceil", ::ceil, ::ceilf, ::ceill)
    M1("trunc", ::trunc, ::truncf, ::truncl) M1("round", ::round, ::roundf, ::roundl) M1("rint", ::rint, ::rintf, ::rintl) M1("nearbyint", ::nearbyint, ::nearbyintf, ::nearbyintl)
    M1("asin", ::asin, ::asinf, ::asinl) M1("acos", ::acos, ::acosf, ::acosl) M1("atan", ::atan, ::atanf, ::atanl) M1("log10", ::log10, ::log10f, ::log10l) M1("log2", ::log2, ::log2f, ::log2l)
    M1("exp2", ::exp2, ::exp2f, ::exp2l) M1("cbrt", ::cbrt, ::cbrtf, ::cbrtl) M1("sinh", ::sinh, ::sinhf, ::sinhl) M1("cosh", ::cosh, ::coshf, ::coshl) M1("tanh", ::tanh, ::tanhf, ::tanhl) M1("expm1", ::expm1, ::expm1f, ::expm1l) M1("log1p", ::log1p, ::log1pf, ::log1pl)
#undef M1
    return false;
}
struct ExpUnit { Poly p; int v, inv; };
static std::vector<ExpUnit> expUnits;
static std::unordered_map<int, Poly> logBase; // what a logarithm variable is the logarithm of
// p = R^2 up to rounding of the coefficients, R a constant or a multiple of one variable
static bool perfectSquare(const Poly &p, Poly &R) {
    double big = 0; for (auto &t : p.t) big = std::max(big, fabs(t.second.get_d()));
    Poly q; for (auto &t : p.t) { const MonoInfo &m = monos[t.first]; double b = fabs(t.second.get_d()) * std::max(fabs(m.lo), fabs(m.hi)); if (!(b <= 4e-15 * big)) q.t.push_back(t); }
    auto root = [](const mpq_class &c) { return ld2q(sqrtl((long double)c.get_d() + (long double)mpq_class(c - d2q(c.get_d())).get_d())); };
    if (q.t.empty()) return false;
    if (q.t.size() == 1) { auto &t = q.t[0]; if (t.second < 0) return false; const auto &mv = monos[t.first].v; if (mv.empty()) { R = Poly(root(t.second)); return true; } if (mv.size() == 2 && mv[0] == mv[1]) { R = polyScale(polyVar(int(mv[0])), root(t.second)); return true; } return false; }
    if (q.t.size() == 2 && q.t[0].first == 0) { // A - A cos^2
        auto &t = q.t[1]; const auto &mv = monos[t.first].v; if (mv.size() != 2 || mv[0] != mv[1] || vars[mv[0]].kind != 4 || vars[mv[0]].trigMate < 0) return false;
        mpq_class A = q.t[0].second; if (A <= 0 || fabs(mpq_class(A + t.second).get_d()) > 4e-15 * A.get_d()) return false;
        R = polyScale(polyVar(vars[mv[0]].trigMate), root(A)); return true; }
    return false;
}
static Val symMath1(const std::string &n, const Val &a, char k) {
    int bits = fpbits(k);
    if (a.s->k == S_FPX) {
        if (n == "sqrt") return fpxRes(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, RNE(), a.s->e)), bits);
        if (n == "fabs") return fpAbs(k, a);
        auto rti = [&](Z3_ast rm) { return fpxRes(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, rm, a.s->e)), bits); };
        if (n == "floor") return rti(Z3_mk_fpa_rtn(*Z)); if (n == "ceil") return rti(Z3_mk_fpa_rtp(*Z)); if (n == "trunc") return rti(Z3_mk_fpa_rtz(*Z)); if (n == "rint" || n == "nearbyint") return rti(Z3_mk_fpa_rne(*Z)); if (n == "round") return rti(Z3_mk_fpa_rna(*Z));
        unsupported("ieee " + n);
    }
    if (a.s->k != S_REAL) unsupported("math function of a non-real");
    const Poly &p = a.s->p;
    if (n == "sin" || n == "cos") { Poly S, C; trig(p, S, C); Poly r = n == "sin" ? S : C; double lo, hi; polyInterval(r, lo, hi); lo = std::max(lo, -1.); hi = std::min(hi, 1.); return rnd(r, lo, hi, bits); }
    if (n == "fabs") return fpAbs(k, a);
    if (n == "sqrt") {
        for (auto &t : p.t) for (auto w : monos[t.first].v) if (vars[w].name.compare(0, 7, "uninit@") == 0) return mkRealP(polyVar(newVar("uninit@sqrt", 0, 1e30, false, 2)), bits);
        if (!decideRel(p, 3)) return fromFP(NAN, k);
        { Poly R; if (perfectSquare(p, R)) { if (R.isConst()) return fromFP(R.constant().get_d(), k); if (!decideRel(R, 3)) R = polyScale(R, -1); double l2, h2; polyInterval(R, l2, h2); return rnd(R, std::max(0., l2), h2, bits); } }
        double lo = std::max(0., a.s->lo), hi = a.s->hi;
        std::string key = "sqrt|" + polyKey(p); auto it = ufTab.find(key); int v;
        if (it != ufTab.end()) v = it->second;
        else { v = newVar("sqrt(" + polyStr(p, 4) + ")", std::max(0., dn(sqrt(lo))), up(sqrt(hi)), false, 2); ufTab[key] = v;
            addPC(pe(polySub(polyMul(polyVar(v), polyVar(v)), p)) == Z->real_val(0)); addPC(varExpr[v] >= 0); addRule(uint32_t(v), uint32_t(v), p); }
        return rnd(polyVar(v), vars[v].lo, vars[v].hi, bits);
    }
    if (n == "floor" || n == "ceil" || n == "trunc") { Val v = floorTo(a, bits, n == "floor" ? 0 : n == "ceil" ? 1 : 2); double lo, hi; polyInterval(v.s->p, lo, hi); return mkReal(v.s->p, lo, hi, bits); }
    if (n == "round" || n == "rint" || n == "nearbyint" || n == "roundeven") {
        bool even = n != "round"; double l2, h2; polyInterval(p, l2, h2);
        bool pos = even || decideRel(p, 3); Poly half(mpq_class(1, 2));
        Val x = mkReal(pos ? polyAdd(p, half) : polySub(p, half), (pos ? a.s->lo + 0.5 : a.s->lo - 0.5) - 1e-9, (pos ? a.s->hi + 0.5 : a.s->hi - 0.5) + 1e-9, bits);
        Val v = floorTo(x, bits, pos ? 0 : 1); double lo, hi; polyInterval(v.s->p, lo, hi);
        if (even && decideRel(polySub(x.s->p, v.s->p), 0)) { // a tie: the even neighbour
            int m = newVar("tie" + std::to_string(roundCount++), std::floor(lo / 2), std::ceil(hi / 2), true, 2); Poly r = polyScale(polyVar(m), 2), d = polySub(r, p);
            addPC(pe(d) == Z->real_val(1, 2) || pe(d) == Z->real_val(-1, 2)); return mkReal(r, lo - 1, hi, bits); }
        return mkReal(v.s->p, lo, hi, bits); }
    if (n == "log") {
        if (!decideRel(p, 4)) return fromFP(a.s->hi <= 0 ? -INFINITY : NAN, k);
        double lo = a.s->lo > 0 ? dn(log(a.s->lo)) : -1e4, hi = up(log(std::max(a.s->hi, 1e-300)));
        Val v = ufun("log", p, lo, hi, bits);
        int lv = monos[v.s->p.t[0].first].v[0]; vars[lv].kind = 5;
        if (bvReal && !logBase.count(lv)) { addPC(z3::implies(pe(p) < Z->real_val(1), varExpr[lv] < Z->real_val(0))); addPC(z3::implies(pe(p) > Z->real_val(1), varExpr[lv] > Z->real_val(0))); addPC(z3::implies(pe(p) == Z->real_val(1), varExpr[lv] == Z->real_val(0))); }
        logBase[lv] = p;
        return v;
    }
    if (n == "exp") {
        // exp(c + sum n_i log x_i) = e^c prod x_i^n_i  for (nearly) integral n_i >= 0
        Poly r(1); mpq_class c = p.constant(); bool ok = true;
        for (auto &t : p.t) { if (t.first == 0) continue; const std::vector<uint32_t> mv = monos[t.first].v;
            if (mv.size() != 1 || vars[mv[0]].kind != 5) { ok = false; break; }
            double q = t.second.get_d(); double rq = std::round(q);
            if (fabs(q - rq) > 1e-13 || rq < 0 || rq > 64) { ok = false; break; }
            for (int i = 0; i < int(rq); ++i) r = polyMul(r, logBase[mv[0]]); }
        if (ok) { long double cl = c.get_d(); cl += (long double)mpq_class(c - d2q(c.get_d())).get_d(); r = polyScale(r, ld2q(expl(cl))); return mkRealP(r, bits); }
        // exp(n*u) for a small integer n and an exponent u seen before is a power of exp(u) (coefficients equal up to rounding)
        if (p.constant() == 0) for (auto &eu : expUnits) { const Poly &u = eu.p; if (u.t.size() != p.t.size()) continue; bool same = true; double q = mpq_class(p.t[0].second / u.t[0].second).get_d(), rq = std::round(q);
            if (fabs(rq) > 64 || rq == 0) continue;
            for (size_t i = 0; i < p.t.size() && same; ++i) same = p.t[i].first == u.t[i].first && fabs(mpq_class(p.t[i].second / u.t[i].second).get_d() - rq) <= 1e-12 * fabs(rq);
            if (!same) continue;
            if (rq < 0 && eu.inv < 0) { eu.inv = newVar("exp(-(" + polyStr(u) + "))", dn(1 / vars[eu.v].hi), vars[eu.v].lo > 0 ? up(1 / vars[eu.v].lo) : INFINITY, false, 2); addPC(pe(polyMul(polyVar(eu.v), polyVar(eu.inv))) == Z->real_val(1)); addRule(uint32_t(eu.v), uint32_t(eu.inv), Poly(mpq_class(1))); }
            Poly b = polyVar(rq < 0 ? eu.inv : eu.v), r2(mpq_class(1)); for (int i = 0; i < int(fabs(rq)); ++i) r2 = polyMul(r2, b); return mkRealP(r2, bits); }
        double ehi = up(exp(a.s->hi)), elo = dn(exp(a.s->lo)); Val v = ufun("exp", p, elo > 0 ? elo : 0, ehi, bits);
        if (p.constant() == 0) expUnits.push_back({p, int(monos[v.s->p.t[0].first].v[0]), -1});
        return v;
    }
    return ufun(n, p, -INFINITY, INFINITY, bits);
}
