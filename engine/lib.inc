// ------------------------------------------------------------------ library models
std::unordered_map<std::string, Handler> handlers;
static long failAllocAt = -1, allocCount = 0;
static std::vector<Ctx *> allCtx;

static bool streamName(const std::string &n) {
    return n.find("basic_ostream") != std::string::npos || n.find("basic_istream") != std::string::npos || n.find("basic_ios") != std::string::npos ||
        n.find("stringstream") != std::string::npos || n.find("streambuf") != std::string::npos || n.find("stringbuf") != std::string::npos || n.find("filebuf") != std::string::npos ||
        n.find("basic_ifstream") != std::string::npos || n.find("basic_ofstream") != std::string::npos || n.find("basic_fstream") != std::string::npos || n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 6, "_ZNKSo") == 0 || n.compare(0, 5, "_ZNSi") == 0 ||
        n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 6, "_ZStrs") == 0 || n.compare(0, 9, "_ZSt4endl") == 0 || n.compare(0, 10, "_ZSt5flush") == 0 || n.find("_Setw") != std::string::npos || n.find("_Setprecision") != std::string::npos;
}
static bool nativeAllowed(const std::string &n) {
    if (n.compare(0, 5, "_ZNSt") == 0 || n.compare(0, 6, "_ZNKSt") == 0 || n.compare(0, 4, "_ZSt") == 0 || n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 5, "_ZNSi") == 0 || n.compare(0, 6, "_ZNKSo") == 0 || n.compare(0, 5, "_ZNSs") == 0 || n.compare(0, 6, "_ZNKSs") == 0 || n.compare(0, 6, "_ZNSaI") == 0) return true;
    static const std::set<std::string> ok = {"tolower", "toupper", "islower", "isupper", "isdigit", "isspace", "isalpha", "isalnum", "getenv", "setenv", "unsetenv", "tzset", "mktime", "gmtime", "time", "clock",
        "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull", "snprintf", "sprintf", "strtol", "strtod", "strtoul", "strtoll", "strtoull", "strtof", "strtold", "atoi", "atof", "atol", "__dynamic_cast", "__cxa_throw_bad_array_new_length", "__cxa_bad_cast", "__cxa_bad_typeid", "strchr", "strrchr", "strstr", "gettimeofday", "getrusage", "__errno_location", "strerror", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"};
    return ok.count(n) > 0;
}
static CR throwNative(Ctx &c, CallArgs &ca, const char *sym) {
    CallArgs x; x.in = ca.in; x.ctx = &c; x.name = sym;
    return callNative(c, x, dlsym(RTLD_DEFAULT, sym), Type::getVoidTy(M->getContext()));
}
static uint64_t heapAlloc(uint64_t sz, uint64_t align = 16, uint8_t state = 1) {
    ++allocCount;
    if (failAllocAt >= 0 && --failAllocAt < 0) { return 0; }
    if (sz > optAllocLimit) return 0;
    uint64_t a = arenaAlloc(sz, state, align);
    if (a) { heap[a] = sz; heapLive += sz; }
    return a;
}
static void heapFree(uint64_t a, const char *what) {
    if (!a) return;
    if (!inArena(a)) { if (a < 65536) violationEnd("bad-free", "free of an invalid pointer"); inNative = true; free((void *)a); inNative = false; return; }
    auto it = heap.find(a);
    if (it == heap.end()) violationEnd(freedBlocks.count(a) ? "double-free" : "bad-free", std::string(what) + (freedBlocks.count(a) ? " of a block that was freed before" : " of a pointer that is not the start of a live heap block"));
    uint64_t sz = it->second; logAccess(a, sz, true);
    dropSym(a, sz); memset(shd(a), 5, sz); heapLive -= sz; freedBlocks[a] = sz; heap.erase(it);
}
// libstdc++ code called natively may free or allocate interpreted memory
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { uint64_t a = (uint64_t)p; if (inArena(a)) { auto it = heap.find(a); if (it != heap.end()) { heapLive -= it->second; memset(shd(a), 5, it->second); freedBlocks[a] = it->second; heap.erase(it); } } else free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static void retV(CallArgs &ca, const Val &v) { ca.ret.clear(); ca.ret.push_back(v); }
static LaneTy LT(char k) { LaneTy t; t.kind = k; t.off = 0; t.bits = uint16_t(fpbits(k)); t.sz = k == 'd' ? 8 : k == 'f' ? 4 : 16; return t; }
static LaneTy LI(int bits) { LaneTy t; t.kind = 'i'; t.off = 0; t.bits = uint16_t(bits); t.sz = uint8_t(bits / 8); return t; }

static CR mathCall(CallArgs &ca, const std::string &fn, char k) {
    Val &a = ca.arg(0);
    if (!a.s) { Val r; if (!concMath1(fn, concFP(a, k), k, r)) unsupported("math " + fn); retV(ca, r); }
    else retV(ca, symMath1(fn, a, k));
    return CR_DONE;
}
static Val powInt(const Val &b, int n, char k) { Val r = fromFP(1, k); for (int i = 0; i < n; ++i) r = fpBin(Instruction::FMul, k, r, b); return r; }
static CR math2(CallArgs &ca, const std::string &fn, char k) {
    Val a = ca.arg(0), b = ca.arg(1);
    if (!a.s && !b.s) {
        long double x = concFP(a, k), y = concFP(b, k);
#define M2(nm, f) if (fn == nm) { retV(ca, k == 'd' ? fromD(std::f(double(x), double(y))) : k == 'f' ? fromF(std::f(float(x), float(y))) : fromL(std::f(x, y))); return CR_DONE; }
        M2("pow", pow) M2("atan2", atan2) M2("fmod", fmod) M2("hypot", hypot) M2("fmin", fmin) M2("fmax", fmax) M2("copysign", copysign) M2("fdim", fdim) M2("remainder", remainder) M2("nextafter", nextafter)
#undef M2
        if (fn == "minnum") { retV(ca, fromFP(fminl(x, y), k)); return CR_DONE; }
        if (fn == "maxnum") { retV(ca, fromFP(fmaxl(x, y), k)); return CR_DONE; }
        unsupported("math " + fn);
    }
    if (fn == "copysign" && !b.s) { Val r = fpAbs(k, a); if (std::signbit(concFP(b, k))) r = fpBin(Instruction::FMul, k, r, fromFP(-1, k)); retV(ca, r); return CR_DONE; }
    if (fn == "copysign") { bool neg = concretizeBool(fcmpOp(CmpInst::FCMP_OLT, k, b, fromFP(0, k))); Val r = a.s ? fpAbs(k, a) : fromFP(fabsl(concFP(a, k)), k); if (neg) r = fpBin(Instruction::FMul, k, r, fromFP(-1, k)); retV(ca, r); return CR_DONE; }
    if (fn == "fdim") { retV(ca, concretizeBool(fcmpOp(CmpInst::FCMP_OGT, k, a, b)) ? fpBin(Instruction::FSub, k, a, b) : fromFP(0, k)); return CR_DONE; }
    if (fn == "hypot") { Val r = fpBin(Instruction::FAdd, k, fpBin(Instruction::FMul, k, a, a), fpBin(Instruction::FMul, k, b, b)); retV(ca, symMath1("sqrt", r, k)); return CR_DONE; }
    if (fn == "fmod") { retV(ca, fpBin(Instruction::FRem, k, a, b)); return CR_DONE; }
    if (fn == "fmin" || fn == "minnum") { retV(ca, concretizeBool(fcmpOp(CmpInst::FCMP_OLT, k, a, b)) ? a : b); return CR_DONE; }
    if (fn == "fmax" || fn == "maxnum") { retV(ca, concretizeBool(fcmpOp(CmpInst::FCMP_OGT, k, a, b)) ? a : b); return CR_DONE; }
    if (fn == "pow" && !b.s) {
        double e = double(concFP(b, k));
        if (e == std::floor(e) && fabs(e) <= 64) {
            Val r = powInt(a, int(fabs(e)), k); if (e < 0) r = fpBin(Instruction::FDiv, k, fromFP(1, k), r);
            retV(ca, r); return CR_DONE; }
        if (e == 0.5) { retV(ca, symMath1("sqrt", a, k)); return CR_DONE; }
    }
    if (fn == "atan2") {
        if ((a.s && a.s->k != S_REAL) || (b.s && b.s->k != S_REAL)) unsupported("ieee atan2");
        double l1, h1, l2, h2; Poly pa = realPoly(a, k, l1, h1), pb = realPoly(b, k, l2, h2);
        double lo = -M_PI, hi = M_PI; if (l1 >= 0) lo = 0; else if (h1 <= 0) hi = 0;
        std::string key = "atan2|" + polyKey(pa) + "|" + polyKey(pb); auto it = ufTab.find(key); int v;
        if (it != ufTab.end()) v = it->second; else {
            v = newVar("atan2#" + std::to_string(ufTab.size()), lo, hi, false, 2); ufTab[key] = v;
            Poly R; bool known = false; // sqrt(x^2 + y^2) known: sine and cosine are y / R and x / R
            if (!roundMode && perfectSquare(polyAdd(polyMul(pa, pa), polyMul(pb, pb)), R)) {
                if (R.isConst()) { if (R.constant() != 0) { trigPoly[polyKey(polyVar(v))] = {polyScale(pa, 1 / R.constant()), polyScale(pb, 1 / R.constant())}; known = true; } }
                else { uint32_t w = monos[R.t[0].first].v[0]; mpq_class c = 1 / R.t[0].second;
                    auto quot = [&](const Poly &x, Poly &o) { for (auto &t : x.t) { std::vector<uint32_t> mv = monos[t.first].v; auto f = std::find(mv.begin(), mv.end(), w); if (f == mv.end()) return false; mv.erase(f); Poly m; m.t.emplace_back(internMono(mv), t.second); o = polyAdd(o, m); } return true; };
                    Poly S, C; if (quot(pa, S) && quot(pb, C) && !decideRel(R, 0)) { if (decideRel(R, 2)) c = -c; trigPoly[polyKey(polyVar(v))] = {polyScale(S, c), polyScale(C, c)}; known = true; } }
            }
            if (known) { // the signs fix the quadrant
                Poly S, C; trig(polyVar(v), S, C); if (lo < 0) { if (decideRel(S, 3)) lo = 0; else hi = 0; } retV(ca, mkReal(polyVar(v), lo, hi, fpbits(k))); return CR_DONE; }
            // y = r sin v, x = r cos v, r >= 0
            int r = newVar("r" + std::to_string(ufTab.size()), 0, INFINITY, false, 2); Poly S, C; trig(polyVar(v), S, C);
            addPC(pe(polySub(polyMul(polyVar(r), S), pa)) == Z->real_val(0)); addPC(pe(polySub(polyMul(polyVar(r), C), pb)) == Z->real_val(0)); }
        retV(ca, mkReal(polyVar(v), lo, hi, fpbits(k))); return CR_DONE;
    }
    unsupported("symbolic " + fn);
}
static uint64_t resolveBuf(CallArgs &ca, int i, uint64_t n, bool wr) { Val &a = ca.arg(i); uint64_t x = a.s ? resolveAddr(a, n, wr) : a.c; if (x == 1 && a.s) unsupported("symbolic buffer address"); return x; }

// ---- MPI
static LaneTy mpiType(uint64_t h) {
    auto it = mpiHandle.find(h); if (it == mpiHandle.end()) violationEnd("mpi-type", "invalid MPI datatype handle");
    std::string n = it->second.substr(9);
    if (n == "double") return LT('d'); if (n == "float") return LT('f'); if (n == "long_double") return LT('x');
    if (n == "int" || n == "unsigned" || n == "unsigned_int" || n == "int32_t" || n == "uint32_t") return LI(32);
    if (n == "short" || n == "unsigned_short") return LI(16);
    if (n == "char" || n == "signed_char" || n == "unsigned_char" || n == "byte" || n == "c_bool" || n == "cxx_bool" || n == "int8_t" || n == "uint8_t") return LI(8);
    if (n.compare(0, 4, "long") == 0 || n.compare(0, 13, "unsigned_long") == 0 || n == "int64_t" || n == "uint64_t" || n == "aint" || n == "offset") return LI(64);
    unsupported("MPI datatype " + n);
}
static bool mpiUnsigned(uint64_t h) { return mpiHandle[h].find("unsigned") != std::string::npos || mpiHandle[h].find("uint") != std::string::npos; }
static Val mpiOp(const std::string &op, uint64_t dt, const Val &a, const Val &b) {
    LaneTy t = mpiType(dt); bool fp = t.kind != 'i';
    if (op == "sum") return fp ? fpBin(Instruction::FAdd, t.kind, a, b) : intBin(Instruction::Add, t.bits, a, b);
    if (op == "prod") return fp ? fpBin(Instruction::FMul, t.kind, a, b) : intBin(Instruction::Mul, t.bits, a, b);
    if (op == "min" || op == "max") {
        bool mn = op == "min"; Val c;
        if (fp) c = fcmpOp(mn ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, t.kind, b, a);
        else c = icmpOp(mpiUnsigned(dt) ? (mn ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT) : (mn ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT), t.bits, b, a);
        return concretizeBool(c) ? b : a; }
    if (op == "bor") return intBin(Instruction::Or, t.bits, a, b);
    if (op == "band") return intBin(Instruction::And, t.bits, a, b);
    if (op == "lor" || op == "land") { bool x = concretizeBool(icmpOp(CmpInst::ICMP_NE, t.bits, a, Val(0))), y = concretizeBool(icmpOp(CmpInst::ICMP_NE, t.bits, b, Val(0))); return Val(op == "lor" ? (x || y) : (x && y)); }
    unsupported("MPI operation " + op);
}
static std::string mpiOpName(uint64_t h) { auto it = mpiHandle.find(h); if (it == mpiHandle.end()) violationEnd("mpi-op", "invalid MPI operation handle"); return it->second.substr(12); }
// communicators: the predefined ones, and those made by MPI_Comm_dup / MPI_Comm_split
struct CommInfo { std::vector<int> group; bool freed = false; };
static std::unordered_map<uint64_t, CommInfo> comms; // made at run time
static std::vector<int> commGroup(uint64_t h, int rank) {
    if (!h) { std::vector<int> g; for (int r = 0; r < optRanks; ++r) g.push_back(r); return g; } // vp_barrier
    auto it = comms.find(h);
    if (it != comms.end()) { if (it->second.freed) violationEnd("mpi", "use of a communicator that was freed"); return it->second.group; }
    auto jt = mpiHandle.find(h); std::string n = jt == mpiHandle.end() ? std::string() : jt->second;
    if (n == "ompi_mpi_comm_world") { std::vector<int> g; for (int r = 0; r < optRanks; ++r) g.push_back(r); return g; }
    if (n == "ompi_mpi_comm_self") return {rank};
    violationEnd("mpi", n == "ompi_mpi_comm_null" ? "use of the null communicator" : "use of an invalid communicator handle");
}
static int commRank(uint64_t h, int rank) { auto g = commGroup(h, rank); for (size_t i = 0; i < g.size(); ++i) if (g[i] == rank) return int(i); violationEnd("mpi", "use of a communicator that the task is not part of"); }
struct Msg { int src, dst, tag; uint64_t comm; uint64_t addr, bytes; }; // src and dst: ranks in MPI_COMM_WORLD
static std::deque<Msg> msgs;
static CR postColl(Ctx &c, CallArgs &ca, const char *kind, int n, int commArg) {
    c.coll = CollReq(); c.coll.kind = kind; c.coll.inst = ca.in;
    for (int i = 0; i < n && i < 12; ++i) c.coll.args[i] = ca.u(i);
    c.coll.comm = commArg < 0 ? 0 : c.coll.args[commArg]; commRank(c.coll.comm, c.rank);
    c.st = C_COLL; return CR_BLOCK;
}
static void deliver(Ctx &c, const Val &v) { std::vector<Val> r{v}; c.st = C_RUN; finishCall(c, r); }
static std::string collDesc(Ctx *c) { return c->coll.kind + " at " + locOf(c->coll.inst); }
[[noreturn]] static void collViolation(const std::string &m, std::vector<Ctx *> &L) {
    cur = L.back(); curInst = L.back()->coll.inst;
    std::string s = m + ":"; for (auto *x : L) s += " [rank " + std::to_string(x->rank) + ": " + (x->st == C_COLL ? collDesc(x) : x->st == C_DONE ? std::string("finished") : x->st == C_RECV ? "receive at " + locOf(x->coll.inst) : "other") + "]";
    violationEnd("mpi", s);
}
static CR postRecv(Ctx &c, CallArgs &ca, std::initializer_list<int> idx) { // buf count type src tag comm
    c.coll = CollReq(); c.coll.kind = "Recv"; c.coll.inst = ca.in; int k = 0; for (int i : idx) c.coll.args[k++] = ca.u(i);
    c.coll.comm = c.coll.args[5]; auto g = commGroup(c.coll.comm, c.rank); commRank(c.coll.comm, c.rank);
    int src = int(int32_t(uint32_t(c.coll.args[3])));
    if (src == -2) { retV(ca, Val(0)); return CR_DONE; } // MPI_PROC_NULL
    if (src >= int(g.size()) || src < -1) violationEnd("mpi", "invalid source in a receive");
    c.coll.args[3] = uint64_t(int64_t(src < 0 ? -1 : g[size_t(src)])); c.st = C_RECV; return CR_BLOCK;
}
static int64_t I32(uint64_t x) { return int32_t(uint32_t(x)); }
static int32_t rdI32(uint64_t a) { checkRange(a, 4, false); LaneTy t = LI(32); return int32_t(uint32_t(concretize(loadLane(a, t), 32))); }
static void collExec(std::vector<Ctx *> &L) {
    int R = int(L.size()); const std::string k = L[0]->coll.kind;
    for (auto *x : L) if (x->coll.kind != k) collViolation("ranks entered different collective operations", L);
    auto A = [&](int r, int i) { return L[r]->coll.args[i]; };
    auto at = [&](int r) { cur = L[r]; curInst = L[r]->coll.inst; };
    auto chkCount = [&](int64_t n, int r) { if (n < 0) { at(r); violationEnd("mpi", "negative count in " + collDesc(L[r])); } };
    auto buf = [&](int r, uint64_t a, uint64_t bytes, bool wr) { at(r); if (bytes) checkRange(a, bytes, wr); };
    sh->collectives++;
    if (k == "Barrier") {}
    else if (k == "Dup" || k == "Split") { // comm (color key) newcomm
        std::map<int64_t, std::vector<std::pair<int64_t, int>>> by; int out = k == "Dup" ? 1 : 3;
        for (int r = 0; r < R; ++r) { int64_t col = k == "Dup" ? 0 : I32(A(r, 1)); if (k == "Split" && col < 0 && col != -32766) collViolation("invalid colour in a communicator split", L); by[col].push_back({k == "Dup" ? r : I32(A(r, 2)), r}); }
        LaneTy t; t.kind = 'p'; t.bits = 64; t.sz = 8;
        for (auto &kv : by) {
            uint64_t h;
            if (kv.first == -32766) { auto it = mpiHandleAddr.find("ompi_mpi_comm_null"); if (it == mpiHandleAddr.end()) { h = arenaAlloc(64, 2, 64); mpiHandle[h] = "ompi_mpi_comm_null"; mpiHandleAddr["ompi_mpi_comm_null"] = h; } else h = it->second; }
            else { std::stable_sort(kv.second.begin(), kv.second.end()); h = arenaAlloc(64, 2, 64); CommInfo ci; for (auto &m : kv.second) ci.group.push_back(L[size_t(m.second)]->rank); comms[h] = ci; }
            for (auto &m : kv.second) { at(m.second); checkRange(A(m.second, out), 8, true); storeLane(A(m.second, out), Val(h), t); }
        }
    }
    else if (k == "Free") { at(0); LaneTy t; t.kind = 'p'; t.bits = 64; t.sz = 8; auto it = comms.find(L[0]->coll.comm); if (it == comms.end()) violationEnd("mpi", "a predefined communicator is freed"); it->second.freed = true;
        auto nt = mpiHandleAddr.find("ompi_mpi_comm_null"); uint64_t h; if (nt == mpiHandleAddr.end()) { h = arenaAlloc(64, 2, 64); mpiHandle[h] = "ompi_mpi_comm_null"; mpiHandleAddr["ompi_mpi_comm_null"] = h; } else h = nt->second;
        for (int r = 0; r < R; ++r) { at(r); storeLane(A(r, 0), Val(h), t); } }
    else if (k == "Bcast") { // buf count type root comm
        for (int r = 0; r < R; ++r) { chkCount(I32(A(r, 1)), r); if (A(r, 1) != A(0, 1) || A(r, 2) != A(0, 2) || A(r, 3) != A(0, 3)) collViolation("count, type or root differ between ranks in a broadcast", L); }
        int root = int(I32(A(0, 3))); if (root < 0 || root >= R) collViolation("invalid root", L);
        uint64_t n = uint64_t(I32(A(0, 1))) * mpiType(A(0, 2)).sz;
        buf(root, A(root, 0), n, false);
        for (int r = 0; r < R; ++r) if (r != root) { buf(r, A(r, 0), n, true); copyMem(A(r, 0), A(root, 0), n); }
    } else if (k == "Allreduce" || k == "Reduce" || k == "Scan") { // send recv count type op (root) comm
        for (int r = 0; r < R; ++r) { chkCount(I32(A(r, 2)), r); if (A(r, 2) != A(0, 2) || A(r, 3) != A(0, 3) || A(r, 4) != A(0, 4)) collViolation("count, type or operation differ between ranks in a reduction", L); }
        int root = -1; if (k == "Reduce") { root = int(I32(A(0, 5))); for (int r = 0; r < R; ++r) if (I32(A(r, 5)) != root) collViolation("root differs between ranks", L); if (root < 0 || root >= R) collViolation("invalid root", L); }
        at(0); LaneTy t = mpiType(A(0, 3)); std::string op = mpiOpName(A(0, 4)); uint64_t n = uint64_t(I32(A(0, 2)));
        for (int r = 0; r < R; ++r) {
            uint64_t s = A(r, 0); bool rcv = root < 0 || r == root;
            if (s == 1) { if (!rcv) collViolation("MPI_IN_PLACE on a rank that is not the root", L); s = A(r, 1); }
            else if (rcv && n && s == A(r, 1)) collViolation("send and receive buffers are the same memory", L);
            buf(r, s, n * t.sz, false); if (rcv) buf(r, A(r, 1), n * t.sz, true);
        }
        for (uint64_t i = 0; i < n; ++i) {
            Val acc; std::vector<Val> pre;
            for (int r = 0; r < R; ++r) { at(r); uint64_t s = A(r, 0) == 1 ? A(r, 1) : A(r, 0); Val v = loadLane(s + i * t.sz, t); acc = r ? mpiOp(op, A(0, 3), acc, v) : v; pre.push_back(acc); }
            for (int r = 0; r < R; ++r) if (root < 0 || r == root) { at(r); storeLane(A(r, 1) + i * t.sz, k == "Scan" ? pre[r] : acc, t); }
        }
    } else if (k == "Allgather" || k == "Gather") { // sbuf scount stype rbuf rcount rtype (root) comm
        int root = -1; if (k == "Gather") { root = int(I32(A(0, 6))); for (int r = 0; r < R; ++r) if (I32(A(r, 6)) != root) collViolation("root differs between ranks", L); if (root < 0 || root >= R) collViolation("invalid root", L); }
        std::vector<std::pair<uint64_t, uint64_t>> snd;
        for (int r = 0; r < R; ++r) {
            chkCount(I32(A(r, 1)), r); at(r); uint64_t s = A(r, 0), n = A(r, 1) && s != 1 ? uint64_t(I32(A(r, 1))) * mpiType(A(r, 2)).sz : 0;
            if (s == 1) { n = uint64_t(I32(A(r, 4))) * mpiType(A(r, 5)).sz; s = A(r, 3) + uint64_t(r) * n; }
            buf(r, s, n, false); snd.push_back({s, n}); }
        for (int r = 0; r < R; ++r) if (root < 0 || r == root) {
            chkCount(I32(A(r, 4)), r); at(r); uint64_t m = uint64_t(I32(A(r, 4))) * mpiType(A(r, 5)).sz;
            for (int q = 0; q < R; ++q) if (snd[q].second != m) collViolation("a gather receives a different amount than was sent", L);
            buf(r, A(r, 3), m * R, true);
            for (int q = 0; q < R; ++q) copyMem(A(r, 3) + uint64_t(q) * m, snd[q].first, m); }
    } else if (k == "Gatherv") { // sbuf scount stype rbuf rcounts displs rtype root comm
        int root = int(I32(A(0, 7))); for (int r = 0; r < R; ++r) if (I32(A(r, 7)) != root) collViolation("root differs between ranks", L);
        if (root < 0 || root >= R) collViolation("invalid root", L);
        at(root); uint64_t sz = mpiType(A(root, 6)).sz;
        for (int q = 0; q < R; ++q) {
            chkCount(I32(A(q, 1)), q); uint64_t s = A(q, 0), n = uint64_t(I32(A(q, 1))) * (A(q, 1) ? mpiType(A(q, 2)).sz : 0); buf(q, s, n, false);
            at(root); int rc = rdI32(A(root, 4) + 4 * q), dp = rdI32(A(root, 5) + 4 * q);
            if (uint64_t(int64_t(rc)) * sz != n) collViolation("a gather receives a different amount than was sent", L);
            buf(root, A(root, 3) + int64_t(dp) * int64_t(sz), n, true); copyMem(A(root, 3) + int64_t(dp) * int64_t(sz), s, n); }
    } else if (k == "Alltoall") { // sbuf scount stype rbuf rcount rtype comm
        for (int r = 0; r < R; ++r) { chkCount(I32(A(r, 1)), r); chkCount(I32(A(r, 4)), r); if (A(r, 0) == 1) unsupported("Alltoall in place"); }
        for (int r = 0; r < R; ++r) for (int q = 0; q < R; ++q) { // from q to r
            at(q); uint64_t ns = uint64_t(I32(A(q, 1))) * mpiType(A(q, 2)).sz; buf(q, A(q, 0) + uint64_t(r) * ns, ns, false);
            at(r); uint64_t nr = uint64_t(I32(A(r, 4))) * mpiType(A(r, 5)).sz; if (ns != nr) collViolation("amounts sent and received differ in an all-to-all", L);
            buf(r, A(r, 3) + uint64_t(q) * nr, nr, true); copyMem(A(r, 3) + uint64_t(q) * nr, A(q, 0) + uint64_t(r) * ns, ns); }
    } else if (k == "Alltoallv") { // sbuf scounts sdispls stype rbuf rcounts rdispls rtype comm
        for (int r = 0; r < R; ++r) for (int q = 0; q < R; ++q) {
            at(q); LaneTy ts = mpiType(A(q, 3)); int sc = rdI32(A(q, 1) + 4 * r), sd = rdI32(A(q, 2) + 4 * r);
            at(r); LaneTy tr = mpiType(A(r, 7)); int rc = rdI32(A(r, 5) + 4 * q), rd = rdI32(A(r, 6) + 4 * q);
            if (sc < 0 || rc < 0) collViolation("negative count in an all-to-all", L);
            if (int64_t(sc) * ts.sz != int64_t(rc) * tr.sz) collViolation("rank " + std::to_string(q) + " sends " + std::to_string(sc) + " elements to rank " + std::to_string(r) + ", which expects " + std::to_string(rc), L);
            uint64_t n = uint64_t(sc) * ts.sz; uint64_t s = A(q, 0) + int64_t(sd) * ts.sz, d = A(r, 4) + int64_t(rd) * tr.sz;
            buf(q, s, n, false); buf(r, d, n, true); if (n) copyMem(d, s, n); }
    } else unsupported("collective " + k);
    for (int r = 0; r < R; ++r) deliver(*L[r], Val(0));
}

// ---- OpenMP
static uint64_t newStack(Ctx &c, uint64_t sz) { uint64_t a = bump + 4096; a = (a + 4095) & ~4095ull; bump = a + sz + 4096; c.stackBase = c.stackPtr = a; c.stackEnd = a + sz; return a; }
struct Dispatch { int64_t lo, hi, st, chunk, next; bool active = false; bool dyn = false; };
static std::map<std::pair<Team *, int>, Dispatch> disp; // (team, sequence) shared loop state
static std::unordered_map<Ctx *, int> dispSeq;
static int setThreads[64]; // omp_set_num_threads, per task
static long ompParam(const char *n) { auto it = optParams.find(n); return it == optParams.end() ? 0 : it->second; }
static int ompMaxThreads(Ctx &c) { int n = setThreads[c.rank & 63]; return n > 0 ? n : optThreads; }
static CR forkCall(Ctx &c, CallArgs &ca) {
    uint64_t nargs = ca.u(1); uint64_t fp = ca.u(2);
    auto it = fnAddr.find(fp); if (it == fnAddr.end()) unsupported("parallel region function");
    // nested regions are serialised; "grant" is the thread limit of the environment (OMP_THREAD_LIMIT): a team may be smaller than requested
    int want = c.pushThreads > 0 ? c.pushThreads : ompMaxThreads(c); c.pushThreads = 0; want = std::min(want, 4); if (long g = ompParam("grant")) want = std::min<long>(want, g);
    Team *t = new Team; t->n = c.team ? 1 : want; t->parent = &c;
    for (int i = 0; i < t->n; ++i) {
        Ctx *x = new Ctx; x->rank = c.rank; x->tid = c.team ? c.tid : i; x->team = t; allCtx.push_back(x);
        newStack(*x, 8 << 20);
        uint64_t g = stackAlloc(*x, 8, 16), b = stackAlloc(*x, 8, 16); LaneTy t32 = LI(32); 
        storeLane(g, Val(uint64_t(i)), t32); storeLane(b, Val(uint64_t(i)), t32);
        std::vector<Val> av{Val(g), Val(b)}; for (uint64_t k = 0; k < nargs; ++k) av.push_back(ca.a[3 + k]);
        pushFrame(*x, it->second, av, nullptr); x->fr.back().isThreadRoot = true;
        t->th.push_back(x);
    }
    c.child = t; c.st = C_TEAM;
    return CR_BLOCK;
}
template <class F> static void H(const char *n, F f) { handlers[n] = f; }
static int bitsOfArg(CallArgs &ca, int i) { return ca.ty[ca.first[i]].bits; }

// ---- harness interface
static Val inputReal(const std::string &nm, double lo, double hi, char t, int div) {
    auto it = inputIdx.find(nm);
    int bits = t == 'f' ? 32 : 64;
    if (it != inputIdx.end()) { Poly p = polyScale(polyVar(inputs[it->second].var), inputs[it->second].bits); return mkReal(p, lo, hi, bits); }
    if (lo == hi) return fromFP(lo, t == 'f' ? 'f' : 'd');
    int v = newVar(nm, lo / div, hi / div, false, 0);
    Input in{nm, t, v, z3::expr(*Z), "", div}; inputIdx[nm] = int(inputs.size()); inputs.push_back(in);
    return mkReal(polyScale(polyVar(v), div), lo, hi, bits);
}
static z3::expr boolExpr(const Val &v) {
    if (!v.s) return Z->bool_val(v.c & 1);
    if (v.s->k == S_BOOL) return v.s->e;
    if (v.s->k == S_BV) return bvOf(v, v.s->width).extract(0, 0) == Z->bv_val(1, 1);
    return Z->bool_val(concretize(v, 1) & 1);
}
// Equality of words that are exclusive-or combinations of input bits (random number generators): the words are brought into their normal form over GF(2).
typedef std::bitset<1024> Lin; // bits 0..1022: input bits, 1023: constant
struct LinTab { std::map<std::string, int> base; int n = 0; std::unordered_map<unsigned, std::vector<Lin>> memo; std::vector<z3::expr> keep; };
static bool linBits(const z3::expr &e, LinTab &T, std::vector<Lin> &r) {
    auto it = T.memo.find(e.id()); if (it != T.memo.end()) { r = it->second; return true; }
    if (!e.is_bv()) return false;
    unsigned n = e.get_sort().bv_size(); r.assign(n, Lin());
    auto num = [](const z3::expr &x, std::vector<bool> &b) { if (!x.is_numeral()) return false; unsigned w = x.get_sort().bv_size(); std::string t = x.get_decimal_string(0); mpz_class z(t); b.resize(w); for (unsigned i = 0; i < w; ++i) b[i] = mpz_tstbit(z.get_mpz_t(), i); return true; };
    std::vector<bool> nb; std::vector<Lin> a, b;
    if (num(e, nb)) { for (unsigned i = 0; i < n; ++i) r[i][1023] = nb[i]; }
    else if (!e.is_app()) return false;
    else switch (e.decl().decl_kind()) {
    case Z3_OP_UNINTERPRETED: { if (e.num_args()) return false; std::string nm = e.decl().name().str(); auto b0 = T.base.find(nm); int k; if (b0 != T.base.end()) k = b0->second; else { if (T.n + int(n) > 1023) return false; k = T.base[nm] = T.n; T.n += n; } for (unsigned i = 0; i < n; ++i) r[i][k + i] = 1; break; }
    case Z3_OP_BXOR: for (unsigned i = 0; i < e.num_args(); ++i) { if (!linBits(e.arg(i), T, a)) return false; for (unsigned j = 0; j < n; ++j) r[j] ^= a[j]; } break;
    case Z3_OP_BNOT: if (!linBits(e.arg(0), T, a)) return false; for (unsigned j = 0; j < n; ++j) { r[j] = a[j]; r[j].flip(1023); } break;
    case Z3_OP_CONCAT: { unsigned pos = n; for (unsigned i = 0; i < e.num_args(); ++i) { if (!linBits(e.arg(i), T, a)) return false; pos -= a.size(); for (unsigned j = 0; j < a.size(); ++j) r[pos + j] = a[j]; } break; }
    case Z3_OP_EXTRACT: { if (!linBits(e.arg(0), T, a)) return false; unsigned lo = e.lo(); for (unsigned j = 0; j < n; ++j) r[j] = a[lo + j]; break; }
    case Z3_OP_ZERO_EXT: if (!linBits(e.arg(0), T, a)) return false; for (unsigned j = 0; j < a.size(); ++j) r[j] = a[j]; break;
    case Z3_OP_BSHL: case Z3_OP_BLSHR: { if (!num(e.arg(1), nb) || !linBits(e.arg(0), T, a)) return false; unsigned k = 0; for (unsigned i = 0; i < nb.size(); ++i) if (nb[i]) { if (i > 20) k = n; else k += 1u << i; } for (unsigned j = 0; j < n; ++j) if (e.decl().decl_kind() == Z3_OP_BSHL ? j >= k : j + k < n) r[j] = e.decl().decl_kind() == Z3_OP_BSHL ? a[j - k] : a[j + k]; break; }
    case Z3_OP_BAND: case Z3_OP_BOR: { bool And = e.decl().decl_kind() == Z3_OP_BAND; std::vector<bool> m(n, And); int var = -1; for (unsigned i = 0; i < e.num_args(); ++i) { if (num(e.arg(i), nb)) for (unsigned j = 0; j < n; ++j) m[j] = And ? m[j] && nb[j] : m[j] || nb[j]; else if (var >= 0) return false; else var = int(i); }
        if (var < 0 || !linBits(e.arg(var), T, a)) return false; for (unsigned j = 0; j < n; ++j) { if (m[j] == And) r[j] = a[j]; else r[j][1023] = !And; } break; }
    default: return false;
    }
    T.memo[e.id()] = r; T.keep.push_back(e); return true;
}
static LinTab linTab;
static int linEqual(const z3::expr &e, bool neg = false) { // 1 holds for all inputs, 0 does not, -1 not of this form
    if (!e.is_app()) return -1;
    Z3_decl_kind k = e.decl().decl_kind();
    if (k == Z3_OP_NOT) return linEqual(e.arg(0), !neg);
    if (k == (neg ? Z3_OP_FALSE : Z3_OP_TRUE)) return 1;
    if (k == (neg ? Z3_OP_OR : Z3_OP_AND)) { bool no = false; for (unsigned i = 0; i < e.num_args(); ++i) { int r = linEqual(e.arg(i), neg); if (r < 0) return -1; if (!r) no = true; } return no ? 0 : 1; }
    if (k != Z3_OP_EQ || !e.arg(0).is_bv()) return -1;
    std::vector<Lin> a, b; if (!linBits(e.arg(0), linTab, a) || !linBits(e.arg(1), linTab, b)) return -1;
    if (neg) { if (a.size() != 1) return -1; a[0].flip(1023); }
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return 0;
    return 1;
}
static void checkAssert(const z3::expr &e, const std::string &msg) {
    sh->obligations++;
    int le = linEqual(e); if (getenv("SYMEX_LIN")) fprintf(stderr, "LIN %d %s\n", le, e.to_string().substr(0, 600).c_str()); if (le == 1) { sh->discharged++; sh->quns_assert++; return; }
    if (le == 0) for (int k = 0; k < 8; ++k) { // some input words: the words differ for half of them
        static uint64_t seed = 88172645463325252ull; std::vector<z3::expr> ex{!e};
        for (auto &in : inputs) if (in.t == 'b') { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; ex.push_back(in.e == Z->bv_val(seed, in.e.get_sort().bv_size())); }
        if (query(ex, true) == z3::sat) { report("assert", msg, curInst, true); addPC(e); if (query({}) == z3::unsat) endPath("violation", msg); return; } }
    z3::expr s = e.simplify();
    if (s.is_true()) { sh->discharged++; sh->trivial++; return; }
    z3::check_result r = query({!e}, true);
    if (r == z3::unsat) { sh->discharged++; sh->quns_assert++; return; }
    if (r == z3::sat) {
        report("assert", msg, curInst, true);
        if (query({e}) == z3::unsat) endPath("violation", msg);
        addPC(e); return;
    }
    sh->inconclusive++; logLine("U assert " + msg + " at " + locOf(curInst)); addPC(e);
}
static std::map<Mono, z3::expr> monoRelax;
static bool debugNear = false;
// is |d| <= tol for every value of the inputs?  relaxed linear query: every monomial is an independent real within its interval
static z3::check_result nearRelaxed(const Poly &d, const mpq_class &T) {
    double t0 = now(); sh->q++;
    z3::check_result r;
    {
        z3::solver s(*Z, "QF_LRA"); z3::expr_vector sum(*Z); int i = 0;
        mpq_class TT = T; const mpz_class G = mpz_class(1) << 60; mpq_class lim = T / (1000 * (1 + long(d.t.size())));
        for (auto &t : d.t) {
            // coefficients are rounded to multiples of 2^-60 (or dropped when negligible); the tolerance shrinks by the largest effect of that
            mpq_class c = t.second, mx = 1; bool fin = true;
            if (t.first != 0) { double a = std::max(std::fabs(monos[t.first].lo), std::fabs(monos[t.first].hi)); fin = std::isfinite(a); if (fin) mx = d2q(a); }
            if (fin) {
                mpq_class r; if (abs(c) * mx <= lim) r = 0; else { mpz_class n; mpz_fdiv_q(n.get_mpz_t(), mpz_class(c.get_num() * G).get_mpz_t(), c.get_den().get_mpz_t()); r = mpq_class(n, G); r.canonicalize(); }
                mpq_class e = abs(c - r) * mx; if (e <= lim) { TT -= e; c = r; }
            }
            if (c == 0) continue;
            z3::expr cc = Z->real_val(c.get_str().c_str());
            if (t.first == 0) { sum.push_back(cc); continue; }
            z3::expr m = Z->real_const(("m" + std::to_string(i++)).c_str());
            double lo = monos[t.first].lo, hi = monos[t.first].hi;
            if (std::isfinite(lo)) s.add(m >= Z->real_val(d2q(lo).get_str().c_str()));
            if (std::isfinite(hi)) s.add(m <= Z->real_val(d2q(hi).get_str().c_str()));
            sum.push_back(cc * m);
        }
        if (sum.size() == 0) sum.push_back(Z->real_val(0));
        z3::expr dd = z3::sum(sum), tt = Z->real_val(TT.get_str().c_str());
        s.add(dd > tt || dd < -tt);
        z3::params zp(*Z); zp.set("rlimit", optRlimit); zp.set("timeout", optZ3Timeout); s.set(zp);
        r = s.check();
    }
    sh->usSolver += long(1e6 * (now() - t0));
    if (r == z3::unsat) sh->qunsat++; else if (r == z3::sat) sh->qsat++; else sh->qunk++;
    return r;
}
// p with variable v replaced by q
static Poly polySubst(const Poly &p, int v, const Poly &q) {
    Poly keep, r; std::map<size_t, Poly> byPow; std::vector<Poly> pw{Poly(mpq_class(1))};
    for (auto &t : p.t) {
        const auto mv = monos[t.first].v; size_t n = std::count(mv.begin(), mv.end(), uint32_t(v));
        if (!n) { keep.t.push_back(t); continue; }
        std::vector<uint32_t> w; for (auto x : mv) if (int(x) != v) w.push_back(x);
        Poly m; m.t.emplace_back(w.empty() ? 0 : internMono(w), t.second);
        byPow[n] = polyAdd(byPow[n], m);
    }
    r = keep;
    for (auto &b : byPow) { while (pw.size() <= b.first) pw.push_back(polyMul(pw.back(), q)); r = polyAdd(r, polyMul(b.second, pw[b.first])); }
    return r;
}
static std::set<int> polyVars(const Poly &p) { std::set<int> s; for (auto &t : p.t) for (auto v : monos[t.first].v) s.insert(int(v)); return s; }
// integer variables (floors, quotients) become concrete, one path per value
static void fixInts(std::vector<Poly> &D) {
    std::set<int> is; for (auto &d : D) for (int v : polyVars(d)) if (vars[v].isInt) is.insert(v);
    if (is.empty()) return;
    tightenRels();
    for (int v : is) {
        if (vars[v].hi - vars[v].lo > double(optConcLimit)) continue;
        uint64_t c = concretize(mkInt(polyVar(v), 64), 64); Poly q{mpq_class{long(c)}};
        for (auto &d : D) d = polySubst(d, v, q);
    }
    tightenRels();
}
// expansion about the middle of every variable's range (tighter monomial intervals)
static Poly centred(const Poly &p) {
    Poly r = p;
    for (int v : polyVars(p)) {
        if (vars[v].isInt || vars[v].hasRule || vars[v].kind == 3 || vars[v].kind == 4 || !std::isfinite(vars[v].lo) || !std::isfinite(vars[v].hi)) continue;
        double mid = 0.5 * (vars[v].lo + vars[v].hi), rad = up(up(0.5 * (vars[v].hi - vars[v].lo)));
        if (std::fabs(mid) < 0.05 * rad) continue;
        int y = newVar("centred", -rad, rad, false, 2); // x = mid + y
        r = polySubst(r, v, polyAdd(polyVar(y), Poly(d2q(mid))));
    }
    return r;
}
// alternatives d[0] (what is required) and d[1..] (behaviour of recorded findings); holds when one of them is always near zero
static void assertNear(std::vector<Poly> D, double tol, const std::string &msg, const std::string &finding = "") {
    sh->obligations++;
    mpq_class T = d2q(tol);
    fixInts(D);
    for (size_t k = 0; k < D.size(); ++k) {
        const Poly &d = D[k]; bool ok;
        if (getenv("SYMEX_NEAR")) { double lo, hi; polyInterval(d, lo, hi); fprintf(stderr, "near [%g,%g] %zu terms: %s\n", lo, hi, d.t.size(), polyStr(d, 40).c_str()); }
        if (d.isConst()) { ok = abs(d.constant()) <= T; if (ok) sh->trivial++; }
        else { ok = nearRelaxed(d, T) == z3::unsat; if (!ok && d.t.size() < 400) { Poly e = centred(d); ok = e.isConst() ? abs(e.constant()) <= T : nearRelaxed(e, T) == z3::unsat; } if (ok) sh->quns_assert++; }
        if (ok) { sh->discharged++; if (k) logLine("K " + finding + " " + msg); return; }
    }
    if (D.size() == 1 && D[0].isConst()) {
        char b[100]; snprintf(b, sizeof b, " (difference %.6g, tolerance %.3g)", D[0].constant().get_d(), tol);
        violationEnd("assert", msg + b);
    }
    z3::expr tt = Z->real_val(T.get_str().c_str()), bad = Z->bool_val(true);
    for (auto &d : D) { z3::expr dz = pe(d); bad = bad && (dz > tt || dz < -tt); }
    // candidate points: fix every free variable, let the solver complete the rest
    static unsigned seed = 12345;
    auto rnd01 = [&]() { seed = seed * 1103515245u + 12345u; return ((seed >> 16) & 0x7fff) / 32768.; };
    for (int attempt = 0; attempt < 6; ++attempt) {
        std::vector<z3::expr> ex{bad};
        std::vector<int> uv(usedVars.begin(), usedVars.end());
        for (int v : uv) {
            if (vars[v].kind == 3) {
                double lo = vars[v].sinOf >= 0 ? vars[vars[v].sinOf].lo : -M_PI, hi = vars[v].sinOf >= 0 ? vars[vars[v].sinOf].hi : M_PI;
                double a = lo + (hi - lo) * rnd01(), h = std::tan(a / 2); mpq_class t(mpz_class((long)std::llround(h * 64)), 64); t.canonicalize();
                mpq_class den = 1 + t * t, s = 2 * t / den, c = (1 - t * t) / den;
                if (s < d2q(vars[v].lo) || s > d2q(vars[v].hi) || c < d2q(vars[vars[v].trigMate].lo) || c > d2q(vars[vars[v].trigMate].hi)) continue;
                ex.push_back(varExpr[v] == Z->real_val(s.get_str().c_str())); ex.push_back(varExpr[vars[v].trigMate] == Z->real_val(c.get_str().c_str()));
            } else if (vars[v].kind == 0 && !vars[v].isInt) {
                double lo = std::max(vars[v].lo, -1e6), hi = std::min(vars[v].hi, 1e6); double x = lo + (hi - lo) * rnd01();
                if (attempt == 0) x = hi; if (attempt == 1) x = lo + (hi - lo) * 0.75;
                // coarse value
                double g = std::ldexp(1., std::ilogb(hi - lo) - 10); double y = std::round(x / g) * g; if (y >= lo && y <= hi) x = y;
                bool angle = false; for (size_t w = 0; w < vars.size(); ++w) if (vars[w].kind == 3 && vars[w].sinOf == v) angle = true;
                if (angle) continue;
                ex.push_back(varExpr[v] == Z->real_val(d2q(x).get_str().c_str()));
            }
        }
        z3::check_result q = query(ex, true);
        if (q == z3::sat) { report("assert", msg, curInst, true); return; }
    }
    z3::check_result r = query({bad}, true);
    if (r == z3::unsat) { sh->discharged++; sh->quns_assert++; return; }
    if (r == z3::sat) { report("assert", msg, curInst, true); endPath("violation", msg); }
    sh->inconclusive++; { double lo, hi; polyInterval(D[0], lo, hi); char b[120]; snprintf(b, sizeof b, " [%g,%g] tol %g terms %zu", lo, hi, tol, D[0].t.size()); logLine("U near " + msg + b + " at " + locOf(curInst)); }
}

static void initHandlers() {
    // ---- memory
    auto mal = [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(0); retV(ca, Val(heapAlloc(n))); return CR_DONE; };
    H("malloc", mal);
    H("calloc", [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(0) * ca.u(1); uint64_t a = heapAlloc(n, 16, 2); retV(ca, Val(a)); return CR_DONE; });
    H("realloc", [](Ctx &c, CallArgs &ca) { uint64_t p = ca.u(0), n = ca.u(1); uint64_t a = heapAlloc(n); if (a && p) { uint64_t o = heap.count(p) ? heap[p] : 0; copyMem(a, p, std::min(o, n)); heapFree(p, "realloc"); } retV(ca, Val(a)); return CR_DONE; });
    H("posix_memalign", [](Ctx &c, CallArgs &ca) { uint64_t pp = ca.u(0), al = ca.u(1), n = ca.u(2); uint64_t a = heapAlloc(n, al); if (!a) { retV(ca, Val(12)); return CR_DONE; } LaneTy t; t.kind = 'p'; t.bits = 64; t.sz = 8; t.off = 0; storeLane(pp, Val(a), t); retV(ca, Val(0)); return CR_DONE; });
    auto aal = [](Ctx &c, CallArgs &ca) { uint64_t al = ca.u(0), n = ca.u(1); retV(ca, Val(heapAlloc(n, al))); return CR_DONE; };
    H("aligned_alloc", aal); H("memalign", aal);
    H("free", [](Ctx &c, CallArgs &ca) { heapFree(ca.u(0), "free"); return CR_DONE; });
    auto nw = [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(0); uint64_t al = 16; if (ca.first.size() > 1 && ca.ty[ca.first[1]].kind == 'i') al = std::max<uint64_t>(16, ca.u(1)); uint64_t a = heapAlloc(n, al); if (!a) return throwNative(c, ca, "_ZSt17__throw_bad_allocv"); retV(ca, Val(a)); return CR_DONE; };
    for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) H(n, nw);
    for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) H(n, mal);
    auto dl = [](Ctx &c, CallArgs &ca) { heapFree(ca.u(0), "delete"); return CR_DONE; };
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) H(n, dl);
    auto mcpy = [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(2); uint64_t d = resolveBuf(ca, 0, n, true), s = resolveBuf(ca, 1, n, false); checkRange(s, n, false); checkRange(d, n, true); copyMem(d, s, n); retV(ca, Val(d)); return CR_DONE; };
    for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove"}) H(n, mcpy);
    auto mset = [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(2), b = ca.u(1); uint64_t d = resolveBuf(ca, 0, n, true); checkRange(d, n, true); if (n) { if (inArena(d)) { dropSym(d, n); memset(shd(d), 2, n); } memset((void *)d, int(b & 255), n); } retV(ca, Val(d)); return CR_DONE; };
    H("memset", mset); H("llvm.memset", mset);
    H("memcmp", [](Ctx &c, CallArgs &ca) { uint64_t a = ca.u(0), b = ca.u(1), n = ca.u(2); checkRange(a, n, false); checkRange(b, n, false);
        if (anySymbolic(a, n) || anySymbolic(b, n)) unsupported("memcmp of symbolic memory"); retV(ca, Val(uint64_t(uint32_t(memcmp((void *)a, (void *)b, n))))); return CR_DONE; });
    H("strlen", [](Ctx &c, CallArgs &ca) { retV(ca, Val(cstr(ca.u(0)).size())); return CR_DONE; });
    H("strcmp", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(uint32_t(strcmp(cstr(ca.u(0)).c_str(), cstr(ca.u(1)).c_str()))))); return CR_DONE; });
    H("strncmp", [](Ctx &c, CallArgs &ca) { uint64_t n = ca.u(2); auto get = [&](uint64_t a) { std::string r; for (uint64_t i = 0; i < n; ++i) { checkRange(a + i, 1, false); if (anySymbolic(a + i, 1)) unsupported("symbolic string"); char ch = *(char *)(a + i); if (!ch) break; r += ch; } return r; }; std::string x = get(ca.u(0)), y = get(ca.u(1)); retV(ca, Val(uint64_t(uint32_t(strncmp(x.c_str(), y.c_str(), n))))); return CR_DONE; });
    H("strcpy", [](Ctx &c, CallArgs &ca) { uint64_t d = ca.u(0); std::string s = cstr(ca.u(1)); checkRange(d, s.size() + 1, true); memcpy((void *)d, s.c_str(), s.size() + 1); if (inArena(d)) { dropSym(d, s.size() + 1); memset(shd(d), 2, s.size() + 1); } retV(ca, Val(d)); return CR_DONE; });
    H("strcat", [](Ctx &c, CallArgs &ca) { uint64_t d = ca.u(0); std::string s = cstr(ca.u(1)), t = cstr(d); uint64_t e = d + t.size(); checkRange(e, s.size() + 1, true); memcpy((void *)e, s.c_str(), s.size() + 1); if (inArena(e)) memset(shd(e), 2, s.size() + 1); retV(ca, Val(d)); return CR_DONE; });
    H("strncpy", [](Ctx &c, CallArgs &ca) { uint64_t d = ca.u(0), n = ca.u(2), sp = ca.u(1); std::string s; for (uint64_t i = 0; i < n; ++i) { checkRange(sp + i, 1, false); if (anySymbolic(sp + i, 1)) unsupported("symbolic string"); char ch = *(char *)(sp + i); if (!ch) break; s += ch; } checkRange(d, n, true); for (uint64_t i = 0; i < n; ++i) ((char *)d)[i] = i < s.size() ? s[i] : 0; if (inArena(d)) { dropSym(d, n); memset(shd(d), 2, n); } retV(ca, Val(d)); return CR_DONE; });
    // ---- output
    auto nop = [](Ctx &c, CallArgs &ca) { retV(ca, Val(0)); return CR_DONE; };
    for (auto n : {"printf", "fprintf", "vprintf", "vfprintf", "puts", "putchar", "fputs", "fputc", "fflush", "perror", "fwrite", "setbuf", "setvbuf", "__cxa_atexit", "atexit", "__cxa_free_exception", "__kmpc_for_static_fini", "__kmpc_flush", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8u", "llvm.va_start", "llvm.va_end", "llvm.stacksave", "llvm.stackrestore", "llvm.is.constant", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "omp_set_dynamic", "omp_set_nested", "MPI_Init", "MPI_Finalize", "MPI_Comm_set_errhandler"}) H(n, nop);
    H("_ZN9__gnu_cxx12__to_xstring", [](Ctx &c, CallArgs &ca) {
        uint64_t out = ca.u(0); std::string fmt = cstr(ca.u(3)); std::string s = "?";
        bool sym = false; for (size_t i = 4; i < ca.a.size(); ++i) if (ca.a[i].s) sym = true;
        if (!sym && ca.a.size() > 4) { char b[512]; char k = ca.ty[4].kind; if (k == 'd') snprintf(b, sizeof b, fmt.c_str(), asD(ca.a[4])); else if (k == 'x') snprintf(b, sizeof b, fmt.c_str(), asL(ca.a[4])); else snprintf(b, sizeof b, fmt.c_str(), ca.a[4].c); s = b; }
        checkRange(out, 32, true); if (inArena(out)) { dropSym(out, 32); memset(shd(out), 2, 32); }
        new ((void *)out) std::string(s); return CR_DONE; });
    auto snp = [](Ctx &c, CallArgs &ca, int f) {
        uint64_t d = ca.u(0); uint64_t lim = f == 2 ? ca.u(1) : ~0ull; std::string fmt = cstr(ca.u(f)); std::string out; size_t ai = f + 1;
        for (size_t i = 0; i < fmt.size();) {
            if (fmt[i] != '%') { out += fmt[i++]; continue; }
            size_t j = i + 1; while (j < fmt.size() && !strchr("diouxXeEfgGscp%", fmt[j])) ++j;
            std::string sp = fmt.substr(i, j - i + 1); char b[1024]; i = j + 1;
            if (sp.back() == '%') { out += '%'; continue; }
            std::vector<int> st; size_t stars = std::count(sp.begin(), sp.end(), '*'); for (size_t q = 0; q < stars; ++q) st.push_back(int(ca.u(int(ai++))));
            Val &v = ca.arg(int(ai)); char k = ca.ty[ca.first[ai]].kind; ++ai;
            if (v.s && k != 'i' && k != 'p') { out += '?'; continue; }
#define SP(x) (st.size() == 0 ? snprintf(b, sizeof b, sp.c_str(), x) : st.size() == 1 ? snprintf(b, sizeof b, sp.c_str(), st[0], x) : snprintf(b, sizeof b, sp.c_str(), st[0], st[1], x))
            if (k == 'd') SP(asD(v)); else if (k == 'x') SP(asL(v)); else if (sp.back() == 's') { std::string t = cstr(concretize(v, 64)); SP(t.c_str()); } else SP(concretize(v, 64));
            out += b;
        }
        if (lim) { uint64_t n = std::min<uint64_t>(out.size() + 1, lim); std::string w = out.substr(0, n - 1); checkRange(d, n, true); memcpy((void *)d, w.c_str(), n); if (inArena(d)) { dropSym(d, n); memset(shd(d), 2, n); } }
        retV(ca, Val(uint64_t(uint32_t(out.size())))); return CR_DONE; };
    H("snprintf", [snp](Ctx &c, CallArgs &ca) { return snp(c, ca, 2); });
    H("sprintf", [snp](Ctx &c, CallArgs &ca) { return snp(c, ca, 1); });
    // ---- exceptions
    H("__cxa_allocate_exception", [](Ctx &c, CallArgs &ca) { uint64_t a = arenaAlloc(ca.u(0), 1); retV(ca, Val(a)); return CR_DONE; });
    H("__cxa_throw", [](Ctx &c, CallArgs &ca) { uint64_t o = ca.u(0); ExcInfo e; e.ti = ca.u(1); e.dtor = ca.u(2); excs[o] = e; c.excObj = o; return CR_THROW; });
    auto bc = [](Ctx &c, CallArgs &ca) { uint64_t o = ca.u(0); if (ca.name == "__cxa_begin_catch") { c.caught.push_back(o); } retV(ca, Val(excAdj.count(o) ? excAdj[o] : o)); return CR_DONE; };
    H("__cxa_begin_catch", bc); H("__cxa_get_exception_ptr", bc);
    H("__cxa_end_catch", [](Ctx &c, CallArgs &ca) { if (!c.caught.empty()) c.caught.pop_back(); return CR_DONE; });
    H("__cxa_rethrow", [](Ctx &c, CallArgs &ca) { if (c.caught.empty()) violationEnd("terminate", "rethrow without an exception"); c.excObj = c.caught.back(); return CR_THROW; });
    H("__cxa_call_unexpected", [](Ctx &c, CallArgs &ca) -> CR { violationEnd("terminate", "unexpected exception (std::unexpected)"); });
    H("_ZSt9terminatev", [](Ctx &c, CallArgs &ca) -> CR { std::string w = c.caught.empty() ? "" : " with exception of type " + excWhat(c.caught.back()); violationEnd("terminate", "std::terminate is called" + w); });
    H("__cxa_pure_virtual", [](Ctx &c, CallArgs &ca) -> CR { violationEnd("terminate", "pure virtual call"); });
    H("__cxa_guard_acquire", [](Ctx &c, CallArgs &ca) { uint64_t a = ca.u(0); retV(ca, Val(*(uint8_t *)a ? 0 : 1)); return CR_DONE; });
    H("__cxa_guard_release", [](Ctx &c, CallArgs &ca) { *(uint8_t *)ca.u(0) = 1; return CR_DONE; });
    H("__cxa_guard_abort", nop);
    auto die = [](Ctx &c, CallArgs &ca) -> CR { violationEnd("abort", "the process is ended by " + ca.name); };
    for (auto n : {"abort", "exit", "_exit", "MPI_Abort", "__assert_fail", "llvm.trap", "llvm.ubsantrap", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) H(n, die);
    // ---- intrinsics
    H("llvm.expect", [](Ctx &c, CallArgs &ca) { retV(ca, ca.a[0]); return CR_DONE; });
    H("llvm.eh.typeid.for", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(selOf(ca.u(0))))); return CR_DONE; });
    H("llvm.objectsize", [](Ctx &c, CallArgs &ca) { retV(ca, Val(~0ull)); return CR_DONE; });
    auto ovf = [](Ctx &c, CallArgs &ca) {
        bool sg = ca.name[5] == 's'; char o = ca.name[6]; int bits = bitsOfArg(ca, 0); Val a = ca.arg(0), b = ca.arg(1);
        unsigned op = o == 'a' ? Instruction::Add : o == 's' ? Instruction::Sub : Instruction::Mul;
        if ((a.s && a.s->k == S_INT) || (b.s && b.s->k == S_INT)) {
            if ((!a.s || a.s->k == S_INT) && (!b.s || b.s->k == S_INT)) {
                Poly r = op == Instruction::Add ? polyAdd(intPoly(a, bits), intPoly(b, bits)) : op == Instruction::Sub ? polySub(intPoly(a, bits), intPoly(b, bits)) : polyMul(intPoly(a, bits), intPoly(b, bits));
                double lo, hi; polyInterval(r, lo, hi); double L = sg ? -std::ldexp(1., bits - 1) : 0, Hh = sg ? std::ldexp(1., bits - 1) - 1 : std::ldexp(1., bits) - 1;
                if (lo >= L && hi < std::min(Hh, 9e18)) { ca.ret = {mkInt(r, bits), Val(0)}; return CR_DONE; }
            }
            a = Val(concretize(a, bits)); b = Val(concretize(b, bits));
        }
        if (!a.s && !b.s) {
            __int128 x, y; if (sg) { x = sx(a.c, bits); y = sx(b.c, bits); } else { x = a.c & maskb(bits); y = b.c & maskb(bits); }
            bool of; uint64_t r;
            if (op == Instruction::Mul && !sg) { unsigned __int128 t = (unsigned __int128)(uint64_t)x * (uint64_t)y; r = uint64_t(t) & maskb(bits); of = t != (unsigned __int128)r; }
            else { __int128 t = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y; r = uint64_t(t) & maskb(bits); of = sg ? t != (__int128)sx(r, bits) : t != (__int128)r; }
            ca.ret = {Val(r), Val(of)}; return CR_DONE; }
        z3::expr x = bvOf(a, bits), y = bvOf(b, bits); z3::expr ok(*Z);
        if (op == Instruction::Mul) ok = z3::expr(*Z, Z3_mk_bvmul_no_overflow(*Z, x, y, sg)); else if (op == Instruction::Add) ok = z3::expr(*Z, Z3_mk_bvadd_no_overflow(*Z, x, y, sg)); else ok = z3::expr(*Z, Z3_mk_bvsub_no_underflow(*Z, x, y, sg));
        if (sg && op == Instruction::Mul) ok = ok && z3::expr(*Z, Z3_mk_bvmul_no_underflow(*Z, x, y)); if (sg && op == Instruction::Add) ok = ok && z3::expr(*Z, Z3_mk_bvadd_no_underflow(*Z, x, y)); if (sg && op == Instruction::Sub) ok = ok && z3::expr(*Z, Z3_mk_bvsub_no_overflow(*Z, x, y));
        ca.ret = {intBin(op, bits, a, b), mkBool(!ok)}; return CR_DONE; };
    for (auto n : {"llvm.umul.with.overflow", "llvm.smul.with.overflow", "llvm.uadd.with.overflow", "llvm.sadd.with.overflow", "llvm.usub.with.overflow", "llvm.ssub.with.overflow"}) H(n, ovf);
    auto mm = [](Ctx &c, CallArgs &ca) { int bits = bitsOfArg(ca, 0); bool sg = ca.name[5] == 's', mx = ca.name.find("max") != std::string::npos; Val a = ca.arg(0), b = ca.arg(1);
        unsigned p = sg ? (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT) : (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT); Val r = icmpOp(p, bits, a, b);
        if (r.s && r.s->k == S_BOOL && ((a.s && a.s->k == S_BV) || (b.s && b.s->k == S_BV))) retV(ca, mkBV(z3::ite(r.s->e, bvOf(a, bits), bvOf(b, bits)))); else retV(ca, concretizeBool(r) ? a : b); return CR_DONE; };
    for (auto n : {"llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin"}) H(n, mm);
    H("llvm.abs", [](Ctx &c, CallArgs &ca) { int bits = bitsOfArg(ca, 0); Val a = ca.arg(0); Val n = intBin(Instruction::Sub, bits, Val(0), a); Val r = icmpOp(CmpInst::ICMP_SLT, bits, a, Val(0));
        if (r.s && r.s->k == S_BOOL && a.s && a.s->k == S_BV) retV(ca, mkBV(z3::ite(r.s->e, bvOf(n, bits), bvOf(a, bits)))); else retV(ca, concretizeBool(r) ? n : a); return CR_DONE; });
    auto cnt = [](Ctx &c, CallArgs &ca) { int bits = bitsOfArg(ca, 0); Val &a = ca.arg(0);
        if (a.s && a.s->k == S_BV && ca.name.find("ctpop") == std::string::npos) { z3::expr x = a.s->e, r = Z->bv_val(bits, bits); bool lz = ca.name.find("ctlz") != std::string::npos;
            for (int i = 0; i < bits; ++i) { int bit = lz ? i : bits - 1 - i; r = z3::ite(x.extract(bit, bit) == Z->bv_val(1, 1), Z->bv_val(lz ? bits - 1 - i : bits - 1 - i, bits), r); }
            retV(ca, mkBV(r)); return CR_DONE; }
        uint64_t x = concretize(a, bits) & maskb(bits); uint64_t r;
        if (ca.name.find("ctlz") != std::string::npos) r = x ? __builtin_clzll(x) - (64 - bits) : bits; else if (ca.name.find("cttz") != std::string::npos) r = x ? __builtin_ctzll(x) : bits; else r = __builtin_popcountll(x); retV(ca, Val(r)); return CR_DONE; };
    H("llvm.ctlz", cnt); H("llvm.cttz", cnt); H("llvm.ctpop", cnt);
    H("llvm.x86.sse2.movmsk.pd", [](Ctx &c, CallArgs &ca) { uint64_t r = 0; for (int i = 0; i < 2; ++i) { Val &v = ca.a[i]; bool n = v.s ? decideRel(v.s->p, 2) : v.c >> 63; r |= uint64_t(n) << i; } retV(ca, Val(r)); return CR_DONE; });
    auto ssemm = [](Ctx &c, CallArgs &ca) { bool mx = ca.name.find("max") != std::string::npos; int n = int(ca.a.size()) / 2; ca.ret.clear(); for (int i = 0; i < n; ++i) { Val a = ca.a[i], b = ca.a[n + i]; ca.ret.push_back(concretizeBool(fcmpOp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, 'd', a, b)) ? a : b); } return CR_DONE; };
    H("llvm.x86.sse2.max.pd", ssemm); H("llvm.x86.sse2.min.pd", ssemm);
    auto fma_ = [](Ctx &c, CallArgs &ca) { char k = ca.ty[0].kind; retV(ca, fpBin(Instruction::FAdd, k, fpBin(Instruction::FMul, k, ca.arg(0), ca.arg(1)), ca.arg(2))); return CR_DONE; };
    H("llvm.fmuladd", fma_); H("llvm.fma", fma_); H("fma", fma_);
    for (std::string n : {"sin", "cos", "tan", "exp", "log", "sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "asin", "acos", "atan", "log10", "log2", "exp2", "cbrt", "sinh", "cosh", "tanh", "expm1", "log1p"}) {
        handlers[n] = [n](Ctx &c, CallArgs &ca) { return mathCall(ca, n, 'd'); };
        handlers[n + "f"] = [n](Ctx &c, CallArgs &ca) { return mathCall(ca, n, 'f'); };
        handlers[n + "l"] = [n](Ctx &c, CallArgs &ca) { return mathCall(ca, n, 'x'); };
        handlers["llvm." + n] = [n](Ctx &c, CallArgs &ca) { int nn = int(ca.a.size()); if (nn == 1) return mathCall(ca, n, ca.ty[0].kind); std::vector<Val> r; for (int i = 0; i < nn; ++i) { CallArgs x; x.in = ca.in; x.a = {ca.a[i]}; x.ty = {ca.ty[i]}; x.first = {0}; x.name = ca.name; mathCall(x, n, ca.ty[i].kind); r.push_back(x.ret[0]); } ca.ret = r; return CR_DONE; };
    }
    for (std::string n : {"lround", "llround", "lrint", "llrint"}) for (std::string sfx : {"", "f", "l"}) { char k = sfx == "" ? 'd' : sfx == "f" ? 'f' : 'x'; std::string b = n.find("round") != std::string::npos ? "round" : "rint";
        auto f = [k, b](Ctx &c, CallArgs &ca) { mathCall(ca, b, k); Val r = ca.ret[0]; retV(ca, castOp(Instruction::FPToSI, LT(k), LI(64), r)); return CR_DONE; };
        handlers[n + sfx] = f; if (sfx == "") { auto g = [b](Ctx &c, CallArgs &ca) { char kk = ca.ty[0].kind; int bits = ca.in ? int(ca.in->I->getType()->getIntegerBitWidth()) : 64; mathCall(ca, b, kk); Val r = ca.ret[0]; retV(ca, castOp(Instruction::FPToSI, LT(kk), LI(bits), r)); return CR_DONE; }; handlers["llvm." + n] = g; } }
    H("modf", [](Ctx &c, CallArgs &ca) { Val a = ca.arg(0); uint64_t ip = ca.u(1); CallArgs x; x.in = ca.in; x.a = {a}; x.ty = {ca.ty[0]}; x.first = {0}; x.name = "trunc"; mathCall(x, "trunc", 'd'); storeLane(ip, x.ret[0], LT('d')); retV(ca, fpBin(Instruction::FSub, 'd', a, x.ret[0])); return CR_DONE; });
    H("frexp", [](Ctx &c, CallArgs &ca) { Val a = ca.arg(0); if (a.s) unsupported("frexp of a symbolic value"); int e; double m = std::frexp(double(concFP(a, 'd')), &e); storeLane(ca.u(1), Val(uint64_t(uint32_t(e))), LI(32)); retV(ca, fromD(m)); return CR_DONE; });
    H("llvm.threadlocal.address", [](Ctx &c, CallArgs &ca) { // thread 0 uses the variable itself, every other thread a copy of its initial value
        auto *G = dyn_cast<GlobalVariable>(cast<CallBase>(ca.in->I)->getArgOperand(0)); if (c.tid == 0 || !G) { retV(ca, ca.arg(0)); return CR_DONE; }
        static std::map<std::tuple<GlobalVariable *, int, int>, uint64_t> tl; uint64_t &a = tl[{G, c.rank, c.tid}];
        if (!a) { uint64_t sz = DL->getTypeAllocSize(G->getValueType()); a = arenaAlloc(sz, 2, 64); if (G->hasInitializer()) initMem(a, G->getInitializer(), c.rank); }
        retV(ca, Val(a)); return CR_DONE; });
    for (std::string n : {"pow", "atan2", "fmod", "hypot", "fmin", "fmax", "copysign", "fdim", "remainder", "nextafter", "minnum", "maxnum"}) {
        handlers[n] = [n](Ctx &c, CallArgs &ca) { return math2(ca, n, 'd'); };
        handlers[n + "f"] = [n](Ctx &c, CallArgs &ca) { return math2(ca, n, 'f'); };
        handlers[n + "l"] = [n](Ctx &c, CallArgs &ca) { return math2(ca, n, 'x'); };
        handlers["llvm." + n] = [n](Ctx &c, CallArgs &ca) { return math2(ca, n, ca.ty[0].kind); };
    }
    auto ldx = [](Ctx &c, CallArgs &ca) { char k = ca.ty[0].kind; int e = int(int32_t(ca.u(1))); Val a = ca.arg(0); if (!a.s) retV(ca, fromFP(ldexpl(concFP(a, k), e), k)); else if (a.s->k == S_REAL) { mpq_class q = 1; if (e >= 0) q = mpq_class(mpz_class(1) << e); else q = mpq_class(1, mpz_class(1) << (-e)); retV(ca, mkRealP(polyScale(a.s->p, q), fpbits(k))); } else unsupported("ieee ldexp"); return CR_DONE; };
    H("ldexp", ldx); H("ldexpl", ldx); H("ldexpf", ldx); H("llvm.ldexp", ldx); H("scalbn", ldx);
    H("__mulsc3", nullptr); handlers.erase("__mulsc3");
    auto isn = [](Ctx &c, CallArgs &ca) { char k = ca.ty[0].kind; Val &a = ca.arg(0); int w = int(ca.u(1)); if (a.s && a.s->k == S_FPX) { z3::expr r = Z->bool_val(false); if (w & 3) r = r || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, a.s->e)); if (w & 0x204) r = r || z3::expr(*Z, Z3_mk_fpa_is_infinite(*Z, a.s->e)); retV(ca, mkBool(r)); return CR_DONE; }
        if (a.s) { // a symbolic real: never NaN or infinite; zero, negative or positive (no subnormals in the real model)
            int c0 = w & 0x60, cn = w & 0x8, cp = w & 0x100;
            if (c0 && cn && cp) { retV(ca, Val(1)); return CR_DONE; } if (!c0 && !cn && !cp) { retV(ca, Val(0)); return CR_DONE; }
            bool pos = concretizeBool(fcmpOp(CmpInst::FCMP_OGT, k, a, fromFP(0, k))), neg = !pos && concretizeBool(fcmpOp(CmpInst::FCMP_OLT, k, a, fromFP(0, k)));
            retV(ca, Val(uint64_t(pos ? cp != 0 : neg ? cn != 0 : c0 != 0))); return CR_DONE; }
        long double x = concFP(a, k); { int cl = std::fpclassify(x); bool ng = std::signbit(x); int bit = cl == FP_NAN ? 3 : cl == FP_INFINITE ? (ng ? 4 : 0x200) : cl == FP_ZERO ? (ng ? 0x20 : 0x40) : k == 'x' || cl == FP_NORMAL && (k == 'd' ? std::fabs(x) >= 2.2250738585072014e-308L : std::fabs(x) >= 1.17549435e-38L) ? (ng ? 8 : 0x100) : (ng ? 0x10 : 0x80); retV(ca, Val(uint64_t((w & bit) != 0))); return CR_DONE; }
    };
    H("llvm.is.fpclass", isn);
    // ---- MPI
    H("MPI_Initialized", [](Ctx &c, CallArgs &ca) { LaneTy t = LI(32); storeLane(ca.u(0), Val(1), t); retV(ca, Val(0)); return CR_DONE; });
    H("MPI_Init_thread", [](Ctx &c, CallArgs &ca) { LaneTy t = LI(32); storeLane(ca.u(3), Val(3), t); retV(ca, Val(0)); return CR_DONE; });
    H("MPI_Comm_rank", [](Ctx &c, CallArgs &ca) { LaneTy t = LI(32); storeLane(ca.u(1), Val(uint64_t(commRank(ca.u(0), c.rank))), t); retV(ca, Val(0)); return CR_DONE; });
    H("MPI_Comm_size", [](Ctx &c, CallArgs &ca) { LaneTy t = LI(32); storeLane(ca.u(1), Val(uint64_t(commGroup(ca.u(0), c.rank).size())), t); retV(ca, Val(0)); return CR_DONE; });
    H("MPI_Comm_dup", [](Ctx &c, CallArgs &ca) { return postColl(c, ca, "Dup", 2, 0); });
    H("MPI_Comm_split", [](Ctx &c, CallArgs &ca) { return postColl(c, ca, "Split", 4, 0); });
    H("MPI_Comm_free", [](Ctx &c, CallArgs &ca) { LaneTy t; t.kind = 'p'; t.bits = 64; t.sz = 8; c.coll = CollReq(); c.coll.kind = "Free"; c.coll.inst = ca.in; c.coll.args[0] = ca.u(0); c.coll.comm = concretize(loadLane(ca.u(0), t), 64); commRank(c.coll.comm, c.rank); c.st = C_COLL; return CR_BLOCK; });
    static double wt = 1; 
    auto wtime = [](Ctx &c, CallArgs &ca) { wt += 1e-3; retV(ca, fromD(wt)); return CR_DONE; };
    H("MPI_Wtime", wtime); H("omp_get_wtime", wtime);
    H("gettimeofday", [](Ctx &c, CallArgs &ca) { LaneTy t = LI(64); wt += 1e-3; storeLane(ca.u(0), Val(uint64_t(wt)), t); storeLane(ca.u(0) + 8, Val(0), t); retV(ca, Val(0)); return CR_DONE; });
    struct { const char *n; int k; } colls[] = {{"Barrier", 1}, {"Bcast", 5}, {"Allreduce", 6}, {"Reduce", 7}, {"Scan", 6}, {"Allgather", 7}, {"Gather", 8}, {"Gatherv", 9}, {"Alltoall", 7}, {"Alltoallv", 9}};
    for (auto &x : colls) { std::string n = x.n; int k = x.k; handlers["MPI_" + n] = [n, k](Ctx &c, CallArgs &ca) { return postColl(c, ca, n.c_str(), k, k - 1); }; }
    auto send = [](Ctx &c, uint64_t buf, int64_t cnt, uint64_t dt, int64_t dst, int64_t tag, uint64_t comm) {
        auto g = commGroup(comm, c.rank); commRank(comm, c.rank);
        if (dst == -2) return; // MPI_PROC_NULL
        if (cnt < 0 || dst < 0 || dst >= int64_t(g.size())) violationEnd("mpi", "invalid count or destination in a send");
        uint64_t n = uint64_t(cnt) * mpiType(dt).sz; if (n) checkRange(buf, n, false);
        uint64_t a = arenaAlloc(n, 2); copyMem(a, buf, n); Msg m; m.src = c.rank; m.dst = g[size_t(dst)]; m.tag = int(tag); m.comm = comm; m.addr = a; m.bytes = n; msgs.push_back(m); };
    H("MPI_Send", [send](Ctx &c, CallArgs &ca) { send(c, ca.u(0), I32(ca.u(1)), ca.u(2), I32(ca.u(3)), I32(ca.u(4)), ca.u(5)); retV(ca, Val(0)); return CR_DONE; });
    H("MPI_Recv", [](Ctx &c, CallArgs &ca) { return postRecv(c, ca, {0, 1, 2, 3, 4, 5}); });
    H("MPI_Sendrecv", [send](Ctx &c, CallArgs &ca) { send(c, ca.u(0), I32(ca.u(1)), ca.u(2), I32(ca.u(3)), I32(ca.u(4)), ca.u(10)); return postRecv(c, ca, {5, 6, 7, 8, 9, 10}); });
    H("MPI_Sendrecv_replace", [send](Ctx &c, CallArgs &ca) { send(c, ca.u(0), I32(ca.u(1)), ca.u(2), I32(ca.u(3)), I32(ca.u(4)), ca.u(7)); return postRecv(c, ca, {0, 1, 2, 5, 6, 7}); });
    // ---- OpenMP
    H("__kmpc_fork_call", forkCall);
    H("__kmpc_global_thread_num", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(c.tid))); return CR_DONE; });
    H("omp_get_thread_num", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(c.team && c.team->n > 1 ? c.tid : 0))); return CR_DONE; });
    H("omp_get_num_threads", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(c.team ? c.team->n : 1))); return CR_DONE; });
    H("omp_get_max_threads", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(ompMaxThreads(c)))); return CR_DONE; });
    H("omp_set_num_threads", [](Ctx &c, CallArgs &ca) { setThreads[c.rank & 63] = int(I32(ca.u(0))); return CR_DONE; });
    H("__kmpc_push_num_threads", [](Ctx &c, CallArgs &ca) { c.pushThreads = int(I32(ca.u(2))); return CR_DONE; });
    H("omp_get_thread_limit", [](Ctx &c, CallArgs &ca) { long g = ompParam("grant"); retV(ca, Val(uint64_t(g ? g : 0x7fffffff))); return CR_DONE; });
    H("omp_get_num_procs", [](Ctx &c, CallArgs &ca) { long g = ompParam("procs"); retV(ca, Val(uint64_t(g ? g : optThreads))); return CR_DONE; });
    H("omp_in_parallel", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(c.team && c.team->n > 1))); return CR_DONE; });
    auto bar = [](Ctx &c, CallArgs &ca) { if (!c.team || c.team->n == 1) { retV(ca, Val(0)); return CR_DONE; } c.st = C_BARRIER; return CR_BLOCK; };
    H("__kmpc_barrier", bar);
    H("__kmpc_critical", [](Ctx &c, CallArgs &ca) { c.critical++; return CR_DONE; }); H("__kmpc_critical_with_hint", [](Ctx &c, CallArgs &ca) { c.critical++; return CR_DONE; });
    H("__kmpc_end_critical", [](Ctx &c, CallArgs &ca) { c.critical--; return CR_DONE; });
    auto red = [](Ctx &c, CallArgs &ca) { c.critical++; retV(ca, Val(1)); return CR_DONE; };
    auto ered = [](Ctx &c, CallArgs &ca) { c.critical--; return CR_DONE; };
    H("__kmpc_reduce_nowait", red); H("__kmpc_end_reduce_nowait", ered);
    H("__kmpc_reduce", red); H("__kmpc_end_reduce", [bar](Ctx &c, CallArgs &ca) { c.critical--; return bar(c, ca); });
    auto mst = [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(!c.team || c.team->n == 1 || c.tid == 0))); return CR_DONE; };
    H("__kmpc_master", mst); H("__kmpc_masked", mst); H("__kmpc_single", mst);
    for (auto n : {"__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel"}) H(n, nop);
    H("omp_set_lock", [](Ctx &c, CallArgs &ca) { c.critical++; return CR_DONE; }); H("omp_unset_lock", [](Ctx &c, CallArgs &ca) { c.critical--; return CR_DONE; }); H("omp_init_lock", nop);
    for (const char *f : {"pthread_mutex_lock", "__gthread_mutex_lock", "pthread_spin_lock"}) H(f, [](Ctx &c, CallArgs &ca) { c.critical++; retV(ca, Val(0)); return CR_DONE; });
    for (const char *f : {"pthread_mutex_unlock", "__gthread_mutex_unlock", "pthread_spin_unlock"}) H(f, [](Ctx &c, CallArgs &ca) { c.critical--; retV(ca, Val(0)); return CR_DONE; });
    for (const char *f : {"pthread_mutex_init", "pthread_mutex_destroy"}) H(f, [](Ctx &c, CallArgs &ca) { retV(ca, Val(0)); return CR_DONE; }); H("omp_destroy_lock", nop);
    auto fsi = [](Ctx &c, CallArgs &ca) { // loc gtid sched plast plower pupper pstride incr chunk
        int bits = ca.name.find("_8") != std::string::npos ? 64 : 32; bool us = ca.name.back() == 'u'; LaneTy t = LI(bits), t32 = LI(32);
        int sched = int(int32_t(ca.u(2))) & 0xffff; uint64_t pl = ca.u(4), pu = ca.u(5), ps = ca.u(6), plast = ca.u(3); int64_t incr = sx(ca.u(7), bits), chunk = sx(ca.u(8), bits);
        auto rd = [&](uint64_t a) { uint64_t x = concretize(loadLane(a, t), bits); return us ? (__int128)(x & maskb(bits)) : (__int128)sx(x, bits); };
        auto wr = [&](uint64_t a, __int128 v) { storeLane(a, Val(uint64_t(v) & maskb(bits)), t); };
        int n = c.team ? c.team->n : 1, me = n == 1 ? 0 : c.tid; __int128 lo = rd(pl), hi = rd(pu);
        __int128 trip = incr > 0 ? (hi >= lo ? (hi - lo) / incr + 1 : 0) : (lo >= hi ? (lo - hi) / (-incr) + 1 : 0);
        bool last = false;
        if (sched == 34) {
            if (trip == 0) { // no iteration: lower stays, upper < lower already
                wr(ps, incr); last = false; }
            else { __int128 sm = trip / n, ex = trip % n, nl = lo + incr * (me * sm + (me < ex ? me : ex)), nu = nl + sm * incr - (me < ex ? 0 : incr);
                wr(pl, nl); wr(pu, nu); wr(ps, trip * incr); last = me == (trip < n ? int(trip) - 1 : n - 1); }
        } else if (sched == 33) {
            if (chunk < 1) chunk = 1; __int128 span = (__int128)chunk * incr; wr(ps, span * n); wr(pl, lo + span * me); wr(pu, lo + span * me + span - incr); last = trip && me == int(((trip - 1) / chunk) % n);
        } else unsupported("loop schedule");
        if (plast) storeLane(plast, Val(uint64_t(last)), t32);
        return CR_DONE; };
    for (auto n : {"__kmpc_for_static_init_4", "__kmpc_for_static_init_4u", "__kmpc_for_static_init_8", "__kmpc_for_static_init_8u"}) H(n, fsi);
    auto dinit = [](Ctx &c, CallArgs &ca) { // loc gtid sched lb ub st chunk
        int bits = ca.name.find("_8") != std::string::npos ? 64 : 32; Dispatch d; d.lo = sx(ca.u(3), bits); d.hi = sx(ca.u(4), bits); d.st = sx(ca.u(5), bits); d.chunk = std::max<int64_t>(1, sx(ca.u(6), bits)); d.next = d.lo; d.active = true;
        int s = ++dispSeq[&c]; auto key = std::make_pair(c.team, s); if (!disp.count(key)) disp[key] = d; return CR_DONE; };
    auto dnext = [](Ctx &c, CallArgs &ca) { // loc gtid plast plb pub pst ; chunks handed out one per request
        int bits = ca.name.find("_8") != std::string::npos ? 64 : 32; LaneTy t = LI(bits), t32 = LI(32); Dispatch &d = disp[{c.team, dispSeq[&c]}];
        int n = c.team ? c.team->n : 1; (void)n;
        bool more = d.st > 0 ? d.next <= d.hi : d.next >= d.hi; if (!more) { retV(ca, Val(0)); return CR_DONE; }
        int64_t lo = d.next, hi = lo + (d.chunk - 1) * d.st; if (d.st > 0 ? hi > d.hi : hi < d.hi) hi = d.hi; d.next = lo + d.chunk * d.st;
        bool ro = raceOn; raceOn = false; storeLane(ca.u(3), Val(uint64_t(lo) & maskb(bits)), t); storeLane(ca.u(4), Val(uint64_t(hi) & maskb(bits)), t); storeLane(ca.u(5), Val(uint64_t(d.st) & maskb(bits)), t); if (ca.u(2)) storeLane(ca.u(2), Val(uint64_t(!(d.st > 0 ? d.next <= d.hi : d.next >= d.hi))), t32); raceOn = ro;
        retV(ca, Val(1)); 
        // let the other threads take chunks too
        return CR_DONE; };
    for (auto n : {"__kmpc_dispatch_init_4", "__kmpc_dispatch_init_4u", "__kmpc_dispatch_init_8", "__kmpc_dispatch_init_8u"}) H(n, dinit);
    for (auto n : {"__kmpc_dispatch_next_4", "__kmpc_dispatch_next_4u", "__kmpc_dispatch_next_8", "__kmpc_dispatch_next_8u"}) H(n, dnext);
    // ---- harness interface
    H("vp_real", [](Ctx &c, CallArgs &ca) { retV(ca, inputReal(cstr(ca.u(0)), asD(ca.arg(1)), asD(ca.arg(2)), 'r', 1)); return CR_DONE; });
    H("vp_realf", [](Ctx &c, CallArgs &ca) { retV(ca, inputReal(cstr(ca.u(0)), asD(ca.arg(1)), asD(ca.arg(2)), 'f', 1)); return CR_DONE; });
    H("vp_angle", [](Ctx &c, CallArgs &ca) { retV(ca, inputReal(cstr(ca.u(0)), asD(ca.arg(1)), asD(ca.arg(2)), 'r', int(ca.u(3)))); return CR_DONE; });
    auto vint = [](Ctx &c, CallArgs &ca) { std::string nm = cstr(ca.u(0)); int64_t lo = int64_t(ca.u(1)), hi = int64_t(ca.u(2)); int bits = 64;
        auto it = inputIdx.find(nm); int v; if (it != inputIdx.end()) v = inputs[it->second].var; else { v = newVar(nm, double(lo), double(hi), true, 0); Input in{nm, 'i', v, z3::expr(*Z), "", 1}; inputIdx[nm] = int(inputs.size()); inputs.push_back(in); }
        retV(ca, mkInt(polyVar(v), bits)); return CR_DONE; };
    H("vp_int", vint);
    H("vp_choose", [](Ctx &c, CallArgs &ca) { std::string nm = cstr(ca.u(0)); int64_t lo = int64_t(ca.u(1)), hi = int64_t(ca.u(2));
        auto it = inputIdx.find(nm); if (it != inputIdx.end()) { retV(ca, Val(uint64_t(atoll(inputs[it->second].conc.c_str())))); return CR_DONE; }
        if (hi < lo) endPath("infeasible");
        int64_t v = lo; for (; v < hi; ++v) if (forkPath()) break;
        Input in{nm, 'c', -1, z3::expr(*Z), std::to_string(v), 1}; inputIdx[nm] = int(inputs.size()); inputs.push_back(in);
        retV(ca, Val(uint64_t(v))); return CR_DONE; });
    auto vbv = [](Ctx &c, CallArgs &ca) { std::string nm = cstr(ca.u(0)); int bits = ca.name == "vp_bv64" ? 64 : ca.name == "vp_bv8" ? 8 : 32; auto it = inputIdx.find(nm); if (it != inputIdx.end()) { retV(ca, mkBV(inputs[it->second].e)); return CR_DONE; }
        z3::expr e = Z->bv_const(nm.c_str(), bits); Input in{nm, 'b', -1, e, "", bits}; inputIdx[nm] = int(inputs.size()); inputs.push_back(in); retV(ca, mkBV(e)); return CR_DONE; };
    H("vp_bv32", vbv); H("vp_bv64", vbv); H("vp_bv8", vbv);
    auto vfp = [](Ctx &c, CallArgs &ca) { std::string nm = cstr(ca.u(0)); bool f = ca.name == "vp_float"; auto it = inputIdx.find(nm); if (it != inputIdx.end()) { retV(ca, mkFPX(inputs[it->second].e, f ? 32 : 64)); return CR_DONE; }
        z3::expr e = Z->constant(nm.c_str(), f ? Z->fpa_sort(8, 24) : Z->fpa_sort(11, 53)); Input in{nm, f ? 'g' : 'd', -1, e, "", 1}; inputIdx[nm] = int(inputs.size()); inputs.push_back(in); retV(ca, mkFPX(e, f ? 32 : 64)); return CR_DONE; };
    H("vp_double", vfp); H("vp_float", vfp);
    H("vp_assume", [](Ctx &c, CallArgs &ca) { Val &v = ca.arg(0); if (!v.s) { if (!(v.c & 1)) endPath("infeasible"); return CR_DONE; }
        if (v.s->k == S_BOOL && v.s->hi == 12345) learn(v.s->p, int(v.s->lo));
        addPC(boolExpr(v)); if (query({}) == z3::unsat) endPath("infeasible"); return CR_DONE; });
    H("vp_assert", [](Ctx &c, CallArgs &ca) { std::string m = cstr(ca.u(1)); Val &v = ca.arg(0); if (!v.s) { sh->obligations++; if (v.c & 1) { sh->discharged++; sh->trivial++; return CR_DONE; } violationEnd("assert", m); } checkAssert(boolExpr(v), m); return CR_DONE; });
    H("vp_assert_near", [](Ctx &c, CallArgs &ca) { double tol = asD(ca.arg(2)); std::string m = cstr(ca.u(3)); Val a = ca.arg(0), b = ca.arg(1);
        if ((!a.s && !std::isfinite(asD(a))) || (!b.s && !std::isfinite(asD(b)))) violationEnd("assert", m + " (not finite)");
        double l, h; Poly p = realPoly(a, 'd', l, h), q = realPoly(b, 'd', l, h); assertNear({polySub(p, q)}, tol, m); return CR_DONE; });
    H("vp_assert_near_known", [](Ctx &c, CallArgs &ca) { double tol = asD(ca.arg(3)); std::string m = cstr(ca.u(4)), f = cstr(ca.u(5)); Val a = ca.arg(0), b = ca.arg(1), k = ca.arg(2);
        if ((!a.s && !std::isfinite(asD(a))) || (!b.s && !std::isfinite(asD(b)))) violationEnd("assert", m + " (not finite)");
        double l, h; Poly p = realPoly(a, 'd', l, h), q = realPoly(b, 'd', l, h), kk = realPoly(k, 'd', l, h); assertNear({polySub(p, q), polySub(p, kk)}, tol, m, f); return CR_DONE; });
    H("vp_reach", [](Ctx &c, CallArgs &ca) { logLine("R " + cstr(ca.u(0))); return CR_DONE; });
    H("vp_option", [](Ctx &c, CallArgs &ca) { std::string o = cstr(ca.u(0)); int64_t v = int64_t(ca.u(1)); if (o == "round") roundMode = v; else if (o == "overflow") checkOvf = v; else if (o == "fptoint") checkFpToInt = v; else if (o == "fail_alloc") failAllocAt = v; else if (o == "alloc_limit") optAllocLimit = uint64_t(v); else if (o == "bvreal") bvReal = v; else if (o == "big") optBig = uint64_t(v); else if (o == "conc") optConcLimit = uint64_t(v); else unsupported("option " + o); return CR_DONE; });
    H("vp_fix", [](Ctx &c, CallArgs &ca) { retV(ca, Val(concretize(ca.arg(0), 64))); return CR_DONE; });
    H("vp_symbolic", [](Ctx &c, CallArgs &ca) { retV(ca, Val(1)); return CR_DONE; });
    H("vp_param", [](Ctx &c, CallArgs &ca) { std::string n = cstr(ca.u(0)); auto it = optParams.find(n); retV(ca, Val(it == optParams.end() ? ca.u(1) : uint64_t(it->second))); return CR_DONE; });
    H("vp_rank", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(c.rank))); return CR_DONE; });
    H("vp_ranks", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(optRanks))); return CR_DONE; });
    H("vp_threads", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(optThreads))); return CR_DONE; });
    H("vp_heap_live", [](Ctx &c, CallArgs &ca) { retV(ca, Val(heapLive)); return CR_DONE; });
    H("vp_alloc_count", [](Ctx &c, CallArgs &ca) { retV(ca, Val(uint64_t(allocCount))); return CR_DONE; });
    H("vp_is_init", [](Ctx &c, CallArgs &ca) { uint64_t a = ca.u(0), n = ca.u(1); bool ok = true; for (uint64_t i = 0; i < n; ++i) if (inArena(a + i) && *shd(a + i) == 1) ok = false; retV(ca, Val(ok)); return CR_DONE; });
    H("vp_barrier", [](Ctx &c, CallArgs &ca) { return postColl(c, ca, "Barrier", 0, -1); });
    H("vp_print", [](Ctx &c, CallArgs &ca) { std::string m = cstr(ca.u(0)); Val &v = ca.arg(1); std::string t; if (!v.s) { char b[50]; snprintf(b, 50, "%.17g", asD(v)); t = b; } else if (v.s->k == S_REAL) { char b[80]; snprintf(b, 80, " in [%g,%g]", v.s->lo, v.s->hi); t = polyStr(v.s->p, 30) + b; } else t = v.s->e.to_string(); fprintf(stderr, "[rank %d] %s = %s\n", c.rank, m.c_str(), t.c_str()); return CR_DONE; });
}
static bool isCoutLike(uint64_t a) { return a == (uint64_t)&std::cout || a == (uint64_t)&std::cerr || a == (uint64_t)&std::clog; }
static Handler *findHandler(const std::string &n) {
    // a harness may bring its own model of a C function (vp_model_<name>, encoded like any other code; used for symbolic characters)
    auto mt = fiByName.find("vp_model_" + n);
    if (mt != fiByName.end() && mt->second && !mt->second->F->isDeclaration()) {
        FuncInfo *fi = mt->second; Handler *h = new Handler;
        *h = [fi](Ctx &c, CallArgs &ca) -> CR { std::vector<Val> av = ca.a; pushFrame(c, fi, av, nullptr); return CR_FRAME; };
        return h;
    }
    auto it = handlers.find(n); if (it != handlers.end() && it->second) return &it->second;
    if (n.compare(0, 5, "llvm.") == 0) { // strip type suffixes
        std::string b = n; size_t p;
        while ((p = b.rfind('.')) != std::string::npos && p > 4) { b = b.substr(0, p); auto jt = handlers.find(b); if (jt != handlers.end() && jt->second) return &jt->second; }
    }
    if (n.find("__gnu_cxx12__to_xstring") != std::string::npos) return &handlers["_ZN9__gnu_cxx12__to_xstring"];
    if (streamName(n)) {
        FuncInfo *fi = fiByName[n];
        if (!fi->F->isDeclaration() && !fi->F->hasAvailableExternallyLinkage() && !fi->F->hasLinkOnceODRLinkage()) return nullptr;
        void *p = dlsym(RTLD_DEFAULT, n.c_str());
        if (!p) { if (fi->F->isDeclaration()) unsupported("stream function " + n); 
            if (n.compare(0, 6, "_ZStls") != 0 && n.compare(0, 6, "_ZStrs") != 0) return nullptr; }
        bool inserter = n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 9, "_ZSt4endl") == 0 || n.compare(0, 10, "_ZSt5flush") == 0 || n.find("ostream_insert") != std::string::npos;
        Handler *h = new Handler;
        *h = [p, inserter, fi](Ctx &c, CallArgs &ca) -> CR {
            if (inserter && !ca.a.empty() && !ca.a[0].s && isCoutLike(ca.a[0].c)) { retV(ca, ca.a[0]); return CR_DONE; }
            if (inserter) for (size_t i = 1; i < ca.a.size(); ++i) if (ca.a[i].s && ca.ty[i].kind != 'p') { retV(ca, ca.a[0]); return CR_DONE; }
            for (size_t i = 0; i < ca.a.size(); ++i) if (!ca.a[i].s && ca.ty[i].kind == 'p') { auto it = fnAddr.find(ca.a[i].c); if (it != fnAddr.end()) { void *q = dlsym(RTLD_DEFAULT, it->second->name.c_str()); if (!q) unsupported("function pointer passed to a native function"); ca.a[i].c = (uint64_t)q; } }
            if (!p) { std::vector<Val> av = ca.a; pushFrame(c, fi, av, nullptr); return CR_FRAME; }
            return callNative(c, ca, p, fi->F->getReturnType());
        };
        return h;
    }
    return nullptr;
}
