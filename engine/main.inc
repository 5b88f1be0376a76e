// ------------------------------------------------------------------ scheduling and entry
static bool runTree(Ctx *c);
static bool runTeam(Ctx *p) {
    Team *t = p->child; bool prog = false;
    bool ro = raceOn;
    raceOn = t->n > 1 || ro;
    int n = int(t->th.size());
    for (int i = 0; i < n; ++i) { Ctx *x = t->th[optRevThreads ? n - 1 - i : i]; if (runTree(x)) prog = true; }
    int done = 0, bar = 0; for (auto *x : t->th) { if (x->st == C_DONE) ++done; else if (x->st == C_BARRIER) ++bar; }
    if (done == n) { if (t->n > 1) raceLog.clear(); raceOn = ro;
        for (auto *x : t->th) { memset(shd(x->stackBase), 0, x->stackPtr - x->stackBase); }
        p->child = nullptr; p->st = C_RUN; std::vector<Val> r; finishCall(*p, r); return true; }
    if (done + bar == n && bar) {
        if (done) { cur = p; violationEnd("omp", "some threads wait at a barrier that others never reach"); }
        raceLog.clear(); std::vector<Val> r; for (auto *x : t->th) { x->st = C_RUN; finishCall(*x, r); } prog = true; }
    raceOn = ro;
    return prog;
}
static bool runTree(Ctx *c) {
    bool p = false;
    for (;;) {
        if (c->st == C_RUN) { runCtx(*c); p = true; continue; }
        if (c->st == C_TEAM) { if (runTeam(c)) { p = true; continue; } }
        break;
    }
    return p;
}
static void leaves(Ctx *c, std::vector<Ctx *> &out) { if (c->st == C_TEAM) { for (auto *x : c->child->th) if (x->st != C_DONE) leaves(x, out); } else out.push_back(c); }
static void runAll() {
    for (;;) {
        bool prog = false;
        for (auto *r : ranksCtx) if (runTree(r)) prog = true;
        // point to point
        std::vector<Ctx *> L; for (auto *r : ranksCtx) leaves(r, L);
        for (auto *x : L) if (x->st == C_RECV) {
            int src = int(I32(x->coll.args[3])), tag = int(I32(x->coll.args[4]));
            for (size_t i = 0; i < msgs.size(); ++i) if (msgs[i].dst == x->rank && msgs[i].comm == x->coll.comm && (src < 0 || msgs[i].src == src) && (tag < 0 || msgs[i].tag == tag)) {
                cur = x; curInst = x->coll.inst; uint64_t n = uint64_t(I32(x->coll.args[1])) * mpiType(x->coll.args[2]).sz;
                if (msgs[i].bytes > n) violationEnd("mpi", "message longer than the receive buffer");
                if (msgs[i].bytes) { checkRange(x->coll.args[0], msgs[i].bytes, true); copyMem(x->coll.args[0], msgs[i].addr, msgs[i].bytes); }
                msgs.erase(msgs.begin() + long(i)); deliver(*x, Val(0)); prog = true; break; } }
        if (prog) continue;
        bool allDone = true; for (auto *x : L) if (x->st != C_DONE) allDone = false;
        if (allDone) return;
        // a collective runs when every member of its communicator has entered one on it
        for (auto *x : L) if (x->st == C_COLL) {
            cur = x; curInst = x->coll.inst; auto g = commGroup(x->coll.comm, x->rank); std::vector<Ctx *> m;
            for (int r : g) { Ctx *y = nullptr; int k = 0; for (auto *z : L) if (z->rank == r && z->st == C_COLL && z->coll.comm == x->coll.comm) { y = z; ++k; } if (k == 1) m.push_back(y); }
            if (m.size() == g.size()) { collExec(m); prog = true; break; } }
        if (prog) continue;
        collViolation("deadlock: the ranks wait for each other", L);
    }
}
static char altStack[1 << 16];
static void segv(int, siginfo_t *si, void *) {
    if (cur) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGSEGV); sigprocmask(SIG_UNBLOCK, &s, 0);
        char b[100]; snprintf(b, sizeof b, "access to invalid address %p%s", si->si_addr, inNative ? " in a library function" : "");
        static int once = 0; if (once++) _exit(3);
        violationEnd("segfault", b);
    }
    _exit(3);
}
static void explore() {
    Z = new z3::context();

    LLVMContext *ctx = new LLVMContext; SMDiagnostic err;
    extern std::string bitcodeFile;
    auto mod = parseIRFile(bitcodeFile, err, *ctx); if (!mod) { std::string s; raw_string_ostream o(s); err.print("symex", o); logLine("E " + s); _exit(4); }
    M = mod.release(); DL = new DataLayout(M);
    for (auto &F : *M) fiFor(&F);
    gaddr.resize(optRanks);
    initHandlers();
    std::vector<Function *> ctors;
    if (auto *G = M->getNamedGlobal("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> v;
        for (auto &op : CA->operands()) { auto *S = cast<ConstantStruct>(op); v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &x : v) if (x.second) ctors.push_back(x.second); }
    auto *E = M->getFunction(optEntry); if (!E || E->isDeclaration()) { logLine("E no entry function " + optEntry); _exit(4); }
    for (int r = 0; r < optRanks; ++r) {
        Ctx *c = new Ctx; c->rank = r; ranksCtx.push_back(c); newStack(*c, 256 << 20);
    }
    for (int r = 0; r < optRanks; ++r) for (auto *f : ctors) { Ctx *c = ranksCtx[r]; c->st = C_RUN; pushFrame(*c, fiFor(f), {}, nullptr); runCtx(*c); }
    for (auto *c : ranksCtx) { c->st = C_RUN; pushFrame(*c, fiFor(E), {}, nullptr); }
    runAll();
    // the path is feasible?
    endPath("completed");
}
std::string bitcodeFile;
int main(int argc, char **argv) {
    double t0 = now(); double dl = 0; std::string out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-ranks") optRanks = atoi(nx().c_str()); else if (a == "-threads") optThreads = atoi(nx().c_str()); else if (a == "-jobs") optJobs = atoi(nx().c_str());
        else if (a == "-deadline") dl = atof(nx().c_str()); else if (a == "-log") optLog = nx(); else if (a == "-entry") optEntry = nx(); else if (a == "-maxpaths") optMaxPaths = strtoull(nx().c_str(), 0, 10);
        else if (a == "-rlimit") optRlimit = unsigned(atol(nx().c_str())); else if (a == "-zto") optZ3Timeout = unsigned(atol(nx().c_str())); else if (a == "-conc") optConcLimit = strtoull(nx().c_str(), 0, 10); else if (a == "-big") optBig = strtoull(nx().c_str(), 0, 10);
        else if (a == "-steps") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-rev") optRevThreads = true; else if (a == "-maxviol") optMaxViol = atol(nx().c_str()); else if (a == "-o") out = nx();
        else if (a == "-p") { std::string kv = nx(); size_t e = kv.find('='); optParams[kv.substr(0, e)] = atol(kv.c_str() + e + 1); }
        else bitcodeFile = a;
    }
    if (optThreads > 4) optThreads = 4;
    if (dl > 0) optDeadline = t0 + dl;
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)sh, 0, sizeof(Shared));
    if (optLog.empty()) optLog = "/dev/stderr";
    logfd = open(optLog.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED ||
        mmap((void *)SBASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap"); return 4; }
    stack_t ss; ss.ss_sp = altStack; ss.ss_size = sizeof altStack; ss.ss_flags = 0; (void)ss;
    sh->running = 1;
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
        explore(); _exit(0);
    }
    // watchdog: a path stuck in the solver is stopped shortly after the deadline
    int st = 0;
    for (;;) {
        pid_t w = waitpid(p, &st, dl > 0 ? WNOHANG : 0);
        if (w == p) break;
        if (w < 0 && errno != EINTR) break;
        if (dl > 0) { if (now() > optDeadline + 3) { sh->cut++; logLine("C watchdog"); kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); st = 0; break; } usleep(2000); }
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->crashed++;
    // function names: re-read the module cheaply
    std::string fns;
    { LLVMContext c2; SMDiagnostic err; auto m = parseIRFile(bitcodeFile, err, c2); int id = 0; bool first = true; if (m) for (auto &F : *m) { if (id < 20000 && sh->fn[id]) { int s2; char *d = abi::__cxa_demangle(F.getName().str().c_str(), 0, 0, &s2); fns += (first ? "" : ","); fns += jesc(d ? d : F.getName().str()); free(d); first = false; } ++id; } }
    std::ostringstream o;
    o << "{\"paths\":" << sh->completed << ",\"cut\":" << sh->cut << ",\"infeasible\":" << sh->infeasible << ",\"crashed\":" << sh->crashed << ",\"queries\":" << sh->q << ",\"sat\":" << sh->qsat << ",\"unsat\":" << sh->qunsat << ",\"unknown\":" << sh->qunk
      << ",\"obligations\":" << sh->obligations << ",\"discharged\":" << sh->discharged << ",\"trivial\":" << sh->trivial << ",\"inconclusive\":" << sh->inconclusive << ",\"violations\":" << sh->violations << ",\"solver_s\":" << double(sh->usSolver) * 1e-6
      << ",\"steps\":" << sh->steps << ",\"forks\":" << sh->forks << ",\"branches\":" << sh->branches << ",\"conc\":" << sh->concForks << ",\"uninit_loads\":" << sh->uninitLoads << ",\"collectives\":" << sh->collectives << ",\"interval\":" << sh->intervalDec << ",\"wall_s\":" << now() - t0 << ",\"functions\":[" << fns << "]}";
    std::string js = o.str() + "\n";
    if (out.empty()) fputs(js.c_str(), stdout); else { FILE *f = fopen(out.c_str(), "w"); fputs(js.c_str(), f); fclose(f); }
    return 0;
}
