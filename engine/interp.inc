// ------------------------------------------------------------------ module, functions, constants
static Module *M;
static const DataLayout *DL;
static std::deque<FuncInfo> funcs;
static std::unordered_map<const Function *, FuncInfo *> fiOf;
static std::unordered_map<std::string, FuncInfo *> fiByName;
static std::unordered_map<uint64_t, FuncInfo *> fnAddr;
static std::unordered_map<Type *, std::vector<LaneTy> *> laneCache;
static std::vector<std::unordered_map<const GlobalVariable *, uint64_t>> gaddr; // per rank
static std::unordered_map<uint64_t, std::string> mpiHandle;
static std::unordered_map<std::string, uint64_t> mpiHandleAddr;
static std::vector<Ctx *> ranksCtx;
static uint64_t FNBASE = 0x200000000000ull;

static void flatten(Type *T, uint64_t off, std::vector<LaneTy> &out) {
    LaneTy l; l.off = uint32_t(off); l.bits = 64; l.sz = 8; l.kind = 'i';
    if (T->isIntegerTy()) { l.bits = T->getIntegerBitWidth(); l.sz = uint8_t(std::min<uint64_t>(255, DL->getTypeStoreSize(T))); out.push_back(l); }
    else if (T->isPointerTy()) { l.kind = 'p'; out.push_back(l); }
    else if (T->isFloatTy()) { l.kind = 'f'; l.bits = 32; l.sz = 4; out.push_back(l); }
    else if (T->isDoubleTy()) { l.kind = 'd'; out.push_back(l); }
    else if (T->isX86_FP80Ty()) { l.kind = 'x'; l.bits = 80; l.sz = 16; out.push_back(l); }
    else if (auto *S = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) flatten(S->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * s, out); }
    else if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t s = DL->getTypeStoreSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); ++i) flatten(V->getElementType(), off + i * s, out); }
    else if (T->isVoidTy()) {}
    else { std::string n; raw_string_ostream o(n); T->print(o); unsupported("type " + n); }
}
static const std::vector<LaneTy> &lanesOf(Type *T) {
    auto it = laneCache.find(T); if (it != laneCache.end()) return *it->second;
    auto *v = new std::vector<LaneTy>; flatten(T, 0, *v); laneCache[T] = v; return *v;
}
static FuncInfo *fiFor(Function *F) {
    auto it = fiOf.find(F); if (it != fiOf.end()) return it->second;
    funcs.emplace_back(); FuncInfo *f = &funcs.back(); f->F = F; f->id = int(funcs.size()) - 1; f->name = F->getName().str();
    fiOf[F] = f; fiByName[f->name] = f; fnAddr[FNBASE + 16 * uint64_t(f->id)] = f; return f;
}
static uint64_t addrOfFunc(Function *F) { return FNBASE + 16 * uint64_t(fiFor(F)->id); }
static void initMem(uint64_t a, Constant *C, int rank);
static uint64_t addrOfGlobal(GlobalVariable *G, int rank) {
    bool shared = G->isConstant() || G->isDeclaration();
    int r = shared ? 0 : rank;
    auto &m = gaddr[r];
    auto it = m.find(G); if (it != m.end()) return it->second;
    uint64_t a;
    std::string n = G->getName().str();
    if (G->isDeclaration()) {
        if (n.compare(0, 8, "ompi_mpi") == 0) {
            a = arenaAlloc(64, 2, 64); mpiHandle[a] = n; mpiHandleAddr[n] = a;
        } else {
            void *p = dlsym(RTLD_DEFAULT, n.c_str());
            if (!p) { if (n == "__dso_handle") { a = arenaAlloc(16, 2); m[G] = a; return a; } unsupported("external global " + n); }
            a = (uint64_t)p;
        }
        m[G] = a; return a;
    }
    uint64_t sz = DL->getTypeAllocSize(G->getValueType());
    a = arenaAlloc(sz, 2, std::max<uint64_t>(16, G->getAlign() ? G->getAlign()->value() : 16));
    m[G] = a;
    if (G->hasInitializer()) initMem(a, G->getInitializer(), r);
    return a;
}
static void evalConst(Constant *C, int rank, std::vector<Val> &out) {
    Type *T = C->getType();
    if (auto *ci = dyn_cast<ConstantInt>(C)) { out.push_back(Val(ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().extractBitsAsZExtValue(64, 0))); return; }
    if (auto *cf = dyn_cast<ConstantFP>(C)) {
        APInt b = cf->getValueAPF().bitcastToAPInt(); Val v;
        v.c = b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth()), 0);
        if (b.getBitWidth() > 64) v.h = b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64);
        out.push_back(v); return;
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { size_t n = lanesOf(T).size(); for (size_t i = 0; i < n; ++i) out.push_back(Val(0)); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) evalConst(ca->getOperand(i), rank, out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) evalConst(cd->getElementAsConstant(i), rank, out); return; }
    if (auto *F = dyn_cast<Function>(C)) { out.push_back(Val(addrOfFunc(F))); return; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) { out.push_back(Val(addrOfGlobal(G, rank))); return; }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) { evalConst(GA->getAliasee(), rank, out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        std::vector<Val> a, b;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *gep = cast<GEPOperator>(ce); APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constant GEP");
            evalConst(cast<Constant>(gep->getPointerOperand()), rank, a); out.push_back(Val(a[0].c + off.getSExtValue())); return; }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
            evalConst(ce->getOperand(0), rank, out); return;
        case Instruction::Trunc: evalConst(ce->getOperand(0), rank, a); out.push_back(Val(a[0].c & maskb(T->getIntegerBitWidth()))); return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            evalConst(ce->getOperand(0), rank, a); evalConst(ce->getOperand(1), rank, b);
            out.push_back(intBin(ce->getOpcode(), T->getIntegerBitWidth(), a[0], b[0])); return;
        case Instruction::ICmp: evalConst(ce->getOperand(0), rank, a); evalConst(ce->getOperand(1), rank, b);
            out.push_back(icmpOp(ce->getPredicate(), 64, a[0], b[0])); return;
        default: break;
        }
    }
    std::string n; raw_string_ostream o(n); C->print(o); unsupported("constant " + n.substr(0, 100));
}
static void initMem(uint64_t a, Constant *C, int rank) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // arena memory is zero
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef s = cd->getRawDataValues(); memcpy((void *)a, s.data(), s.size()); return; }
    Type *T = C->getType();
    if (auto *S = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) initMem(a + sl->getElementOffset(i), cast<Constant>(C->getAggregateElement(i)), rank); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); ++i) initMem(a + i * s, cast<Constant>(C->getAggregateElement(unsigned(i))), rank); return; }
    std::vector<Val> v; evalConst(C, rank, v);
    auto &ls = lanesOf(T);
    for (size_t i = 0; i < ls.size(); ++i) storeLane(a + ls[i].off, v[i], ls[i]);
}

static int slotOf(FuncInfo *f, Value *V) {
    auto it = f->slot.find(V); if (it != f->slot.end()) return it->second;
    auto *C = dyn_cast<Constant>(V);
    if (!C) { if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return ~0; unsupported("operand without a slot"); }
    int s = ~f->nconst; f->slot[V] = s; f->kconst.push_back(C);
    f->nconst += std::max<size_t>(1, lanesOf(C->getType()).size());
    return s;
}
static void prepare(FuncInfo *f) {
    if (f->prepared) return;
    f->prepared = true;
    Function *F = f->F;
    for (auto &A : F->args()) { int n = int(lanesOf(A.getType()).size()); f->slot[&A] = f->nregs; f->argSlots.push_back({f->nregs, n}); f->nregs += n; }
    int bi = 0;
    for (auto &B : *F) { f->bbIdx[&B] = bi++;
        for (auto &I : B) if (!I.getType()->isVoidTy()) { f->slot[&I] = f->nregs; f->nregs += int(lanesOf(I.getType()).size()); } }
    f->nconst = 1; // slot ~0 is a dummy
    f->blocks.resize(bi);
    for (auto &B : *F) {
        Block &bl = f->blocks[f->bbIdx[&B]]; bl.bb = &B;
        for (auto &I : B) {
            if (auto *ph = dyn_cast<PHINode>(&I)) {
                int n = int(lanesOf(ph->getType()).size());
                for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) bl.phis[f->bbIdx[ph->getIncomingBlock(k)]].push_back({f->slot[ph], slotOf(f, ph->getIncomingValue(k)), n});
                continue;
            }
            Inst in; in.I = &I; in.op = I.getOpcode();
            if (!I.getType()->isVoidTy()) { in.dst = f->slot[&I]; auto &l = lanesOf(I.getType()); in.nl = int(l.size()); in.lt = l.data(); }
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                if (isa<DbgInfoIntrinsic>(cb)) continue;
                Function *cf = cb->getCalledFunction();
                if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
                if (cf && cf->isIntrinsic()) { auto id = cf->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) continue; }
                if (cf) in.callee = fiFor(cf); else if (!cb->isInlineAsm()) in.a = slotOf(f, cb->getCalledOperand());
                else in.imm = 1;
                for (auto &A : cb->args()) { in.args.push_back(A->getType()->isMetadataTy() ? ~0 : slotOf(f, A)); in.argTy.push_back(A->getType()->isMetadataTy() ? &lanesOf(Type::getInt64Ty(M->getContext())) : &lanesOf(A->getType())); }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.t0 = f->bbIdx[iv->getNormalDest()]; in.t1 = f->bbIdx[iv->getUnwindDest()]; }
            } else switch (in.op) {
            case Instruction::Load: in.a = slotOf(f, I.getOperand(0)); in.imm = DL->getTypeStoreSize(I.getType()); break;
            case Instruction::Store: { in.a = slotOf(f, I.getOperand(1)); in.b = slotOf(f, I.getOperand(0)); auto &l = lanesOf(I.getOperand(0)->getType()); in.lt = l.data(); in.nl = int(l.size()); in.imm = DL->getTypeStoreSize(I.getOperand(0)->getType()); break; }
            case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); in.imm = DL->getTypeAllocSize(al->getAllocatedType()); in.a = slotOf(f, al->getArraySize()); in.b = int(al->getAlign().value()); break; }
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(&I); in.a = slotOf(f, g->getPointerOperand());
                if (g->getType()->isVectorTy()) unsupported("vector GEP");
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) { in.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = int64_t(DL->getTypeAllocSize(gi.getIndexedType()));
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) in.imm += ci->getSExtValue() * sc;
                    else in.gep.push_back({slotOf(f, ix), sc, int64_t(ix->getType()->getIntegerBitWidth())});
                }
                break; }
            case Instruction::Br: { auto *b = cast<BranchInst>(&I); in.t0 = f->bbIdx[b->getSuccessor(0)]; if (b->isConditional()) { in.a = slotOf(f, b->getCondition()); in.t1 = f->bbIdx[b->getSuccessor(1)]; } break; }
            case Instruction::Switch: in.a = slotOf(f, I.getOperand(0)); break;
            case Instruction::Ret: if (I.getNumOperands()) { in.a = slotOf(f, I.getOperand(0)); in.nl = int(lanesOf(I.getOperand(0)->getType()).size()); } break;
            case Instruction::ICmp: case Instruction::FCmp: in.pred = cast<CmpInst>(&I)->getPredicate(); [[fallthrough]];
            default:
                if (I.getNumOperands() > 0 && !isa<LandingPadInst>(&I)) { in.a = slotOf(f, I.getOperand(0)); in.lta = lanesOf(I.getOperand(0)->getType()).data(); }
                if (I.getNumOperands() > 1 && !isa<LandingPadInst>(&I)) in.b = slotOf(f, I.getOperand(1));
                if (I.getNumOperands() > 2 && !isa<LandingPadInst>(&I)) in.c = slotOf(f, I.getOperand(2));
                if (auto *o = dyn_cast<OverflowingBinaryOperator>(&I)) { in.nsw = o->hasNoSignedWrap(); in.nuw = o->hasNoUnsignedWrap(); }
                break;
            }
            bl.ins.push_back(std::move(in));
        }
    }
    f->consts.resize(optRanks);
    for (int r = 0; r < optRanks; ++r) {
        auto &k = f->consts[r]; k.push_back(Val(0));
        for (Constant *C : f->kconst) { size_t n0 = k.size(); evalConst(C, r, k); if (k.size() == n0) k.push_back(Val(0)); }
    }
    if (f->id < 20000) sh->fn[f->id] = 1;
}

// ------------------------------------------------------------------ stack, frames
static uint64_t stackAlloc(Ctx &c, uint64_t size, uint64_t align) {
    uint64_t a = (c.stackPtr + 32 + align - 1) & ~(std::max<uint64_t>(align, 16) - 1);
    a = (a + 15) & ~15ull;
    if (a + size + 64 > c.stackEnd) violationEnd("stack", "stack exhausted");
    c.stackPtr = a + size;
    memset(shd(a), 1, size);
    return a;
}
static void stackRelease(Ctx &c, uint64_t to) {
    if (c.stackPtr > to) {
        uint64_t n = c.stackPtr - to;
        uint8_t *s = shd(to);
        for (uint64_t i = 0; i < n; ++i) if (s[i] == 3) symMem.erase(to + i);
        memset(s, 0, n);
        c.stackPtr = to;
    }
}
static std::vector<std::vector<Val>> regPool;
static void pushFrame(Ctx &c, FuncInfo *f, const std::vector<Val> &a, const CallBase *cb) {
    prepare(f);
    if (c.fr.size() > 4000) violationEnd("stack", "call depth exceeded");
    c.fr.emplace_back();
    Frame &fr = c.fr.back();
    fr.f = f; fr.stackSave = c.stackPtr; fr.K = f->consts[c.rank].data();
    if (!regPool.empty()) { fr.regs = std::move(regPool.back()); regPool.pop_back(); }
    fr.regs.clear(); fr.regs.resize(f->nregs);
    size_t k = 0, ai = 0;
    for (auto &as : f->argSlots) {
        for (int i = 0; i < as.second && k < a.size(); ++i) fr.regs[as.first + i] = a[k++];
        if (as.second == 1 && f->F->getArg(unsigned(ai))->hasByValAttr()) {
            Type *T = f->F->getArg(unsigned(ai))->getParamByValType(); uint64_t sz = DL->getTypeAllocSize(T);
            uint64_t src = fr.regs[as.first].c; uint64_t d = stackAlloc(c, sz, 16);
            checkRange(src, sz, false); copyMem(d, src, sz); fr.regs[as.first] = Val(d);
        }
        ++ai;
    }
    (void)cb;
}
static inline Val &RS(Frame &f, int s) { return s >= 0 ? f.regs[s] : f.K[~s]; }
static void jump(Frame &f, int t) {
    f.prev = f.blk; f.blk = t; f.pc = 0;
    Block &b = f.f->blocks[t];
    if (!b.phis.empty()) {
        auto it = b.phis.find(f.prev);
        if (it != b.phis.end()) {
            auto &v = it->second;
            if (v.size() == 1) { for (int i = 0; i < v[0].n; ++i) f.regs[v[0].dst + i] = RS(f, v[0].src >= 0 ? v[0].src + i : ~(~v[0].src + i)); }
            else {
                static std::vector<Val> tmp; tmp.clear();
                for (auto &p : v) for (int i = 0; i < p.n; ++i) tmp.push_back(RS(f, p.src >= 0 ? p.src + i : ~(~p.src + i)));
                size_t k = 0; for (auto &p : v) for (int i = 0; i < p.n; ++i) f.regs[p.dst + i] = std::move(tmp[k++]);
            }
        }
    }
}
static inline Val &RL(Frame &f, int s, int i) { return s >= 0 ? f.regs[s + i] : f.K[~s + i]; }

// ------------------------------------------------------------------ exceptions
struct ExcInfo { uint64_t ti, dtor; int handlers = 0; bool native = false; bool rethrown = false; };
static std::unordered_map<uint64_t, ExcInfo> excs;
static std::unordered_map<uint64_t, int> tiSel; // typeinfo -> selector
static int selOf(uint64_t ti) { auto it = tiSel.find(ti); if (it != tiSel.end()) return it->second; int n = int(tiSel.size()) + 1; tiSel[ti] = n; return n; }
static bool excMatch(uint64_t catchTi, uint64_t exc, uint64_t &adj) {
    adj = exc; if (!catchTi) return true;
    auto it = excs.find(exc); if (it == excs.end()) return false;
    const std::type_info *ct = (const std::type_info *)catchTi, *tt = (const std::type_info *)it->second.ti;
    void *p = (void *)exc; if (tt->__is_pointer_p()) p = *(void **)exc;
    if (ct->__do_catch(tt, &p, 1)) { adj = (uint64_t)p; return true; }
    return false;
}
static std::unordered_map<uint64_t, uint64_t> excAdj;
static std::string excWhat(uint64_t exc) {
    auto it = excs.find(exc); if (it == excs.end()) return "?";
    const std::type_info *tt = (const std::type_info *)it->second.ti;
    int st; char *d = abi::__cxa_demangle(tt->name(), 0, 0, &st); std::string r = d ? d : tt->name(); free(d);
    return r;
}
// returns false if the exception left the context
static void unwind(Ctx &c, uint64_t exc) {
    for (;;) {
        if (c.fr.empty()) violationEnd("uncaught-exception", "exception of type " + excWhat(exc) + " is not caught (std::terminate)");
        Frame &f = c.fr.back();
        Inst &in = f.f->blocks[f.blk].ins[f.pc];
        if (in.op == Instruction::Invoke) {
            BasicBlock *ub = f.f->blocks[in.t1].bb; LandingPadInst *lp = ub->getLandingPadInst();
            int sel = 0; bool stop = lp->isCleanup(); uint64_t adj = exc;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                Constant *cl = lp->getClause(i);
                if (lp->isCatch(i)) {
                    std::vector<Val> v; evalConst(cl, c.rank, v);
                    if (excMatch(v[0].c, exc, adj)) { sel = selOf(v[0].c); stop = true; break; }
                } else { // filter
                    std::vector<Val> v; if (cl->getType()->getArrayNumElements() > 0) evalConst(cl, c.rank, v);
                    bool m = false; for (auto &x : v) { uint64_t a2; if (excMatch(x.c, exc, a2)) m = true; }
                    if (!m) { sel = -1; stop = true; break; }
                }
            }
            if (stop) {
                excAdj[exc] = adj;
                jump(f, in.t1);
                // landingpad is the first non-phi
                Inst &li = f.f->blocks[f.blk].ins[f.pc];
                if (li.op != Instruction::LandingPad) unsupported("landing pad");
                f.regs[li.dst] = Val(exc); f.regs[li.dst + 1] = Val(uint64_t(uint32_t(sel)));
                ++f.pc;
                return;
            }
        }
        if (f.isThreadRoot) violationEnd("uncaught-exception", "exception of type " + excWhat(exc) + " leaves an OpenMP parallel region (std::terminate)");
        stackRelease(c, f.stackSave);
        regPool.push_back(std::move(f.regs));
        c.fr.pop_back();
    }
}

// ------------------------------------------------------------------ native calls
extern std::unordered_map<std::string, Handler> handlers;
static Handler *findHandler(const std::string &n);
static bool nativeAllowed(const std::string &n);
static thread_local bool inNative = false;
static std::vector<std::exception_ptr> keepExc;
struct R2 { uint64_t a, b; };
static CR callNative(Ctx &c, CallArgs &ca, void *fp, Type *retTy) {
    uint64_t iv[6] = {0, 0, 0, 0, 0, 0}, st[10] = {0}; double dv[8] = {0}; int ni = 0, nd = 0, ns = 0;
    for (size_t i = 0; i < ca.a.size(); ++i) {
        Val &v = ca.a[i]; LaneTy &t = ca.ty[i];
        if (t.kind == 'x') unsupported("native call with long double: " + ca.name);
        if (t.kind == 'f' || t.kind == 'd') {
            if (v.s) unsupported("symbolic argument of " + ca.name);
            double d; uint64_t b = v.c; memcpy(&d, &b, 8); if (nd < 8) dv[nd++] = d; else { st[ns++] = b; }
        } else { uint64_t x = concretize(v, t.bits); if (t.kind == 'i' && t.bits < 64) x &= maskb(t.bits);
            if (ni < 6) iv[ni++] = x; else if (ns < 10) st[ns++] = x; else unsupported("too many native arguments");
            if (t.kind == 'p' && inArena(x) && *shd(x) != 0 && *shd(x) != 5) {
                uint64_t lo, hi; extent(x, lo, hi);
                if (anySymbolic(x, std::min<uint64_t>(ca.name.find("_List_node_base") != std::string::npos ? 16 : 32, hi - x))) unsupported("symbolic memory passed to native " + ca.name);
                for (uint64_t q = x; q < hi; ++q) if (*shd(q) == 1) *shd(q) = 2;
            } }
    }
    R2 ir{0, 0}; double dr = 0; bool fpRet = retTy->isDoubleTy() || retTy->isFloatTy();
    try {
        inNative = true;
#define NA iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], st[0], st[1], st[2], st[3], st[4], st[5]
        if (fpRet) dr = ((double (*)(uint64_t, ...))fp)(NA);
        else ir = ((R2(*)(uint64_t, ...))fp)(NA);
        inNative = false;
    } catch (...) {
        inNative = false;
        std::exception_ptr ep = std::current_exception(); keepExc.push_back(ep);
        uint64_t obj; memcpy(&obj, &ep, 8);
        ExcInfo ei; ei.ti = (uint64_t)abi::__cxa_current_exception_type(); ei.dtor = 0; ei.native = true; excs[obj] = ei;
        c.excObj = obj;
        return CR_THROW;
    }
    if (retTy->isVoidTy()) return CR_DONE;
    if (fpRet) { Val v; uint64_t b; memcpy(&b, &dr, 8); v.c = retTy->isFloatTy() ? b & 0xffffffff : b; ca.ret = {v}; return CR_DONE; }
    auto &l = lanesOf(retTy);
    if (l.size() > 2) unsupported("native return type");
    ca.ret.clear(); ca.ret.push_back(Val(ir.a & (l[0].kind == 'p' ? ~0ull : maskb(l[0].bits)))); if (l.size() == 2) ca.ret.push_back(Val(ir.b & maskb(l[1].bits)));
    return CR_DONE;
}
static void gatherArgs(Frame &f, const Inst &in, CallArgs &ca) {
    for (size_t i = 0; i < in.args.size(); ++i) {
        ca.first.push_back(int(ca.a.size()));
        auto &l = *in.argTy[i];
        for (size_t k = 0; k < l.size(); ++k) { ca.a.push_back(RL(f, in.args[i], int(k))); ca.ty.push_back(l[k]); }
    }
}
static void finishCall(Ctx &c, std::vector<Val> &ret) { // deliver the result of the call at the top frame's pc
    Frame &f = c.fr.back(); Inst &in = f.f->blocks[f.blk].ins[f.pc];
    if (in.dst >= 0) for (int i = 0; i < in.nl; ++i) { if (size_t(i) < ret.size()) f.regs[in.dst + i] = ret[i]; else f.regs[in.dst + i] = Val(0); }
    if (in.op == Instruction::Invoke) jump(f, in.t0); else ++f.pc;
}
static bool handleCR(Ctx &c, CR r, CallArgs &ca) {
    switch (r) {
    case CR_DONE: finishCall(c, ca.ret); return true;
    case CR_THROW: unwind(c, c.excObj); return true;
    case CR_FRAME: return true;
    case CR_BLOCK: return false;
    case CR_END: return false;
    }
    return true;
}
static bool doCall(Ctx &c, Frame &f, const Inst &in) { // false: the context blocked or ended
    if (in.imm == 1 && !in.callee) { // inline asm
        unsupported("inline assembly");
    }
    FuncInfo *fi = in.callee; void *nat = nullptr;
    if (!fi) {
        uint64_t a = concretize(RS(f, in.a), 64);
        auto it = fnAddr.find(a);
        if (it != fnAddr.end()) fi = it->second;
        else if (a < 65536 || inArena(a)) violationEnd("bad-call", "call through an invalid function pointer");
        else nat = (void *)a;
    }
    if (fi) {
        if (!fi->handlerLooked) { fi->handlerLooked = true; fi->handler = findHandler(fi->name);
            if (!fi->handler && fi->F->isDeclaration()) {
                if (!nativeAllowed(fi->name)) unsupported("external function " + fi->name);
                fi->native = dlsym(RTLD_DEFAULT, fi->name.c_str()); if (!fi->native) unsupported("external function (unresolved) " + fi->name); } }
        if (!fi->handler && !fi->native) {
            static std::vector<Val> av; av.clear();
            for (size_t i = 0; i < in.args.size(); ++i) { size_t n = in.argTy[i]->size(); for (size_t k = 0; k < n; ++k) av.push_back(RL(f, in.args[i], int(k))); }
            pushFrame(c, fi, av, nullptr);
            return true;
        }
    }
    CallArgs ca; ca.in = &in; ca.ctx = &c; ca.name = fi ? fi->name : "<native pointer>";
    gatherArgs(f, in, ca);
    CR r;
    if (fi && fi->handler) r = (*fi->handler)(c, ca);
    else r = callNative(c, ca, fi ? fi->native : nat, in.I->getType());
    return handleCR(c, r, ca);
}

// ------------------------------------------------------------------ main loop
static Val loadAny(const Val &a, const LaneTy &t, uint64_t total) {
    uint64_t ad = a.c;
    if (a.s) { ad = resolveAddr(a, total, false); if (ad == 1) return freshUninit(t); }
    return loadLane(ad + t.off, t);
}
static void havocObject(const Val &a) {
    if (query({}, true) != z3::sat) endPath("unknown-address");
    z3::expr x = pe(a.s->p); if (query({}, true) != z3::sat) endPath("unknown-address");
    mpq_class q; modelQ(*lastModel, x, q); uint64_t m0 = uint64_t(mpz_get_si(q.get_num().get_mpz_t())), lo, hi; extent(m0, lo, hi);
    dropSym(lo, hi - lo); memset(shd(lo), 1, hi - lo);
}
static void stepLimit() {
    if (optMaxSteps && uint64_t(localSteps) > optMaxSteps) endPath("steps");
    if (optDeadline > 0 && now() > optDeadline) endPath("deadline");
}
static void runCtx(Ctx &c) {
    cur = &c;
    long cnt = 0;
    while (c.st == C_RUN) {
        Frame *f = &c.fr.back();
        const Inst &in = f->f->blocks[f->blk].ins[f->pc];
        curInst = &in;
        if ((++cnt & 0xfffff) == 0) { localSteps += 0x100000; stepLimit(); }
        switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            for (int i = 0; i < in.nl; ++i) { 
                if (in.lt[i].bits > 64) unsupported("wide integer");
                f->regs[in.dst + i] = intBin(in.op, in.lt[i].bits, RL(*f, in.a, i), RL(*f, in.b, i), in.nsw); }
            ++f->pc; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = fpBin(in.op, in.lt[i].kind, RL(*f, in.a, i), RL(*f, in.b, i));
            ++f->pc; break;
        case Instruction::FNeg: for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = fpNeg(in.lt[i].kind, RL(*f, in.a, i)); ++f->pc; break;
        case Instruction::ICmp: for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = icmpOp(in.pred, in.lta[i].kind == 'p' ? 64 : in.lta[i].bits, RL(*f, in.a, i), RL(*f, in.b, i)); ++f->pc; break;
        case Instruction::FCmp: for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = fcmpOp(in.pred, in.lta[i].kind, RL(*f, in.a, i), RL(*f, in.b, i)); ++f->pc; break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
            for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = castOp(in.op, in.lta[i], in.lt[i], RL(*f, in.a, i)); ++f->pc; break;
        case Instruction::BitCast: {
            int na = int(lanesOf(in.I->getOperand(0)->getType()).size());
            if (na == in.nl) { for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = castOp(in.op, in.lta[i], in.lt[i], RL(*f, in.a, i)); }
            else { // reinterpret through memory
                uint64_t save = c.stackPtr, t = stackAlloc(c, 64, 16);
                for (int i = 0; i < na; ++i) storeLane(t + in.lta[i].off, RL(*f, in.a, i), in.lta[i]);
                for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = loadLane(t + in.lt[i].off, in.lt[i]);
                stackRelease(c, save);
            }
            ++f->pc; break; }
        case Instruction::Load: {
            const Val &a = RS(*f, in.a);
            if (!a.s) { uint64_t ad = a.c; for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = loadLane(ad + in.lt[i].off, in.lt[i]); }
            else { uint64_t ad = resolveAddr(a, in.imm, false); for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = ad == 1 ? freshUninit(in.lt[i]) : loadLane(ad + in.lt[i].off, in.lt[i]); }
            ++f->pc; break; }
        case Instruction::Store: {
            const Val &a = RS(*f, in.a); uint64_t ad = a.c;
            if (a.s) { ad = resolveAddr(a, in.imm, true); if (ad == 1) { havocObject(a); ++f->pc; break; } }
            for (int i = 0; i < in.nl; ++i) storeLane(ad + in.lt[i].off, RL(*f, in.b, i), in.lt[i]);
            ++f->pc; break; }
        case Instruction::Alloca: {
            uint64_t n = concretize(RS(*f, in.a), 64) * uint64_t(in.imm);
            f->regs[in.dst] = Val(stackAlloc(c, n, in.b)); ++f->pc; break; }
        case Instruction::GetElementPtr: {
            const Val &b = RS(*f, in.a); bool sym = bool(b.s); uint64_t r = b.c + uint64_t(in.imm);
            for (auto &g : in.gep) { const Val &ix = RS(*f, int(g[0])); if (ix.s) { sym = true; break; } r += uint64_t(sx(ix.c, int(g[2])) * g[1]); }
            if (!sym) f->regs[in.dst] = Val(r);
            else {
                bool bv = b.s && b.s->k != S_INT; 
                for (auto &g : in.gep) { const Val &ix = RS(*f, int(g[0])); if (ix.s && ix.s->k != S_INT && ix.s->k != S_BOOL) bv = true; }
                if (bv) {
                    z3::expr e = bvOf(b, 64) + Z->bv_val(uint64_t(in.imm), 64);
                    for (auto &g : in.gep) { Val ix = RS(*f, int(g[0])); z3::expr x = bvOf(ix, int(g[2])); if (g[2] < 64) x = z3::sext(x, unsigned(64 - g[2])); e = e + x * Z->bv_val(uint64_t(g[1]), 64); }
                    f->regs[in.dst] = mkBV(e);
                } else {
                    Poly p = polyAdd(intPoly(b, 64), Poly(mpq_class(mpz_class((long)in.imm))));
                    for (auto &g : in.gep) { Val ix = RS(*f, int(g[0])); if (ix.s && ix.s->k == S_BOOL) ix = Val(concretizeBool(ix)); p = polyAdd(p, polyScale(intPoly(ix, int(g[2])), mpq_class(mpz_class((long)g[1])))); }
                    f->regs[in.dst] = mkInt(p, 64);
                }
            }
            ++f->pc; break; }
        case Instruction::Br:
            if (in.t1 < 0) jump(*f, in.t0);
            else { bool b = concretizeBool(RS(*f, in.a)); jump(*f, b ? in.t0 : in.t1); }
            break;
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(in.I); int bits = sw->getCondition()->getType()->getIntegerBitWidth();
            Val v = RS(*f, in.a);
            BasicBlock *dst = sw->getDefaultDest();
            if (!v.s) { for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == (v.c & maskb(bits))) { dst = cs.getCaseSuccessor(); break; } }
            else { for (auto &cs : sw->cases()) { Val k(cs.getCaseValue()->getZExtValue()); if (concretizeBool(icmpOp(CmpInst::ICMP_EQ, bits, v, k))) { dst = cs.getCaseSuccessor(); break; } } }
            jump(*f, f->f->bbIdx[dst]); break; }
        case Instruction::Select: {
            int ncond = int(lanesOf(in.I->getOperand(0)->getType()).size());
            for (int i = 0; i < in.nl; ++i) {
                const Val cnd = RL(*f, in.a, ncond == 1 ? 0 : i);
                const Val x = RL(*f, in.b, i), y = RL(*f, in.c, i);
                if (!cnd.s) { f->regs[in.dst + i] = (cnd.c & 1) ? x : y; continue; }
                LaneTy t = in.lt[i];
                bool bvish = (!x.s || x.s->k == S_BV) && (!y.s || y.s->k == S_BV) && (x.s || y.s) && t.kind == 'i';
                bool boolish = t.kind == 'i' && t.bits == 1;
                bool fpx = (t.kind == 'd' || t.kind == 'f') && ((x.s && x.s->k == S_FPX) || (y.s && y.s->k == S_FPX));
                if (boolish) {
                    auto bo = [&](const Val &v) { return v.s ? (v.s->k == S_BOOL ? v.s->e : bvOf(v, 1) == Z->bv_val(1, 1)) : Z->bool_val((v.c & 1) != 0); };
                    if (cnd.s->k == S_BOOL) f->regs[in.dst + i] = mkBool(z3::ite(cnd.s->e, bo(x), bo(y))); else f->regs[in.dst + i] = concretizeBool(cnd) ? x : y;
                }
                else if (cnd.s->k == S_BOOL && (bvish || (t.kind == 'i' && !x.s && !y.s && fBV && !fReal))) f->regs[in.dst + i] = mkBV(z3::ite(cnd.s->e, bvOf(x, t.bits), bvOf(y, t.bits)));
                else if (cnd.s->k == S_BOOL && fpx) f->regs[in.dst + i] = mkFPX(z3::ite(cnd.s->e, fpxOf(x, t.kind), fpxOf(y, t.kind)), t.bits);
                else { bool b = concretizeBool(cnd); if (ncond == 1) { for (int k = 0; k < in.nl; ++k) f->regs[in.dst + k] = RL(*f, b ? in.b : in.c, k); break; } f->regs[in.dst + i] = b ? x : y; }
            }
            ++f->pc; break; }
        case Instruction::ExtractValue: {
            auto *ev = cast<ExtractValueInst>(in.I); Type *T = ev->getAggregateOperand()->getType(); int off = 0;
            for (unsigned ix : ev->indices()) {
                if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) off += int(lanesOf(S->getElementType(k)).size()); T = S->getElementType(ix); }
                else { Type *E = T->getArrayElementType(); off += int(lanesOf(E).size()) * int(ix); T = E; } }
            for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = RL(*f, in.a, off + i);
            ++f->pc; break; }
        case Instruction::InsertValue: {
            auto *ev = cast<InsertValueInst>(in.I); Type *T = ev->getAggregateOperand()->getType(); int off = 0;
            for (unsigned ix : ev->indices()) {
                if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) off += int(lanesOf(S->getElementType(k)).size()); T = S->getElementType(ix); }
                else { Type *E = T->getArrayElementType(); off += int(lanesOf(E).size()) * int(ix); T = E; } }
            int nv = int(lanesOf(T).size());
            for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = RL(*f, in.a, i);
            for (int i = 0; i < nv; ++i) f->regs[in.dst + off + i] = RL(*f, in.b, i);
            ++f->pc; break; }
        case Instruction::ExtractElement: { uint64_t ix = concretize(RS(*f, in.b), 64); f->regs[in.dst] = RL(*f, in.a, int(ix)); ++f->pc; break; }
        case Instruction::InsertElement: { uint64_t ix = concretize(RS(*f, in.c), 64); Val v = RS(*f, in.b); for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = RL(*f, in.a, i); f->regs[in.dst + int(ix)] = v; ++f->pc; break; }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(in.I); int na = int(lanesOf(sv->getOperand(0)->getType()).size()); auto m = sv->getShuffleMask();
            std::vector<Val> r; for (int x : m) r.push_back(x < 0 ? Val(0) : x < na ? RL(*f, in.a, x) : RL(*f, in.b, x - na));
            for (size_t i = 0; i < r.size(); ++i) f->regs[in.dst + int(i)] = r[i];
            ++f->pc; break; }
        case Instruction::Freeze: for (int i = 0; i < in.nl; ++i) f->regs[in.dst + i] = RL(*f, in.a, i); ++f->pc; break;
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(in.I); const LaneTy t = in.lt[0]; uint64_t ad = concretize(RS(*f, in.a), 64); Val v = RS(*f, in.b);
            bool ro = raceOn; raceOn = false; Val o = loadLane(ad, t); Val n;
            switch (rm->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = intBin(Instruction::Add, t.bits, o, v); break; case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, t.bits, o, v); break;
                case AtomicRMWInst::And: n = intBin(Instruction::And, t.bits, o, v); break; case AtomicRMWInst::Or: n = intBin(Instruction::Or, t.bits, o, v); break; case AtomicRMWInst::FAdd: n = fpBin(Instruction::FAdd, t.kind, o, v); break; default: unsupported("atomicrmw"); }
            storeLane(ad, n, t); raceOn = ro; f->regs[in.dst] = o; ++f->pc; break; }
        case Instruction::AtomicCmpXchg: {
            LaneTy t = in.lt[0]; uint64_t ad = concretize(RS(*f, in.a), 64); bool ro = raceOn; raceOn = false; Val o = loadLane(ad, t); Val e = RS(*f, in.b), n = RS(*f, in.c);
            bool eq = concretizeBool(icmpOp(CmpInst::ICMP_EQ, t.kind == 'p' ? 64 : t.bits, o, e)); if (eq) storeLane(ad, n, t); raceOn = ro;
            f->regs[in.dst] = o; f->regs[in.dst + 1] = Val(eq); ++f->pc; break; }
        case Instruction::Fence: ++f->pc; break;
        case Instruction::Call: case Instruction::Invoke: doCall(c, *f, in); break;
        case Instruction::Ret: {
            std::vector<Val> rv; for (int i = 0; i < in.nl; ++i) rv.push_back(RL(*f, in.a, i));
            stackRelease(c, f->stackSave);
            regPool.push_back(std::move(f->regs));
            c.fr.pop_back();
            if (c.fr.empty()) { c.st = C_DONE; break; }
            finishCall(c, rv);
            break; }
        case Instruction::Resume: { uint64_t e = concretize(RL(*f, in.a, 0), 64); unwind(c, e); 
            break; }
        case Instruction::Unreachable: violationEnd("unreachable", "control reaches code the compiler assumes unreachable");
        default: unsupported(std::string("instruction ") + in.I->getOpcodeName());
        }
    }
    localSteps += cnt & 0xfffff;
}
