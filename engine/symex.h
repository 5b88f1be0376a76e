#pragma once
#include "real.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <functional>
#include <deque>
#include <atomic>
#include <setjmp.h>

enum SK : uint8_t { S_REAL, S_INT, S_BV, S_BOOL, S_FPX, S_BYTES };

struct Sym;
struct SymP {
    Sym *p = nullptr;
    SymP() {}
    explicit SymP(Sym *q);
    SymP(const SymP &o) : p(o.p) { if (p) inc(); }
    SymP(SymP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ~SymP() { if (p) dec(); }
    SymP &operator=(const SymP &o) { if (o.p != p) { Sym *old = p; p = o.p; if (p) inc(); if (old) decp(old); } return *this; }
    SymP &operator=(SymP &&o) noexcept { std::swap(p, o.p); return *this; }
    Sym *operator->() const { return p; }
    Sym &operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    void inc(); void dec(); static void decp(Sym *);
};
struct Val { uint64_t c = 0; uint64_t h = 0; SymP s; Val() {} explicit Val(uint64_t x) : c(x) {} };

struct Piece { Val v; uint32_t size; };
struct Sym {
    int rc = 0; SK k; uint16_t width = 0;
    double lo = -INFINITY, hi = INFINITY;
    Poly p;
    z3::expr e;
    std::vector<Piece> pieces;
    explicit Sym(SK kk) : k(kk), e(*Z) {}
};
inline SymP::SymP(Sym *q) : p(q) { if (p) ++p->rc; }
inline void SymP::inc() { ++p->rc; }
inline void SymP::decp(Sym *q) { if (--q->rc == 0) delete q; }
inline void SymP::dec() { decp(p); }

struct LaneTy { char kind; uint16_t bits; uint32_t off; uint8_t sz; }; // kind i f d x p

struct FuncInfo;
struct Inst {
    unsigned op; int dst = -1; int nl = 0;
    int a = 0, b = 0, c = 0;
    const LaneTy *lt = nullptr;     // result (or stored value) lanes
    const LaneTy *lta = nullptr;    // operand a lanes
    llvm::Instruction *I = nullptr;
    unsigned pred = 0;
    int t0 = -1, t1 = -1;           // successor blocks
    int64_t imm = 0;                // const offset / alloca size / lane index
    std::vector<std::array<int64_t, 3>> gep; // slot, scale, bits
    std::vector<int> args; std::vector<const std::vector<LaneTy> *> argTy;
    FuncInfo *callee = nullptr;
    bool nsw = false, nuw = false;
};
struct PhiCopy { int dst, src, n; };
struct Block { std::vector<Inst> ins; std::map<int, std::vector<PhiCopy>> phis; llvm::BasicBlock *bb; };
struct Ctx;
struct CallArgs;
enum CR { CR_DONE, CR_BLOCK, CR_FRAME, CR_THROW, CR_END };
typedef std::function<CR(Ctx &, CallArgs &)> Handler;
struct FuncInfo {
    llvm::Function *F; int id; bool prepared = false;
    std::string name;
    std::vector<Block> blocks; std::unordered_map<llvm::BasicBlock *, int> bbIdx;
    int nregs = 0;
    std::vector<llvm::Constant *> kconst; std::unordered_map<llvm::Value *, int> slot; // reg or ~const
    std::vector<std::vector<Val>> consts; // per rank
    int nconst = 0;
    std::vector<std::pair<int,int>> argSlots; // slot, lanes
    Handler *handler = nullptr; bool handlerLooked = false;
    void *native = nullptr;
};
struct Frame {
    FuncInfo *f; std::vector<Val> regs; int blk = 0, prev = -1; size_t pc = 0;
    uint64_t stackSave; Val *K; bool isThreadRoot = false;
};
enum CS { C_RUN, C_COLL, C_RECV, C_TEAM, C_BARRIER, C_DONE };
struct CollReq {
    std::string kind; uint64_t comm = 0; uint64_t args[12]; std::string op, dt, dt2; int root = 0; const Inst *inst = nullptr;
};
struct Team;
struct Ctx {
    int rank = 0, tid = 0, pushThreads = 0; Team *team = nullptr; CS st = C_RUN;
    std::vector<Frame> fr; CollReq coll;
    uint64_t stackBase = 0, stackPtr = 0, stackEnd = 0;
    std::vector<uint64_t> caught; // exception objects being handled
    uint64_t excObj = 0; int critical = 0;
    Team *child = nullptr;
    std::string outcome;
};
struct Team { int n; std::vector<Ctx *> th; Ctx *parent; bool inPar = true; };
struct CallArgs {
    const Inst *in; std::vector<Val> a; // flattened
    std::vector<LaneTy> ty; std::vector<int> first; // first lane of each arg
    std::vector<Val> ret; Ctx *ctx; std::string name;
    Val &arg(int i) { return a[first[i]]; }
    uint64_t u(int i);  // concrete (concretises)
};
