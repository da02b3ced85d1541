// msx: a path-exploring symbolic executor for LLVM IR (bit-vectors via z3).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <csignal>
#include <cmath>
#include <cstring>
#include <memory>
#include <set>

using namespace llvm;
using std::string;
using std::vector;

typedef const ::Expr* EX;

struct Val { uint64_t c; EX e; };
static inline Val C(uint64_t c) { return Val{c, nullptr}; }

// ------------------------------------------------------------------ memory
enum { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC };
static const unsigned ABITS = 24;
struct Obj {
    int rc; uint8_t kind; bool ro; bool freed; bool own = false; // own: of the harness or the models, not of the code under test
    uint64_t size;
    uint8_t* data; uint8_t* st; // st: 0 concrete, 1 symbolic, 2 uninitialised
    EX* sym;
    const char* name;
    static Obj* make(uint64_t size, uint8_t kind, bool init0, const char* name) {
        Obj* o = new Obj;
        o->rc = 1; o->kind = kind; o->ro = false; o->freed = false; o->size = size; o->name = name;
        o->data = (uint8_t*)calloc(1, size * 2 + 16);
        o->st = o->data + size;
        o->sym = nullptr;
        if (!init0) memset(o->st, 2, size);
        return o;
    }
    Obj* clone() const {
        Obj* o = new Obj(*this);
        o->rc = 1;
        o->data = (uint8_t*)malloc(size * 2 + 16);
        memcpy(o->data, data, size * 2);
        o->st = o->data + size;
        if (sym) { o->sym = (EX*)malloc(sizeof(EX) * size + 8); memcpy((void*)o->sym, (void*)sym, sizeof(EX) * size); }
        return o;
    }
    void unref() { if (--rc == 0) { free(data); free((void*)sym); delete this; } }
    void setSym(uint64_t i, EX e) {
        if (!sym) sym = (EX*)calloc(size + 1, sizeof(EX));
        sym[i] = e; st[i] = 1;
    }
};
struct Chunk { int rc; Obj* o[64]; };

struct Mem {
    vector<Chunk*> ch;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch) { for (auto c : ch) if (c) c->rc++; }
    ~Mem() { for (auto c : ch) rel(c); }
    static void rel(Chunk* c) {
        if (c && --c->rc == 0) { for (auto o : c->o) if (o) o->unref(); delete c; }
    }
    Mem& operator=(const Mem&) = delete;
    const Obj* get(uint64_t id) const {
        uint64_t k = id >> 6;
        if (k >= ch.size() || !ch[k]) return nullptr;
        return ch[k]->o[id & 63];
    }
    Chunk* wchunk(uint64_t k) {
        if (k >= ch.size()) ch.resize(k + 1, nullptr);
        Chunk*& c = ch[k];
        if (!c) { c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); }
        else if (c->rc > 1) {
            Chunk* n = new Chunk; n->rc = 1;
            memcpy(n->o, c->o, sizeof c->o);
            for (auto o : n->o) if (o) o->rc++;
            c->rc--;
            c = n;
        }
        return c;
    }
    Obj* getW(uint64_t id) {
        Chunk* c = wchunk(id >> 6);
        Obj*& o = c->o[id & 63];
        if (o->rc > 1) { Obj* n = o->clone(); o->rc--; o = n; }
        return o;
    }
    void set(uint64_t id, Obj* n) {
        Chunk* c = wchunk(id >> 6);
        if (c->o[id & 63]) c->o[id & 63]->unref();
        c->o[id & 63] = n;
    }
};
static Obj* tombstone(const char* what) {
    static std::map<string, Obj*> t;
    Obj*& o = t[what];
    if (!o) { o = Obj::make(0, OK_HEAP, true, strdup(what)); o->freed = true; }
    o->rc++;
    return o;
}

// ------------------------------------------------------------------ decoded code
struct Scalar { uint32_t off; uint16_t w; };
enum IOp : uint8_t {
    I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY,
    I_FPCAST, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_CALL, I_RET, I_BR, I_CBR, I_SWITCH,
    I_EXTRACTV, I_INSERTV, I_LPAD, I_RESUME, I_UNREACH, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_EXTRACTE, I_INSERTE
};
struct FuncInfo;
struct GepIdx { int op; uint64_t scale; uint16_t w; };
struct CallInfo {
    FuncInfo* callee = nullptr; int fop = 0;
    vector<int> args; vector<uint16_t> nslots; vector<uint16_t> widths; vector<uint32_t> byval;
    int normalEdge = -1, unwindEdge = -1;
    bool invoke = false;
    unsigned fixedArgs = 0;
};
struct SwitchInfo { vector<std::pair<uint64_t, int>> cases; int def; };
struct Edge { uint32_t target; uint32_t bb; vector<std::array<int, 3>> copies; };
struct LPad { bool cleanup; vector<const GlobalValue*> clauses; };
struct Inst {
    IOp op; uint8_t sub; uint16_t w; uint16_t n;
    int dst; int a, b, c;
    uint64_t imm;
    union { vector<Scalar>* sc; vector<GepIdx>* gep; CallInfo* call; SwitchInfo* sw; LPad* lp; };
    const Instruction* I;
};
enum Builtin : uint16_t { B_NONE = 0 };
struct FuncInfo {
    Function* F = nullptr;
    string name;
    uint64_t addr = 0;
    bool decoded = false;
    int builtin = 0;
    unsigned nregs = 0;
    vector<Inst> code;
    vector<Edge> edges;
    vector<int> argSlot;
    vector<uint16_t> argN;
    unsigned retN = 0;
    uint64_t calls = 0;
    vector<std::unique_ptr<vector<Scalar>>> scs;
};

struct Frame {
    FuncInfo* f; uint32_t pc; uint32_t regBase; int retDst; const Inst* call;
    vector<uint32_t> allocas; uint64_t va;
    bool cleanupThrow;
};

struct SymInput { string name; uint32_t n; vector<EX> bytes; };

struct State {
    vector<Frame> fr;
    vector<Val> regs;
    Mem mem;
    vector<EX> pc;
    vector<uint64_t> model;
    vector<std::shared_ptr<SymInput>> inputs;
    std::map<string, int> nameCount;
    vector<std::pair<string, Val>> obs;
    std::set<string> reach;
    uint64_t steps = 0;
    uint32_t nextId = 0;
    vector<uint32_t> freeIds;
    uint32_t undefNo = 0;
    uint32_t shareId = 0, shareOff = 0; // objects below shareId are shared with other threads: no plain writes unless shareOff
    // exceptions
    uint64_t exnObj = 0, exnTI = 0; 
    vector<std::pair<uint64_t, uint64_t>> caught;
    uint64_t exnSel = 0;
    uint32_t depthForks = 0;
};

struct PathEnd { string kind, msg; };   // thrown to end a path
struct Retry {};                        // never used; documentation only

// ------------------------------------------------------------------ engine
struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    ExprPool P;
    Solver S;
    vector<Val> consts;
    std::unordered_map<const Constant*, int> constIdx;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, const GlobalValue*> addrGlobal;
    std::unordered_map<const Function*, FuncInfo*> finfo;
    std::unordered_map<uint64_t, FuncInfo*> faddr;
    vector<State*> work;
    State* cur = nullptr;
    bool bfs = false;
    // options
    double maxTime = 600, t0 = 0; uint64_t maxSteps = 20000000; uint64_t maxRssKb = 3500000;
    int jobs = 1; string outPath = "/dev/stdout"; string entry = "sx_main"; unsigned maxViol = 40, maxTests = 20;
    unsigned maxFrames = 1200;
    struct Shared { std::atomic<int> running; std::atomic<int> nextId; std::atomic<double> firstViol; };
    Shared* sh = nullptr;
    // statistics
    uint64_t nInst = 0, nPaths = 0, nForks = 0, nObl = 0, nOblSym = 0, nSymMem = 0, nErr = 0, nAssumeCut = 0, maxPathSteps = 0;
    std::map<string, uint64_t> reachCount;
    std::map<string, uint64_t> incomplete;
    std::set<string> violKeys;
    vector<string> violOut, testOut;
    uint64_t rng = 88172645463325252ULL;
    uint64_t pathSeen = 0;
    std::map<string, uint64_t> forkSites;
    bool verboseForks = false;

    Engine() : S(P) {}

    // -------------------------------------------------------------- types
    void flatten(Type* T, uint64_t off, vector<Scalar>& out) {
        if (T->isVoidTy()) return;
        if (T->isIntegerTy()) { out.push_back({(uint32_t)off, (uint16_t)T->getIntegerBitWidth()}); return; }
        if (T->isPointerTy()) { out.push_back({(uint32_t)off, 64}); return; }
        if (T->isDoubleTy()) { out.push_back({(uint32_t)off, 64}); return; }
        if (T->isFloatTy()) { out.push_back({(uint32_t)off, 32}); return; }
        if (T->isX86_FP80Ty()) { out.push_back({(uint32_t)off, 80}); return; }
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) flatten(ST->getElementType(i), off + SL->getElementOffset(i), out);
            return;
        }
        if (auto* AT = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL->getTypeAllocSize(AT->getElementType());
            for (uint64_t i = 0; i < AT->getNumElements(); i++) flatten(AT->getElementType(), off + i * es, out);
            return;
        }
        if (auto* VT = dyn_cast<FixedVectorType>(T)) {
            uint64_t es = DL->getTypeStoreSize(VT->getElementType());
            for (uint64_t i = 0; i < VT->getNumElements(); i++) flatten(VT->getElementType(), off + i * es, out);
            return;
        }
        if (T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
        out.push_back({(uint32_t)off, 999});
    }
    unsigned nslots(Type* T) { vector<Scalar> s; flatten(T, 0, s); return s.size(); }

    // -------------------------------------------------------------- constants
    uint64_t constScalar(const Constant* K) {
        if (auto* CI = dyn_cast<ConstantInt>(K)) return CI->getValue().getActiveBits() <= 64 ? CI->getZExtValue() : CI->getValue().trunc(64).getZExtValue();
        if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K)) return 0;
        if (auto* F = dyn_cast<ConstantFP>(K)) {
            APInt b = F->getValueAPF().bitcastToAPInt();
            return b.getBitWidth() > 64 ? b.trunc(64).getZExtValue() : b.getZExtValue();
        }
        if (auto* G = dyn_cast<GlobalAlias>(K)) return constScalar(G->getAliasee());
        if (auto* G = dyn_cast<GlobalValue>(K)) {
            auto it = gaddr.find(G);
            if (it == gaddr.end()) { errs() << "no address for " << G->getName() << "\n"; exit(3); }
            return it->second;
        }
        if (auto* CE = dyn_cast<ConstantExpr>(K)) {
            switch (CE->getOpcode()) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                return constScalar(CE->getOperand(0));
            case Instruction::Trunc: return constScalar(CE->getOperand(0)) & maskw(CE->getType()->getIntegerBitWidth());
            case Instruction::Sub: return constScalar(CE->getOperand(0)) - constScalar(CE->getOperand(1));
            case Instruction::Add: return constScalar(CE->getOperand(0)) + constScalar(CE->getOperand(1));
            case Instruction::GetElementPtr: {
                auto* G = cast<GEPOperator>(CE);
                APInt o(64, 0);
                G->accumulateConstantOffset(*DL, o);
                return constScalar(CE->getOperand(0)) + o.getSExtValue();
            }
            case Instruction::ICmp: {
                auto pred = (ICmpInst::Predicate)CE->getPredicate();
                uint64_t x = constScalar(CE->getOperand(0)), y = constScalar(CE->getOperand(1));
                if (pred == ICmpInst::ICMP_EQ) return x == y;
                if (pred == ICmpInst::ICMP_NE) return x != y;
                break;
            }
            default: break;
            }
        }
        errs() << "unsupported constant: " << *K << "\n";
        exit(3);
    }
    void flattenConst(const Constant* K, vector<Val>& out) {
        Type* T = K->getType();
        if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
            unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) {
                Constant* el = K->getAggregateElement(i);
                if (!el) { errs() << "unsupported aggregate constant " << *K << "\n"; exit(3); }
                flattenConst(el, out);
            }
            return;
        }
        out.push_back(C(constScalar(K)));
    }
    int constOp(const Constant* K) {
        auto it = constIdx.find(K);
        if (it != constIdx.end()) return it->second;
        vector<Val> v;
        flattenConst(K, v);
        int idx = ~(int)consts.size();
        for (auto& x : v) consts.push_back(x);
        if (v.empty()) consts.push_back(C(0));
        constIdx[K] = idx;
        return idx;
    }
    void initMem(Obj* o, uint64_t off, const Constant* K) {
        Type* T = K->getType();
        if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K) || isa<ConstantPointerNull>(K)) return;
        if (auto* CDS = dyn_cast<ConstantDataSequential>(K)) {
            StringRef r = CDS->getRawDataValues();
            memcpy(o->data + off, r.data(), r.size());
            return;
        }
        if (auto* ST = dyn_cast<StructType>(T)) {
            auto* SL = DL->getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++) initMem(o, off + SL->getElementOffset(i), cast<Constant>(K->getOperand(i)));
            return;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type* ET = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            uint64_t es = DL->getTypeAllocSize(ET);
            unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) initMem(o, off + i * es, K->getAggregateElement(i));
            return;
        }
        if (auto* F = dyn_cast<ConstantFP>(K)) {
            APInt b = F->getValueAPF().bitcastToAPInt();
            memcpy(o->data + off, b.getRawData(), (b.getBitWidth() + 7) / 8);
            return;
        }
        if (auto* CI = dyn_cast<ConstantInt>(K)) if (CI->getBitWidth() > 64) {
            memcpy(o->data + off, CI->getValue().getRawData(), (CI->getBitWidth() + 7) / 8);
            return;
        }
        uint64_t v = constScalar(K);
        memcpy(o->data + off, &v, DL->getTypeStoreSize(T));
    }

    // -------------------------------------------------------------- loading
    static const std::map<string, int>& builtins();
    FuncInfo* info(Function* F) {
        auto it = finfo.find(F);
        if (it != finfo.end()) return it->second;
        FuncInfo* fi = new FuncInfo;
        fi->F = F;
        fi->name = F->getName().str();
        finfo[F] = fi;
        auto b = builtins().find(fi->name);
        if (b != builtins().end()) fi->builtin = b->second;
        return fi;
    }
    static bool ownGlobal(GlobalVariable* G) {
        SmallVector<DIGlobalVariableExpression*, 1> ds;
        G->getDebugInfo(ds);
        for (auto* d : ds) {
            string f = d->getVariable()->getFile() ? d->getVariable()->getFile()->getFilename().str() : "", dir = d->getVariable()->getFile() ? d->getVariable()->getFile()->getDirectory().str() : "";
            if (f.empty() || f[0] != '/') f = dir + "/" + f;
            if (f.find("/verif/rt/") != string::npos || f.find("/verif/harness/") != string::npos || f.find("/rt/shadow/") != string::npos) return true;
        }
        return false;
    }
    State* initState() {
        State* s = new State;
        uint32_t id = 16;
        for (auto& F : *M) {
            uint64_t a = (uint64_t)id << ABITS;
            gaddr[&F] = a; addrGlobal[a] = &F;
            FuncInfo* fi = info(&F);
            fi->addr = a;
            faddr[a] = fi;
            Obj* o = Obj::make(0, OK_FUNC, true, strdup(fi->name.c_str()));
            o->ro = true;
            s->mem.set(id, o);
            id++;
        }
        std::map<uint32_t, GlobalVariable*> gv;
        for (auto& G : M->globals()) {
            uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
            if (G.isDeclaration() && sz < 64) sz = 64;
            if (sz > (1u << 22)) { errs() << "global too large " << G.getName() << "\n"; exit(3); }
            uint64_t a = (uint64_t)id << ABITS;
            gaddr[&G] = a; addrGlobal[a] = &G;
            Obj* o = Obj::make(sz, OK_GLOBAL, true, strdup(G.getName().str().c_str()));
            s->mem.set(id, o);
            gv[id] = &G;
            id++;
        }
        for (auto& x : gv) {
            Obj* o = s->mem.getW(x.first);
            if (x.second->hasInitializer()) initMem(o, 0, x.second->getInitializer());
            if (x.second->isConstant()) o->ro = true;
            if (x.second->isThreadLocal() || ownGlobal(x.second)) o->own = true;
        }
        s->nextId = id;
        return s;
    }
    bool load(const string& path) {
        SMDiagnostic err;
        M = parseIRFile(path, err, ctx);
        if (!M) { err.print("msx", errs()); return false; }
        DL = &M->getDataLayout();
        return true;
    }

    // -------------------------------------------------------------- decoding
    void decode(FuncInfo* fi) {
        fi->decoded = true;
        Function& F = *fi->F;
        std::unordered_map<const Value*, int> slot;
        unsigned n = 0;
        for (auto& A : F.args()) { slot[&A] = n; fi->argSlot.push_back(n); unsigned k = nslots(A.getType()); fi->argN.push_back(k); n += k; }
        for (auto& BB : F) for (auto& I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nslots(I.getType()); }
        fi->nregs = n;
        fi->retN = nslots(F.getReturnType());
        auto op = [&](const Value* V) -> int {
            if (auto* K = dyn_cast<Constant>(V)) return constOp(K);
            auto it = slot.find(V);
            if (it == slot.end()) { return 0; }
            return it->second;
        };
        auto width = [&](Type* T) -> unsigned { vector<Scalar> s; flatten(T, 0, s); return s.empty() ? 0 : s[0].w; };
        std::unordered_map<const BasicBlock*, uint32_t> bbpc;
        vector<std::pair<const BasicBlock*, const BasicBlock*>> edgeBB;
        std::map<std::pair<const BasicBlock*, const BasicBlock*>, int> edgeIdx;
        auto edge = [&](const BasicBlock* f, const BasicBlock* t) -> int {
            auto k = std::make_pair(f, t);
            auto it = edgeIdx.find(k);
            if (it != edgeIdx.end()) return it->second;
            int i = edgeBB.size();
            edgeBB.push_back(k);
            edgeIdx[k] = i;
            return i;
        };
        for (auto& BB : F) {
            bbpc[&BB] = fi->code.size();
            for (auto& I : BB) {
                if (isa<PHINode>(I)) continue;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                Inst in; memset((void*)&in, 0, sizeof in);
                in.I = &I; in.dst = slot.count(&I) ? slot[&I] : -1;
                in.w = width(I.getType()); in.n = nslots(I.getType());
                in.op = I_UNSUP;
                switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
                case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
                case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    in.op = I_BIN;
                    static const std::map<unsigned, EK> mp = {
                        {Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV},
                        {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND},
                        {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
                    in.sub = mp.at(I.getOpcode());
                    in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
                    break;
                }
                case Instruction::ICmp: {
                    auto* X = cast<ICmpInst>(&I);
                    in.op = I_ICMP; in.sub = X->getPredicate();
                    in.a = op(X->getOperand(0)); in.b = op(X->getOperand(1));
                    in.n = nslots(X->getOperand(0)->getType());
                    in.w = width(X->getOperand(0)->getType());
                    break;
                }
                case Instruction::FCmp: {
                    auto* X = cast<FCmpInst>(&I);
                    in.op = I_FCMP; in.sub = X->getPredicate();
                    in.a = op(X->getOperand(0)); in.b = op(X->getOperand(1));
                    in.w = width(X->getOperand(0)->getType());
                    break;
                }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
                    in.op = I_FBIN; in.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3;
                    in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
                    break;
                case Instruction::FNeg: in.op = I_FNEG; in.a = op(I.getOperand(0)); break;
                case Instruction::Select:
                    in.op = I_SELECT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2));
                    if (I.getOperand(0)->getType()->isVectorTy()) in.op = I_UNSUP;
                    break;
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
                    in.op = I.getOpcode() == Instruction::Trunc ? I_TRUNC : I.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT;
                    in.a = op(I.getOperand(0)); in.b = width(I.getOperand(0)->getType());
                    if (in.n != 1) in.op = I_UNSUP;
                    break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
                    in.a = op(I.getOperand(0));
                    unsigned sw = width(I.getOperand(0)->getType());
                    if (nslots(I.getOperand(0)->getType()) != in.n) { in.op = I_UNSUP; break; }
                    if (sw == in.w) in.op = I_COPY;
                    else if (sw > in.w) { in.op = I_TRUNC; in.b = sw; }
                    else { in.op = I_ZEXT; in.b = sw; }
                    break;
                }
                case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
                    in.op = I_FPCAST; in.sub = I.getOpcode(); in.a = op(I.getOperand(0)); in.b = width(I.getOperand(0)->getType());
                    break;
                case Instruction::Load: {
                    in.op = I_LOAD; in.a = op(I.getOperand(0));
                    auto sc = std::make_unique<vector<Scalar>>(); flatten(I.getType(), 0, *sc);
                    in.sc = sc.get(); fi->scs.push_back(std::move(sc));
                    in.imm = DL->getTypeStoreSize(I.getType());
                    break;
                }
                case Instruction::Store: {
                    in.sub = cast<StoreInst>(&I)->isAtomic();
                    in.op = I_STORE; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
                    auto sc = std::make_unique<vector<Scalar>>(); flatten(I.getOperand(0)->getType(), 0, *sc);
                    in.sc = sc.get(); fi->scs.push_back(std::move(sc));
                    in.imm = DL->getTypeStoreSize(I.getOperand(0)->getType());
                    break;
                }
                case Instruction::Alloca: {
                    auto* A = cast<AllocaInst>(&I);
                    in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(A->getAllocatedType()); in.a = op(A->getArraySize());
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* G = cast<GetElementPtrInst>(&I);
                    in.op = I_GEP; in.a = op(G->getPointerOperand());
                    if (G->getType()->isVectorTy()) { in.op = I_UNSUP; break; }
                    auto* v = new vector<GepIdx>;
                    uint64_t cst = 0;
                    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                        const Value* ix = gi.getOperand();
                        if (StructType* ST = gi.getStructTypeOrNull()) {
                            cst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        } else {
                            uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* CI = dyn_cast<ConstantInt>(ix)) cst += CI->getSExtValue() * sc;
                            else v->push_back({op(ix), sc, (uint16_t)ix->getType()->getIntegerBitWidth()});
                        }
                    }
                    in.imm = cst; in.gep = v;
                    break;
                }
                case Instruction::Ret:
                    in.op = I_RET;
                    if (I.getNumOperands()) { in.a = op(I.getOperand(0)); in.n = nslots(I.getOperand(0)->getType()); } else in.n = 0;
                    break;
                case Instruction::Br: {
                    auto* B = cast<BranchInst>(&I);
                    if (B->isConditional()) {
                        in.op = I_CBR; in.a = op(B->getCondition());
                        in.b = edge(&BB, B->getSuccessor(0)); in.c = edge(&BB, B->getSuccessor(1));
                    } else { in.op = I_BR; in.b = edge(&BB, B->getSuccessor(0)); }
                    break;
                }
                case Instruction::Switch: {
                    auto* W = cast<SwitchInst>(&I);
                    in.op = I_SWITCH; in.a = op(W->getCondition()); in.w = W->getCondition()->getType()->getIntegerBitWidth();
                    in.sw = new SwitchInfo;
                    for (auto& cs : W->cases()) in.sw->cases.push_back({cs.getCaseValue()->getZExtValue(), edge(&BB, cs.getCaseSuccessor())});
                    in.sw->def = edge(&BB, W->getDefaultDest());
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* CB = cast<CallBase>(&I);
                    in.op = I_CALL;
                    auto* ci = in.call = new CallInfo;
                    Value* cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                    if (auto* CF = dyn_cast<Function>(cv)) ci->callee = info(CF);
                    else if (isa<InlineAsm>(cv)) { in.op = I_NOP; break; }
                    else ci->fop = op(CB->getCalledOperand());
                    for (unsigned i = 0; i < CB->arg_size(); i++) {
                        Value* A = CB->getArgOperand(i);
                        if (A->getType()->isMetadataTy()) { ci->args.push_back(0); ci->nslots.push_back(0); ci->widths.push_back(0); ci->byval.push_back(0); continue; }
                        ci->args.push_back(op(A));
                        ci->nslots.push_back(nslots(A->getType()));
                        ci->widths.push_back(width(A->getType()));
                        ci->byval.push_back(CB->isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
                    }
                    ci->fixedArgs = CB->getFunctionType()->getNumParams();
                    if (auto* IV = dyn_cast<InvokeInst>(&I)) {
                        ci->invoke = true;
                        ci->normalEdge = edge(&BB, IV->getNormalDest());
                        ci->unwindEdge = edge(&BB, IV->getUnwindDest());
                    }
                    break;
                }
                case Instruction::ExtractValue: {
                    auto* X = cast<ExtractValueInst>(&I);
                    in.op = I_COPY;
                    in.a = op(X->getAggregateOperand()) ;
                    unsigned off = aggOff(X->getAggregateOperand()->getType(), X->getIndices());
                    in.op = I_EXTRACTV; in.b = off;
                    break;
                }
                case Instruction::InsertValue: {
                    auto* X = cast<InsertValueInst>(&I);
                    in.op = I_INSERTV;
                    in.a = op(X->getAggregateOperand()); in.b = op(X->getInsertedValueOperand());
                    in.c = aggOff(X->getAggregateOperand()->getType(), X->getIndices());
                    in.imm = nslots(X->getInsertedValueOperand()->getType());
                    break;
                }
                case Instruction::ExtractElement: in.op = I_EXTRACTE; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); break;
                case Instruction::InsertElement: in.op = I_INSERTE; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); break;
                case Instruction::LandingPad: {
                    auto* L = cast<LandingPadInst>(&I);
                    in.op = I_LPAD;
                    in.lp = lpinfo(L);
                    break;
                }
                case Instruction::Resume: in.op = I_RESUME; in.a = op(I.getOperand(0)); break;
                case Instruction::Unreachable: in.op = I_UNREACH; break;
                case Instruction::Fence: in.op = I_NOP; break;
                case Instruction::AtomicRMW: {
                    auto* X = cast<AtomicRMWInst>(&I);
                    in.op = I_RMW; in.sub = X->getOperation(); in.a = op(X->getPointerOperand()); in.b = op(X->getValOperand());
                    in.imm = DL->getTypeStoreSize(I.getType());
                    break;
                }
                case Instruction::AtomicCmpXchg: {
                    auto* X = cast<AtomicCmpXchgInst>(&I);
                    in.op = I_CMPXCHG; in.a = op(X->getPointerOperand()); in.b = op(X->getCompareOperand()); in.c = op(X->getNewValOperand());
                    in.w = width(X->getCompareOperand()->getType());
                    in.imm = in.w / 8;
                    break;
                }
                default: break;
                }
                fi->code.push_back(in);
            }
        }
        for (auto& e : edgeBB) {
            Edge E; E.target = bbpc[e.second]; E.bb = 0;
            for (auto& PN : e.second->phis()) {
                const Value* V = PN.getIncomingValueForBlock(e.first);
                E.copies.push_back({slot[&PN], op(V), (int)nslots(PN.getType())});
            }
            fi->edges.push_back(std::move(E));
        }
    }
    unsigned aggOff(Type* T, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto* ST = dyn_cast<StructType>(T)) {
                for (unsigned k = 0; k < i; k++) off += nslots(ST->getElementType(k));
                T = ST->getElementType(i);
            } else {
                T = T->getArrayElementType();
                off += i * nslots(T);
            }
        }
        return off;
    }
    std::unordered_map<const LandingPadInst*, LPad*> lps;
    LPad* lpinfo(const LandingPadInst* L) {
        auto& p = lps[L];
        if (p) return p;
        p = new LPad;
        p->cleanup = L->isCleanup();
        for (unsigned i = 0; i < L->getNumClauses(); i++) {
            if (!L->isCatch(i)) continue;
            const Value* c = L->getClause(i)->stripPointerCasts();
            p->clauses.push_back(dyn_cast<GlobalValue>(c)); // null = catch all
        }
        return p;
    }

    // -------------------------------------------------------------- helpers
    [[noreturn]] void end(const string& kind, const string& msg) { throw PathEnd{kind, msg}; }
    Val& reg(int i) { return cur->regs[cur->fr.back().regBase + i]; }
    Val get(int i) { return i >= 0 ? cur->regs[cur->fr.back().regBase + i] : consts[~i]; }
    EX ex(Val v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
    Val mkv(EX e) { return e->k == E_CONST ? Val{e->c, nullptr} : Val{0, e}; }
    uint64_t evalM(EX e) { return P.eval(e, cur->model); }
    string where(const Instruction* I) {
        if (!I) return "?";
        string s;
        const Function* F = I->getFunction();
        if (DebugLoc d = I->getDebugLoc()) {
            auto* L = d.get();
            s = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : F->getName().str();
            s += "@" + L->getFilename().str() + ":" + std::to_string(L->getLine());
        } else s = F->getName().str();
        return s;
    }
    string backtrace() {
        string s;
        if (!cur) return s;
        int n = 0;
        for (int i = (int)cur->fr.size() - 1; i >= 0 && n < 12; i--, n++) {
            auto& f = cur->fr[i];
            uint32_t pc = f.pc;
            if (i != (int)cur->fr.size() - 1 && pc) pc--;
            if (pc < f.f->code.size()) s += (s.empty() ? "" : " < ") + where(f.f->code[pc].I);
        }
        return s;
    }
    void fork(EX cond, const vector<uint64_t>& m) {
        State* n = new State(*cur);
        n->pc.push_back(cond);
        n->model = m;
        n->depthForks++;
        nForks++;
        if (verboseForks) forkSites[where(cur->fr.back().f->code[cur->fr.back().pc].I)]++;
        work.push_back(n);
    }
    // decide a symbolic 1-bit condition: returns the side this state continues on
    bool decide(EX c) {
        if (c->k == E_CONST) return c->c;
        bool v = evalM(c);
        if (known(v ? c : P.notb(c))) return v;
        EX other = v ? P.notb(c) : c;
        vector<uint64_t> m;
        SR r = S.check(cur->pc, other, cur->model, &m);
        if (r == UNKNOWN) { incomplete["solver timeout"]++; }
        if (r == SAT) {
            fork(other, m);
            addPc(v ? c : P.notb(c));
        }
        return v;
    }
    bool known(EX c) {
        for (size_t i = cur->pc.size(); i-- > 0;) if (cur->pc[i] == c) return true;
        return false;
    }
    void addPc(EX c) {
        if (c->k == E_CONST) return;
        if (c->k == E_AND && c->w == 1) { addPc(c->a); addPc(c->b); return; }
        cur->pc.push_back(c);
    }
    // exhaustively enumerate the feasible values of v; the current state keeps one of them
    uint64_t concretize(Val v, unsigned w) {
        if (!v.e) return v.c;
        uint64_t k = evalM(v.e);
        EX eq = P.bin(E_EQ, v.e, P.cst(k, w));
        if (known(eq)) return k;
        EX ne = P.notb(eq);
        vector<uint64_t> m;
        SR r = S.check(cur->pc, ne, cur->model, &m);
        if (r == UNKNOWN) incomplete["solver timeout"]++;
        if (r == SAT) { fork(ne, m); addPc(eq); }
        return k;
    }
    // is c implied by the path condition (without forking)?
    bool must(EX c) {
        if (c->k == E_CONST) return c->c;
        if (!evalM(c)) return false;
        return S.check(cur->pc, P.notb(c), cur->model, nullptr) == UNSAT;
    }

    // -------------------------------------------------------------- memory
    const Obj* at(uint64_t addr) { return cur->mem.get(addr >> ABITS); }
    uint64_t allocObj(uint64_t size, uint8_t kind, bool init0, const char* name) {
        if (size >= (1u << ABITS) - 4096) end("unsupported", "allocation of " + std::to_string(size) + " bytes");
        uint32_t id;
        if (kind == OK_STACK && cur->freeIds.size() > 64) { id = cur->freeIds.front(); cur->freeIds.erase(cur->freeIds.begin()); }
        else id = cur->nextId++;
        cur->mem.set(id, Obj::make(size, kind, init0, name));
        return (uint64_t)id << ABITS;
    }
    [[noreturn]] void memError(const string& what, uint64_t a) {
        const Obj* o = at(a);
        string d;
        if (!a || (a >> ABITS) == 0) d = "null pointer";
        else if (!o) d = "wild pointer";
        else if (o->freed) d = string(o->name);
        else d = "object '" + string(o->name ? o->name : "?") + "' of " + std::to_string(o->size) + " bytes at offset " + std::to_string((int64_t)(a & ((1u << ABITS) - 1)));
        end("memory", what + ": " + d);
    }
    bool atomicNow = false;
    void checkShared(const Obj* o, uint64_t a) {
        if (!cur->shareId || cur->shareOff || atomicNow || (a >> ABITS) >= cur->shareId || o->own || o->kind == OK_STACK) return;
        end("shared", "memory shared with other requests is changed: object '" + string(o->name ? o->name : "?") + "' of " + std::to_string(o->size) + " bytes at offset " + std::to_string((int64_t)(a & ((1u << ABITS) - 1))));
    }
    // resolve an address for an access of n bytes; may fork. offset may remain symbolic when allowed.
    uint64_t resolve(Val a, uint64_t n, bool write, Val* off) {
        if (!a.e) {
            const Obj* o = at(a.c);
            uint64_t of = a.c & ((1u << ABITS) - 1);
            if (!o || o->freed || of + n > o->size) memError(write ? "out-of-bounds write" : "out-of-bounds read", a.c);
            if (write && o->ro) memError("write to read-only memory", a.c);
            if (write && cur->shareId) checkShared(o, a.c);
            *off = C(of);
            return a.c >> ABITS;
        }
        uint64_t v = evalM(a.e);
        const Obj* o = at(v);
        uint64_t of = v & ((1u << ABITS) - 1);
        nSymMem++;
        if (!o || o->freed || of + n > o->size) memError(write ? "out-of-bounds write" : "out-of-bounds read", v);
        if (write && o->ro) memError("write to read-only memory", v);
        if (write && cur->shareId) checkShared(o, v);
        uint64_t base = v & ~(uint64_t)((1u << ABITS) - 1);
        EX rel = P.bin(E_SUB, a.e, P.cst(base, 64));
        EX inb = P.bin(E_ULE, rel, P.cst(o->size - n, 64));
        if (inb->k != E_CONST) {
            vector<uint64_t> m;
            SR r = S.check(cur->pc, P.notb(inb), cur->model, &m);
            if (r == UNKNOWN) incomplete["solver timeout"]++;
            if (r == SAT) { fork(P.notb(inb), m); addPc(inb); }
        }
        *off = mkv(rel);
        return v >> ABITS;
    }
    EX undefByte() {
        char b[32]; snprintf(b, sizeof b, "undef%u", cur->undefNo++);
        return P.var(b, 8);
    }
    Val loadRaw(const Obj* o, uint64_t id, uint64_t of, unsigned n) {
        // n bytes, little endian
        bool conc = true;
        for (unsigned i = 0; i < n; i++) if (o->st[of + i]) { conc = false; break; }
        if (conc) { uint64_t v = 0; memcpy(&v, o->data + of, n); return C(v); }
        bool und = false;
        for (unsigned i = 0; i < n; i++) if (o->st[of + i] == 2) und = true;
        if (und) {
            Obj* w = cur->mem.getW(id);
            for (unsigned i = 0; i < n; i++) if (w->st[of + i] == 2) w->setSym(of + i, undefByte());
            o = w;
        }
        EX r = nullptr;
        for (unsigned i = 0; i < n; i++) {
            EX b = o->st[of + i] ? o->sym[of + i] : P.cst(o->data[of + i], 8);
            r = r ? P.concat(b, r) : b;
        }
        return mkv(r);
    }
    Val load(Val addr, unsigned w) {
        if (w > 64) end("unsupported", "load of " + std::to_string(w) + " bits");
        unsigned n = (w + 7) / 8;
        Val off;
        uint64_t id = resolve(addr, n, false, &off);
        const Obj* o = cur->mem.get(id);
        Val r;
        if (!off.e) r = loadRaw(o, id, off.c, n);
        else {
            unsigned tz = std::min(ExprPool::tz(off.e), 12u);
            uint64_t stride = 1ULL << tz;
            uint64_t cnt = (o->size - n) / stride + 1;
            bool ptrs = false;
            if (n == 8) for (uint64_t k = 0; k < cnt && !ptrs; k++) {
                uint64_t v; memcpy(&v, o->data + k * stride, 8);
                bool allc = true; for (int i = 0; i < 8; i++) if (o->st[k * stride + i]) allc = false;
                if (allc && v >= (16ULL << ABITS) && at(v)) ptrs = true;
            }
            bool anyUndef = false;
            for (uint64_t i = 0; i < o->size; i++) if (o->st[i] == 2) anyUndef = true;
            if (ptrs || cnt > 1100 || anyUndef) {
                uint64_t k = concretize(off, 64);
                r = loadRaw(cur->mem.get(id), id, k, n);
            } else {
                EX acc = nullptr;
                for (uint64_t k = cnt; k-- > 0;) {
                    EX v = ex(loadRaw(o, id, k * stride, n), n * 8);
                    if (!acc) acc = v;
                    else acc = P.ite(P.bin(E_EQ, off.e, P.cst(k * stride, 64)), v, acc);
                }
                r = mkv(acc);
            }
        }
        if (w != n * 8) {
            if (r.e) r = mkv(P.extract(r.e, 0, w)); else r.c &= maskw(w);
        }
        return r;
    }
    void storeRaw(Obj* o, uint64_t of, Val v, unsigned w) {
        unsigned n = (w + 7) / 8;
        if (!v.e) {
            uint64_t c = v.c & maskw(w);
            memcpy(o->data + of, &c, n);
            memset(o->st + of, 0, n);
            return;
        }
        EX e = v.e;
        if (w != n * 8) e = P.zext(e, n * 8);
        for (unsigned i = 0; i < n; i++) {
            EX b = n == 1 ? e : P.extract(e, 8 * i, 8);
            if (b->k == E_CONST) { o->data[of + i] = b->c; o->st[of + i] = 0; }
            else o->setSym(of + i, b);
        }
    }
    void store(Val addr, Val v, unsigned w) {
        if (w > 64) end("unsupported", "store of " + std::to_string(w) + " bits");
        Val off;
        unsigned n = (w + 7) / 8;
        uint64_t id = resolve(addr, n, true, &off);
        uint64_t of = off.c;
        if (off.e) {
            const Obj* o = cur->mem.get(id);
            unsigned tz = std::min(ExprPool::tz(off.e), 12u);
            uint64_t stride = 1ULL << tz;
            uint64_t cnt = (o->size - n) / stride + 1;
            if (cnt <= 64 && stride >= n) { // conditional update of every candidate cell
                Obj* ow = cur->mem.getW(id);
                for (uint64_t k = 0; k < cnt; k++) {
                    Val old = loadRaw(ow, id, k * stride, n);
                    ow = cur->mem.getW(id);
                    EX nv = ex(v, w); if (w != n * 8) nv = P.zext(nv, n * 8);
                    EX r = P.ite(P.bin(E_EQ, off.e, P.cst(k * stride, 64)), nv, ex(old, n * 8));
                    storeRaw(ow, k * stride, mkv(r), n * 8);
                }
                return;
            }
            of = concretize(off, 64);
        }
        storeRaw(cur->mem.getW(id), of, v, w);
    }
    uint64_t ptrArg(Val v) { return concretize(v, 64); }
    void checkRange(uint64_t a, uint64_t n, bool write) {
        if (!n) return;
        Val off; resolve(C(a), n, write, &off);
    }
    void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
        if (!n) return;
        checkRange(s, n, false);
        checkRange(d, n, true);
        const Obj* so = at(s);
        uint64_t sof = s & ((1u << ABITS) - 1), dof = d & ((1u << ABITS) - 1);
        // copy out first (memmove semantics)
        vector<uint8_t> data(so->data + sof, so->data + sof + n), st(so->st + sof, so->st + sof + n);
        vector<EX> sym;
        if (so->sym) sym.assign(so->sym + sof, so->sym + sof + n);
        Obj* o = cur->mem.getW(d >> ABITS);
        memcpy(o->data + dof, data.data(), n);
        memcpy(o->st + dof, st.data(), n);
        if (!sym.empty()) for (uint64_t i = 0; i < n; i++) if (st[i] == 1) o->setSym(dof + i, sym[i]);
    }
    string cstr(uint64_t a) { // concretising
        string s;
        for (;;) {
            Val v = load(C(a++), 8);
            uint64_t c = concretize(v, 8);
            if (!c) return s;
            s.push_back((char)c);
        }
    }

    // -------------------------------------------------------------- reporting
    static string jesc(const string& s) {
        string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    string testcase() {
        string s = "[";
        bool f = true;
        for (auto& i : cur->inputs) {
            if (!f) s += ","; f = false;
            s += "[\"" + jesc(i->name) + "\"," + std::to_string(i->n) + ",\"";
            for (auto e : i->bytes) { char b[4]; snprintf(b, 4, "%02x", (unsigned)evalM(e) & 255); s += b; }
            s += "\"]";
        }
        return s + "]";
    }
    string obsJson() {
        string s = "[";
        bool f = true;
        for (auto& o : cur->obs) {
            if (!f) s += ","; f = false;
            uint64_t v = o.second.e ? evalM(o.second.e) : o.second.c;
            s += "[\"" + jesc(o.first) + "\",\"" + std::to_string(v) + "\"]";
        }
        return s + "]";
    }
    void violation(const string& kind, const string& msg, const Instruction* I) {
        nErr++;
        string loc = where(I);
        string key = kind + "|" + msg.substr(0, 60) + "|" + loc;
        if (violKeys.count(key) || violKeys.size() >= maxViol) return;
        violKeys.insert(key);
        if (sh) { double z = 0; sh->firstViol.compare_exchange_strong(z, Solver::now()); }
        violOut.push_back("{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc) + "\",\"stack\":\"" + jesc(backtrace()) +
                          "\",\"undef\":" + std::to_string(cur->undefNo) + ",\"inputs\":" + testcase() + "}");
    }
    uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
    void pathDone() {
        nPaths++;
        for (auto& r : cur->reach) reachCount[r]++;
        pathSeen++;
        // reservoir sample of finished paths
        size_t slotI = testOut.size();
        if (testOut.size() < maxTests) testOut.push_back("");
        else { slotI = rnd() % pathSeen; if (slotI >= maxTests) return; }
        testOut[slotI] = "{\"inputs\":" + testcase() + ",\"obs\":" + obsJson() + ",\"undef\":" + std::to_string(cur->undefNo) + "}";
    }

    // -------------------------------------------------------------- exceptions
    static const char* extParent(const string& n) {
        static const std::map<string, const char*> p = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
            {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
        auto it = p.find(n);
        return it == p.end() ? nullptr : it->second;
    }
    bool tiDerives(const GlobalValue* t, const GlobalValue* target) {
        if (t == target || t->getName() == target->getName()) return true;
        auto* G = dyn_cast<GlobalVariable>(t);
        if (!G) return false;
        if (!G->hasInitializer()) {
            const char* p = extParent(G->getName().str());
            if (!p) return false;
            if (target->getName() == p) return true;
            if (auto* g = M->getNamedGlobal(p)) return tiDerives(g, target);
            const char* pp = extParent(p);
            return pp && target->getName() == pp;
        }
        const Constant* K = G->getInitializer();
        for (unsigned i = 2; i < K->getNumOperands(); i++) {
            const Value* v = K->getOperand(i)->stripPointerCasts();
            if (auto* g = dyn_cast<GlobalValue>(v)) if (tiDerives(g, target)) return true;
        }
        return false;
    }
    uint64_t selOf(const GlobalValue* g) { return g ? (gaddr[g] >> ABITS) & 0x7fffffff : 1; }
    void takeEdge(int e) {
        Frame& f = cur->fr.back();
        Edge& E = f.f->edges[e];
        if (!E.copies.empty()) {
            static vector<Val> tmp;
            tmp.clear();
            for (auto& c : E.copies) for (int k = 0; k < c[2]; k++) tmp.push_back(c[1] >= 0 ? cur->regs[f.regBase + c[1] + k] : consts[~c[1] + k]);
            size_t j = 0;
            for (auto& c : E.copies) for (int k = 0; k < c[2]; k++) cur->regs[f.regBase + c[0] + k] = tmp[j++];
        }
        f.pc = E.target;
    }
    void popFrame() {
        Frame& f = cur->fr.back();
        for (auto id : f.allocas) { cur->mem.set(id, tombstone("dead stack object")); cur->freeIds.push_back(id); }
        cur->regs.resize(f.regBase);
        cur->fr.pop_back();
    }
    // propagate exception (exnObj, exnTI) out of the current frame's current call site
    void unwind(bool popFirst) {
        const GlobalValue* ti = addrGlobal[cur->exnTI];
        // is there any handler at all?  (otherwise: std::terminate without unwinding)
        bool first = !popFirst;
        for (;;) {
            if (!first) {
                if (cur->fr.size() <= 1) {
                    end("uncaught", "uncaught exception of type " + (ti ? ti->getName().str() : string("?")));
                }
                popFrame();
            }
            first = false;
            Frame& f = cur->fr.back();
            // frame's pc is already past the call
            if (f.pc == 0) continue;
            const Inst& in = f.f->code[f.pc - 1];
            if (in.op != I_CALL || !in.call->invoke) continue;
            const Edge& E = f.f->edges[in.call->unwindEdge];
            const Inst* lp = nullptr;
            for (uint32_t p = E.target; p < f.f->code.size(); p++) if (f.f->code[p].op == I_LPAD) { lp = &f.f->code[p]; break; }
            if (!lp) continue;
            uint64_t sel = 0; bool match = false;
            for (auto* c : lp->lp->clauses) {
                if (!c || (ti && tiDerives(ti, c))) { match = true; sel = selOf(c); break; }
            }
            if (!match && !lp->lp->cleanup) continue;
            cur->exnSel = match ? sel : 0;
            takeEdge(in.call->unwindEdge);
            return;
        }
    }

    // -------------------------------------------------------------- floating point (bits)
    static double d(uint64_t b) { double x; memcpy(&x, &b, 8); return x; }
    static float f32(uint64_t b) { float x; uint32_t y = b; memcpy(&x, &y, 4); return x; }
    static uint64_t bits(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
    static uint64_t bits32(float x) { uint32_t b; memcpy(&b, &x, 4); return b; }
    EX fIsNan(EX a) {
        unsigned w = a->w;
        EX m = P.bin(E_AND, a, P.cst(maskw(w - 1), w));
        uint64_t inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
        return P.bin(E_ULT, P.cst(inf, w), m);
    }
    // order-preserving signed key (with -0 == +0)
    EX fKey(EX a) {
        unsigned w = a->w;
        EX mag = P.bin(E_AND, a, P.cst(maskw(w - 1), w));
        EX neg = P.extract(a, w - 1, 1);
        return P.ite(neg, P.bin(E_SUB, P.cst(0, w), mag), mag);
    }
    EX fcmp(unsigned pred, EX a, EX b) {
        EX uno = P.bin(E_OR, fIsNan(a), fIsNan(b));
        EX ka = fKey(a), kb = fKey(b);
        EX base = nullptr;
        switch (pred & 7) {
        case 0: base = P.cst(0, 1); break;
        case 1: base = P.bin(E_EQ, ka, kb); break;
        case 2: base = P.bin(E_SLT, kb, ka); break;
        case 3: base = P.bin(E_SLE, kb, ka); break;
        case 4: base = P.bin(E_SLT, ka, kb); break;
        case 5: base = P.bin(E_SLE, ka, kb); break;
        case 6: base = P.notb(P.bin(E_EQ, ka, kb)); break;
        case 7: base = P.cst(1, 1); break;
        }
        EX ordered = P.bin(E_AND, P.notb(uno), base);
        if (pred & 8) return P.bin(E_OR, uno, base);
        return ordered;
    }

    // -------------------------------------------------------------- execution
    void pushFrame(FuncInfo* f, const vector<Val>& args, int retDst, const Inst* call) {
        if (!f->decoded) decode(f);
        f->calls++;
        if (cur->fr.size() >= maxFrames) end("recursion", "call depth exceeds " + std::to_string(maxFrames) + " in " + f->name);
        Frame fr;
        fr.f = f; fr.pc = 0; fr.regBase = cur->regs.size(); fr.retDst = retDst; fr.call = call; fr.va = 0; fr.cleanupThrow = false;
        cur->regs.resize(fr.regBase + f->nregs, C(0));
        size_t n = 0;
        for (size_t i = 0; i < f->argN.size(); i++) for (unsigned k = 0; k < f->argN[i]; k++) {
            if (n < args.size()) cur->regs[fr.regBase + f->argSlot[i] + k] = args[n];
            n++;
        }
        cur->fr.push_back(std::move(fr));
    }
    void icmp(const Inst& in) {
        Val a = get(in.a), b = get(in.b);
        unsigned w = in.w;
        if (in.n != 1) end("unsupported", "vector icmp");
        if (!a.e && !b.e) {
            bool r = false; uint64_t x = a.c & maskw(w), y = b.c & maskw(w);
            switch (in.sub) {
            case ICmpInst::ICMP_EQ: r = x == y; break;
            case ICmpInst::ICMP_NE: r = x != y; break;
            case ICmpInst::ICMP_UGT: r = x > y; break;
            case ICmpInst::ICMP_UGE: r = x >= y; break;
            case ICmpInst::ICMP_ULT: r = x < y; break;
            case ICmpInst::ICMP_ULE: r = x <= y; break;
            case ICmpInst::ICMP_SGT: r = sx64(x, w) > sx64(y, w); break;
            case ICmpInst::ICMP_SGE: r = sx64(x, w) >= sx64(y, w); break;
            case ICmpInst::ICMP_SLT: r = sx64(x, w) < sx64(y, w); break;
            case ICmpInst::ICMP_SLE: r = sx64(x, w) <= sx64(y, w); break;
            }
            reg(in.dst) = C(r);
            return;
        }
        EX x = ex(a, w), y = ex(b, w), r = nullptr;
        switch (in.sub) {
        case ICmpInst::ICMP_EQ: r = P.bin(E_EQ, x, y); break;
        case ICmpInst::ICMP_NE: r = P.notb(P.bin(E_EQ, x, y)); break;
        case ICmpInst::ICMP_UGT: r = P.bin(E_ULT, y, x); break;
        case ICmpInst::ICMP_UGE: r = P.bin(E_ULE, y, x); break;
        case ICmpInst::ICMP_ULT: r = P.bin(E_ULT, x, y); break;
        case ICmpInst::ICMP_ULE: r = P.bin(E_ULE, x, y); break;
        case ICmpInst::ICMP_SGT: r = P.bin(E_SLT, y, x); break;
        case ICmpInst::ICMP_SGE: r = P.bin(E_SLE, y, x); break;
        case ICmpInst::ICMP_SLT: r = P.bin(E_SLT, x, y); break;
        case ICmpInst::ICMP_SLE: r = P.bin(E_SLE, x, y); break;
        }
        reg(in.dst) = mkv(r);
    }
    Val binop(unsigned k, Val a, Val b, unsigned w) {
        if (w > 64) end("unsupported", "wide integer arithmetic");
        if (!a.e && !b.e) {
            return C(ExprPool::fold((EK)k, a.c & maskw(w), b.c & maskw(w), w));
        }
        return mkv(P.bin((EK)k, ex(a, w), ex(b, w)));
    }
    void run(State* s) {
        cur = s;
        const Inst* in = nullptr;
        try {
            uint64_t cnt = 0;
            for (;;) {
                Frame& f = s->fr.back();
                in = &f.f->code[f.pc];
                nInst++; s->steps++;
                if ((++cnt & 0xffff) == 0) {
                    if (Solver::now() - t0 > maxTime) { incomplete["time limit"]++; end("limit", "time"); }
                }
                if (s->steps > maxSteps) end("hang", "more than " + std::to_string(maxSteps) + " instructions on one path");
                if (step(*in)) break;
            }
            if (s->steps > maxPathSteps) maxPathSteps = s->steps;
            pathDone();
        } catch (PathEnd& e) {
            if (s->steps > maxPathSteps) maxPathSteps = s->steps;
            if (e.kind == "assume") { nAssumeCut++; }
            else if (e.kind == "limit") {}
            else if (e.kind == "exit") pathDone();
            else if (e.kind == "unsupported") { incomplete["unsupported: " + e.msg + " at " + backtrace()]++; }
            else violation(e.kind, e.msg, in ? in->I : nullptr);
        }
        delete s;
        cur = nullptr;
    }
    bool step(const Inst& in) {
        Frame& f = cur->fr.back();
        switch (in.op) {
        case I_BIN: {
            Val a = get(in.a), b = get(in.b);
            if (in.n != 1) { // element-wise vector
                for (unsigned i = 0; i < in.n; i++) {
                    Val x = in.a >= 0 ? cur->regs[f.regBase + in.a + i] : consts[~in.a + i];
                    Val y = in.b >= 0 ? cur->regs[f.regBase + in.b + i] : consts[~in.b + i];
                    reg(in.dst + i) = binop(in.sub, x, y, in.w);
                }
                f.pc++;
                break;
            }
            if (in.sub == E_UDIV || in.sub == E_SDIV || in.sub == E_UREM || in.sub == E_SREM) {
                if (b.e) {
                    EX z = P.bin(E_EQ, b.e, P.cst(0, in.w));
                    if (decide(z)) end("arith", "division by zero");
                } else if ((b.c & maskw(in.w)) == 0) end("arith", "division by zero");
            }
            reg(in.dst) = binop(in.sub, a, b, in.w);
            f.pc++;
            break;
        }
        case I_ICMP: icmp(in); f.pc++; break;
        case I_FCMP: {
            Val a = get(in.a), b = get(in.b);
            if (in.w > 64) end("unsupported", "long double compare");
            reg(in.dst) = mkv(fcmp(in.sub, ex(a, in.w), ex(b, in.w)));
            f.pc++;
            break;
        }
        case I_FBIN: {
            if (in.w > 64) end("unsupported", "long double arithmetic");
            uint64_t a = concretize(get(in.a), in.w), b = concretize(get(in.b), in.w);
            if (in.w == 64) { double x = d(a), y = d(b); reg(in.dst) = C(bits(in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y)); }
            else { float x = f32(a), y = f32(b); reg(in.dst) = C(bits32(in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y)); }
            f.pc++;
            break;
        }
        case I_FNEG: reg(in.dst) = binop(E_XOR, get(in.a), C(1ULL << (in.w - 1)), in.w); f.pc++; break;
        case I_SELECT: {
            Val c = get(in.a);
            for (unsigned i = 0; i < in.n; i++) {
                Val x = in.b >= 0 ? reg(in.b + i) : consts[~in.b + i];
                Val y = in.c >= 0 ? reg(in.c + i) : consts[~in.c + i];
                if (!c.e) reg(in.dst + i) = (c.c & 1) ? x : y;
                else if (in.n == 1 && in.w == 64 && in.I->getType()->isPointerTy() && (!x.e || !y.e)) {
                    // selecting between pointers: fork
                    bool r = decide(c.e);
                    reg(in.dst) = r ? x : y;
                } else if (in.n == 1 && in.w <= 64) reg(in.dst + i) = mkv(P.ite(c.e, ex(x, in.w), ex(y, in.w)));
                else { bool r = decide(c.e); c = C(r); reg(in.dst + i) = r ? x : y; }
            }
            f.pc++;
            break;
        }
        case I_TRUNC: { Val a = get(in.a); reg(in.dst) = a.e ? mkv(P.extract(a.e, 0, in.w)) : C(a.c & maskw(in.w)); f.pc++; break; }
        case I_ZEXT: { Val a = get(in.a); if (in.w > 64) end("unsupported", "i128"); reg(in.dst) = a.e ? mkv(P.zext(a.e, in.w)) : C(a.c & maskw(in.b)); f.pc++; break; }
        case I_SEXT: { Val a = get(in.a); if (in.w > 64) end("unsupported", "i128"); reg(in.dst) = a.e ? mkv(P.sext(a.e, in.w)) : C((uint64_t)sx64(a.c, in.b) & maskw(in.w)); f.pc++; break; }
        case I_COPY: for (unsigned i = 0; i < in.n; i++) reg(in.dst + i) = in.a >= 0 ? reg(in.a + i) : consts[~in.a + i]; f.pc++; break;
        case I_EXTRACTV: for (unsigned i = 0; i < in.n; i++) reg(in.dst + i) = in.a >= 0 ? reg(in.a + in.b + i) : consts[~in.a + in.b + i]; f.pc++; break;
        case I_INSERTV: {
            for (unsigned i = 0; i < in.n; i++) reg(in.dst + i) = in.a >= 0 ? reg(in.a + i) : consts[~in.a + i];
            for (unsigned i = 0; i < in.imm; i++) reg(in.dst + in.c + i) = in.b >= 0 ? reg(in.b + i) : consts[~in.b + i];
            f.pc++;
            break;
        }
        case I_EXTRACTE: { uint64_t k = concretize(get(in.b), 64); reg(in.dst) = in.a >= 0 ? reg(in.a + k) : consts[~in.a + k]; f.pc++; break; }
        case I_INSERTE: {
            uint64_t k = concretize(get(in.c), 64);
            for (unsigned i = 0; i < in.n; i++) reg(in.dst + i) = in.a >= 0 ? reg(in.a + i) : consts[~in.a + i];
            reg(in.dst + k) = get(in.b);
            f.pc++;
            break;
        }
        case I_FPCAST: fpcast(in); f.pc++; break;
        case I_LOAD: {
            Val a = get(in.a);
            if (in.sc->size() == 1) { Val v = load(a, (*in.sc)[0].w); reg(in.dst) = v; }
            else {
                uint64_t p = ptrArg(a);
                for (size_t i = 0; i < in.sc->size(); i++) { Val v = load(C(p + (*in.sc)[i].off), (*in.sc)[i].w); reg(in.dst + i) = v; }
            }
            cur->fr.back().pc++;
            break;
        }
        case I_STORE: {
            Val a = get(in.b);
            atomicNow = in.sub;
            if (in.sc->size() == 1) store(a, get(in.a), (*in.sc)[0].w);
            else {
                uint64_t p = ptrArg(a);
                for (size_t i = 0; i < in.sc->size(); i++) store(C(p + (*in.sc)[i].off), in.a >= 0 ? reg(in.a + i) : consts[~in.a + i], (*in.sc)[i].w);
            }
            cur->fr.back().pc++;
            break;
        }
        case I_ALLOCA: {
            uint64_t n = concretize(get(in.a), 64);
            uint64_t a = allocObj(n * in.imm, OK_STACK, false, in.I->hasName() ? in.I->getName().data() : "stack");
            cur->fr.back().allocas.push_back(a >> ABITS);
            reg(in.dst) = C(a);
            f.pc++;
            break;
        }
        case I_GEP: {
            Val a = get(in.a);
            Val r = a.e ? mkv(P.bin(E_ADD, a.e, P.cst(in.imm, 64))) : C(a.c + in.imm);
            for (auto& g : *in.gep) {
                Val x = get(g.op);
                if (!x.e && !r.e) r.c += (uint64_t)sx64(x.c, g.w) * g.scale;
                else {
                    EX xe = g.w > 64 ? nullptr : P.sext(ex(x, g.w), 64);
                    // scale by power of two as a shift
                    EX sc = (g.scale & (g.scale - 1)) == 0 && g.scale ? P.bin(E_SHL, xe, P.cst(__builtin_ctzll(g.scale), 64)) : P.bin(E_MUL, xe, P.cst(g.scale, 64));
                    r = mkv(P.bin(E_ADD, ex(r, 64), sc));
                }
            }
            reg(in.dst) = r;
            f.pc++;
            break;
        }
        case I_BR: takeEdge(in.b); break;
        case I_CBR: {
            Val c = get(in.a);
            bool t = c.e ? decide(c.e) : (c.c & 1);
            takeEdge(t ? in.b : in.c);
            break;
        }
        case I_SWITCH: {
            Val c = get(in.a);
            int e = in.sw->def;
            if (!c.e) {
                uint64_t v = c.c & maskw(in.w);
                for (auto& p : in.sw->cases) if (p.first == v) { e = p.second; break; }
            } else {
                uint64_t v = evalM(c.e);
                for (auto& p : in.sw->cases) if (p.first == v) { e = p.second; break; }
                EX same = P.cst(0, 1);
                bool isDef = true;
                for (auto& p : in.sw->cases) if (p.first == v) isDef = false;
                if (isDef) {
                    EX any = P.cst(0, 1);
                    for (auto& p : in.sw->cases) any = P.bin(E_OR, any, P.bin(E_EQ, c.e, P.cst(p.first, in.w)));
                    same = P.notb(any);
                } else {
                    for (auto& p : in.sw->cases) if (p.second == e) same = P.bin(E_OR, same, P.bin(E_EQ, c.e, P.cst(p.first, in.w)));
                }
                vector<uint64_t> m;
                EX ns = P.notb(same);
                SR r = S.check(cur->pc, ns, cur->model, &m);
                if (r == UNKNOWN) incomplete["solver timeout"]++;
                if (r == SAT) { fork(ns, m); addPc(same); }
            }
            takeEdge(e);
            break;
        }
        case I_RET: {
            Val rv[16]; vector<Val> big;
            unsigned n = in.n;
            Val* p = rv;
            if (n > 16) { big.resize(n); p = big.data(); }
            for (unsigned i = 0; i < n; i++) p[i] = in.a >= 0 ? reg(in.a + i) : consts[~in.a + i];
            const Inst* call = f.call;
            int dst = f.retDst;
            popFrame();
            if (cur->fr.empty()) return true;
            if (dst >= 0) for (unsigned i = 0; i < n; i++) reg(dst + i) = p[i];
            if (call && call->call->invoke) takeEdge(call->call->normalEdge);
            break;
        }
        case I_CALL: atomicNow = false; return doCall(in);
        case I_LPAD:
            reg(in.dst) = C(cur->exnObj);
            if (in.n > 1) reg(in.dst + 1) = C(cur->exnSel);
            f.pc++;
            break;
        case I_RESUME: unwind(true); break;
        case I_UNREACH: end("unreachable", "unreachable code (undefined behaviour) executed");
        case I_RMW: {
            Val p = get(in.a), v = get(in.b);
            Val old = load(p, in.w);
            Val nv = v;
            switch (in.sub) {
            case AtomicRMWInst::Xchg: break;
            case AtomicRMWInst::Add: nv = binop(E_ADD, old, v, in.w); break;
            case AtomicRMWInst::Sub: nv = binop(E_SUB, old, v, in.w); break;
            case AtomicRMWInst::And: nv = binop(E_AND, old, v, in.w); break;
            case AtomicRMWInst::Or: nv = binop(E_OR, old, v, in.w); break;
            case AtomicRMWInst::Xor: nv = binop(E_XOR, old, v, in.w); break;
            default: end("unsupported", "atomicrmw");
            }
            atomicNow = true; store(p, nv, in.w); atomicNow = false;
            reg(in.dst) = old;
            cur->fr.back().pc++;
            break;
        }
        case I_CMPXCHG: {
            Val p = get(in.a);
            Val old = load(p, in.w);
            Val c = get(in.b);
            EX eq = P.bin(E_EQ, ex(old, in.w), ex(c, in.w));
            bool same = decide(eq);
            atomicNow = true; if (same) store(p, get(in.c), in.w); atomicNow = false;
            reg(in.dst) = old; reg(in.dst + 1) = C(same);
            cur->fr.back().pc++;
            break;
        }
        case I_NOP: f.pc++; break;
        default: {
            string s; raw_string_ostream os(s); os << *in.I;
            end("unsupported", "instruction " + os.str());
        }
        }
        return false;
    }
    void fpcast(const Inst& in) {
        unsigned sw = in.b;
        if (sw > 64 || in.w > 64) end("unsupported", "long double conversion");
        uint64_t v = concretize(get(in.a), sw);
        switch (in.sub) {
        case Instruction::FPTrunc: reg(in.dst) = C(bits32((float)d(v))); break;
        case Instruction::FPExt: reg(in.dst) = C(bits((double)f32(v))); break;
        case Instruction::FPToUI: { double x = sw == 64 ? d(v) : f32(v); reg(in.dst) = C((uint64_t)x & maskw(in.w)); break; }
        case Instruction::FPToSI: { double x = sw == 64 ? d(v) : f32(v); reg(in.dst) = C((uint64_t)(int64_t)x & maskw(in.w)); break; }
        case Instruction::UIToFP: reg(in.dst) = C(in.w == 64 ? bits((double)(v & maskw(sw))) : bits32((float)(v & maskw(sw)))); break;
        case Instruction::SIToFP: reg(in.dst) = C(in.w == 64 ? bits((double)sx64(v, sw)) : bits32((float)sx64(v, sw))); break;
        }
    }
    bool doCall(const Inst& in) {
        CallInfo& ci = *in.call;
        FuncInfo* callee = ci.callee;
        if (!callee) {
            uint64_t a = concretize(get(ci.fop), 64);
            auto it = faddr.find(a);
            if (it == faddr.end()) memError("call through a bad function pointer", a);
            callee = it->second;
        }
        if (callee->F->isDeclaration() || (callee->builtin && callee->F->hasAvailableExternallyLinkage())) return builtin(in, callee);
        vector<Val> args;
        args.reserve(8);
        Frame& f = cur->fr.back();
        for (size_t i = 0; i < ci.args.size(); i++) {
            if (i >= callee->F->arg_size()) break;
            for (unsigned k = 0; k < ci.nslots[i]; k++) args.push_back(ci.args[i] >= 0 ? cur->regs[f.regBase + ci.args[i] + k] : consts[~ci.args[i] + k]);
        }
        vector<uint32_t> extra;
        for (size_t i = 0, n = 0; i < ci.args.size() && i < callee->F->arg_size(); n += ci.nslots[i], i++) if (ci.byval[i]) {
            uint64_t src = concretize(args[n], 64);
            uint64_t a = allocObj(ci.byval[i], OK_STACK, false, "byval");
            copyBytes(a, src, ci.byval[i]);
            args[n] = C(a);
            extra.push_back(a >> ABITS);
        }
        uint64_t va = 0;
        if (callee->F->isVarArg()) {
            size_t nv = ci.args.size() - callee->F->arg_size();
            va = allocObj(nv * 8 + 8, OK_STACK, true, "varargs");
            Obj* o = cur->mem.getW(va >> ABITS);
            for (size_t i = 0; i < nv; i++) {
                size_t k = i + callee->F->arg_size();
                Val v = get(ci.args[k]);
                if (ci.widths[k] < 64 && v.e) v = mkv(P.zext(v.e, 64));
                storeRaw(o, i * 8, v, 64);
            }
            extra.push_back(va >> ABITS);
        }
        cur->fr.back().pc++;
        pushFrame(callee, args, in.dst, &in);
        for (auto x : extra) cur->fr.back().allocas.push_back(x);
        cur->fr.back().va = va;
        return false;
    }
    bool builtin(const Inst& in, FuncInfo* fi);
    void retB(const Inst& in, Val v) {
        if (in.dst >= 0) reg(in.dst) = v;
        if (in.call->invoke) takeEdge(in.call->normalEdge);
        else cur->fr.back().pc++;
    }
    // memory comparison as an expression
    Val memcmpV(uint64_t a, uint64_t b, uint64_t n) {
        if (!n) return C(0);
        checkRange(a, n, false);
        checkRange(b, n, false);
        uint64_t ao = a & ((1u << ABITS) - 1), bo = b & ((1u << ABITS) - 1);
        vector<Val> x, y;
        bool conc = true;
        for (uint64_t i = 0; i < n; i++) {
            Val p = loadRaw(at(a), a >> ABITS, ao + i, 1), q = loadRaw(at(b), b >> ABITS, bo + i, 1);
            if (p.e || q.e) conc = false;
            x.push_back(p); y.push_back(q);
            if (conc && p.c != q.c) return C(p.c < q.c ? 0xffffffffULL : 1);
        }
        if (conc) return C(0);
        EX r = P.cst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            EX p = ex(x[i], 8), q = ex(y[i], 8);
            EX diff = P.ite(P.bin(E_ULT, p, q), P.cst(0xffffffff, 32), P.cst(1, 32));
            r = P.ite(P.bin(E_EQ, p, q), r, diff);
        }
        // present equality as one conjunction so that "== 0" tests simplify
        EX eq = P.cst(1, 1);
        for (uint64_t i = n; i-- > 0;) {
            // compare up to 8 bytes at once
            uint64_t lo = i >= 7 ? i - 7 : 0;
            EX p = nullptr, q = nullptr;
            for (uint64_t k = lo; k <= i; k++) { p = p ? P.concat(ex(x[k], 8), p) : ex(x[k], 8); q = q ? P.concat(ex(y[k], 8), q) : ex(y[k], 8); }
            eq = P.bin(E_AND, eq, P.bin(E_EQ, p, q));
            i = lo;
        }
        EX lt = P.cst(0, 1);
        for (uint64_t i = n; i-- > 0;) {
            EX p = ex(x[i], 8), q = ex(y[i], 8);
            lt = P.ite(P.bin(E_EQ, p, q), lt, P.bin(E_ULT, p, q));
        }
        return mkv(P.ite(eq, P.cst(0, 32), P.ite(lt, P.cst(0xffffffff, 32), P.cst(1, 32))));
    }
    void doAssert(const Inst& in, Val c, unsigned w, const string& msg) {
        nObl++;
        if (!c.e) {
            if (!(c.c & maskw(w))) end("assertion", msg);
            return;
        }
        nOblSym++;
        EX nz = w == 1 ? c.e : P.notb(P.bin(E_EQ, c.e, P.cst(0, w)));
        if (nz->k == E_CONST) { if (!nz->c) end("assertion", msg); return; }
        if (!evalM(nz)) end("assertion", msg); // the current model already refutes it
        vector<uint64_t> m;
        SR r = S.check(cur->pc, P.notb(nz), cur->model, &m);
        if (r == UNKNOWN) incomplete["solver timeout"]++;
        if (r == SAT) {
            auto save = cur->model;
            cur->model = m;
            violation("assertion", msg, in.I);
            cur->model = save;
            addPc(nz);
        }
    }

    // -------------------------------------------------------------- driver
    void addStart(State* s, Function* F) {
        cur = s;
        FuncInfo* fi = info(F);
        pushFrame(fi, {}, -1, nullptr);
        cur = nullptr;
    }
    bool checkRss() {
        FILE* f = fopen("/proc/self/statm", "r");
        if (!f) return true;
        unsigned long a, b = 0;
        if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
        fclose(f);
        return b * 4 < maxRssKb;
    }
    double stopAfter = 1e9;
    bool overBudget() {
        if (sh && stopAfter < 1e8) { double f = sh->firstViol.load(); if (f > 0 && Solver::now() - f > stopAfter) { incomplete["stopped after violations"] += work.size(); return true; } }
        if (Solver::now() - t0 > maxTime) { incomplete["time limit"] += work.size(); return true; }
        static unsigned k = 0;
        if ((++k & 63) == 0 && !checkRss()) { incomplete["memory limit"] += work.size(); return true; }
        return false;
    }
    void explore() {
        while (!work.empty()) {
            if (overBudget()) break;
            State* s = work.back();
            work.pop_back();
            run(s);
            if (jobs > 1 && work.size() >= 2) share();
        }
    }
    // hand half of the open states to a forked process whenever a processor is idle
    vector<pid_t> kids;
    bool isChild = false;
    double lastShare = 0;
    void share() {
        if (sh->running.load() >= jobs || sh->nextId.load() >= 3000) return;
        double n = Solver::now();
        if (n - lastShare < 0.03) return;
        int r = sh->running.load();
        if (r >= jobs || !sh->running.compare_exchange_strong(r, r + 1)) return;
        lastShare = n;
        int id = sh->nextId.fetch_add(1);
        fflush(stdout); fflush(stderr);
        pid_t pid = ::fork();
        if (pid < 0) { sh->running.fetch_sub(1); return; }
        vector<State*> keep;
        for (size_t i = 0; i < work.size(); i++) if ((i & 1) == (pid == 0 ? 0u : 1u)) keep.push_back(work[i]);
        work.swap(keep);
        if (pid) { kids.push_back(pid); return; }
        isChild = true;
        kids.clear();
        nPaths = nForks = nInst = nObl = nOblSym = nSymMem = nAssumeCut = nErr = 0;
        S.nQueries = S.nSat = S.nUnsat = S.nUnk = S.nCacheHit = S.nModelHit = 0; S.tSolver = 0;
        S.dumpLeft = id < 4 ? 3 : 0;
        reachCount.clear(); incomplete.clear(); violOut.clear(); testOut.clear(); pathSeen = 0;
        for (auto& x : finfo) x.second->calls = 0;
        rng ^= (id + 1) * 0x2545F4914F6CDD1DULL;
        forkSites.clear();
        myId = id;
    }
    int myId = -1;
    void finish() {
        if (sh) sh->running.fetch_sub(1);
        for (auto p : kids) {
            int st = 0;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { incomplete["worker died (status " + std::to_string(st) + ")"]++; sh->running.fetch_sub(1); }
        }
        writeOut(isChild ? outPath + "." + std::to_string(myId) : outPath);
        fflush(stdout);
        _exit(0);
    }
    void writeOut(const string& fn) {
        FILE* f = fopen(fn.c_str(), "w");
        if (!f) { perror(fn.c_str()); exit(3); }
        fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"obligations\":%llu,\"symbolic_obligations\":%llu,\"symbolic_accesses\":%llu,\"assume_cut\":%llu,\"max_path_steps\":%llu,",
                (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nInst, (unsigned long long)nObl, (unsigned long long)nOblSym, (unsigned long long)nSymMem, (unsigned long long)nAssumeCut, (unsigned long long)maxPathSteps);
        fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,",
                (unsigned long long)S.nQueries, (unsigned long long)S.nSat, (unsigned long long)S.nUnsat, (unsigned long long)S.nUnk, (unsigned long long)S.nCacheHit, (unsigned long long)S.nModelHit, S.tSolver, Solver::now() - t0);
        fprintf(f, "\"incomplete\":{");
        bool first = true;
        for (auto& x : incomplete) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; }
        fprintf(f, "},\"reach\":{");
        first = true;
        for (auto& x : reachCount) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; }
        fprintf(f, "},\"violations\":[");
        first = true;
        for (auto& x : violOut) { fprintf(f, "%s%s", first ? "" : ",", x.c_str()); first = false; }
        fprintf(f, "],\"tests\":[");
        first = true;
        for (auto& x : testOut) { fprintf(f, "%s%s", first ? "" : ",", x.c_str()); first = false; }
        fprintf(f, "],\"functions\":{");
        first = true;
        for (auto& x : finfo) {
            FuncInfo* fi = x.second;
            if (!fi->calls || fi->F->isDeclaration()) continue;
            string file = "?";
            if (auto* SP = fi->F->getSubprogram()) file = SP->getFilename().str();
            fprintf(f, "%s\"%s\":[\"%s\",%llu]", first ? "" : ",", jesc(fi->name).c_str(), jesc(file).c_str(), (unsigned long long)fi->calls);
            first = false;
        }
        if (verboseForks) {
            vector<std::pair<uint64_t, string>> v;
            for (auto& x : forkSites) v.push_back({x.second, x.first});
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "fork %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
        }
        fprintf(f, "}}\n");
        fclose(f);
    }
    int main(int argc, char** argv);
};

#include "builtins.inc"

int Engine::main(int argc, char** argv) {
    string in;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(argv[++i]); };
        if (a == "--time") maxTime = atof(nx().c_str());
        else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") outPath = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--rss-mb") maxRssKb = strtoull(nx().c_str(), 0, 10) * 1024;
        else if (a == "--tests") maxTests = atoi(nx().c_str());
        else if (a == "--seed") rng ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ULL;
        else if (a == "--dump") { S.dumpDir = nx(); S.dumpLeft = 6; }
        else if (a == "--solver-ms") S.timeoutMs = atoi(nx().c_str());
        else if (a == "--stop-after") stopAfter = atof(nx().c_str());
        else if (a == "--forks") verboseForks = true;
        else in = a;
    }
    t0 = Solver::now();
    S.newSolver();
    if (!load(in)) return 3;
    Function* F = M->getFunction(entry);
    if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    State* s = initState();
    // static constructors, in priority order
    vector<std::pair<uint64_t, Function*>> ctors;
    if (auto* G = M->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
        for (auto& o : A->operands()) {
            auto* cs = cast<ConstantStruct>(o);
            if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
        }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    cur = s;
    for (auto& c : ctors) {
        pushFrame(info(c.second), {}, -1, nullptr);
        try {
            for (;;) { Frame& f = s->fr.back(); const Inst& i = f.f->code[f.pc]; nInst++; if (step(i)) break; }
        } catch (PathEnd& e) {
            fprintf(stderr, "static constructor %s failed: %s %s %s\n", c.second->getName().str().c_str(), e.kind.c_str(), e.msg.c_str(), backtrace().c_str());
            return 3;
        }
        s->fr.clear(); s->regs.clear();
    }
    if (!work.empty()) { fprintf(stderr, "static constructor forked\n"); return 3; }
    addStart(s, F);
    work.push_back(s);
    sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared(); sh->running = 1; sh->nextId = 0; sh->firstViol = 0;
    explore();
    if (!work.empty()) incomplete["unexplored states"] += work.size();
    finish();
    return 0;
}

int main(int argc, char** argv) { Engine* e = new Engine; return e->main(argc, argv); }
