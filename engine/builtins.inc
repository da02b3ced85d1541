// Functions with built-in semantics (only used when the module does not define them).
enum {
    B_SYM = 1, B_ASSUME, B_ASSERT, B_REACH, B_OBS, B_CONC, B_NATIVE, B_FAIL, B_STOP, B_VALID, B_ISSYM,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE,
    B_MEMCPY, B_MEMSET, B_MEMCMP,
    B_ABORT, B_ASSERTFAIL, B_EXIT, B_TERMINATE, B_RET0, B_NOP,
    B_CXA_ALLOC, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_GUARD_ACQ, B_GUARD_REL, B_DYNCAST,
    B_STRTOD, B_FMTD, B_MATH, B_OVF, B_MINMAX, B_ABS, B_BSWAP, B_CTPOP, B_CTZ, B_CLZ, B_FSH, B_EXPECT, B_TYPEID, B_STACKSAVE, B_VASTART, B_VACOPY,
    B_TRAP, B_FABS, B_FFLOOR, B_FCEIL, B_ISCONST, B_OBJSIZE, B_FMULADD, B_SADDSAT, B_THREADPTR, B_OBJSZ, B_ISHEAP, B_LIVE, B_SHARE, B_LOCK, B_UNLOCK
};
const std::map<string, int>& Engine::builtins() {
    static const std::map<string, int> m = {
        {"sx_sym", B_SYM}, {"sx_assume", B_ASSUME}, {"sx_assert_", B_ASSERT}, {"sx_reach", B_REACH}, {"sx_observe", B_OBS},
        {"sx_concretize", B_CONC}, {"sx_native", B_NATIVE}, {"sx_fail", B_FAIL}, {"sx_stop", B_STOP}, {"sx_valid", B_VALID}, {"sx_is_symbolic", B_ISSYM},
        {"sx_objsize", B_OBJSZ}, {"sx_live_heap", B_LIVE}, {"sx_share", B_SHARE},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE},
        {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
        {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_TERMINATE},
        {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_NOP}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END},
        {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_CXA_GETPTR}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP},
        {"__cxa_atexit", B_RET0}, {"__dynamic_cast", B_DYNCAST}, {"strtod", B_STRTOD}, {"vf_fmtd", B_FMTD},
        {"sqrt", B_MATH}, {"pow", B_MATH}, {"log", B_MATH}, {"log2", B_MATH}, {"log10", B_MATH}, {"exp", B_MATH}, {"exp2", B_MATH}, {"floor", B_MATH}, {"ceil", B_MATH}, {"round", B_MATH}, {"trunc", B_MATH}, {"rint", B_MATH}, {"nearbyint", B_MATH}, {"fabs", B_MATH}, {"fmod", B_MATH}, {"fmin", B_MATH}, {"fmax", B_MATH}, {"lround", B_MATH}, {"llround", B_MATH}, {"lrint", B_MATH},
        {"printf", B_RET0}, {"fprintf", B_RET0}, {"puts", B_RET0}, {"putchar", B_RET0}, {"fputs", B_RET0}, {"fputc", B_RET0}, {"fflush", B_RET0}, {"perror", B_RET0},
        {"vfprintf", B_RET0}, {"vprintf", B_RET0}, {"putc", B_RET0}, {"syslog", B_RET0}, {"setlocale", B_RET0},
        {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_rwlock_wrlock", B_LOCK}, {"pthread_rwlock_rdlock", B_LOCK}, {"pthread_rwlock_unlock", B_UNLOCK}, {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0},
        {"_ZNSt8ios_base4InitC1Ev", B_RET0}, {"_ZNSt8ios_base4InitD1Ev", B_RET0},
    };
    return m;
}
static int intrinsicKind(const string& n) {
    auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (!pre("llvm.")) return 0;
    if (pre("llvm.memcpy.") || pre("llvm.memmove.") || pre("llvm.memcpy.inline.")) return B_MEMCPY;
    if (pre("llvm.memset.")) return B_MEMSET;
    if (pre("llvm.lifetime.") || pre("llvm.dbg.") || pre("llvm.assume") || pre("llvm.va_end") || pre("llvm.stackrestore") || pre("llvm.experimental.") || pre("llvm.invariant") || pre("llvm.donothing") || pre("llvm.prefetch")) return B_NOP;
    if (n.find(".with.overflow.") != string::npos) return B_OVF;
    if (pre("llvm.smax") || pre("llvm.smin") || pre("llvm.umax") || pre("llvm.umin")) return B_MINMAX;
    if (pre("llvm.abs.")) return B_ABS;
    if (pre("llvm.bswap.")) return B_BSWAP;
    if (pre("llvm.ctpop.")) return B_CTPOP;
    if (pre("llvm.cttz.")) return B_CTZ;
    if (pre("llvm.ctlz.")) return B_CLZ;
    if (pre("llvm.fshl.") || pre("llvm.fshr.")) return B_FSH;
    if (pre("llvm.expect.")) return B_EXPECT;
    if (pre("llvm.eh.typeid.for")) return B_TYPEID;
    if (pre("llvm.stacksave")) return B_STACKSAVE;
    if (pre("llvm.va_start")) return B_VASTART;
    if (pre("llvm.va_copy")) return B_VACOPY;
    if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return B_TRAP;
    if (pre("llvm.fabs.")) return B_FABS;
    for (const char* m : {"sqrt", "pow", "log", "log2", "log10", "exp", "exp2", "round", "trunc", "rint", "nearbyint", "minnum", "maxnum", "lround", "llround", "lrint"}) if (n == string("llvm.") + m + ".f64" || n == string("llvm.") + m + ".i64.f64") return B_MATH;
    if (pre("llvm.floor.")) return B_FFLOOR;
    if (pre("llvm.ceil.")) return B_FCEIL;
    if (pre("llvm.is.constant")) return B_ISCONST;
    if (pre("llvm.objectsize")) return B_OBJSIZE;
    if (pre("llvm.fmuladd.")) return B_FMULADD;
    if (pre("llvm.usub.sat") || pre("llvm.uadd.sat")) return B_SADDSAT;
    if (pre("llvm.threadlocal.address")) return B_THREADPTR;
    return 0;
}
bool Engine::builtin(const Inst& in, FuncInfo* fi) {
    CallInfo& ci = *in.call;
    int b = fi->F->isDeclaration() || fi->F->hasAvailableExternallyLinkage() ? fi->builtin : 0;
    if (!b) {
        b = intrinsicKind(fi->name);
        if (b) fi->builtin = b;
    }
    auto A = [&](unsigned i) { return get(ci.args[i]); };
    auto arg2 = [&](unsigned i, unsigned k) { return ci.args[i] >= 0 ? reg(ci.args[i] + k) : consts[~ci.args[i] + k]; };
    (void)arg2;
    switch (b) {
    case B_SYM: {
        uint64_t p = ptrArg(A(0)), n = concretize(A(1), 64);
        string name = cstr(ptrArg(A(2)));
        int k = cur->nameCount[name]++;
        if (k) name += "#" + std::to_string(k);
        auto si = std::make_shared<SymInput>();
        si->name = name; si->n = n;
        if (n == 1 || n == 2 || n == 4 || n == 8) {
            EX v = P.var(name, n * 8);
            for (unsigned i = 0; i < n; i++) si->bytes.push_back(n == 1 ? v : P.extract(v, 8 * i, 8));
            store(C(p), mkv(v), n * 8);
        } else {
            checkRange(p, n, true);
            for (unsigned i = 0; i < n; i++) {
                EX v = P.var(name + "[" + std::to_string(i) + "]", 8);
                si->bytes.push_back(v);
                store(C(p + i), mkv(v), 8);
            }
        }
        cur->inputs.push_back(si);
        retB(in, C(0));
        return false;
    }
    case B_ASSUME: {
        Val c = A(0);
        unsigned w = ci.widths[0];
        if (!c.e) { if (!(c.c & maskw(w))) end("assume", ""); }
        else {
            EX nz = w == 1 ? c.e : P.notb(P.bin(E_EQ, c.e, P.cst(0, w)));
            if (nz->k == E_CONST) { if (!nz->c) end("assume", ""); }
            else {
                if (!evalM(nz)) {
                    vector<uint64_t> m;
                    SR r = S.check(cur->pc, nz, cur->model, &m);
                    if (r == UNKNOWN) { incomplete["solver timeout"]++; end("assume", ""); }
                    if (r == UNSAT) end("assume", "");
                    cur->model = m;
                }
                addPc(nz);
            }
        }
        retB(in, C(0));
        return false;
    }
    case B_ASSERT: {
        string msg = cstr(ptrArg(A(1)));
        doAssert(in, A(0), ci.widths[0], msg);
        retB(in, C(0));
        return false;
    }
    case B_REACH: cur->reach.insert(cstr(ptrArg(A(0)))); retB(in, C(0)); return false;
    case B_OBS: { Val v = A(1); cur->obs.push_back({cstr(ptrArg(A(0))), v}); retB(in, C(0)); return false; }
    case B_CONC: { uint64_t v = concretize(A(0), 64); retB(in, C(v)); return false; }
    case B_ISSYM: retB(in, C(A(0).e ? 1 : 0)); return false;
    case B_NATIVE: retB(in, C(0)); return false;
    case B_FAIL: end("assertion", cstr(ptrArg(A(0))));
    case B_STOP: end("exit", "");
    case B_VALID: {
        uint64_t p = ptrArg(A(0)), n = concretize(A(1), 64);
        const Obj* o = at(p);
        bool ok = o && !o->freed && (p & ((1u << ABITS) - 1)) + n <= o->size;
        retB(in, C(ok));
        return false;
    }
    case B_OBJSZ: {
        uint64_t p = ptrArg(A(0));
        const Obj* o = at(p);
        retB(in, C(o && !o->freed ? o->size : 0));
        return false;
    }
    case B_LIVE: {
        uint64_t n = 0;
        for (auto c : cur->mem.ch) if (c) for (auto o : c->o) if (o && !o->freed && o->kind == OK_HEAP) n++;
        retB(in, C(n));
        return false;
    }
    case B_MALLOC: case B_NEW: {
        Val sz = A(0);
        if (sz.e) { // huge sizes are decided once, the rest is enumerated
            EX big = P.bin(E_ULT, P.cst(1u << 22, 64), sz.e);
            if (decide(big)) { if (b == B_NEW) end("alloc", "operator new asked for more than 4 MiB"); retB(in, C(0)); return false; }
        } else if (sz.c > (1u << 22)) {
            if (b == B_NEW) end("alloc", "operator new asked for " + std::to_string(sz.c) + " bytes");
            if (sz.c > (1ULL << 40)) { retB(in, C(0)); return false; }
        }
        uint64_t n = concretize(sz, 64);
        retB(in, C(allocObj(n, OK_HEAP, false, "heap")));
        return false;
    }
    case B_CALLOC: {
        uint64_t n = concretize(A(0), 64), m = concretize(A(1), 64);
        retB(in, C(allocObj(n * m, OK_HEAP, true, "heap")));
        return false;
    }
    case B_REALLOC: {
        uint64_t p = ptrArg(A(0)), n = concretize(A(1), 64);
        uint64_t q = allocObj(n, OK_HEAP, false, "heap");
        if (p) {
            const Obj* o = at(p);
            if (!o || o->freed || o->kind != OK_HEAP || (p & ((1u << ABITS) - 1))) memError("realloc of a bad pointer", p);
            checkShared(o, p);
            copyBytes(q, p, std::min(n, o->size));
            cur->mem.set(p >> ABITS, tombstone("freed heap block"));
        }
        retB(in, C(q));
        return false;
    }
    case B_FREE: case B_DELETE: {
        Val v = A(0);
        uint64_t p = ptrArg(v);
        if (p) {
            const Obj* o = at(p);
            if (!o || o->kind != OK_HEAP || (p & ((1u << ABITS) - 1))) memError("free of a bad pointer", p);
            if (o->freed) memError("double free", p);
            checkShared(o, p);
            cur->mem.set(p >> ABITS, tombstone("freed heap block"));
        }
        retB(in, C(0));
        return false;
    }
    case B_MEMCPY: {
        uint64_t d = ptrArg(A(0)), s = ptrArg(A(1)), n = concretize(A(2), 64);
        copyBytes(d, s, n);
        retB(in, C(d));
        return false;
    }
    case B_MEMSET: {
        uint64_t d = ptrArg(A(0)); Val c = A(1); uint64_t n = concretize(A(2), 64);
        if (n) {
            checkRange(d, n, true);
            Obj* o = cur->mem.getW(d >> ABITS);
            uint64_t of = d & ((1u << ABITS) - 1);
            if (!c.e) { memset(o->data + of, (int)c.c, n); memset(o->st + of, 0, n); }
            else { EX e = P.extract(c.e, 0, 8); for (uint64_t i = 0; i < n; i++) o->setSym(of + i, e); }
        }
        retB(in, C(d));
        return false;
    }
    case B_MEMCMP: {
        uint64_t x = ptrArg(A(0)), y = ptrArg(A(1)), n = concretize(A(2), 64);
        Val r = memcmpV(x, y, n);
        retB(in, r);
        return false;
    }
    case B_ABORT: end("abort", "abort() called");
    case B_ASSERTFAIL: end("assertion", "assert(" + cstr(ptrArg(A(0))) + ") failed");
    case B_EXIT: end("exit", "");
    case B_TERMINATE: end("terminate", "std::terminate / pure virtual call");
    case B_SHARE: { // 1: everything that exists is shared from now on; 0: not any more; 2, 3: begin, end of a stand-in's own bookkeeping
        uint64_t m = concretize(A(0), 32);
        if (m == 1) { cur->shareId = cur->nextId; cur->shareOff = 0; } else if (m == 0) cur->shareId = 0; else if (m == 2) cur->shareOff++; else cur->shareOff--;
        retB(in, C(0)); return false;
    }
    case B_LOCK: cur->shareOff++; retB(in, C(0)); return false;
    case B_UNLOCK: if (cur->shareOff) cur->shareOff--; retB(in, C(0)); return false;
    case B_RET0: retB(in, C(0)); return false;
    case B_NOP: retB(in, C(0)); return false;
    case B_CXA_ALLOC: { uint64_t n = concretize(A(0), 64); retB(in, C(allocObj(n, OK_STACK, false, "exception"))); return false; }
    case B_CXA_THROW: {
        cur->exnObj = ptrArg(A(0)); cur->exnTI = ptrArg(A(1));
        cur->fr.back().pc++;
        unwind(false);
        return false;
    }
    case B_CXA_BEGIN: { uint64_t p = ptrArg(A(0)); cur->caught.push_back({cur->exnObj, cur->exnTI}); retB(in, C(p)); return false; }
    case B_CXA_END: if (!cur->caught.empty()) cur->caught.pop_back(); retB(in, C(0)); return false;
    case B_CXA_RETHROW: {
        if (cur->caught.empty()) end("terminate", "rethrow without exception");
        cur->exnObj = cur->caught.back().first; cur->exnTI = cur->caught.back().second;
        cur->fr.back().pc++;
        unwind(false);
        return false;
    }
    case B_CXA_GETPTR: retB(in, A(0)); return false;
    case B_GUARD_ACQ: {
        uint64_t g = ptrArg(A(0));
        Val v = load(C(g), 8);
        if ((v.c & 255) == 0) cur->shareOff++; // initialised once, under the guard's lock
        retB(in, C((v.c & 255) == 0));
        return false;
    }
    case B_GUARD_REL: { uint64_t g = ptrArg(A(0)); store(C(g), C(1), 8); if (cur->shareOff) cur->shareOff--; retB(in, C(0)); return false; }
    case B_DYNCAST: {
        uint64_t p = ptrArg(A(0)), dst = ptrArg(A(2));
        uint64_t vp = concretize(load(C(p), 64), 64);
        uint64_t ti = concretize(load(C(vp - 8), 64), 64), top = concretize(load(C(vp - 16), 64), 64);
        const GlobalValue* a = addrGlobal[ti]; const GlobalValue* d2 = addrGlobal[dst];
        retB(in, C(a && d2 && tiDerives(a, d2) ? p + top : 0));
        return false;
    }
    case B_STRTOD: {
        uint64_t p = ptrArg(A(0)), e = ptrArg(A(1));
        string s = cstr(p);
        char* endp;
        double v = strtod(s.c_str(), &endp);
        if (e) store(C(e), C(p + (endp - s.c_str())), 64);
        retB(in, C(bits(v)));
        return false;
    }
    case B_FMTD: {
        uint64_t p = ptrArg(A(0)), n = concretize(A(1), 64);
        string spec = cstr(ptrArg(A(2)));
        char out[512];
        int k = snprintf(out, sizeof out, spec.c_str(), d(concretize(A(3), 64)));
        if ((uint64_t)k + 1 > n || k + 1 > (int)sizeof out) end("unsupported", "format of a floating point number");
        for (int i = 0; i <= k; i++) store(C(p + i), C((unsigned char)out[i]), 8);
        retB(in, C(k));
        return false;
    }
    case B_MATH: {
        string m = fi->name;
        if (m.compare(0, 5, "llvm.") == 0) { m = m.substr(5); m = m.substr(0, m.find('.')); }
        double x = d(concretize(A(0), 64)), y = ci.args.size() > 1 ? d(concretize(A(1), 64)) : 0;
        if (m == "lround" || m == "llround") { retB(in, C((uint64_t)lround(x))); return false; }
        if (m == "lrint") { retB(in, C((uint64_t)lrint(x))); return false; }
        double r = m == "sqrt" ? sqrt(x) : m == "pow" ? pow(x, y) : m == "log" ? log(x) : m == "log2" ? log2(x) : m == "log10" ? log10(x) : m == "exp" ? exp(x) : m == "exp2" ? exp2(x)
                 : m == "floor" ? floor(x) : m == "ceil" ? ceil(x) : m == "round" ? round(x) : m == "trunc" ? trunc(x) : m == "rint" ? rint(x) : m == "nearbyint" ? nearbyint(x)
                 : m == "fabs" ? fabs(x) : m == "fmod" ? fmod(x, y) : m == "fmin" || m == "minnum" ? fmin(x, y) : fmax(x, y);
        retB(in, C(bits(r)));
        return false;
    }
    case B_OVF: {
        unsigned w = ci.widths[0];
        Val x = A(0), y = A(1);
        const string& n = fi->name;
        EK k = n.find("add") != string::npos ? E_ADD : n.find("sub") != string::npos ? E_SUB : E_MUL;
        bool sg = n.compare(5, 1, "s") == 0;
        Val r = binop(k, x, y, w), o;
        if (!x.e && !y.e) {
            uint64_t a = x.c & maskw(w), c = y.c & maskw(w);
            __int128 e = sg ? (k == E_ADD ? (__int128)sx64(a, w) + sx64(c, w) : k == E_SUB ? (__int128)sx64(a, w) - sx64(c, w) : (__int128)sx64(a, w) * sx64(c, w))
                            : (k == E_ADD ? (__int128)a + c : k == E_SUB ? (__int128)a - c : (__int128)((unsigned __int128)a * c));
            __int128 got = sg ? (__int128)sx64(r.c, w) : (__int128)r.c;
            o = C(e != got);
        } else {
            EX a = ex(x, w), c = ex(y, w), rr = ex(r, w);
            if (!sg && k == E_ADD) o = mkv(P.bin(E_ULT, rr, a));
            else if (!sg && k == E_SUB) o = mkv(P.bin(E_ULT, a, c));
            else if (sg && k != E_MUL) {
                EX sa = P.extract(a, w - 1, 1), sc = P.extract(c, w - 1, 1), sr = P.extract(rr, w - 1, 1);
                EX same = k == E_ADD ? P.bin(E_EQ, sa, sc) : P.notb(P.bin(E_EQ, sa, sc));
                o = mkv(P.bin(E_AND, same, P.notb(P.bin(E_EQ, sr, sa))));
            } else { // multiplication: concretise the operands
                uint64_t xa = concretize(x, w), yc = concretize(y, w);
                unsigned __int128 e = (unsigned __int128)xa * yc;
                r = C((uint64_t)e & maskw(w));
                o = C(sg ? ((__int128)sx64(xa, w) * sx64(yc, w) != (__int128)sx64((uint64_t)e, w)) : (e >> w) != 0);
            }
        }
        reg(in.dst) = r; reg(in.dst + 1) = o;
        cur->fr.back().pc++;
        return false;
    }
    case B_MINMAX: {
        unsigned w = ci.widths[0];
        EX x = ex(A(0), w), y = ex(A(1), w);
        bool mx = fi->name[6] == 'm' && fi->name[7] == 'a', sg = fi->name[5] == 's';
        EX lt = P.bin(sg ? E_SLT : E_ULT, x, y);
        retB(in, mkv(mx ? P.ite(lt, y, x) : P.ite(lt, x, y)));
        return false;
    }
    case B_ABS: { unsigned w = ci.widths[0]; EX x = ex(A(0), w); retB(in, mkv(P.ite(P.bin(E_SLT, x, P.cst(0, w)), P.bin(E_SUB, P.cst(0, w), x), x))); return false; }
    case B_BSWAP: {
        unsigned w = ci.widths[0]; EX x = ex(A(0), w), r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { EX y = P.extract(x, 8 * i, 8); r = r ? P.concat(r, y) : y; }
        retB(in, mkv(r));
        return false;
    }
    case B_CTPOP: case B_CTZ: case B_CLZ: {
        unsigned w = ci.widths[0];
        uint64_t v = concretize(A(0), w) & maskw(w), r;
        if (b == B_CTPOP) r = __builtin_popcountll(v);
        else if (b == B_CTZ) r = v ? __builtin_ctzll(v) : w;
        else r = v ? __builtin_clzll(v) - (64 - w) : w;
        retB(in, C(r));
        return false;
    }
    case B_FSH: {
        unsigned w = ci.widths[0];
        uint64_t s = concretize(A(2), w) % w;
        EX x = ex(A(0), w), y = ex(A(1), w);
        bool l = fi->name.compare(0, 9, "llvm.fshl") == 0;
        if (s == 0) { retB(in, mkv(l ? x : y)); return false; }
        unsigned ls = l ? s : w - s;
        retB(in, mkv(P.bin(E_OR, P.bin(E_SHL, x, P.cst(ls, w)), P.bin(E_LSHR, y, P.cst(w - ls, w)))));
        return false;
    }
    case B_EXPECT: retB(in, A(0)); return false;
    case B_THREADPTR: retB(in, A(0)); return false;
    case B_TYPEID: {
        const GlobalValue* g = addrGlobal[A(0).c];
        retB(in, C(selOf(g)));
        return false;
    }
    case B_STACKSAVE: retB(in, C(0)); return false;
    case B_VASTART: {
        uint64_t p = ptrArg(A(0));
        store(C(p), C(48), 32); store(C(p + 4), C(176), 32);
        store(C(p + 8), C(cur->fr.back().va), 64); store(C(p + 16), C(cur->fr.back().va), 64);
        retB(in, C(0));
        return false;
    }
    case B_VACOPY: { copyBytes(ptrArg(A(0)), ptrArg(A(1)), 24); retB(in, C(0)); return false; }
    case B_TRAP: end("trap", "llvm.trap");
    case B_FABS: { unsigned w = ci.widths[0]; retB(in, mkv(P.bin(E_AND, ex(A(0), w), P.cst(maskw(w - 1), w)))); return false; }
    case B_FFLOOR: case B_FCEIL: {
        unsigned w = ci.widths[0]; uint64_t v = concretize(A(0), w);
        if (w == 64) retB(in, C(bits(b == B_FFLOOR ? floor(d(v)) : ceil(d(v))))); else retB(in, C(bits32(b == B_FFLOOR ? floorf(f32(v)) : ceilf(f32(v)))));
        return false;
    }
    case B_FMULADD: {
        unsigned w = ci.widths[0]; uint64_t x = concretize(A(0), w), y = concretize(A(1), w), z = concretize(A(2), w);
        if (w == 64) retB(in, C(bits(d(x) * d(y) + d(z)))); else retB(in, C(bits32(f32(x) * f32(y) + f32(z))));
        return false;
    }
    case B_SADDSAT: {
        unsigned w = ci.widths[0]; EX x = ex(A(0), w), y = ex(A(1), w);
        if (fi->name.find("usub") != string::npos) retB(in, mkv(P.ite(P.bin(E_ULT, x, y), P.cst(0, w), P.bin(E_SUB, x, y))));
        else { EX r = P.bin(E_ADD, x, y); retB(in, mkv(P.ite(P.bin(E_ULT, r, x), P.cst(maskw(w), w), r))); }
        return false;
    }
    case B_ISCONST: retB(in, C(0)); return false;
    case B_OBJSIZE: retB(in, C(~0ULL)); return false;
    default: break;
    }
    end("unsupported", "external function " + fi->name);
}
