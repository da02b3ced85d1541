// z3 front end: feasibility queries over the path condition, with independence slicing,
// a query cache and recent-model reuse.
#pragma once
#include "expr.h"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

enum SR { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
    ExprPool& P;
    Z3_context ctx = nullptr;
    Z3_solver sol = nullptr;
    unsigned nGuards = 0;
    std::unordered_map<const Expr*, Z3_ast> guards;
    std::vector<const Expr*> z3cached;
    std::deque<std::vector<uint64_t>> recent;
    struct CacheEnt { SR r; std::vector<std::pair<uint32_t, uint64_t>> m; };
    std::map<std::vector<uint32_t>, CacheEnt> cache;
    // statistics
    uint64_t nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nCacheHit = 0, nModelHit = 0;
    double tSolver = 0;
    unsigned timeoutMs = 20000;
    double slowS = getenv("MSX_SLOW") ? atof(getenv("MSX_SLOW")) : 0;
    uint64_t dumpLeft = 0; std::string dumpDir; uint64_t dumpNo = 0;

    Solver(ExprPool& p) : P(p) { init(); }
    void init() {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
            abort();
        });
        newSolver();
    }
    void newSolver() {
        if (sol) Z3_solver_dec_ref(ctx, sol);
        sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, sol);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 700);
        Z3_solver_set_params(ctx, sol, p);
        Z3_params_dec_ref(ctx, p);
        guards.clear();
        nGuards = 0;
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast bv(const Expr* e) {
        if (e->z3bv) return (Z3_ast)e->z3bv;
        Z3_ast r;
        auto B = [&](const Expr* x) { return bv(x); };
        switch (e->k) {
        case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
        case E_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->c)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
        case E_ADD: r = Z3_mk_bvadd(ctx, B(e->a), B(e->b)); break;
        case E_SUB: r = Z3_mk_bvsub(ctx, B(e->a), B(e->b)); break;
        case E_MUL: r = Z3_mk_bvmul(ctx, B(e->a), B(e->b)); break;
        case E_UDIV: r = Z3_mk_bvudiv(ctx, B(e->a), B(e->b)); break;
        case E_SDIV: r = Z3_mk_bvsdiv(ctx, B(e->a), B(e->b)); break;
        case E_UREM: r = Z3_mk_bvurem(ctx, B(e->a), B(e->b)); break;
        case E_SREM: r = Z3_mk_bvsrem(ctx, B(e->a), B(e->b)); break;
        case E_AND: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(ctx, B(e->a), B(e->b)); break;
        case E_OR: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(ctx, B(e->a), B(e->b)); break;
        case E_XOR: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(ctx, B(e->a), B(e->b)); break;
        case E_SHL: r = Z3_mk_bvshl(ctx, B(e->a), B(e->b)); break;
        case E_LSHR: r = Z3_mk_bvlshr(ctx, B(e->a), B(e->b)); break;
        case E_ASHR: r = Z3_mk_bvashr(ctx, B(e->a), B(e->b)); break;
        case E_ITE: r = Z3_mk_ite(ctx, boolean(e->a), B(e->b), B(e->d)); break;
        case E_CONCAT: r = Z3_mk_concat(ctx, B(e->a), B(e->b)); break;
        case E_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, B(e->a)); break;
        case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, B(e->a)); break;
        case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, B(e->a)); break;
        default: viaBool: {
            Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
            r = Z3_mk_ite(ctx, boolean(e), Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
        }
        }
        e->z3bv = keep(r);
        return r;
    }
    Z3_ast boolean(const Expr* e) {
        assert(e->w == 1);
        if (e->z3bool) return (Z3_ast)e->z3bool;
        Z3_ast r;
        switch (e->k) {
        case E_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case E_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, boolean(e->a), boolean(e->b)); else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
        case E_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
        case E_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
        case E_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
        case E_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
        case E_AND: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case E_OR: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case E_XOR:
            if (ExprPool::isC(e->b, 1)) r = Z3_mk_not(ctx, boolean(e->a));
            else r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b));
            break;
        case E_ITE: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->d)); break;
        default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
        }
        e->z3bool = keep(r);
        return r;
    }
    Z3_ast guard(const Expr* e) {
        auto it = guards.find(e);
        if (it != guards.end()) return it->second;
        char buf[32]; snprintf(buf, sizeof buf, "g%u", e->id);
        Z3_ast g = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), Z3_mk_bool_sort(ctx)));
        Z3_solver_assert(ctx, sol, Z3_mk_implies(ctx, g, boolean(e)));
        guards[e] = g;
        nGuards++;
        return g;
    }
    static double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    // Is pc ∧ cond satisfiable?  base: an assignment that satisfies pc.
    // On SAT, model = base updated so that it satisfies pc ∧ cond.
    SR check(const std::vector<const Expr*>& pc, const Expr* cond, const std::vector<uint64_t>& base, std::vector<uint64_t>* model) {
        if (ExprPool::isC(cond)) { if (cond->c && model) *model = base; return cond->c ? SAT : UNSAT; }
        // independence slice
        std::vector<const Expr*> slice;
        std::vector<char> used(pc.size(), 0);
        std::vector<char> vs(P.varNames.size(), 0);
        std::vector<uint32_t> work = P.vars(cond);
        for (auto v : work) vs[v] = 1;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                auto& cv = P.vars(pc[i]);
                bool hit = false;
                for (auto v : cv) if (vs[v]) { hit = true; break; }
                if (hit) {
                    used[i] = 1; slice.push_back(pc[i]); ch = true;
                    for (auto v : cv) vs[v] = 1;
                }
            }
        }
        std::vector<uint32_t> key;
        for (auto e : slice) key.push_back(e->id);
        key.push_back(cond->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it != cache.end()) {
            nCacheHit++;
            if (it->second.r == SAT && model) {
                *model = base;
                setm(*model, it->second.m);
            }
            return it->second.r;
        }
        // recent models
        for (auto& m : recent) {
            if (!P.eval(cond, m)) continue;
            bool ok = true;
            for (auto e : slice) if (!P.eval(e, m)) { ok = false; break; }
            if (ok) {
                nModelHit++;
                CacheEnt ce; ce.r = SAT;
                for (uint32_t v = 0; v < vs.size(); v++) if (vs[v]) ce.m.push_back({v, v < m.size() ? m[v] : 0});
                if (model) { *model = base; setm(*model, ce.m); }
                cache[key] = ce;
                return SAT;
            }
        }
        double t0 = now();
        nQueries++;
        static unsigned gmax = getenv("MSX_GUARDS") ? atoi(getenv("MSX_GUARDS")) : 40;
        if (nGuards > gmax) newSolver();
        std::vector<Z3_ast> as;
        for (auto e : slice) as.push_back(guard(e));
        as.push_back(guard(cond));
        Z3_lbool r = Z3_solver_check_assumptions(ctx, sol, as.size(), as.data());
        Z3_solver one = nullptr;
        if (r == Z3_L_UNDEF) { // hard for the incremental solver: once more with the full preprocessing, from scratch
            Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
            Z3_tactic_inc_ref(ctx, t);
            one = Z3_mk_solver_from_tactic(ctx, t);
            Z3_solver_inc_ref(ctx, one);
            Z3_tactic_dec_ref(ctx, t);
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
            Z3_solver_set_params(ctx, one, p);
            Z3_params_dec_ref(ctx, p);
            for (auto e : slice) Z3_solver_assert(ctx, one, boolean(e));
            Z3_solver_assert(ctx, one, boolean(cond));
            r = Z3_solver_check(ctx, one);
            newSolver();
        }
        CacheEnt ce;
        if (r == Z3_L_TRUE) {
            nSat++;
            ce.r = SAT;
            Z3_model m = Z3_solver_get_model(ctx, one ? one : sol);
            Z3_model_inc_ref(ctx, m);
            for (uint32_t v = 0; v < vs.size(); v++) if (vs[v]) {
                Z3_ast out = nullptr;
                uint64_t val = 0;
                if (Z3_model_eval(ctx, m, bv(P.varExpr[v]), true, &out) && out) {
                    Z3_inc_ref(ctx, out);
                    Z3_get_numeral_uint64(ctx, out, &val);
                    Z3_dec_ref(ctx, out);
                }
                ce.m.push_back({v, val});
            }
            Z3_model_dec_ref(ctx, m);
            // the engine's own evaluation must agree with z3's model
            std::vector<uint64_t> nm = base; setm(nm, ce.m);
            if (!P.eval(cond, nm)) { fprintf(stderr, "internal: model does not satisfy query\n"); abort(); }
            for (auto e : slice) if (!P.eval(e, nm)) { fprintf(stderr, "internal: model does not satisfy path\n"); abort(); }
            recent.push_front(nm);
            if (recent.size() > 12) recent.pop_back();
            if (model) *model = nm;
        } else if (r == Z3_L_FALSE) {
            nUnsat++;
            ce.r = UNSAT;
        } else {
            nUnk++;
            ce.r = UNKNOWN;
        }
        if (one) Z3_solver_dec_ref(ctx, one);
        tSolver += now() - t0;
        if (slowS > 0 && now() - t0 > slowS) { dumpLeft++; dumpQuery(slice, cond, ce.r); }
        if (ce.r != UNKNOWN && dumpLeft > 0 && (nQueries == 3 || nQueries % 37 == 0)) dumpQuery(slice, cond, ce.r);
        if (cache.size() > 400000) cache.clear();
        cache[key] = ce;
        return ce.r;
    }
    static void setm(std::vector<uint64_t>& m, const std::vector<std::pair<uint32_t, uint64_t>>& u) {
        for (auto& x : u) { if (m.size() <= x.first) m.resize(x.first + 1, 0); m[x.first] = x.second; }
    }
    // write a query as SMT-LIB so that a second solver can confirm the verdict
    void dumpQuery(const std::vector<const Expr*>& slice, const Expr* cond, SR r) {
        dumpLeft--;
        std::vector<Z3_ast> as;
        for (auto e : slice) as.push_back(boolean(e));
        const char* s = Z3_benchmark_to_smtlib_string(ctx, "msx", "QF_BV", r == SAT ? "sat" : "unsat", "", as.size(), as.data(), boolean(cond));
        char fn[512];
        snprintf(fn, sizeof fn, "%s/q%d_%llu.%s.smt2", dumpDir.c_str(), (int)getpid(), (unsigned long long)dumpNo++, r == SAT ? "sat" : "unsat");
        if (FILE* f = fopen(fn, "w")) { fputs(s, f); fclose(f); }
    }
};
