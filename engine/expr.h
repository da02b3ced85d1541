// Hash-consed bit-vector expressions (width 1..64) with light simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <cassert>

enum EK : uint8_t {
    E_CONST, E_VAR,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT
};

struct Expr {
    EK k;
    uint8_t w;
    uint8_t lo;            // extract low bit
    uint32_t id;
    uint64_t c;            // const value or var id
    const Expr *a, *b, *d; // children
    size_t h;
    // mutable caches
    mutable uint64_t evv;
    mutable uint32_t evgen;
    mutable std::vector<uint32_t>* vars; // sorted variable ids (lazily computed)
    mutable void* z3bv;
    mutable void* z3bool;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprHash { size_t operator()(const Expr* e) const { return e->h; } };
struct ExprEq {
    bool operator()(const Expr* x, const Expr* y) const {
        return x->k == y->k && x->w == y->w && x->lo == y->lo && x->c == y->c &&
               x->a == y->a && x->b == y->b && x->d == y->d;
    }
};

struct ExprPool {
    std::unordered_set<const Expr*, ExprHash, ExprEq> tab;
    std::vector<const Expr*> all;
    std::vector<std::string> varNames;
    std::vector<uint8_t> varW;
    std::vector<const Expr*> varExpr;
    std::unordered_map<std::string, uint32_t> varByName;
    char* blk = nullptr; size_t left = 0;
    uint32_t evgen = 0;

    Expr* alloc() {
        if (left < sizeof(Expr)) { blk = (char*)malloc(1 << 20); left = 1 << 20; }
        Expr* e = (Expr*)blk; blk += sizeof(Expr); left -= sizeof(Expr);
        return e;
    }
    const Expr* mk(EK k, unsigned w, const Expr* a, const Expr* b, const Expr* d, uint64_t c, unsigned lo) {
        Expr t;
        t.k = k; t.w = w; t.lo = lo; t.c = c; t.a = a; t.b = b; t.d = d;
        size_t h = k * 0x9E3779B97F4A7C15ULL + w * 131 + lo * 7919;
        h = (h ^ c) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
        h = (h ^ (a ? a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
        h = (h ^ (b ? b->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
        h = (h ^ (d ? d->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 31;
        t.h = h;
        auto it = tab.find(&t);
        if (it != tab.end()) return *it;
        Expr* e = alloc();
        *e = t;
        e->id = all.size();
        e->evgen = 0; e->evv = 0; e->vars = nullptr; e->z3bv = nullptr; e->z3bool = nullptr;
        all.push_back(e);
        tab.insert(e);
        return e;
    }
    const Expr* cst(uint64_t v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, v & maskw(w), 0); }
    const Expr* var(const std::string& name, unsigned w) {
        auto it = varByName.find(name);
        if (it != varByName.end()) { if (varW[it->second] == w) return varExpr[it->second]; return var(name + "'", w); }
        uint32_t id = varNames.size();
        varNames.push_back(name); varW.push_back(w); varByName[name] = id;
        const Expr* e = mk(E_VAR, w, 0, 0, 0, id, 0);
        varExpr.push_back(e);
        return e;
    }
    static bool isC(const Expr* e) { return e->k == E_CONST; }
    static bool isC(const Expr* e, uint64_t v) { return e->k == E_CONST && e->c == (v & maskw(e->w)); }

    static uint64_t fold(EK k, uint64_t x, uint64_t y, unsigned w) {
        uint64_t m = maskw(w);
        switch (k) {
        case E_ADD: return (x + y) & m;
        case E_SUB: return (x - y) & m;
        case E_MUL: return (x * y) & m;
        case E_UDIV: return y ? (x / y) & m : m;
        case E_UREM: return y ? (x % y) & m : x;
        case E_SDIV: { int64_t p = sx64(x, w), q = sx64(y, w);
            if (!q) return p < 0 ? 1 : m;
            if (q == -1) return (uint64_t)(0 - (uint64_t)p) & m;
            return (uint64_t)(p / q) & m; }
        case E_SREM: { int64_t p = sx64(x, w), q = sx64(y, w);
            if (!q) return x; if (q == -1) return 0; return (uint64_t)(p % q) & m; }
        case E_AND: return x & y;
        case E_OR: return x | y;
        case E_XOR: return x ^ y;
        case E_SHL: return y >= w ? 0 : (x << y) & m;
        case E_LSHR: return y >= w ? 0 : (x >> y);
        case E_ASHR: { int64_t p = sx64(x, w); return (uint64_t)(y >= w ? (p < 0 ? -1 : 0) : (p >> y)) & m; }
        case E_EQ: return x == y;
        case E_ULT: return x < y;
        case E_ULE: return x <= y;
        case E_SLT: return sx64(x, w) < sx64(y, w);
        case E_SLE: return sx64(x, w) <= sx64(y, w);
        default: assert(0); return 0;
        }
    }
    const Expr* notb(const Expr* a) { // 1-bit negation / bitwise not
        return bin(E_XOR, a, cst(~0ULL, a->w));
    }
    // conservative unsigned upper bound (for pruning comparisons)
    static uint64_t ub(const Expr* e, int depth = 6) {
        switch (e->k) {
        case E_CONST: return e->c;
        case E_ZEXT: return ub(e->a, depth - 1);
        case E_AND: if (depth > 0) return std::min(ub(e->a, depth - 1), ub(e->b, depth - 1)); break;
        case E_ITE: if (depth > 0) return std::max(ub(e->b, depth - 1), ub(e->d, depth - 1)); break;
        case E_UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; break;
        case E_ADD: if (depth > 0) { uint64_t x = ub(e->a, depth - 1), y = ub(e->b, depth - 1); if (x <= maskw(e->w) - y) return x + y; } break;
        case E_MUL: if (depth > 0 && isC(e->b) && e->b->c) { uint64_t x = ub(e->a, depth - 1); if (x <= maskw(e->w) / e->b->c) return x * e->b->c; } break;
        case E_CONCAT: if (depth > 0) { uint64_t x = ub(e->a, depth - 1), y = ub(e->b, depth - 1); return (x << e->b->w) | y; } break;
        case E_LSHR: if (depth > 0 && isC(e->b) && e->b->c < e->w) return ub(e->a, depth - 1) >> e->b->c; break;
        default: break;
        }
        return maskw(e->w);
    }
    // sums are kept in a normal form: distinct terms ordered by id, subtracted ones after the added ones, constant last
    struct Lin { const Expr* t[12]; uint64_t c[12]; int n; uint64_t k; };
    static bool lin(const Expr* e, uint64_t coef, Lin& l) {
        switch (e->k) {
        case E_CONST: l.k += coef * e->c; return true;
        case E_ADD: return lin(e->a, coef, l) && lin(e->b, coef, l);
        case E_SUB: return lin(e->a, coef, l) && lin(e->b, 0 - coef, l);
        case E_MUL: if (isC(e->b)) return lin(e->a, coef * e->b->c, l); break;
        default: break;
        }
        for (int i = 0; i < l.n; i++) if (l.t[i] == e) { l.c[i] += coef; return true; }
        if (l.n == 12) return false;
        l.t[l.n] = e; l.c[l.n++] = coef;
        return true;
    }
    const Expr* linear(EK k, const Expr* a, const Expr* b) {
        Lin l; l.n = 0; l.k = 0;
        if (!lin(a, 1, l) || !lin(b, k == E_ADD ? 1 : ~0ULL, l)) return nullptr;
        return linearOf(l, a->w);
    }
    const Expr* linearOf(Lin& l, unsigned w) {
        for (int i = 1; i < l.n; i++)
            for (int j = i; j > 0 && l.t[j - 1]->id > l.t[j]->id; j--) { std::swap(l.t[j - 1], l.t[j]); std::swap(l.c[j - 1], l.c[j]); }
        const Expr* acc = nullptr;
        for (int neg = 0; neg < 2; neg++)
            for (int i = 0; i < l.n; i++) {
                uint64_t c = l.c[i] & maskw(w);
                if (!c) continue;
                bool n = w > 1 && (c >> (w - 1)) && c != (1ULL << (w - 1));
                if (n != (neg == 1)) continue;
                uint64_t m = n ? (0 - c) & maskw(w) : c;
                const Expr* x = m == 1 ? l.t[i] : mk(E_MUL, w, l.t[i], cst(m, w), 0, 0, 0);
                if (!acc) acc = n ? mk(E_SUB, w, cst(0, w), x, 0, 0, 0) : x;
                else acc = mk(n ? E_SUB : E_ADD, w, acc, x, 0, 0, 0);
            }
        uint64_t kk = l.k & maskw(w);
        if (!acc) return cst(kk, w);
        if (kk) acc = mk(E_ADD, w, acc, cst(kk, w), 0, 0, 0);
        return acc;
    }
    const Expr* bin(EK k, const Expr* a, const Expr* b) {
        unsigned w = a->w;
        bool cmp = k >= E_EQ && k <= E_SLE;
        if (isC(a) && isC(b)) return cst(fold(k, a->c, b->c, w), cmp ? 1 : w);
        bool comm = k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // constant to the right
        switch (k) {
        case E_ADD:
            if (isC(b, 0)) return a;
            if (w > 1 && ((a->k == E_ADD || a->k == E_SUB || a->k == E_MUL) || (b->k == E_ADD || b->k == E_SUB || b->k == E_MUL) || a == b))
                if (const Expr* r = linear(k, a, b)) return r;
            if (isC(b) && a->k == E_ADD && isC(a->b)) return bin(E_ADD, a->a, cst(a->b->c + b->c, w));
            break;
        case E_SUB:
            if (isC(b, 0)) return a;
            if (a == b) return cst(0, w);
            if (isC(b)) return bin(E_ADD, a, cst(0 - b->c, w));
            if (w > 1 && ((a->k == E_ADD || a->k == E_SUB || a->k == E_MUL) || (b->k == E_ADD || b->k == E_SUB || b->k == E_MUL) || isC(a)))
                if (const Expr* r = linear(k, a, b)) return r;
            if (a->k == E_ADD && isC(a->b) && b->k == E_ADD && isC(b->b)) {
                const Expr* r = bin(E_SUB, a->a, b->a);
                return bin(E_ADD, r, cst(a->b->c - b->b->c, w));
            }
            if (a->k == E_ADD && a->a == b) return a->b;
            if (a->k == E_ADD && a->b == b) return a->a;
            break;
        case E_MUL:
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (isC(b) && w > 1 && (a->k == E_ADD || a->k == E_SUB || a->k == E_MUL) )
                { Lin l; l.n = 0; l.k = 0; if (lin(a, b->c, l)) { const Expr* r = linearOf(l, w); if (r) return r; } }
            break;
        case E_UDIV: if (isC(b, 1)) return a;
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(E_LSHR, a, cst(__builtin_ctzll(b->c), w));
            break;
        case E_UREM: if (isC(b, 1)) return cst(0, w); 
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(E_AND, a, cst(b->c - 1, w));
            break;
        case E_AND:
            if (isC(b, 0)) return b;
            if (isC(b, maskw(w))) return a;
            if (a == b) return a;
            if (isC(b)) {
                if (a->k == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->c & b->c, w));
                if (a->k == E_OR && isC(a->b)) return bin(E_OR, bin(E_AND, a->a, b), cst(a->b->c & b->c, w));
                // low mask -> zext(extract)
                uint64_t m = b->c;
                if ((m & (m + 1)) == 0) {
                    unsigned n = 0; while (n < 64 && (m >> n) & 1) n++;
                    if (n < w) return zext(extract(a, 0, n), w);
                }
                if (a->k == E_ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
                if (a->k == E_ZEXT && (b->c & maskw(a->a->w)) == 0) return cst(0, w);
                if (a->k == E_ZEXT) return zext(bin(E_AND, a->a, cst(b->c, a->a->w)), w);
                if (a->k == E_CONCAT) {
                    unsigned lw = a->b->w;
                    return concat(bin(E_AND, a->a, cst(b->c >> lw, a->a->w)), bin(E_AND, a->b, cst(b->c, lw)));
                }
            }
            if (w == 1) { if (isNot(a) == b || isNot(b) == a) return cst(0, 1); }
            break;
        case E_OR:
            if (isC(b, 0)) return a;
            if (isC(b, maskw(w))) return b;
            if (a == b) return a;
            if (isC(b) && a->k == E_OR && isC(a->b)) return bin(E_OR, a->a, cst(a->b->c | b->c, w));
            if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w)
                return concat(bin(E_OR, a->a, b->a), bin(E_OR, a->b, b->b));
            if (a->k == E_ZEXT && b->k == E_CONCAT && b->b->w == a->a->w && isC(b->b, 0)) return concat(b->a, a->a);
            if (b->k == E_ZEXT && a->k == E_CONCAT && a->b->w == b->a->w && isC(a->b, 0)) return concat(a->a, b->a);
            if (a->k == E_CONCAT && isC(b)) {
                unsigned lw = a->b->w;
                return concat(bin(E_OR, a->a, cst(b->c >> lw, a->a->w)), bin(E_OR, a->b, cst(b->c, lw)));
            }
            if (w == 1) { if (isNot(a) == b || isNot(b) == a) return cst(1, 1); }
            break;
        case E_XOR:
            if (isC(b, 0)) return a;
            if (a == b) return cst(0, w);
            if (isC(b) && a->k == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->c ^ b->c, w));
            if (w == 1 && isC(b, 1)) { // negate comparison
                if (a->k == E_ULT) return bin(E_ULE, a->b, a->a);
                if (a->k == E_ULE) return bin(E_ULT, a->b, a->a);
                if (a->k == E_SLT) return bin(E_SLE, a->b, a->a);
                if (a->k == E_SLE) return bin(E_SLT, a->b, a->a);
                if (a->k == E_ITE && (isC(a->b) || isC(a->d))) return ite(a->a, notb(a->b), notb(a->d));
            }
            break;
        case E_SHL:
            if (isC(b, 0)) return a;
            if (isC(b)) {
                if (b->c >= w) return cst(0, w);
                return concat(extract(a, 0, w - b->c), cst(0, b->c));
            }
            break;
        case E_LSHR:
            if (isC(b, 0)) return a;
            if (isC(b)) {
                if (b->c >= w) return cst(0, w);
                return zext(extract(a, b->c, w - b->c), w);
            }
            break;
        case E_ASHR:
            if (isC(b, 0)) return a;
            if (isC(b) && b->c < w) return sext(extract(a, b->c, w - b->c), w);
            break;
        case E_EQ:
            if (a == b) return cst(1, 1);
            if (w > 1 && (a->k == E_ADD || a->k == E_SUB || a->k == E_MUL) && (b->k == E_ADD || b->k == E_SUB || b->k == E_MUL)) {
                Lin l; l.n = 0; l.k = 0;
                if (lin(a, 1, l) && lin(b, ~0ULL, l)) {
                    bool z = true;
                    for (int i = 0; i < l.n; i++) if (l.c[i] & maskw(w)) z = false;
                    if (z) return cst((l.k & maskw(w)) == 0, 1);
                }
            }
            if (w == 1) {
                if (isC(b, 1)) return a;
                if (isC(b, 0)) return notb(a);
            }
            if (isC(b)) {
                if (a->k == E_ADD && isC(a->b)) return bin(E_EQ, a->a, cst(b->c - a->b->c, w));
                if (a->k == E_XOR && isC(a->b)) return bin(E_EQ, a->a, cst(b->c ^ a->b->c, w));
                if (a->k == E_ZEXT) {
                    if (b->c > maskw(a->a->w)) return cst(0, 1);
                    return bin(E_EQ, a->a, cst(b->c, a->a->w));
                }
                if (a->k == E_SEXT) {
                    uint64_t lowv = b->c & maskw(a->a->w);
                    if (((uint64_t)sx64(lowv, a->a->w) & maskw(w)) != b->c) return cst(0, 1);
                    return bin(E_EQ, a->a, cst(lowv, a->a->w));
                }
                if (a->k == E_CONCAT) {
                    unsigned lw = a->b->w;
                    return bin(E_AND, bin(E_EQ, a->a, cst(b->c >> lw, a->a->w)), bin(E_EQ, a->b, cst(b->c, lw)));
                }
                if (a->k == E_ITE && (isC(a->b) || isC(a->d)))
                    return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->d, b));
            } else {
                if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w)
                    return bin(E_AND, bin(E_EQ, a->a, b->a), bin(E_EQ, a->b, b->b));
                if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
                if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
            }
            break;
        case E_ULT:
            if (a == b) return cst(0, 1);
            if (isC(b, 0)) return cst(0, 1);
            if (isC(a) && a->c == maskw(w)) return cst(0, 1);
            if (isC(b) && ub(a) < b->c) return cst(1, 1);
            if (isC(a) && ub(b) <= a->c) return cst(0, 1);
            if (isC(b, 1)) return bin(E_EQ, a, cst(0, w));
            if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
            if (a->k == E_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return bin(E_ULT, a->a, cst(b->c, a->a->w));
            if (b->k == E_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return bin(E_ULT, cst(a->c, b->a->w), b->a);
            if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
            if (isC(a) && b->k == E_ITE && isC(b->b) && isC(b->d)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->d));
            break;
        case E_ULE:
            if (a == b) return cst(1, 1);
            if (isC(a, 0)) return cst(1, 1);
            if (isC(b) && b->c == maskw(w)) return cst(1, 1);
            if (isC(b) && ub(a) <= b->c) return cst(1, 1);
            if (isC(a) && ub(b) < a->c) return cst(0, 1);
            if (isC(b, 0)) return bin(E_EQ, a, cst(0, w));
            if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a);
            if (a->k == E_ZEXT && isC(b) && b->c <= maskw(a->a->w)) return bin(E_ULE, a->a, cst(b->c, a->a->w));
            if (b->k == E_ZEXT && isC(a) && a->c <= maskw(b->a->w)) return bin(E_ULE, cst(a->c, b->a->w), b->a);
            if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
            if (isC(a) && b->k == E_ITE && isC(b->b) && isC(b->d)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->d));
            break;
        case E_SLT: case E_SLE:
            if (a == b) return cst(k == E_SLE, 1);
            // both known non-negative -> unsigned compare
            if (w > 1 && ub(a) <= (maskw(w) >> 1) && ub(b) <= (maskw(w) >> 1)) return bin(k == E_SLT ? E_ULT : E_ULE, a, b);
            if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return bin(k, a->a, b->a);
            if (a->k == E_ITE && isC(a->b) && isC(a->d) && isC(b)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
            if (a->k == E_ITE && isC(b) && (isC(a->b) || isC(a->d))) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
            if (b->k == E_ITE && isC(a) && (isC(b->b) || isC(b->d))) return ite(b->a, bin(k, a, b->b), bin(k, a, b->d));
            break;
        default: break;
        }
        return mk(k, cmp ? 1 : w, a, b, 0, 0, 0);
    }
    static const Expr* isNot(const Expr* a) { // returns x if a == not(x), 1-bit
        if (a->k == E_XOR && a->w == 1 && isC(a->b, 1)) return a->a;
        return nullptr;
    }
    const Expr* ite(const Expr* c, const Expr* t, const Expr* f) {
        if (isC(c)) return c->c ? t : f;
        if (t == f) return t;
        if (const Expr* n = isNot(c)) return ite(n, f, t);
        if (t->w == 1) {
            if (isC(t, 1) && isC(f, 0)) return c;
            if (isC(t, 0) && isC(f, 1)) return notb(c);
            if (isC(t, 1)) return bin(E_OR, c, f);
            if (isC(t, 0)) return bin(E_AND, notb(c), f);
            if (isC(f, 0)) return bin(E_AND, c, t);
            if (isC(f, 1)) return bin(E_OR, notb(c), t);
        }
        if (t->k == E_ITE && t->a == c) return ite(c, t->b, f);
        if (f->k == E_ITE && f->a == c) return ite(c, t, f->d);
        return mk(E_ITE, t->w, c, t, f, 0, 0);
    }
    const Expr* zext(const Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst(a->c, w);
        if (a->k == E_ZEXT) return zext(a->a, w);
        if (a->k == E_CONCAT && isC(a->a, 0)) return zext(a->b, w);
        if (a->k == E_ADD) {
            uint64_t x = ub(a->a), y = ub(a->b);
            if (x <= maskw(a->w) - y) return bin(E_ADD, zext(a->a, w), zext(a->b, w));
        }
        if (a->k == E_MUL && isC(a->b) && a->b->c && ub(a->a) <= maskw(a->w) / a->b->c) return bin(E_MUL, zext(a->a, w), cst(a->b->c, w));
        return mk(E_ZEXT, w, a, 0, 0, 0, 0);
    }
    const Expr* sext(const Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst((uint64_t)sx64(a->c, a->w), w);
        if (a->k == E_ZEXT) return zext(a->a, w);
        if (a->k == E_SEXT) return sext(a->a, w);
        if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w));
        return mk(E_SEXT, w, a, 0, 0, 0, 0);
    }
    const Expr* extract(const Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        switch (a->k) {
        case E_CONST: return cst(a->c >> lo, w);
        case E_EXTRACT: return extract(a->a, a->lo + lo, w);
        case E_ZEXT:
            if (lo >= a->a->w) return cst(0, w);
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            return zext(extract(a->a, lo, a->a->w - lo), w);
        case E_SEXT:
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            if (lo == 0) return sext(a->a, w);
            break;
        case E_CONCAT: {
            unsigned lw = a->b->w;
            if (lo >= lw) return extract(a->a, lo - lw, w);
            if (lo + w <= lw) return extract(a->b, lo, w);
            return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
        }
        case E_AND: case E_OR: case E_XOR:
            return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        case E_ITE:
            if (isC(a->b) || isC(a->d) ) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
            break;
        case E_ADD: case E_SUB: case E_MUL:
            if (lo > 0 && (ub(a) >> lo) == 0) return cst(0, w);
            if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
            // no carry comes out of low parts that are zero
            if (a->k == E_ADD && (tz(a->a) >= lo || tz(a->b) >= lo))
                return extract(bin(E_ADD, extract(a->a, lo, a->w - lo), extract(a->b, lo, a->w - lo)), 0, w);
            if (a->k == E_SUB && tz(a->b) >= lo)
                return extract(bin(E_SUB, extract(a->a, lo, a->w - lo), extract(a->b, lo, a->w - lo)), 0, w);
            if (a->k == E_MUL && isC(a->b) && a->b->c && (a->b->c & ((1ULL << lo) - 1)) == 0)
                return extract(bin(E_MUL, extract(a->a, 0, a->w - lo), cst(a->b->c >> lo, a->w - lo)), 0, w);
            break;
        default: break;
        }
        return mk(E_EXTRACT, w, a, 0, 0, 0, lo);
    }
    const Expr* concat(const Expr* hi, const Expr* lo) {
        if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, hi->w + lo->w);
        if (isC(hi, 0)) return zext(lo, hi->w + lo->w);
        if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
            return extract(lo->a, lo->lo, hi->w + lo->w);
        // the low part of a sum is kept as a sum of low parts: put it back together
        if (hi->k == E_ZEXT && hi->a->k == E_EXTRACT && hi->a->lo == lo->w) {
            const Expr* E = hi->a->a;
            if ((E->k == E_ADD || E->k == E_SUB || E->k == E_MUL) && extract(E, 0, lo->w) == lo) return zext(extract(E, 0, hi->a->w + lo->w), hi->w + lo->w);
        }
        if (hi->k == E_EXTRACT && hi->lo == lo->w && (hi->a->k == E_ADD || hi->a->k == E_SUB || hi->a->k == E_MUL) && extract(hi->a, 0, lo->w) == lo)
            return extract(hi->a, 0, hi->w + lo->w);
        // concat(x, concat(y,z)) with x,y adjacent extracts
        if (lo->k == E_CONCAT && hi->k == E_EXTRACT && lo->a->k == E_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
            return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
        if (lo->k == E_CONCAT && isC(hi) && isC(lo->a)) return concat(concat(hi, lo->a), lo->b);
        if (hi->k == E_ZEXT && lo->k == E_EXTRACT && hi->a->k == E_EXTRACT && hi->a->a == lo->a && hi->a->lo == lo->lo + lo->w)
            return zext(extract(lo->a, lo->lo, hi->a->w + lo->w), hi->w + lo->w);
        if (hi->k == E_ITE && isC(lo) && isC(hi->b) && isC(hi->d)) return ite(hi->a, concat(hi->b, lo), concat(hi->d, lo));
        if (lo->k == E_ITE && isC(hi) && isC(lo->b) && isC(lo->d)) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->d));
        if (hi->k == E_ITE && lo->k == E_ITE && hi->a == lo->a && isC(hi->b) && isC(hi->d) && isC(lo->b) && isC(lo->d))
            return ite(hi->a, concat(hi->b, lo->b), concat(hi->d, lo->d));
        return mk(E_CONCAT, hi->w + lo->w, hi, lo, 0, 0, 0);
    }
    // evaluate under an assignment (missing variables are 0)
    uint64_t eval(const Expr* e, const std::vector<uint64_t>& m) {
        ++evgen;
        return ev(e, m);
    }
    uint64_t ev(const Expr* e, const std::vector<uint64_t>& m) {
        if (e->k == E_CONST) return e->c;
        if (e->k == E_VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
        if (e->evgen == evgen) return e->evv;
        uint64_t r;
        switch (e->k) {
        case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
        case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case E_EXTRACT: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
        case E_ZEXT: r = ev(e->a, m); break;
        case E_SEXT: r = (uint64_t)sx64(ev(e->a, m), e->a->w) & maskw(e->w); break;
        default: r = fold(e->k, ev(e->a, m), ev(e->b, m), e->a->w);
        }
        e->evgen = evgen; e->evv = r;
        return r;
    }
    const std::vector<uint32_t>& vars(const Expr* e) {
        if (e->vars) return *e->vars;
        auto* v = new std::vector<uint32_t>();
        if (e->k == E_VAR) v->push_back(e->c);
        else {
            const Expr* ch[3] = {e->a, e->b, e->d};
            for (auto c : ch) if (c) { auto& x = vars(c); v->insert(v->end(), x.begin(), x.end()); }
            std::sort(v->begin(), v->end());
            v->erase(std::unique(v->begin(), v->end()), v->end());
        }
        e->vars = v;
        return *v;
    }
    // number of known trailing zero bits
    static unsigned tz(const Expr* e, int depth = 8) {
        if (depth < 0) return 0;
        switch (e->k) {
        case E_CONST: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
        case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(tz(e->a, depth - 1), tz(e->b, depth - 1));
        case E_MUL: return std::min<unsigned>(e->w, tz(e->a, depth - 1) + tz(e->b, depth - 1));
        case E_CONCAT: { unsigned t = tz(e->b, depth - 1); return t == e->b->w ? t + tz(e->a, depth - 1) : t; }
        case E_ZEXT: case E_SEXT: return std::min<unsigned>(tz(e->a, depth - 1), e->w);
        case E_ITE: return std::min(tz(e->b, depth - 1), tz(e->d, depth - 1));
        case E_AND: return std::max(tz(e->a, depth - 1), tz(e->b, depth - 1));
        default: return 0;
        }
    }
};
