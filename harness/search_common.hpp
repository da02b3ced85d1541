#pragma once
#include "terms.hpp"
#include <set>
#include <map>
#include "mws/index/TmpIndex.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/query/SearchContext.hpp"
#include "mws/dbc/DbQueryManager.hpp"
using namespace mws;
using namespace mws::index;
using mws::types::FormulaId;
using mws::query::SearchContext;
struct Tester {
    static void setHits(TmpLeafNode* l, unsigned n) { l->solutions = n; }
    static FormulaId id(TmpLeafNode* l) { return l->id; }
};
// one code with a shape chosen per path and arbitrary constant ids
static Code sym_term(const std::vector<int>& shape, const char* nm) {
    Code c;
    for (size_t i = 0; i < shape.size(); i++) {
        uint32_t id = sx_u32(nm);
        sx_assume(id >= CONSTANT_ID_MIN);
        sx_assume(id < (1u << 24));
        c.push_back(encoded_token(id, shape[i]));
    }
    return c;
}
// does the query term match the index term?  (reference: direct recursive definition of the query language)
static bool matches(const Code& q, const Code& t) {
    std::map<uint32_t, std::pair<size_t, size_t>> bind;
    bool ok = true;
    size_t p = 0;
    for (size_t i = 0; i < q.size(); i++) {
        if (p >= t.size()) return false;
        if (q[i].id <= VAR_ID_MAX) {
            size_t e = subterm_end(t, p);
            auto it = bind.find(q[i].id);
            if (it == bind.end()) bind[q[i].id] = std::make_pair(p, e);
            else ok = ok & same_range(t, it->second.first, it->second.second, t, p, e);
            p = e;
        } else {
            if (q[i].arity != t[p].arity) return false;
            ok = ok & (q[i].id == t[p].id);
            p++;
        }
    }
    return ok && p == t.size();
}
static bool same_code(const Code& a, const Code& b) {
    return a.size() == b.size() && same_range(a, 0, a.size(), b, 0, b.size());
}
